package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// The model of values and types that Types.tla talks about

// va is a value
type va struct {
	K  string
	B  bool
	I  int64
	F  float64
	S  string
	Vs []*va
	Es [][2]*va
	T  *ty
}

// ty is a type
type ty struct {
	K      string
	Lo, Hi int64
	FL, FH float64
	Inc    bool
	Pk     string
	S      string
	V      *va
	Ts     []*ty
	Vs     []*va
	Es     []ent
	B      bool
}

type ent struct {
	K   *va
	T   *ty
	Req bool
}

const unbounded = 1 << 30

// number encoding. See Types.tla
var blocks = []*big.Float{
	big.NewFloat(0), big.NewFloat(1 << 31), big.NewFloat(1 << 32), big.NewFloat(1 << 53), big.NewFloat(1 << 63),
	big.NewFloat(1e100), big.NewFloat(math.MaxFloat64)}

const blockInf = 7

func encNum(n *big.Float) int {
	neg := n.Sign() < 0
	a := new(big.Float).SetPrec(2000).Abs(n)
	for i := len(blocks) - 1; i >= 0; i-- {
		off := new(big.Float).SetPrec(2000).Sub(a, blocks[i])
		off.Mul(off, big.NewFloat(4))
		if off.IsInt() {
			o, acc := off.Int64()
			if acc == big.Exact && o >= -4000000 && o <= 4000000 {
				r := i*100000000 + int(o)
				if neg {
					r = -r
				}
				return r
			}
		}
	}
	if interned != nil {
		k := n.Text('p', 0)
		if _, ok := interned[k]; !ok {
			interned[k] = 800000000 + len(interned)
		}
		return interned[k]
	}
	panic(badNum{n.String()})
}

// interned has the codes of numbers that have no proper encoding, if that is permitted. They have no order.
var interned map[string]int

var internInts bool

type badNum struct{ s string }

func (b badNum) Error() string { return "number " + b.s + " can't be encoded" }

// encInt encodes an integer. Integers are not interned where their order matters.
func encInt(i int64) int {
	if internInts {
		return encNum(new(big.Float).SetPrec(200).SetInt64(i))
	}
	defer func(m map[string]int) { interned = m }(interned)
	interned = nil
	return encNum(new(big.Float).SetPrec(200).SetInt64(i))
}

func encFloat(f float64) int {
	if math.IsInf(f, 1) {
		return blockInf * 100000000
	}
	if math.IsInf(f, -1) {
		return -blockInf * 100000000
	}
	if math.IsNaN(f) {
		panic(badNum{"NaN"})
	}
	return encNum(new(big.Float).SetPrec(200).SetFloat64(f))
}

func size2(n int64) int {
	if n >= unbounded {
		return unbounded
	}
	return int(n)
}

func realSize(n int64) int {
	if n >= unbounded {
		return math.MaxInt64
	}
	return int(n)
}

func (v *va) enc() J {
	switch v.K {
	case "n", "nan":
		return J{v.K}
	case "b":
		return J{"b", v.B}
	case "i":
		return J{"i", encInt(v.I)}
	case "f":
		return J{"f", encFloat(v.F)}
	case "s", "bin", "rx", "err":
		return J{v.K, codes(v.S)}
	case "tm":
		return J{"tm", v.I}
	case "sens":
		return J{"sens", v.Vs[0].enc()}
	case "arr":
		return J{"arr", encVs(v.Vs)}
	case "map":
		es := make(J, len(v.Es))
		for i, e := range v.Es {
			es[i] = J{e[0].enc(), e[1].enc()}
		}
		return J{"map", es}
	case "t":
		return J{"t", v.T.enc()}
	case "nat":
		return J{"nat", v.S, v.I}
	}
	panic("no such value " + v.K)
}

func encVs(vs []*va) J {
	es := make(J, len(vs))
	for i := range vs {
		es[i] = vs[i].enc()
	}
	return es
}

func encTs(ts []*ty) J {
	es := make(J, len(ts))
	for i := range ts {
		es[i] = ts[i].enc()
	}
	return es
}

func (t *ty) enc() J {
	switch t.K {
	case "x":
		return J{"x", t.V.enc()}
	case "intr":
		return J{"intr", encInt(t.Lo), encInt(t.Hi), t.Inc}
	case "floatr":
		return J{"floatr", encFloat(t.FL), encFloat(t.FH), t.Inc}
	case "strsz", "bin":
		return J{t.K, size2(t.Lo), size2(t.Hi)}
	case "pat":
		return J{"pat", t.Pk, codes(t.S)}
	case "ci", "rxp":
		return J{t.K, codes(t.S)}
	case "arrz":
		return J{"arrz", t.Ts[0].enc(), size2(t.Lo), size2(t.Hi)}
	case "tup":
		return J{"tup", encTs(t.Ts), t.B}
	case "mapz":
		return J{"mapz", t.Ts[0].enc(), t.Ts[1].enc(), size2(t.Lo), size2(t.Hi)}
	case "struct":
		es := make(J, len(t.Es))
		for i, e := range t.Es {
			es[i] = J{e.K.enc(), e.T.enc(), e.Req}
		}
		return J{"struct", es, t.B}
	case "not", "meta", "sens":
		return J{t.K, t.Ts[0].enc()}
	case "all", "anyof", "one":
		return J{t.K, encTs(t.Ts)}
	case "allv":
		return J{t.K, encVs(t.Vs)}
	case "func":
		return J{"func", t.Ts[0].enc(), t.Ts[1].enc()}
	case "ref":
		return J{"ref", t.S}
	case "other":
		return J{"other", t.S}
	}
	return J{t.K}
}

// natives that values of the model stand for
type natA struct{ A int }
type natB struct{ B chan int }

var nats = map[string]func(n int64) dgo.Value{
	"chan": func() func(n int64) dgo.Value {
		cs := []chan int{make(chan int), make(chan int), make(chan int)}
		return func(n int64) dgo.Value { return vf.Value(cs[n%3]) }
	}(),
	"struct": func(n int64) dgo.Value { return vf.Value(natB{}) },
}

// real builds the real value. Collections are frozen
func (v *va) real() dgo.Value {
	switch v.K {
	case "n":
		return vf.Nil
	case "b":
		return vf.Boolean(v.B)
	case "i":
		return vf.Integer(v.I)
	case "f":
		return vf.Float(v.F)
	case "nan":
		return vf.Float(math.NaN())
	case "s":
		return vf.String(v.S)
	case "bin":
		return vf.Binary([]byte(v.S), true)
	case "rx":
		return vf.Regexp(regexp.MustCompile(v.S))
	case "tm":
		return vf.Time(time.Unix(v.I, 0).UTC())
	case "err":
		return vf.Value(errors.New(v.S))
	case "sens":
		return vf.Sensitive(v.Vs[0].real())
	case "arr":
		vs := make([]interface{}, len(v.Vs))
		for i := range vs {
			vs[i] = v.Vs[i].real()
		}
		if v.hasKind("nat") {
			return vf.MutableValues(vs...) // a native can't be frozen
		}
		return vf.Values(vs...)
	case "map":
		vs := make([]interface{}, 0, 2*len(v.Es))
		for _, e := range v.Es {
			vs = append(vs, e[0].real(), e[1].real())
		}
		if v.hasKind("nat") {
			return vf.MutableMap(vs...)
		}
		return vf.Map(vs...)
	case "t":
		return v.T.real()
	case "nat":
		return nats[v.S](v.I)
	}
	panic("no such value " + v.K)
}

// patSrc is the regular expression of a pattern
func patSrc(kind, s string) string {
	q := regexp.QuoteMeta(s)
	switch kind {
	case "pre":
		return `^` + q
	case "suf":
		return q + `$`
	case "is":
		return `^` + q + `$`
	}
	return q
}

// patOf is the inverse of patSrc for the patterns that the driver uses
func patOf(src string) (kind, s string, ok bool) {
	kind = "has"
	if strings.HasPrefix(src, "^") {
		kind = "pre"
		src = src[1:]
	}
	if strings.HasSuffix(src, "$") && !strings.HasSuffix(src, `\$`) {
		if kind == "pre" {
			kind = "is"
		} else {
			kind = "suf"
		}
		src = src[:len(src)-1]
	}
	sb := strings.Builder{}
	for i := 0; i < len(src); i++ {
		if src[i] == '\\' && i+1 < len(src) {
			i++
		}
		sb.WriteByte(src[i])
	}
	s = sb.String()
	return kind, s, regexp.QuoteMeta(s) == src
}

func reals(ts []*ty) []interface{} {
	r := make([]interface{}, len(ts))
	for i := range ts {
		r[i] = ts[i].real()
	}
	return r
}

// real builds the real type using the type factory
func (t *ty) real() dgo.Type {
	switch t.K {
	case "any":
		return typ.Any
	case "nil":
		return typ.Nil
	case "bool":
		return typ.Boolean
	case "int":
		return typ.Integer
	case "float":
		return typ.Float
	case "string":
		return typ.String
	case "dgo":
		return typ.DgoString
	case "regexp":
		return typ.Regexp
	case "time":
		return typ.Time
	case "error":
		return typ.Error
	case "native":
		return typ.Native
	case "arr":
		return typ.Array
	case "map":
		return typ.Map
	case "x":
		return t.V.real().Type()
	case "intr":
		return tf.Integer(t.Lo, t.Hi, t.Inc)
	case "floatr":
		return tf.Float(t.FL, t.FH, t.Inc)
	case "strsz":
		if t.Hi >= unbounded && t.Lo < unbounded {
			return tf.String(int(t.Lo))
		}
		return tf.String(realSize(t.Lo), realSize(t.Hi))
	case "bin":
		if t.Hi >= unbounded && t.Lo < unbounded {
			return tf.Binary(int(t.Lo))
		}
		return tf.Binary(realSize(t.Lo), realSize(t.Hi))
	case "pat":
		return tf.Pattern(regexp.MustCompile(patSrc(t.Pk, t.S)))
	case "ci":
		return tf.CiString(t.S)
	case "arrz":
		if t.Hi >= unbounded && t.Lo < unbounded {
			if t.Lo == 0 {
				return tf.Array(t.Ts[0].real())
			}
			return tf.Array(t.Ts[0].real(), int(t.Lo))
		}
		return tf.Array(t.Ts[0].real(), realSize(t.Lo), realSize(t.Hi))
	case "tup":
		if t.B {
			return tf.VariadicTuple(reals(t.Ts)...)
		}
		return tf.Tuple(reals(t.Ts)...)
	case "mapz":
		if t.Hi >= unbounded && t.Lo < unbounded {
			if t.Lo == 0 {
				return tf.Map(t.Ts[0].real(), t.Ts[1].real())
			}
			return tf.Map(t.Ts[0].real(), t.Ts[1].real(), int(t.Lo))
		}
		return tf.Map(t.Ts[0].real(), t.Ts[1].real(), realSize(t.Lo), realSize(t.Hi))
	case "struct":
		es := make([]dgo.StructMapEntry, len(t.Es))
		for i, e := range t.Es {
			es[i] = tf.StructMapEntry(e.K.real(), e.T.real(), e.Req)
		}
		return tf.StructMap(t.B, es...)
	case "not":
		return tf.Not(t.Ts[0].real())
	case "all":
		return tf.AllOf(reals(t.Ts)...)
	case "anyof":
		return tf.AnyOf(reals(t.Ts)...)
	case "one":
		return tf.OneOf(reals(t.Ts)...)
	case "sens":
		return tf.Sensitive(t.Ts[0].real())
	case "meta":
		return tf.Meta(t.Ts[0].real())
	case "metameta":
		return typ.Any.Type().Type()
	case "func":
		return tf.Function(t.Ts[0].real().(dgo.TupleType), t.Ts[1].real().(dgo.TupleType))
	}
	panic("no such type " + t.K)
}

// fromReal describes a real value
func fromReal(v dgo.Value) *va {
	switch v := v.(type) {
	case nil:
		return &va{K: "none"}
	case dgo.Nil:
		return &va{K: "n"}
	case dgo.Boolean:
		return &va{K: "b", B: v.GoBool()}
	case dgo.Integer:
		return &va{K: "i", I: v.GoInt()}
	case dgo.Float:
		return &va{K: "f", F: v.GoFloat()}
	case dgo.String:
		return &va{K: "s", S: v.GoString()}
	case dgo.Binary:
		return &va{K: "bin", S: string(v.GoBytes())}
	case dgo.Regexp:
		return &va{K: "rx", S: v.GoRegexp().String()}
	case dgo.Time:
		return &va{K: "tm", I: v.GoTime().Unix()}
	case dgo.Sensitive:
		return &va{K: "sens", Vs: []*va{fromReal(v.Unwrap())}}
	case dgo.Type:
		return &va{K: "t", T: typeFromReal(v)}
	case dgo.Array:
		r := &va{K: "arr"}
		v.Each(func(e dgo.Value) { r.Vs = append(r.Vs, fromReal(e)) })
		return r
	case dgo.Map:
		r := &va{K: "map"}
		v.EachEntry(func(e dgo.MapEntry) { r.Es = append(r.Es, [2]*va{fromReal(e.Key()), fromReal(e.Value())}) })
		return r
	case error:
		return &va{K: "err", S: v.Error()}
	}
	return &va{K: "nat", S: fmt.Sprintf("%T", v)}
}

func typesFromReal(a dgo.Array) []*ty {
	ts := make([]*ty, 0)
	a.Each(func(e dgo.Value) {
		if t, ok := e.(dgo.Type); ok {
			ts = append(ts, typeFromReal(t))
		} else {
			ts = append(ts, &ty{K: "x", V: fromReal(e)})
		}
	})
	return ts
}

func sz(n int) int64 {
	if n >= unbounded {
		return unbounded
	}
	return int64(n)
}

var simple = map[dgo.TypeIdentifier]string{
	dgo.TiAny: "any", dgo.TiNil: "nil", dgo.TiBoolean: "bool", dgo.TiInteger: "int", dgo.TiFloat: "float", dgo.TiString: "string",
	dgo.TiDgoString: "dgo", dgo.TiRegexp: "regexp", dgo.TiTime: "time", dgo.TiError: "error"}

// raw is set when patterns are to be described with their source. Types may then be recursive
var raw struct {
	on    bool
	in    map[uintptr]bool
	nodes int
}

func rawTypes(on bool) {
	raw.on, raw.in, raw.nodes = on, map[uintptr]bool{}, 0
}

// typeFromReal describes a real type
func typeFromReal(t dgo.Type) *ty {
	if raw.on {
		raw.nodes++
		if raw.nodes > 2000 {
			return &ty{K: "?"}
		}
		if v := reflect.ValueOf(t); v.Kind() == reflect.Ptr {
			// all empty structs have the same address
			if p := v.Pointer(); v.Type().Elem().Size() > 0 {
				if raw.in[p] {
					return &ty{K: "?"}
				}
				raw.in[p] = true
				defer delete(raw.in, p)
			}
		}
	}
	ti := t.TypeIdentifier()
	if s, ok := simple[ti]; ok {
		return &ty{K: s}
	}
	switch ti {
	case dgo.TiIntegerRange:
		it := t.(dgo.IntegerType)
		return &ty{K: "intr", Lo: it.Min(), Hi: it.Max(), Inc: it.Inclusive()}
	case dgo.TiFloatRange:
		it := t.(dgo.FloatType)
		return &ty{K: "floatr", FL: it.Min(), FH: it.Max(), Inc: it.Inclusive()}
	case dgo.TiStringSized:
		it := t.(dgo.StringType)
		return &ty{K: "strsz", Lo: sz(it.Min()), Hi: sz(it.Max())}
	case dgo.TiBinary:
		it := t.(dgo.BinaryType)
		return &ty{K: "bin", Lo: sz(it.Min()), Hi: sz(it.Max())}
	case dgo.TiStringPattern:
		src := t.(dgo.ExactType).ExactValue().(dgo.Regexp).GoRegexp().String()
		if raw.on {
			return &ty{K: "rxp", S: src}
		}
		k, s, ok := patOf(src)
		if !ok {
			return &ty{K: "other", S: "pattern"}
		}
		return &ty{K: "pat", Pk: k, S: s}
	case dgo.TiCiString:
		return &ty{K: "ci", S: t.(dgo.ExactType).ExactValue().(dgo.String).GoString()}
	case dgo.TiArray:
		at := t.(dgo.ArrayType)
		if t == typ.Array {
			return &ty{K: "arr"}
		}
		return &ty{K: "arrz", Ts: []*ty{typeFromReal(at.ElementType())}, Lo: sz(at.Min()), Hi: sz(at.Max())}
	case dgo.TiTuple:
		tt := t.(dgo.TupleType)
		return &ty{K: "tup", Ts: typesFromReal(tt.ElementTypes()), B: tt.Variadic()}
	case dgo.TiMap:
		mt := t.(dgo.MapType)
		if t == typ.Map {
			return &ty{K: "map"}
		}
		return &ty{K: "mapz", Ts: []*ty{typeFromReal(mt.KeyType()), typeFromReal(mt.ValueType())}, Lo: sz(mt.Min()), Hi: sz(mt.Max())}
	case dgo.TiStruct:
		st := t.(dgo.StructMapType)
		r := &ty{K: "struct", B: st.Additional()}
		st.Each(func(e dgo.StructMapEntry) {
			r.Es = append(r.Es, ent{fromReal(e.Key().(dgo.ExactType).ExactValue()), typeFromReal(e.Value().(dgo.Type)), e.Required()})
		})
		return r
	case dgo.TiNot:
		return &ty{K: "not", Ts: []*ty{typeFromReal(t.(dgo.UnaryType).Operand())}}
	case dgo.TiSensitive:
		return &ty{K: "sens", Ts: []*ty{typeFromReal(t.(dgo.UnaryType).Operand())}}
	case dgo.TiMeta:
		op := t.(dgo.UnaryType).Operand()
		if op == nil {
			return &ty{K: "metameta"}
		}
		return &ty{K: "meta", Ts: []*ty{typeFromReal(op)}}
	case dgo.TiAllOf:
		return &ty{K: "all", Ts: typesFromReal(t.(dgo.TernaryType).Operands())}
	case dgo.TiAnyOf:
		return &ty{K: "anyof", Ts: typesFromReal(t.(dgo.TernaryType).Operands())}
	case dgo.TiOneOf:
		return &ty{K: "one", Ts: typesFromReal(t.(dgo.TernaryType).Operands())}
	case dgo.TiAllOfValue:
		return &ty{K: "allv", Vs: fromReal(t.(dgo.TernaryType).Operands()).Vs}
	case dgo.TiFunction:
		ft := t.(dgo.FunctionType)
		return &ty{K: "func", Ts: []*ty{typeFromReal(ft.In()), typeFromReal(ft.Out())}}
	case dgo.TiNative:
		return &ty{K: "native"}
	}
	if et, ok := t.(dgo.ExactType); ok && dgo.IsExact(t) {
		return &ty{K: "x", V: fromReal(et.ExactValue())}
	}
	return &ty{K: "other", S: ti.String()}
}
