package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// P27: what a type tells about itself

func init() {
	commands["facts"] = recFacts
}

var opNames = map[dgo.TypeOp]string{dgo.OpNot: "not", dgo.OpMeta: "meta", dgo.OpSensitive: "sens", dgo.OpAnd: "all", dgo.OpOr: "anyof", dgo.OpOne: "one"}

func flag01(b bool) int {
	if b {
		return 1
	}
	return 0
}

// typed asks a type about a go value with the method that is specific to the type. It returns 2 when there's no such
// method for the value.
func typed(rt dgo.Type, v *va) int {
	switch t := rt.(type) {
	case dgo.IntegerType:
		if v.K == "i" {
			return flag01(t.IsInstance(v.I))
		}
	case dgo.FloatType:
		if v.K == "f" {
			return flag01(t.IsInstance(v.F))
		}
	case dgo.BooleanType:
		if v.K == "b" {
			return flag01(t.IsInstance(v.B))
		}
	case dgo.BinaryType:
		if v.K == "bin" {
			return flag01(t.IsInstance([]byte(v.S)))
		}
	case dgo.RegexpType:
		if v.K == "rx" {
			return flag01(t.IsInstance(regexp.MustCompile(v.S)))
		}
	case dgo.TimeType:
		if v.K == "tm" {
			return flag01(t.IsInstance(time.Unix(v.I, 0).UTC()))
		}
	case dgo.ErrorType:
		if v.K == "err" {
			return flag01(t.IsInstance(errors.New(v.S)))
		}
	case interface{ IsInstance(string) bool }:
		if v.K == "s" {
			return flag01(t.IsInstance(v.S))
		}
	}
	return 2
}

// reflects tells if a value can be reflected into a variable of the type that rt says that it corresponds to and if
// what is then there is the value.
func reflects(rt reflect.Type, v dgo.Value) (string, bool) {
	rv := reflect.New(rt).Elem()
	if p, what := try(func() { vf.ReflectTo(v, rv) }); p {
		return what, false
	}
	if !vf.ValueFromReflected(rv).Equals(v) {
		return fmt.Sprintf("%v", rv), false
	}
	return "", true
}

// hasGoForm is false for values that no go variable, other than one of type dgo.Value, can hold: maps with keys that aren't
// comparable and collections with values that are native. A time in an interface is a pointer that is native when
// it's read back.
func (v *va) hasGoForm(top bool, gt reflect.Type) bool {
	ok := !(v.K == "nat" && !top) && !(v.K == "tm" && strings.Contains(gt.String(), "interface {}"))
	for _, c := range v.Vs {
		ok = ok && c.hasGoForm(false, gt)
	}
	for _, e := range v.Es {
		ok = ok && e[0].K != "arr" && e[0].K != "map" && e[0].K != "bin" && e[0].hasGoForm(false, gt) && e[1].hasGoForm(false, gt)
	}
	return ok
}

func recFacts(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1063 + int64(c.shard)))}
	for rec.n < c.n {
		t := g.typ(1 + g.pick(3))
		if g.chance(3) {
			t = g.leaf()
		}
		if g.chance(6) {
			t = g.enum()
		}
		var vs []*va
		for i := 0; i < 5; i++ {
			if t.noOperands() {
				vs = append(vs, g.val(2))
				continue
			}
			vs = append(vs, g.candidate(t))
		}
		if !encodable(func() { t.enc(); encVs(vs) }) {
			continue
		}
		ev := M{"op": "facts", "t": t.enc(), "vs": encVs(vs)}
		rec.guarded(func() {
			rec.count("type " + t.K)
			var rt dgo.Type
			if g.chance(2) || t.noOperands() {
				rt = t.madeOtherwise(g)
				rec.count("made otherwise")
			} else {
				rt = t.realOr(g)
			}
			ev["src"] = rt.String()
			size, rng, opnds, elems, exact := J{}, J{}, J{}, J{}, J{}
			if st, ok := rt.(dgo.SizedType); ok {
				size = J{size2(int64(st.Min())), size2(int64(st.Max())), st.Unbounded()}
			}
			switch x := rt.(type) {
			case dgo.IntegerType:
				rng = J{encInt(x.Min()), encInt(x.Max()), x.Inclusive()}
			case dgo.FloatType:
				rng = J{encFloat(x.Min()), encFloat(x.Max()), x.Inclusive()}
			}
			ev["size"], ev["range"] = size, rng
			op := ""
			switch x := rt.(type) {
			case dgo.UnaryType:
				op = opNames[x.Operator()]
				if o := x.Operand(); o != nil {
					opnds = append(opnds, typeFromReal(o).enc())
				}
				if m, ok := rt.(dgo.Meta); ok && (m.Describes() == nil) != (x.Operand() == nil) {
					op = "different"
				}
			case dgo.TernaryType:
				op = opNames[x.Operator()]
				for _, o := range typesFromReal(x.Operands()) {
					opnds = append(opnds, o.enc())
				}
			}
			ev["operator"], ev["operands"] = op, opnds
			switch x := rt.(type) {
			case dgo.TupleType:
				for i := 0; i < x.Len(); i++ {
					elems = append(elems, typeFromReal(x.Element(i)).enc())
				}
				ev["variadic"] = x.Variadic()
			case dgo.StructMapType:
				if x.Additional() || x.Len() == 1 {
					elems = append(elems, typeFromReal(x.KeyType()).enc(), typeFromReal(x.ValueType()).enc())
				}
			case dgo.ArrayType:
				elems = append(elems, typeFromReal(x.ElementType()).enc())
			case dgo.MapType:
				elems = append(elems, typeFromReal(x.KeyType()).enc(), typeFromReal(x.ValueType()).enc())
			}
			ev["elems"] = elems
			ok := dgo.IsExact(rt)
			ev["isexact"] = ok
			if ok {
				exact = append(exact, fromReal(typ.ExactValue(rt)).enc())
			}
			ev["exact"] = exact
			tt, is, refl, from := make(J, len(vs)), make(J, len(vs)), make(J, len(vs)), make(J, len(vs))
			var gt reflect.Type
			what := J{}
			if p, w := try(func() { gt = rt.ReflectType() }); p {
				what = append(what, w)
			}
			for i, v := range vs {
				tt[i], is[i], refl[i], from[i] = typed(rt, v), rt.Instance(v.real()), 2, 2
				if gt != nil && v.hasGoForm(true, gt) && rt.Instance(v.real()) {
					w, ok := reflects(gt, v.real())
					refl[i] = flag01(ok)
					if !ok {
						what = append(what, w)
					}
					if s := gt.String(); !strings.Contains(s, "dgo.") {
						from[i] = flag01(tf.FromReflected(gt).Instance(v.real()))
					}
				}
			}
			ev["rs"] = is
			ev["nogo"] = gt == nil
			ev["typed"], ev["refl"], ev["from"], ev["what"], ev["go"] = tt, refl, from, what, fmt.Sprint(gt)
			rec.emit(env([]*ty{t}, vs, ev))
		})
	}
	rec.close()
}

// madeOtherwise makes the type with constructors that are given other arguments than those that real gives
func (t *ty) madeOtherwise(g *tgen) dgo.Type {
	sizes := func(args []interface{}) []interface{} {
		// the limits can be integers of other kinds
		one := func(n int64) interface{} {
			if n >= unbounded {
				return math.MaxInt64
			}
			return []interface{}{int(n), n, vf.Integer(n), uint8(n)}[g.pick(4)]
		}
		lo, hi := t.Lo, t.Hi
		if lo > hi && g.chance(2) {
			lo, hi = hi, lo
		}
		if hi >= unbounded && lo < unbounded && g.chance(2) {
			return append(args, one(lo))
		}
		if lo == 0 && g.chance(3) {
			return append(args, -1-g.pick(3), one(hi))
		}
		return append(args, one(lo), one(hi))
	}
	// a type, or the value if it's the type of a value that isn't a type
	arg := func(t *ty) interface{} {
		if t.K == "x" {
			if v := g.goVal(t.V); v != nil && g.chance(2) {
				return v
			}
			return t.V.real()
		}
		if t.K == "nil" && g.chance(2) {
			return nil
		}
		return t.madeOtherwise(g)
	}
	args := func(ts []*ty) []interface{} {
		as := make([]interface{}, len(ts))
		for i := range ts {
			as[i] = arg(ts[i])
		}
		return as
	}
	types := func(ts []*ty) []interface{} {
		as := make([]interface{}, len(ts))
		for i := range ts {
			as[i] = ts[i].madeOtherwise(g)
		}
		return as
	}
	all := func(k string) bool {
		for _, e := range t.Ts {
			if e.K != k && !(e.K == "x" && e.V.K == k) {
				return false
			}
		}
		return true
	}
	switch t.K {
	case "x":
		switch t.V.K {
		case "s":
			return tf.String(t.V.S)
		case "i":
			return tf.Integer(t.V.I, t.V.I, true)
		case "f":
			return tf.Float(t.V.F, t.V.F, true)
		}
	case "intr":
		return tf.Integer(t.Hi, t.Lo, t.Inc)
	case "floatr":
		return tf.Float(t.FH, t.FL, t.Inc)
	case "string":
		return []dgo.Type{tf.String(), tf.String(0), tf.String(0, math.MaxInt64), tf.String(-3)}[g.pick(4)]
	case "strsz":
		return tf.String(sizes(nil)...)
	case "bin":
		return tf.Binary(sizes(nil)...)
	case "pat":
		return tf.Pattern(regexp.MustCompile(patSrc(t.Pk, t.S)))
	case "ci":
		if g.chance(2) {
			return tf.CiEnum(t.S)
		}
		return tf.CiString(vf.String(t.S))
	case "arr":
		return []dgo.Type{tf.Array(), tf.Array(typ.Any), tf.Array(0), tf.Array(typ.Any, 0, math.MaxInt64)}[g.pick(4)]
	case "map":
		return []dgo.Type{tf.Map(), tf.Map(typ.Any, typ.Any), tf.Map(0), tf.Map(typ.Any, typ.Any, 0, math.MaxInt64)}[g.pick(4)]
	case "arrz":
		if t.Ts[0].K == "any" && g.chance(2) {
			return tf.Array(sizes(nil)...)
		}
		return tf.Array(sizes([]interface{}{t.Ts[0].madeOtherwise(g)})...)
	case "mapz":
		if t.Ts[0].K == "any" && t.Ts[1].K == "any" && g.chance(2) {
			return tf.Map(sizes(nil)...)
		}
		return tf.Map(sizes(types(t.Ts))...)
	case "tup":
		if t.B {
			return tf.VariadicTuple(types(t.Ts)...)
		}
		return tf.Tuple(types(t.Ts)...)
	case "struct":
		named := true
		for _, e := range t.Es {
			named = named && e.K.K == "s"
		}
		if named && g.chance(2) {
			m := vf.MutableMap()
			for _, e := range t.Es {
				v := interface{}(e.T.madeOtherwise(g))
				if s, ok := e.T.src(); ok && g.chance(2) {
					v = s
				}
				if !e.Req || g.chance(3) {
					v = vf.Map("type", v, "required", e.Req)
				}
				m.Put(e.K.real(), v)
			}
			return tf.StructMapFromMap(t.B, m)
		}
		es := make([]dgo.StructMapEntry, len(t.Es))
		for i, e := range t.Es {
			k := interface{}(e.K.real())
			if g.chance(2) {
				k = e.K.real().Type()
			}
			es[i] = tf.StructMapEntry(k, arg(e.T), e.Req)
		}
		return tf.StructMap(t.B, es...)
	case "not":
		return tf.Not(t.Ts[0].madeOtherwise(g))
	case "all":
		return tf.AllOf(args(t.Ts)...)
	case "one":
		return tf.OneOf(args(t.Ts)...)
	case "anyof":
		switch {
		case all("s"):
			ss := make([]string, len(t.Ts))
			for i, e := range t.Ts {
				ss[i] = e.V.S
			}
			return tf.Enum(ss...)
		case all("i"):
			is := make([]int, len(t.Ts))
			for i, e := range t.Ts {
				is[i] = int(e.V.I)
			}
			return tf.IntEnum(is...)
		case all("ci"):
			ss := make([]string, len(t.Ts))
			for i, e := range t.Ts {
				ss[i] = e.S
			}
			return tf.CiEnum(ss...)
		}
		return tf.AnyOf(args(t.Ts)...)
	case "sens":
		if t.Ts[0].K == "any" && g.chance(2) {
			return tf.Sensitive()
		}
		return tf.Sensitive(t.Ts[0].madeOtherwise(g))
	case "meta":
		if t.Ts[0].K != "meta" && t.Ts[0].K != "metameta" {
			return tf.Meta(t.Ts[0].madeOtherwise(g))
		}
	}
	return t.real()
}

// enum is an anyof or some other operator with operands of one kind. There may be one or none.
func (g *tgen) enum() *ty {
	t := &ty{K: []string{"anyof", "anyof", "anyof", "one", "all"}[g.pick(5)]}
	k := g.pick(4)
	for n := g.pick(4); n > 0; n-- {
		switch k {
		case 0:
			t.Ts = append(t.Ts, &ty{K: "x", V: &va{K: "s", S: g.str()}})
		case 1:
			t.Ts = append(t.Ts, &ty{K: "x", V: &va{K: "i", I: g.num()}})
		case 2:
			t.Ts = append(t.Ts, &ty{K: "ci", S: g.str()})
		default:
			t.Ts = append(t.Ts, g.leaf())
		}
	}
	return t
}

// noOperands tells if t is an operator without operands. Such types can't be written.
func (t *ty) noOperands() bool {
	return len(t.Ts) == 0 && (t.K == "anyof" || t.K == "one" || t.K == "all")
}
