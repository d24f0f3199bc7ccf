package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// Recordings of conversions between go values and dgo values (P16)

func init() { commands["goval"] = recGoVal }

type (
	gvInt   int
	gvI8    int8
	gvU16   uint16
	gvF     float64
	gvStr   string
	gvBool  bool
	gvInts  []int
	gvBytes []byte
	gvMap   map[string]int16
	gvS     struct {
		A int8
		B string
		C []int
	}
	gvErr struct{ N int }
)

func (e *gvErr) Error() string { return "gv " + strconv.Itoa(e.N) }

var (
	rtValue  = reflect.TypeOf((*dgo.Value)(nil)).Elem()
	rtIface  = reflect.TypeOf((*interface{})(nil)).Elem()
	rtError  = reflect.TypeOf((*error)(nil)).Elem()
	rtTime   = reflect.TypeOf(time.Time{})
	rtRegexp = reflect.TypeOf((*regexp.Regexp)(nil))
	rtBytes  = reflect.TypeOf([]byte(nil))
)

var gvScalars = []reflect.Type{reflect.TypeOf(false), reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)),
	reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)),
	reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0))}

var gvNamed = []reflect.Type{reflect.TypeOf(gvInt(0)), reflect.TypeOf(gvI8(0)), reflect.TypeOf(gvU16(0)), reflect.TypeOf(gvF(0)), reflect.TypeOf(gvStr("")), reflect.TypeOf(gvBool(false)),
	reflect.TypeOf(gvInts{}), reflect.TypeOf(gvBytes{}), reflect.TypeOf(gvMap{}), reflect.TypeOf(gvS{})}

// Functions return a number that tells them from each other
var gvFuncs = []reflect.Type{reflect.TypeOf(func() int { return 0 }), reflect.TypeOf(func(...string) int { return 0 }), reflect.TypeOf(func(string) (int, error) { return 0, nil })}

func gvFuncID(v reflect.Value) int {
	t := v.Type()
	as := make([]reflect.Value, t.NumIn())
	for i := range as {
		as[i] = reflect.Zero(t.In(i))
	}
	if t.IsVariadic() {
		return int(v.CallSlice(as)[0].Int())
	}
	return int(v.Call(as)[0].Int())
}

// gtype makes a go type
func (g *tgen) gtype(d int) reflect.Type {
	if d > 0 {
		switch g.pick(9) {
		case 0, 1:
			return reflect.SliceOf(g.gtype(d - 1))
		case 2, 3:
			return reflect.MapOf(g.gkey(), g.gtype(d-1))
		case 4, 5:
			return reflect.PointerTo(g.gtype(d - 1))
		case 6:
			fs := make([]reflect.StructField, g.pick(3))
			for i := range fs {
				fs[i] = reflect.StructField{Name: string(rune('A' + i)), Type: g.gtype(d - 1)}
			}
			return reflect.StructOf(fs)
		case 7:
			if g.chance(2) {
				return reflect.ArrayOf(g.pick(3), g.gtype(d-1))
			}
		}
	}
	switch g.pick(13) {
	case 0:
		return rtIface
	case 1:
		return rtValue
	case 12:
		if g.chance(2) {
			return gvFuncs[g.pick(3)]
		}
	case 2:
		return []reflect.Type{rtError, rtTime, rtRegexp, rtBytes}[g.pick(4)]
	case 3:
		return gvNamed[g.pick(len(gvNamed))]
	}
	return gvScalars[g.pick(len(gvScalars))]
}

func (g *tgen) gkey() reflect.Type {
	if g.chance(8) {
		return gvNamed[g.pick(6)]
	}
	return gvScalars[g.pick(len(gvScalars))]
}

// gint makes a number near the limits of some size
func (g *tgen) gint() *big.Int {
	n := big.NewInt(int64(g.pick(7) - 3))
	if g.chance(2) {
		e := []uint{7, 8, 15, 16, 31, 32, 63, 64}[g.pick(8)]
		m := new(big.Int).Lsh(big.NewInt(1), e)
		if g.chance(2) {
			m.Neg(m)
		}
		n.Add(n, m)
	}
	return n
}

func (g *tgen) gfloat() float64 {
	switch g.pick(9) {
	case 0:
		return []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64}[g.pick(7)]
	case 1:
		f := []float64{math.MaxFloat32, math.SmallestNonzeroFloat32, 0x1p+128, 0x1.ffffffp+127, 0x1.fffffefp+127, 16777217}[g.pick(6)]
		if g.chance(2) {
			f = -f
		}
		return f
	case 2:
		return math.Float64frombits(g.r.Uint64())
	case 3:
		return 0.1 * float64(g.pick(20))
	}
	return float64(g.pick(9)-4) / 2
}

// gfill makes a value of a go type
func (g *tgen) gfill(v reflect.Value, d int) {
	t := v.Type()
	switch t {
	case rtTime:
		v.Set(reflect.ValueOf(time.Unix(int64(g.pick(5)-2), int64(g.pick(2)*1000)).UTC()))
		return
	case rtRegexp:
		if !g.chance(5) {
			v.Set(reflect.ValueOf(regexp.MustCompile([]string{"a", "b.*", ""}[g.pick(3)])))
		}
		return
	case rtError:
		if !g.chance(4) {
			v.Set(reflect.ValueOf(errors.New([]string{"a", "b", ""}[g.pick(3)])))
			if g.chance(3) {
				v.Set(reflect.ValueOf(&gvErr{g.pick(3)}))
			}
		}
		return
	case rtValue:
		v.Set(reflect.ValueOf(g.gval(2)))
		return
	case rtIface:
		if !g.chance(4) {
			x := reflect.New(g.gtype(1)).Elem()
			g.gfill(x, d)
			if x.Kind() != reflect.Interface || !x.IsNil() {
				v.Set(x)
			}
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.chance(2))
	case reflect.String:
		v.SetString(g.str())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		for {
			if n := g.gint(); n.IsInt64() && !v.OverflowInt(n.Int64()) {
				v.SetInt(n.Int64())
				return
			}
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		for {
			if n := g.gint(); n.IsUint64() && !v.OverflowUint(n.Uint64()) {
				v.SetUint(n.Uint64())
				return
			}
		}
	case reflect.Float64:
		v.SetFloat(g.gfloat())
	case reflect.Float32:
		v.SetFloat(float64(float32(g.gfloat())))
	case reflect.Slice:
		if g.chance(6) {
			return
		}
		n := g.pick(4)
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			g.gfill(v.Index(i), d)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.gfill(v.Index(i), d)
		}
	case reflect.Map:
		if g.chance(6) {
			return
		}
		v.Set(reflect.MakeMap(t))
		for i := g.pick(4); i > 0; i-- {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			g.gfill(k, d)
			if f := k.Kind(); (f == reflect.Float32 || f == reflect.Float64) && k.Float() != k.Float() {
				continue
			}
			g.gfill(e, d)
			v.SetMapIndex(k, e)
		}
	case reflect.Ptr:
		if g.chance(6) {
			return
		}
		p := reflect.New(t.Elem())
		g.gfill(p.Elem(), d)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.gfill(v.Field(i), d)
		}
	case reflect.Func:
		if g.chance(6) {
			return
		}
		id := g.pick(100)
		v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
			rs := make([]reflect.Value, t.NumOut())
			for i := range rs {
				rs[i] = reflect.Zero(t.Out(i))
			}
			rs[0] = reflect.ValueOf(id)
			return rs
		}))
	default:
		panic("no such kind")
	}
}

// gval makes a frozen dgo value that has no natives
func (g *tgen) gval(d int) dgo.Value {
	if d > 0 {
		switch g.pick(6) {
		case 0:
			vs := []interface{}{}
			for i := g.pick(4); i > 0; i-- {
				vs = append(vs, g.gval(d-1))
			}
			return vf.Values(vs...)
		case 1:
			vs := []interface{}{}
			for i := g.pick(4); i > 0; i-- {
				vs = append(vs, g.gval(0), g.gval(d-1))
			}
			return vf.Map(vs...)
		}
	}
	switch g.pick(11) {
	case 0:
		return vf.Nil
	case 1:
		return vf.Boolean(g.chance(2))
	case 2, 3:
		return vf.String(g.str())
	case 4:
		f := g.gfloat()
		for f != f {
			f = g.gfloat()
		}
		return vf.Float(f)
	case 5:
		return vf.Binary([]byte(g.str()), true)
	case 6:
		return []dgo.Value{vf.Time(time.Unix(int64(g.pick(5)), 0).UTC()), vf.Regexp(regexp.MustCompile("a")), vf.Value(errors.New("a")), typ.String, vf.Sensitive(3)}[g.pick(5)]
	}
	for {
		if n := g.gint(); n.IsInt64() {
			return vf.Integer(n.Int64())
		}
	}
}

// gvalFor makes a value that can nearly be converted to a go type
func (g *tgen) gvalFor(t reflect.Type) dgo.Value {
	x := reflect.New(t).Elem()
	g.gfill(x, 1)
	switch {
	case g.chance(6):
		return g.gval(2)
	case t.Kind() == reflect.Slice && t != rtBytes && t != reflect.TypeOf(gvBytes{}):
		vs := []interface{}{}
		for i := g.pick(4); i > 0; i-- {
			vs = append(vs, g.gvalFor(t.Elem()))
		}
		return vf.MutableValues(vs...)
	case t.Kind() == reflect.Map:
		m := vf.MutableMap()
		for i := g.pick(4); i > 0; i-- {
			k := g.gvalFor(t.Key())
			if f, ok := k.(dgo.Float); ok && f.GoFloat() != f.GoFloat() {
				continue
			}
			e := g.gvalFor(t.Elem())
			try(func() { m.Put(k, e) }) // a native can't be a key
		}
		return m
	case t.Kind() == reflect.Ptr && t != rtRegexp:
		return g.gvalFor(t.Elem())
	case t.Kind() >= reflect.Int && t.Kind() <= reflect.Uint64 && t.PkgPath() == "":
		for {
			if n := g.gint(); n.IsInt64() {
				return vf.Integer(n.Int64())
			}
		}
	case t.Kind() == reflect.Float32 && t.PkgPath() == "":
		return vf.Float(g.gfloat())
	case t.Kind() == reflect.Uint64:
		return g.gval(1)
	}
	var r dgo.Value
	if failed, _ := try(func() { r = vf.Value(x.Interface()) }); failed {
		return g.gval(1)
	}
	return r
}

// encGT encodes a go type
func encGT(t reflect.Type) J {
	switch t {
	case rtTime:
		return J{"time"}
	case rtRegexp:
		return J{"regexp"}
	case rtError:
		return J{"error"}
	case rtValue:
		return J{"value"}
	case rtIface:
		return J{"iface"}
	}
	if t.Kind() == reflect.Func {
		in, out := J{}, J{}
		for i := 0; i < t.NumIn(); i++ {
			in = append(in, encGT(t.In(i)))
		}
		for i := 0; i < t.NumOut(); i++ {
			out = append(out, encGT(t.Out(i)))
		}
		return J{"func", in, t.IsVariadic(), out}
	}
	if t.Kind() == reflect.Interface && t.Implements(rtValue) {
		return J{"value"}
	}
	if t.PkgPath() != "" && t.Kind() != reflect.Slice && t.Kind() != reflect.Map {
		return J{"named", t.String(), encKind(t)}
	}
	return encKind(t)
}

func encKind(t reflect.Type) J {
	switch t.Kind() {
	case reflect.Slice:
		if t == rtBytes {
			return J{"bytes"}
		}
		return J{"slice", encGT(t.Elem())}
	case reflect.Map:
		return J{"map", encGT(t.Key()), encGT(t.Elem())}
	case reflect.Ptr:
		return J{"ptr", encGT(t.Elem())}
	case reflect.Array:
		return J{"garr", t.Len(), encGT(t.Elem())}
	case reflect.Struct:
		fs := J{}
		for i := 0; i < t.NumField(); i++ {
			fs = append(fs, J{t.Field(i).Name, encGT(t.Field(i).Type)})
		}
		return J{"struct", fs}
	case reflect.Bool, reflect.String:
		return J{t.Kind().String()}
	}
	switch k := t.Kind(); {
	case k >= reflect.Int && k <= reflect.Int64:
		return J{"int", t.Bits()}
	case k >= reflect.Uint && k <= reflect.Uint64:
		return J{"uint", t.Bits()}
	case k == reflect.Float32 || k == reflect.Float64:
		return J{"float", t.Bits()}
	}
	return J{"other", t.String()}
}

func gfloatText(f float64) string {
	if f != f {
		return "NaN"
	}
	return strconv.FormatFloat(f, 'x', -1, 64)
}

// encGF encodes a float: itself, the nearest 32 bit float, and whether that's beyond all floats although the float isn't
func encGF(f float64) J {
	n := float64(float32(f))
	return J{"f", gfloatText(f), gfloatText(n), math.IsInf(n, 0) && !math.IsInf(f, 0)}
}

func sortedPairs(es J) J {
	sort.Slice(es, func(i, j int) bool { return fmt.Sprint(es[i]) < fmt.Sprint(es[j]) })
	return es
}

// encGV encodes a go value
func encGV(v reflect.Value) J {
	t := v.Type()
	switch t {
	case rtTime:
		return J{"tm", v.Interface().(time.Time).UTC().Format(time.RFC3339Nano)}
	case rtRegexp:
		if v.IsNil() {
			return J{"nil"}
		}
		return J{"rx", v.Interface().(*regexp.Regexp).String()}
	case rtError:
		if v.IsNil() {
			return J{"nil"}
		}
		return J{"err", v.Interface().(error).Error()}
	case rtValue:
		if v.IsNil() {
			return J{"nil"}
		}
		return J{"v", encGD(v.Interface().(dgo.Value))}
	case rtIface:
		if v.IsNil() {
			return J{"nil"}
		}
		if d, ok := v.Interface().(dgo.Value); ok {
			return J{"if", J{"value"}, J{"v", encGD(d)}}
		}
		if e, ok := v.Interface().(error); ok {
			return J{"if", J{"error"}, J{"err", e.Error()}}
		}
		return J{"if", encGT(v.Elem().Type()), encGV(v.Elem())}
	}
	if t.Kind() == reflect.Interface && t.Implements(rtValue) && !v.IsNil() {
		return J{"v", encGD(v.Interface().(dgo.Value))}
	}
	switch t.Kind() {
	case reflect.Bool:
		return J{"b", v.Bool()}
	case reflect.String:
		return J{"s", bytesOf(v.String())}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return append(J{"i"}, digitsOf(big.NewInt(v.Int()), 10)...)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return append(J{"i"}, digitsOf(new(big.Int).SetUint64(v.Uint()), 10)...)
	case reflect.Float32, reflect.Float64:
		return encGF(v.Float())
	case reflect.Slice:
		if v.IsNil() {
			return J{"nil"}
		}
		if t == rtBytes {
			return J{"bin", bytesOf(string(v.Bytes()))}
		}
		fallthrough
	case reflect.Array:
		es := J{}
		for i := 0; i < v.Len(); i++ {
			es = append(es, encGV(v.Index(i)))
		}
		return J{"slice", es}
	case reflect.Map:
		if v.IsNil() {
			return J{"nil"}
		}
		es := J{}
		for _, k := range v.MapKeys() {
			es = append(es, J{encGV(k), encGV(v.MapIndex(k))})
		}
		return J{"map", sortedPairs(es)}
	case reflect.Func:
		if v.IsNil() {
			return J{"nil"}
		}
		return J{"fn", encGT(t), gvFuncID(v)}
	case reflect.Ptr:
		if v.IsNil() {
			return J{"nil"}
		}
		return J{"ptr", encGV(v.Elem())}
	case reflect.Struct:
		es := J{}
		for i := 0; i < v.NumField(); i++ {
			es = append(es, encGV(v.Field(i)))
		}
		return J{"slice", es}
	}
	return J{"other", fmt.Sprint(v)}
}

func bytesOf(s string) J {
	r := J{}
	for _, b := range []byte(s) {
		r = append(r, int(b))
	}
	return r
}

// encGD encodes a dgo value with numbers of any size
func encGD(v dgo.Value) J {
	switch v := v.(type) {
	case dgo.Boolean:
		return J{"b", v.GoBool()}
	case dgo.Integer:
		return append(J{"i"}, digitsOf(big.NewInt(v.GoInt()), 10)...)
	case dgo.Float:
		return encGF(v.GoFloat())
	case dgo.String:
		return J{"s", bytesOf(v.GoString())}
	case dgo.Binary:
		return J{"bin", bytesOf(string(v.GoBytes()))}
	case dgo.Time:
		return J{"tm", v.GoTime().UTC().Format(time.RFC3339Nano)}
	case dgo.Regexp:
		return J{"rx", v.GoRegexp().String()}
	case dgo.Array:
		es := J{}
		v.Each(func(e dgo.Value) { es = append(es, encGD(e)) })
		return J{"arr", es}
	case dgo.Map:
		es := J{}
		v.EachEntry(func(e dgo.MapEntry) { es = append(es, J{encGD(e.Key()), encGD(e.Value())}) })
		return J{"map", sortedPairs(es)}
	case dgo.Native:
		rv := reflect.ValueOf(v.GoValue())
		return J{"nat", encGT(rv.Type()), encGV(rv)}
	case dgo.GoFunction:
		rv := reflect.ValueOf(v.GoFunc())
		if rv.IsNil() {
			return J{"nilfunc"}
		}
		return J{"fn", encGT(rv.Type()), gvFuncID(rv)}
	case dgo.Sensitive:
		return J{"sens", encGD(v.Unwrap())}
	case dgo.Type:
		return J{"t", v.String()}
	case error:
		return J{"err", v.Error()}
	}
	if v == vf.Nil {
		return J{"n"}
	}
	panic(fmt.Sprintf("no encoding for %T", v))
}

// convert is the outcome of a conversion to a go type
func convert(v dgo.Value, t reflect.Type) J {
	p := reflect.New(t)
	if failed, _ := try(func() { vf.FromValue(v, p.Interface()) }); failed {
		return J{"no"}
	}
	return J{"ok", encGV(p.Elem())}
}

// scribble overwrites all that a go program can reach through what it was given. Times, regexps and structs are shared, and so
// are slices of dgo values, unless they were obtained from what is frozen
func scribble(x reflect.Value, d int, frozen bool) {
	if d == 0 {
		return
	}
	switch x.Kind() {
	case reflect.Ptr:
		switch x.Type().Elem().Kind() {
		case reflect.Struct:
		case reflect.Interface:
			if !x.IsNil() {
				scribble(x.Elem(), d-1, frozen)
				x.Elem().Set(reflect.Zero(x.Type().Elem()))
			}
		default:
			if !x.IsNil() {
				scribble(x.Elem(), d-1, frozen)
			}
		}
	case reflect.Interface:
		if !x.IsNil() && x.Type() != rtValue {
			scribble(x.Elem(), d-1, frozen)
		}
	case reflect.Slice:
		if x.Type().Elem() != rtValue {
			for i := 0; i < x.Len(); i++ {
				scribble(x.Index(i), d-1, frozen)
			}
		} else if frozen {
			for i := 0; i < x.Len(); i++ {
				x.Index(i).Set(reflect.ValueOf(vf.String("scribbled")))
			}
		}
	case reflect.Map:
		for _, k := range x.MapKeys() {
			scribble(x.MapIndex(k), d-1, frozen)
			x.SetMapIndex(k, reflect.Zero(x.Type().Elem()))
		}
	}
	if x.CanSet() {
		switch x.Kind() {
		case reflect.String:
			x.SetString("scribbled")
		case reflect.Bool:
			x.SetBool(!x.Bool())
		case reflect.Float32, reflect.Float64:
			x.SetFloat(4711)
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			x.SetInt(^x.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			x.SetUint(x.Uint() ^ 1)
		}
	}
}

func recGoVal(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1069 + int64(c.shard))), noNative: true}
	for rec.n < c.n {
		t := g.gtype(g.pick(4))
		if g.chance(2) {
			x := reflect.New(t).Elem()
			g.gfill(x, 2)
			rec.guarded(func() {
				ev := M{"op": "there", "gt": encGT(t), "gv": encGV(x), "made": J{}, "back": J{"no"}}
				made, later := J{}, J{}
				vs := []dgo.Value{}
				routes := []func() dgo.Value{func() dgo.Value { return vf.Value(x.Interface()) }, func() dgo.Value { return vf.Value(x) },
					func() dgo.Value { return vf.Values(x.Interface()).Get(0) }, func() dgo.Value { return vf.MutableMap("a", x.Interface()).Get("a") }}
				switch x.Kind() {
				case reflect.Slice:
					if x.IsNil() || t == rtBytes {
						break
					}
					routes = append(routes, func() dgo.Value { return vf.Array(x.Interface()) }, func() dgo.Value { return vf.Array(x) })
				case reflect.Map:
					if !x.IsNil() {
						routes = append(routes, func() dgo.Value { return vf.Map(x.Interface()) }, func() dgo.Value { return vf.MutableMap(x.Interface()) })
					}
				}
				for _, r := range routes {
					m := J{"no"}
					var v dgo.Value
					if failed, _ := try(func() { v = r() }); !failed {
						m = J{"ok", encGD(v)}
						vs = append(vs, v)
						if len(made) == 0 {
							ev["back"] = convert(v, t)
						}
					}
					made = append(made, m)
				}
				ev["made"] = made
				scribble(x, 6, false)
				for _, v := range vs {
					later = append(later, encGD(v))
				}
				ev["later"] = later
				rec.count("there " + t.Kind().String())
				rec.emit(ev)
			})
			continue
		}
		v := g.gvalFor(t)
		rec.guarded(func() {
			ev := M{"op": "into", "gt": encGT(t), "v": encGD(v), "got": convert(v, t)}
			p := reflect.New(t)
			if ev["got"].(J)[0] == "ok" {
				frozen := false
				if f, ok := v.(dgo.Freezable); ok && g.chance(2) {
					failed, _ := try(f.Freeze) // natives can't be frozen
					frozen = !failed && f.Frozen()
				}
				vf.FromValue(v, p.Interface())
				scribble(p, 6, frozen)
			}
			ev["after"] = encGD(v)
			rec.count("into " + t.Kind().String() + " " + ev["got"].(J)[0].(string))
			rec.emit(ev)
		})
	}
	rec.close()
}
