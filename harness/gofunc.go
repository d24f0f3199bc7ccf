package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// Recordings of wrapped go functions (P23)

func init() { commands["gofunc"] = recGoFunc }

// gsig makes the type of a go function
func (g *tgen) gsig(ptype func() reflect.Type) reflect.Type {
	in, out := []reflect.Type{}, []reflect.Type{}
	for i := g.pick(4); i > 0; i-- {
		in = append(in, ptype())
	}
	for i := g.pick(3); i > 0; i-- {
		out = append(out, ptype())
	}
	variadic := g.chance(3)
	if variadic {
		in = append(in, reflect.SliceOf(ptype()))
	}
	return reflect.FuncOf(in, out, variadic)
}

// ftype makes a go type that functions have as type of parameters and results when their types are compared
func (g *tgen) ftype(d int) reflect.Type {
	if d > 0 {
		switch g.pick(6) {
		case 0:
			return reflect.SliceOf(g.ftype(d - 1))
		case 1:
			return reflect.MapOf([]reflect.Type{gvScalars[1], gvScalars[2], gvScalars[8]}[g.pick(3)], g.ftype(d-1))
		case 2:
			return reflect.PointerTo(g.ftype(d - 1))
		case 3:
			return g.gsig(func() reflect.Type { return g.ftype(d - 1) })
		}
	}
	switch g.pick(8) {
	case 0, 1:
		return rtIface
	case 2:
		return []reflect.Type{rtError, rtTime, rtRegexp, rtBytes, reflect.TypeOf(gvS{})}[g.pick(5)]
	}
	return gvScalars[g.pick(len(gvScalars))]
}

// nearGo makes a type that is likely to be comparable with t
func (g *tgen) nearGo(t reflect.Type) reflect.Type {
	if g.chance(7) {
		if g.chance(2) {
			return rtIface
		}
		return g.ftype(1)
	}
	switch k := t.Kind(); {
	case t == rtRegexp || t == rtBytes:
	case k == reflect.Slice:
		return reflect.SliceOf(g.nearGo(t.Elem()))
	case k == reflect.Map:
		return reflect.MapOf(t.Key(), g.nearGo(t.Elem()))
	case k == reflect.Ptr:
		return reflect.PointerTo(g.nearGo(t.Elem()))
	case k == reflect.Func:
		return g.nearFunc(t)
	case k >= reflect.Int && k <= reflect.Uint64 && g.chance(4):
		return gvScalars[2+g.pick(10)]
	case g.chance(9):
		return reflect.PointerTo(t)
	}
	return t
}

func (g *tgen) nearFunc(t reflect.Type) reflect.Type {
	in, out := []reflect.Type{}, []reflect.Type{}
	for i := 0; i < t.NumIn(); i++ {
		in = append(in, g.nearGo(t.In(i)))
	}
	for i := 0; i < t.NumOut(); i++ {
		out = append(out, g.nearGo(t.Out(i)))
	}
	variadic := t.IsVariadic()
	if variadic {
		in[len(in)-1] = reflect.SliceOf(g.nearGo(t.In(len(in) - 1).Elem()))
	}
	switch n := len(in); g.pick(8) {
	case 0:
		if variadic {
			// one more before the rest
			in = append(append(append([]reflect.Type{}, in[:n-1]...), in[n-1].Elem()), in[n-1])
		}
	case 1:
		if variadic {
			variadic = false
		} else if n > 0 && in[n-1].Kind() == reflect.Slice {
			variadic = true
		}
	case 2:
		if n > 0 {
			in, variadic = in[:n-1], false
		}
	case 3:
		if len(out) > 0 {
			out = out[:len(out)-1]
		} else {
			out = append(out, g.ftype(0))
		}
	}
	return reflect.FuncOf(in, out, variadic)
}

var gvBits = map[string]int{fmt.Sprint(math.MinInt8, math.MaxInt8): 8, fmt.Sprint(math.MinInt16, math.MaxInt16): 16,
	fmt.Sprint(math.MinInt32, math.MaxInt32): 32, fmt.Sprint(math.MinInt64, math.MaxInt64): 64}
var gvUBits = map[int64]int{math.MaxUint8: 8, math.MaxUint16: 16, math.MaxUint32: 32, math.MaxInt64: 64}

// encVT encodes the type of what a go type holds
func encVT(t dgo.Type) J {
	other := J{"other", fmt.Sprintf("%T %v", t, t)}
	switch t {
	case typ.Any:
		return J{"any"}
	case typ.Nil:
		return J{"nil"}
	case typ.String:
		return J{"string"}
	case typ.Boolean:
		return J{"bool"}
	case typ.Error:
		return J{"error"}
	case typ.Time:
		return J{"time"}
	case typ.Binary:
		return J{"bin"}
	case typ.Regexp:
		return J{"regexp"}
	}
	switch t := t.(type) {
	case dgo.IntegerType:
		if b, ok := gvBits[fmt.Sprint(t.Min(), t.Max())]; ok && t.Inclusive() {
			return J{"int", b}
		}
		if b, ok := gvUBits[t.Max()]; ok && t.Min() == 0 && t.Inclusive() {
			return J{"uint", b}
		}
	case dgo.FloatType:
		if t.Max() == math.MaxFloat32 && t.Min() == -math.MaxFloat32 {
			return J{"float", 32}
		}
		if t.Max() == math.MaxFloat64 && t.Min() == -math.MaxFloat64 {
			return J{"float", 64}
		}
	case dgo.FunctionType:
		in, out := J{}, J{}
		for i := 0; i < t.In().Len(); i++ {
			in = append(in, encVT(t.In().Element(i)))
		}
		for i := 0; i < t.Out().Len(); i++ {
			out = append(out, encVT(t.Out().Element(i)))
		}
		if t.Variadic() != t.In().Variadic() {
			return other
		}
		return J{"func", in, t.Variadic(), out, t.Out().Variadic()}
	case dgo.MapType:
		if t.Min() == 0 && t.Max() == math.MaxInt64 {
			return J{"map", encVT(t.KeyType()), encVT(t.ValueType())}
		}
	case dgo.ArrayType:
		if _, tuple := t.(dgo.TupleType); !tuple && t.Min() == 0 && t.Max() == math.MaxInt64 {
			return J{"arr", encVT(t.ElementType())}
		}
	case dgo.TernaryType:
		if os := t.Operands(); os.Len() == 2 && t.TypeIdentifier() == dgo.TiOneOf || t.TypeIdentifier() == dgo.TiAnyOf {
			a, b := os.Get(0).(dgo.Type), os.Get(1).(dgo.Type)
			if b == typ.Nil && a != typ.Nil {
				return J{"opt", encVT(a)}
			}
			if a == typ.Nil && b != typ.Nil {
				return J{"opt", encVT(b)}
			}
		}
	case dgo.NativeType:
		if t.GoType() != nil {
			return J{"nat", encGT(t.GoType())}
		}
	}
	return other
}

// dynType makes the type that a go type has, of types that can also be made without go functions
func dynType(t reflect.Type) dgo.Type {
	switch t {
	case rtBytes:
		return typ.Binary
	case rtRegexp:
		return typ.Regexp
	}
	switch t.Kind() {
	case reflect.Slice:
		return tf.Array(dynType(t.Elem()))
	case reflect.Map:
		return tf.Map(dynType(t.Key()), dynType(t.Elem()))
	case reflect.Ptr:
		et := dynType(t.Elem())
		if et.Instance(nil) {
			return et
		}
		return tf.OneOf(et, typ.Nil)
	case reflect.Func:
		return dynFunc(t)
	}
	return tf.FromReflected(t)
}

func dynFunc(t reflect.Type) dgo.FunctionType {
	in, out := []interface{}{}, []interface{}{}
	for i := 0; i < t.NumIn(); i++ {
		if t.IsVariadic() && i == t.NumIn()-1 {
			in = append(in, dynType(t.In(i).Elem()))
		} else {
			in = append(in, dynType(t.In(i)))
		}
	}
	for i := 0; i < t.NumOut(); i++ {
		out = append(out, dynType(t.Out(i)))
	}
	if t.IsVariadic() {
		return tf.Function(tf.VariadicTuple(in...), tf.Tuple(out...))
	}
	return tf.Function(tf.Tuple(in...), tf.Tuple(out...))
}

func zeroFunc(t reflect.Type) reflect.Value {
	return reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
		rs := make([]reflect.Value, t.NumOut())
		for i := range rs {
			rs[i] = reflect.Zero(t.Out(i))
		}
		return rs
	})
}

// someFunc makes a function type in one of several ways. The second is what describes it, and the last a function of that type, or nil.
func (g *tgen) someFunc(t reflect.Type) (dgo.FunctionType, J, dgo.Value) {
	switch g.pick(4) {
	case 0:
		f := vf.Value(zeroFunc(t).Interface())
		return f.Type().(dgo.FunctionType), J{"go", encGT(t)}, f
	case 1:
		return tf.FromReflected(t).(dgo.FunctionType), J{"go", encGT(t)}, vf.ValueFromReflected(zeroFunc(t))
	case 2:
		if g.chance(15) {
			ft := typ.Function
			if g.chance(2) {
				ft = tf.ParseType("func(...any)(...any)").(dgo.FunctionType)
			}
			return ft, J{"is", J{"func", J{J{"any"}}, true, J{J{"any"}}, true}}, nil
		}
	}
	return dynFunc(t), J{"go", encGT(t)}, nil
}

func (g *tgen) recCall(rec *recorder) {
	t := g.gsig(func() reflect.Type { return g.gtype(g.pick(3)) })
	calls, got := 0, J{}
	rvs, rets := []reflect.Value{}, J{}
	dvals, nils := J{}, J{}
	for i := 0; i < t.NumOut(); i++ {
		x := reflect.New(t.Out(i)).Elem()
		g.gfill(x, 1)
		rvs = append(rvs, x)
		rets = append(rets, encGV(x))
		_, dv := x.Interface().(dgo.Value)
		dvals = append(dvals, dv)
	}
	fn := reflect.MakeFunc(t, func(as []reflect.Value) []reflect.Value {
		calls++
		for i, a := range as {
			if i == len(as)-1 && t.IsVariadic() {
				for j := 0; j < a.Len(); j++ {
					got = append(got, encGV(a.Index(j)))
				}
			} else {
				got = append(got, encGV(a))
			}
		}
		return rvs
	})
	n := t.NumIn()
	if t.IsVariadic() {
		n += g.pick(4) - 1
	}
	if g.chance(8) {
		n += g.pick(3) - 1
	}
	strict := g.chance(2)
	args, as := vf.MutableValues(), J{}
	for i := 0; i < n; i++ {
		pt := rtIface
		if m := t.NumIn() - 1; t.IsVariadic() && i >= m {
			pt = t.In(m).Elem()
		} else if i <= m {
			pt = t.In(i)
		}
		a := g.gvalFor(pt)
		if strict {
			x := reflect.New(pt).Elem()
			g.gfill(x, 1)
			try(func() { a = vf.Value(x.Interface()) })
		} else if g.chance(20) {
			a = g.gval(1)
		}
		args.Add(a)
		as = append(as, encGD(a))
	}
	f := vf.Value(fn.Interface())
	if g.chance(3) {
		f = vf.ValueFromReflected(fn)
	}
	if g.chance(5) {
		try(func() { args = args.FrozenCopy().(dgo.Array) }) // natives can't be frozen
	}
	out := J{"no"}
	failed, _ := try(func() {
		rs := J{}
		for _, r := range f.(dgo.Function).Call(args) {
			nils = append(nils, r == nil)
			if r == nil {
				rs = append(rs, J{"n"})
			} else {
				rs = append(rs, encGD(r))
			}
		}
		out = J{"ok", rs}
	})
	rec.count(fmt.Sprintf("call failed=%v calls=%d", failed, calls))
	rec.emit(M{"op": "call", "sig": encGT(t), "args": as, "calls": calls, "got": got, "rets": rets, "out": out, "dvals": dvals, "nils": nils,
		"in": f.Type().(dgo.FunctionType).In().Instance(args)})
}

func recGoFunc(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1087 + int64(c.shard))), noNative: true}
	for rec.n < c.n {
		switch g.pick(4) {
		case 0:
			rec.guarded(func() {
				t := g.gsig(func() reflect.Type { return g.ftype(g.pick(3)) })
				fv := zeroFunc(t)
				f := vf.Value(fv.Interface()).(dgo.Function)
				ft := f.Type().(dgo.FunctionType)
				max := ft.In().Max()
				if max == math.MaxInt64 {
					max = -1
				}
				rec.count("type")
				rec.emit(M{"op": "type", "sig": encGT(t), "type": encVT(ft), "len": J{ft.In().Len(), ft.In().Min(), max},
					"self": ft.Instance(f) && ft.Instance(fv.Interface()), "all": typ.Function.Instance(f), "none": typ.String.Instance(f) || ft.Instance("a") || ft.Instance(vf.Values(1)),
					"back": reflect.TypeOf(f.(dgo.GoFunction).GoFunc()) == t && ft.ReflectType() == t})
			})
		case 1:
			rec.guarded(func() {
				t := g.gsig(func() reflect.Type { return g.ftype(g.pick(3)) })
				u := t
				if !g.chance(4) {
					u = g.nearFunc(t)
				}
				if g.chance(2) {
					t, u = u, t
				}
				tt, te, _ := g.someFunc(t)
				ut, ue, uf := g.someFunc(u)
				inst := J{}
				if uf != nil {
					inst = append(inst, tt.Instance(uf))
				}
				sub := tt.Assignable(ut)
				eq := tt.Equals(ut)
				rec.count(fmt.Sprintf("pair %v %v", sub, eq))
				rec.emit(M{"op": "pair", "t": te, "u": ue, "sub": sub, "sup": ut.Assignable(tt), "inst": inst, "eq": eq, "qe": ut.Equals(tt),
					"hash": tt.HashCode() == ut.HashCode()})
			})
		default:
			rec.guarded(func() { g.recCall(rec) })
		}
	}
	rec.close()
}
