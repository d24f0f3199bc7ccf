package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// Recordings of what named types do: P26

func init() {
	commands["named"] = recNamed
	commands["namedrace"] = recNamedRace
}

// nbase is what the values of named types have in common
type nbase struct {
	tp  dgo.NamedType
	arg dgo.Value
}

func (b *nbase) base() *nbase  { return b }
func (b *nbase) HashCode() int { return b.arg.HashCode()*31 + b.tp.HashCode() }

type nval interface {
	dgo.Value
	base() *nbase
	kind() string
}

type nDummy interface{ Dummy() }

type nA struct{ nbase }
type nB struct{ nbase }
type nC struct{ nbase }

func (v *nA) Type() dgo.Type            { return tf.ExactNamed(v.tp, v) }
func (v *nB) Type() dgo.Type            { return tf.ExactNamed(v.tp, v) }
func (v *nC) Type() dgo.Type            { return tf.ExactNamed(v.tp, v) }
func (v *nA) String() string            { return v.tp.ValueString(v) }
func (v *nB) String() string            { return v.tp.ValueString(v) }
func (v *nC) String() string            { return v.tp.ValueString(v) }
func (v *nA) kind() string              { return "A" }
func (v *nB) kind() string              { return "B" }
func (v *nC) kind() string              { return "C" }
func (v *nA) Equals(o interface{}) bool { return nEquals(v, o) }
func (v *nB) Equals(o interface{}) bool { return nEquals(v, o) }
func (v *nC) Equals(o interface{}) bool { return nEquals(v, o) }
func (v *nB) Dummy()                    {}
func (v *nC) Dummy()                    {}

func nEquals(a nval, o interface{}) bool {
	b, ok := o.(nval)
	return ok && a.kind() == b.kind() && a.base().tp.Equals(b.base().tp) && a.base().arg.Equals(b.base().arg)
}

func nMake(kind string, tp dgo.NamedType, arg dgo.Value) dgo.Value {
	switch kind {
	case "B":
		return &nB{nbase{tp, arg}}
	case "C":
		return &nC{nbase{tp, arg}}
	}
	return &nA{nbase{tp, arg}}
}

func nImpl(kind string) reflect.Type {
	switch kind {
	case "A":
		return reflect.TypeOf(&nA{})
	case "B":
		return reflect.TypeOf(&nB{})
	case "C":
		return reflect.TypeOf(&nC{})
	}
	return nil
}

// ndef is the definition of a named type
type ndef struct {
	Name string `json:"name"`
	Impl string `json:"impl"`
	Ifd  bool   `json:"ifd"`
	Ctor string `json:"ctor"`
	Ext  bool   `json:"ext"`
	Chk  bool   `json:"chk"`
}

type refused struct{}

func (refused) Error() string { return "argument is refused by the constructor" }

func (d *ndef) makes() string {
	if d.Impl == "" {
		return "A"
	}
	return d.Impl
}

// register registers the type that d defines
func (d *ndef) register() (tp dgo.NamedType) {
	var ctor dgo.Constructor
	switch d.Ctor {
	case "own":
		ctor = func(arg dgo.Value) dgo.Value { return nMake(d.makes(), tp, arg) }
	case "ints":
		ctor = func(arg dgo.Value) dgo.Value {
			if _, ok := arg.(dgo.Integer); !ok {
				panic(refused{})
			}
			return nMake(d.makes(), tp, arg)
		}
	case "clip":
		ctor = func(arg dgo.Value) dgo.Value {
			if i, ok := arg.(dgo.Integer); ok && i.GoInt() > 5 {
				arg = vf.Integer(5)
			}
			return nMake(d.makes(), tp, arg)
		}
	case "same":
		ctor = func(arg dgo.Value) dgo.Value { return arg }
	}
	var ext dgo.InitArgExtractor
	if d.Ext {
		ext = func(v dgo.Value) dgo.Value { return v.(nval).base().arg }
	}
	var ifd reflect.Type
	if d.Ifd {
		ifd = reflect.TypeOf((*nDummy)(nil)).Elem()
	}
	var chk dgo.AssignableChecker
	if d.Chk {
		chk = nRange
	}
	tp = tf.NewNamed(d.Name, ctor, ext, nImpl(d.Impl), ifd, chk)
	return tp
}

// nRange is a checker for types that have a range as their parameters
func nRange(self dgo.NamedType, other dgo.Type) bool {
	on, ok := other.(dgo.NamedType)
	if !ok || on.Name() != self.Name() {
		return false
	}
	ps := self.Parameters()
	if ps == nil || ps.Len() != 2 {
		return true
	}
	num := func(v dgo.Value) (int64, bool) {
		i, ok := v.(dgo.Integer)
		if !ok {
			return 0, false
		}
		return i.GoInt(), true
	}
	lo, ok1 := num(ps.Get(0))
	hi, ok2 := num(ps.Get(1))
	if !(ok1 && ok2) {
		return true
	}
	if et, ok := other.(dgo.ExactType); ok {
		v, ok := et.ExactValue().(nval)
		if !ok {
			return false
		}
		i, ok := num(v.base().arg)
		return ok && lo <= i && i <= hi
	}
	os := on.Parameters()
	if os == nil || os.Len() != 2 {
		return false
	}
	olo, ok1 := num(os.Get(0))
	ohi, ok2 := num(os.Get(1))
	return ok1 && ok2 && lo <= olo && ohi <= hi
}

// nworld has what has been registered
type nworld struct {
	g    *tgen
	defs []*ndef
	tps  []dgo.NamedType
	ids  map[dgo.NamedType]int
}

var nNames = []string{"n", "m", "k", "Big_1"}

func newNworld(r *rand.Rand) *nworld {
	for _, n := range nNames {
		tf.RemoveNamed(n)
	}
	return &nworld{g: &tgen{r: r}, ids: map[dgo.NamedType]int{}}
}

func (w *nworld) id(t dgo.NamedType) int {
	if t == nil {
		return 0
	}
	if i, ok := w.ids[t]; ok {
		return i
	}
	return -1
}

// encoding of what is real

func (w *nworld) enc(v dgo.Value) J {
	switch v := v.(type) {
	case nil:
		return J{"none"}
	case dgo.Nil:
		return J{"n"}
	case dgo.Boolean:
		return J{"b", v.GoBool()}
	case dgo.Integer:
		return J{"i", v.GoInt()}
	case dgo.Float:
		return J{"f", strconv.FormatFloat(v.GoFloat(), 'g', -1, 64)}
	case dgo.String:
		return J{"s", v.GoString()}
	case dgo.Array:
		es := J{}
		v.Each(func(e dgo.Value) { es = append(es, w.enc(e)) })
		return J{"arr", es}
	case dgo.Map:
		es := J{}
		v.EachEntry(func(e dgo.MapEntry) { es = append(es, J{w.enc(e.Key()), w.enc(e.Value())}) })
		return J{"map", es}
	case nval:
		b := v.base()
		return J{"nv", w.id(b.tp), v.kind(), w.enc(b.arg)}
	case dgo.Type:
		return J{"t", w.encT(v)}
	}
	return J{"other", v.String()}
}

func (w *nworld) encT(t dgo.Type) J {
	switch t.TypeIdentifier() {
	case dgo.TiNamed:
		nt := t.(dgo.NamedType)
		if ps := nt.Parameters(); ps != nil {
			return J{"par", w.id(typ.Generic(nt).(dgo.NamedType)), w.enc(ps)[1]}
		}
		return J{"named", w.id(nt)}
	case dgo.TiNamedExact:
		return J{"exact", w.enc(t.(dgo.ExactType).ExactValue())}
	case dgo.TiAnyOf, dgo.TiAllOf, dgo.TiOneOf:
		es := J{}
		t.(dgo.TernaryType).Operands().Each(func(e dgo.Value) {
			if et, ok := e.(dgo.Type); ok {
				es = append(es, w.encT(et))
			} else {
				es = append(es, w.encT(e.Type()))
			}
		})
		return J{map[dgo.TypeIdentifier]string{dgo.TiAnyOf: "anyof", dgo.TiAllOf: "all", dgo.TiOneOf: "one"}[t.TypeIdentifier()], es}
	case dgo.TiNot:
		return J{"not", w.encT(t.(dgo.UnaryType).Operand())}
	case dgo.TiMeta:
		if o := t.(dgo.UnaryType).Operand(); o != nil {
			return J{"meta", w.encT(o)}
		}
	case dgo.TiArray:
		at := t.(dgo.ArrayType)
		return J{"list", w.encT(at.ElementType())}
	case dgo.TiTuple:
		es := J{}
		t.(dgo.TupleType).ElementTypes().Each(func(e dgo.Value) { es = append(es, w.encT(e.(dgo.Type))) })
		return J{"tup", es}
	}
	if et, ok := t.(dgo.ExactType); ok {
		v := et.ExactValue()
		// the exact type of an array is a tuple of exact types
		return J{"x", w.enc(v)}
	}
	return J{"plain", t.String()}
}

// what is real of what is encoded

func (w *nworld) real(t J) dgo.Value {
	switch t[0] {
	case "n":
		return vf.Nil
	case "b":
		return vf.Boolean(t[1].(bool))
	case "i":
		return vf.Integer(t[1].(int64))
	case "f":
		f, _ := strconv.ParseFloat(t[1].(string), 64)
		return vf.Float(f)
	case "s":
		return vf.String(t[1].(string))
	case "arr":
		a := vf.MutableValues()
		for _, e := range t[1].(J) {
			a.Add(w.real(e.(J)))
		}
		return a.FrozenCopy().(dgo.Value)
	case "map":
		m := vf.MutableMap()
		for _, e := range t[1].(J) {
			m.Put(w.real(e.(J)[0].(J)), w.real(e.(J)[1].(J)))
		}
		return m.FrozenCopy().(dgo.Value)
	case "nv":
		return nMake(t[2].(string), w.tps[t[1].(int)-1], w.real(t[3].(J)))
	case "t":
		return w.realT(t[1].(J))
	}
	panic(fmt.Sprint("no such term ", t))
}

func (w *nworld) realT(t J) dgo.Type {
	types := func() []interface{} {
		var ts []interface{}
		for _, e := range t[1].(J) {
			ts = append(ts, w.realT(e.(J)))
		}
		return ts
	}
	switch t[0] {
	case "named":
		return w.tps[t[1].(int)-1]
	case "par":
		return tf.Parameterized(w.tps[t[1].(int)-1], w.real(J{"arr", t[2]}).(dgo.Array))
	case "exact", "x":
		return w.real(t[1].(J)).Type()
	case "anyof":
		return tf.AnyOf(types()...)
	case "all":
		return tf.AllOf(types()...)
	case "one":
		return tf.OneOf(types()...)
	case "not":
		return tf.Not(w.realT(t[1].(J)))
	case "meta":
		return w.realT(t[1].(J)).Type()
	case "list":
		return tf.Array(w.realT(t[1].(J)))
	case "tup":
		return tf.Tuple(types()...)
	case "plain":
		return map[string]dgo.Type{"any": typ.Any, "int": typ.Integer, "string": typ.String, "bool": typ.Boolean}[t[1].(string)]
	}
	panic(fmt.Sprint("no such type ", t))
}

// generation of terms

func (w *nworld) arg(d int, ext bool) J {
	g := w.g
	switch g.pick(12) {
	case 0, 1, 2, 3:
		return J{"i", int64(g.pick(14) - 2)}
	case 4:
		return J{"s", g.of([]string{"", "x", "a b", "n", `q"`, "`", "\n"})}
	case 5:
		return []J{{"n"}, {"b", true}, {"b", false}, {"f", "1.5"}, {"f", "-2"}, {"f", "1e+20"}}[g.pick(6)]
	case 6, 7:
		if d > 0 {
			es := J{}
			for n := g.pick(3); n >= 0; n-- {
				es = append(es, w.arg(d-1, ext))
			}
			if g.chance(4) {
				es = J{}
			}
			return J{"arr", es}
		}
	case 8, 9:
		if d > 0 {
			es := J{}
			seen := map[string]bool{}
			for n := g.pick(4); n > 0; n-- {
				k := J{"s", g.of([]string{"a", "b", "__type", "__value", "__ref", "x y", ""})}
				if g.chance(7) {
					k = w.arg(d-1, ext)
				}
				if s := fmt.Sprint(k); !seen[s] {
					seen[s] = true
					es = append(es, J{k, w.arg(d-1, ext)})
				}
			}
			return J{"map", es}
		}
	case 10:
		if d > 0 {
			return w.nv(d-1, ext)
		}
	case 11:
		if g.chance(2) {
			return J{"t", J{"plain", g.of([]string{"any", "int", "string", "bool"})}}
		}
		if len(w.tps) > 0 {
			return J{"t", J{"named", 1 + g.pick(len(w.tps))}}
		}
	}
	return J{"i", int64(g.pick(8))}
}

// nv is a value of a named type. ext is true if its initialization argument (and those within) must be possible to extract
func (w *nworld) nv(d int, ext bool) J {
	for n := 0; n < 6 && len(w.tps) > 0; n++ {
		i := w.g.pick(len(w.tps))
		df := w.defs[i]
		if ext && !df.Ext {
			continue
		}
		k := df.makes()
		if !ext && w.g.chance(6) {
			k = w.g.of([]string{"A", "B", "C"})
		}
		return J{"nv", i + 1, k, w.arg(d, ext)}
	}
	return J{"i", int64(1)}
}

func (w *nworld) params() J {
	if w.g.chance(6) {
		return J{w.arg(0, true)}
	}
	return J{J{"i", int64(w.g.pick(6))}, J{"i", int64(w.g.pick(12))}}
}

func (w *nworld) ntype(d int) J {
	g := w.g
	n := 8
	if d > 0 {
		n = 14
	}
	i := 1 + g.pick(len(w.tps))
	ops := func() J {
		es := J{}
		for n := 1 + g.pick(3); n >= 0; n-- {
			es = append(es, w.ntype(d-1))
		}
		return es
	}
	switch g.pick(n) {
	case 0, 1, 2:
		return J{"named", i}
	case 3, 4:
		return J{"par", i, w.params()}
	case 5, 6:
		if v := w.nv(1, false); v[0] == "nv" {
			return J{"exact", v}
		}
	case 7:
		if g.chance(2) {
			return J{"x", []J{{"i", int64(3)}, {"s", "n"}, {"n"}}[g.pick(3)]}
		}
		return J{"plain", g.of([]string{"any", "int", "string"})}
	case 8, 9:
		return J{"anyof", ops()}
	case 10:
		return J{"all", ops()}
	case 11:
		return J{"one", ops()}
	case 12:
		return J{"not", w.ntype(d - 1)}
	case 13:
		if g.chance(2) {
			return J{"list", w.ntype(d - 1)}
		}
		return J{"tup", ops()}
	}
	return J{"named", i}
}

func (w *nworld) def() *ndef {
	g := w.g
	impl := g.of([]string{"A", "B", "C", ""})
	return &ndef{Name: g.of(nNames), Impl: impl, Ifd: impl != "A" && g.chance(3),
		Ctor: g.of([]string{"own", "own", "own", "ints", "clip", "same", ""}), Ext: !g.chance(4), Chk: g.chance(3)}
}

// outcome performs f. The second value is what was said when it was refused.
func nOutcome(f func() J) (res J) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(error); !ok {
				res = J{"crash", fmt.Sprint(x)}
				return
			}
			if _, ok := x.(interface{ RuntimeError() }); ok {
				res = J{"crash", fmt.Sprint(x)}
				return
			}
			res = J{"refused"}
		}
	}()
	return J{"ok", f()}
}

func (w *nworld) register(rec *recorder) {
	d := w.def()
	ev := map[string]interface{}{"op": "register", "def": d, "ok": false}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(error); !ok {
					panic(x)
				}
			}
		}()
		tp := d.register()
		w.defs, w.tps = append(w.defs, d), append(w.tps, tp)
		w.ids[tp] = len(w.tps)
		ev["ok"] = true
	}()
	rec.emit(ev)
	rec.count("register")
}

func (w *nworld) lookups(rec *recorder) {
	for _, n := range nNames {
		ev := map[string]interface{}{"op": "lookup", "name": n, "got": w.id(tf.Named(n)), "ref": 0, "parsed": 0}
		func() {
			defer func() { _ = recover() }()
			if nt, ok := tf.ParseType(n).(dgo.NamedType); ok {
				ev["parsed"] = w.id(nt)
			}
		}()
		rec.emit(ev)
		rec.count("lookup")
	}
	for _, k := range []string{"A", "B", "C"} {
		rec.emit(map[string]interface{}{"op": "reflected", "impl": k, "got": w.id(tf.NamedFromReflected(nImpl(k)))})
		rec.count("reflected")
	}
}

// relations has how types are related to each other and to values
func (w *nworld) relations(rec *recorder) {
	g := w.g
	var ts, vs J
	for n := 2 + g.pick(3); n >= 0; n-- {
		t := w.ntype(1 + g.pick(2))
		ts = append(ts, t)
		if t[0] == "exact" && g.chance(2) {
			ts = append(ts, J{"named", t[1].(J)[1]})
		}
	}
	for n := 1 + g.pick(2); n >= 0; n-- {
		v := w.nv(1, false)
		if g.chance(8) {
			v = w.arg(1, false)
		}
		vs = append(vs, v)
	}
	for _, t := range ts {
		if t.(J)[0] == "exact" {
			vs = append(vs, t.(J)[1])
		}
	}
	w.relate(rec, ts, vs)
}

func (w *nworld) relate(rec *recorder, ts, vs J) {
	var gen, vtypes, names J
	var rts []dgo.Type
	var rvs []dgo.Value
	for _, t := range ts {
		rts = append(rts, w.realT(t.(J)))
	}
	for _, v := range vs {
		rvs = append(rvs, w.real(v.(J)))
	}
	matrix := func(n, m int, f func(i, j int) bool) J {
		rows := make(J, n)
		for i := range rows {
			r := make(J, m)
			for j := range r {
				r[j] = f(i, j)
			}
			rows[i] = r
		}
		return rows
	}
	for _, t := range rts {
		if nt, ok := t.(dgo.NamedType); ok {
			gen = append(gen, w.encT(typ.Generic(t)))
			names = append(names, nt.Name())
		} else {
			gen = append(gen, J{"none"})
			names = append(names, "")
		}
	}
	for _, v := range rvs {
		vtypes = append(vtypes, w.encT(v.Type()))
	}
	rec.emit(map[string]interface{}{"op": "rel", "ts": ts, "vs": vs, "gen": gen, "names": names, "vtypes": vtypes,
		"asg":   matrix(len(rts), len(rts), func(i, j int) bool { return rts[i].Assignable(rts[j]) }),
		"eq":    matrix(len(rts), len(rts), func(i, j int) bool { return rts[i].Equals(rts[j]) }),
		"hash":  matrix(len(rts), len(rts), func(i, j int) bool { return rts[i].HashCode() == rts[j].HashCode() }),
		"inst":  matrix(len(rts), len(rvs), func(i, j int) bool { return rts[i].Instance(rvs[j]) }),
		"meta":  matrix(len(rts), len(rts), func(i, j int) bool { return rts[i].Type().Instance(rts[j]) }),
		"veq":   matrix(len(rvs), len(rvs), func(i, j int) bool { return rvs[i].Equals(rvs[j]) }),
		"vasg":  matrix(len(rts), len(rvs), func(i, j int) bool { return rts[i].Assignable(rvs[j].Type()) }),
		"vhash": matrix(len(rvs), len(rvs), func(i, j int) bool { return rvs[i].Type().HashCode() == rvs[j].Type().HashCode() })})
	rec.count("rel")
}

func (w *nworld) create(rec *recorder) {
	g := w.g
	i := 1 + g.pick(len(w.tps))
	t := J{"named", i}
	arg := w.arg(2, false)
	switch g.pick(4) {
	case 0:
		t = J{"par", i, w.params()}
	case 1:
		if v := w.nv(1, false); v[0] == "nv" {
			t = J{"exact", v}
			if g.chance(2) {
				arg = v[3].(J)
			}
		}
	}
	rt, ra := w.realT(t).(dgo.NamedType), w.real(arg)
	if _, ok := ra.(dgo.Arguments); ok {
		return
	}
	ev := map[string]interface{}{"op": "new", "t": t, "arg": arg}
	ev["got"] = nOutcome(func() J { return w.enc(rt.New(ra)) })
	// an array that is passed to New is an argument, not arguments
	ev["vf"] = nOutcome(func() J { return w.enc(vf.New(rt, ra)) })
	rec.emit(ev)
	rec.count("new")
	v := w.nv(1, false)
	if v[0] != "nv" {
		return
	}
	rv := w.real(v)
	rec.emit(map[string]interface{}{"op": "extract", "v": v,
		"got": nOutcome(func() J { return w.enc(rv.Type().(dgo.NamedType).ExtractInitArg(rv)) })})
	rec.count("extract")
}

// nLoose tells if a value has no text of its own: one that has an empty array, a key that is a word, or a type in an array or map
func nLoose(v J, inside bool) bool {
	switch v[0] {
	case "arr":
		for _, e := range v[1].(J) {
			if nLoose(e.(J), true) {
				return true
			}
		}
		return len(v[1].(J)) == 0
	case "map":
		for _, e := range v[1].(J) {
			switch k := e.(J)[0].(J); k[0] {
			case "b", "n":
				return true // taken for strings
			}
			if nLoose(e.(J)[0].(J), true) || nLoose(e.(J)[1].(J), true) {
				return true
			}
		}
	case "nv":
		return nLoose(v[3].(J), inside)
	case "t":
		return inside
	}
	return false
}

// nReserved tells if a map in v has a key that a decoder takes for a type or a reference
func nReserved(v J) bool {
	switch v[0] {
	case "arr":
		for _, e := range v[1].(J) {
			if nReserved(e.(J)) {
				return true
			}
		}
	case "map":
		for _, e := range v[1].(J) {
			k, x := e.(J)[0].(J), e.(J)[1].(J)
			if k[0] == "s" && (k[1] == "__ref" || k[1] == "__type" && x[0] == "s") || nReserved(k) || nReserved(x) {
				return true
			}
		}
	case "nv":
		return nReserved(v[3].(J))
	}
	return false
}

// text parses the string form of a type
func (w *nworld) text(rec *recorder) {
	g := w.g
	v := w.nv(2, true)
	if v[0] != "nv" {
		return
	}
	t := J{"exact", v}
	other := func() J {
		if u := w.nv(1, true); u[0] == "nv" && g.chance(2) && !nLoose(u, false) {
			return J{"exact", u}
		}
		return J{"named", 1 + g.pick(len(w.tps))}
	}
	switch g.pick(9) {
	case 0:
		t = J{"list", t}
	case 1:
		t = J{"not", t}
	case 2:
		t = J{"anyof", J{t, other()}}
	case 3:
		t = J{"anyof", J{other(), t}}
	case 4:
		t = J{"all", J{t, other()}}
	case 5:
		t = J{"one", J{J{"plain", "string"}, t}}
	case 6:
		t = J{"tup", J{t, other(), J{"plain", "int"}}}
	case 7:
		t = J{"meta", t}
	}
	if nLoose(v, false) {
		return // arrays of types are written as types are, and an empty array as an empty map is
	}
	rt := w.realT(t)
	s := rt.String()
	ev := map[string]interface{}{"op": "text", "t": t, "s": s}
	ev["got"] = nOutcome(func() J { return w.encT(tf.ParseType(s)) })
	ev["eq"] = false
	if ev["got"].(J)[0] == "ok" {
		ev["eq"] = tf.ParseType(s).Equals(rt)
	}
	rec.emit(ev)
	rec.count("text")
}

func (w *nworld) stream(rec *recorder) {
	g := w.g
	v := w.nv(3, !g.chance(5))
	if v[0] != "nv" {
		return
	}
	switch g.pick(5) {
	case 0:
		v = J{"arr", J{v, v, w.arg(1, true)}}
	case 1:
		v = J{"map", J{J{J{"s", "k"}, v}, J{J{"s", "l"}, J{"arr", J{v, J{"i", int64(1)}}}}}}
	}
	if nReserved(v) {
		return // maps with such keys are passed on as they are, because they may be what has been streamed already
	}
	rv := w.real(v)
	c := streamer.DefaultOptions()
	c.RichData = !g.chance(8)
	c.DedupLevel = []streamer.DedupLevel{streamer.NoDedup, streamer.NoKeyDedup, streamer.MaxDedup}[g.pick(3)]
	ev := map[string]interface{}{"op": "stream", "v": v, "rich": c.RichData}
	var b bytes.Buffer
	ev["out"] = nOutcome(func() J { streamer.New(nil, c).Stream(rv, streamer.JSON(&b)); return J{} })[0]
	ev["got"] = J{"none"}
	if ev["out"] == "ok" {
		ev["text"] = b.String()
		ev["got"] = nOutcome(func() J { return w.enc(streamer.UnmarshalJSON(b.Bytes(), nil)) })
	}
	rec.emit(ev)
	rec.count("stream")
}

// recNamedPairs records how the types of all pairs of definitions are related
func recNamedPairs(c *cfg, rec *recorder) {
	var all []*ndef
	for _, k := range []string{"A", "B", "C", ""} {
		for _, ifd := range []bool{false, true} {
			for _, chk := range []bool{false, true} {
				if !(ifd && k == "A") {
					all = append(all, &ndef{Impl: k, Ifd: ifd, Chk: chk, Ctor: "own", Ext: true})
				}
			}
		}
	}
	i := func(n int64) J { return J{"i", n} }
	for n, a := range all {
		for m, b := range all {
			if (n*len(all)+m)%4 != c.shard {
				continue
			}
			rec.guarded(func() {
				w := newNworld(rand.New(rand.NewSource(1)))
				rec.emit(map[string]interface{}{"op": "reset"})
				for j, d := range []*ndef{a, b} {
					d := *d
					d.Name = nNames[j]
					tp := d.register()
					w.defs, w.tps = append(w.defs, &d), append(w.tps, tp)
					w.ids[tp] = j + 1
					rec.emit(map[string]interface{}{"op": "register", "def": &d, "ok": true})
				}
				var ts, vs J
				for j := 1; j <= 2; j++ {
					k := w.defs[j-1].makes()
					vs = append(vs, J{"nv", j, k, i(2)}, J{"nv", j, k, i(7)}, J{"nv", j, k, J{"s", "x"}})
					ts = append(ts, J{"named", j}, J{"par", j, J{i(1), i(5)}}, J{"par", j, J{i(2), i(3)}}, J{"exact", J{"nv", j, k, i(2)}})
				}
				ts = append(ts, J{"anyof", J{J{"named", 1}, J{"exact", J{"nv", 2, w.defs[1].makes(), i(7)}}}},
					J{"all", J{J{"named", 1}, J{"named", 2}}}, J{"not", J{"named", 1}}, J{"one", J{J{"named", 1}, J{"named", 2}}}, J{"plain", "any"})
				vs = append(vs, i(2), J{"n"})
				w.relate(rec, ts, vs)
			})
		}
	}
}

func recNamed(c *cfg) {
	rec := newRecorder(c.out)
	defer rec.close()
	rec.emit(map[string]interface{}{"op": "reset"})
	if c.mode == "pairs" {
		recNamedPairs(c, rec)
		return
	}
	r := rand.New(rand.NewSource(c.seed))
	for rec.n < c.n {
		w := newNworld(r)
		rec.emit(map[string]interface{}{"op": "reset"})
		for n := 12 + r.Intn(25); n >= 0; n-- {
			rec.guarded(func() {
				k := r.Intn(14)
				if len(w.tps) == 0 {
					k = 0
				}
				switch k {
				case 0, 1:
					w.register(rec)
				case 2:
					if r.Intn(2) == 0 {
						n := w.g.of(nNames)
						tf.RemoveNamed(n)
						rec.emit(map[string]interface{}{"op": "remove", "name": n})
					}
					w.lookups(rec)
				case 3, 4, 5, 6:
					w.relations(rec)
				case 7, 8:
					w.create(rec)
				case 9, 10, 11:
					w.text(rec)
				default:
					w.stream(rec)
				}
			})
		}
	}
}

// recNamedRace records what becomes of operations on the registry that happen at the same time
func recNamedRace(c *cfg) {
	rec := newRecorder(c.out)
	defer rec.close()
	rec.emit(map[string]interface{}{"op": "reset"})
	r := rand.New(rand.NewSource(c.seed))
	type op struct {
		Op   string `json:"op"`
		Name string `json:"name"`
		Def  *ndef  `json:"def,omitempty"`
		Sn   int    `json:"sn"`
		Got  int    `json:"got"`
		tp   dgo.NamedType
		bad  interface{}
	}
	for rec.n < c.n {
		w := newNworld(r)
		rec.emit(map[string]interface{}{"op": "reset"})
		for n := 0; n < 6; n++ {
			np := 2 + r.Intn(3)
			ops := make([]*op, np)
			only := r.Intn(2) == 0 // only registrations of the same name
			if r.Intn(3) > 0 {
				for _, n := range nNames[:2] {
					tf.RemoveNamed(n)
					rec.emit(map[string]interface{}{"op": "remove", "name": n})
				}
			}
			var defs []*ndef
			for i := range ops {
				o := &op{Name: w.g.of(nNames[:2])}
				k := r.Intn(5)
				if only {
					k, o.Name = 0, nNames[0]
				}
				switch k {
				case 0, 1, 2:
					d := w.def()
					d.Name = o.Name
					o.Op, o.Def = "register", d
					o.Sn = len(w.defs) + len(defs) + 1
					defs = append(defs, d)
				case 3:
					o.Op = "lookup"
				default:
					o.Op = "remove"
				}
				ops[i] = o
			}
			var ready int32
			var wg sync.WaitGroup
			for _, o := range ops {
				wg.Add(1)
				go func(o *op) {
					defer wg.Done()
					defer func() {
						if x := recover(); x != nil {
							if _, ok := x.(error); !ok || o.Op != "register" {
								o.bad = x
							}
						}
					}()
					for atomic.AddInt32(&ready, 1); atomic.LoadInt32(&ready) < int32(np); {
						runtime.Gosched()
					}
					switch o.Op {
					case "register":
						o.tp = o.Def.register()
						o.Got = 1
					case "lookup":
						o.tp = tf.Named(o.Name)
						// the type is complete when it can be found
						if o.tp != nil && (o.tp.Name() != o.Name || !o.tp.Equals(o.tp)) {
							o.bad = "incomplete"
						}
					default:
						tf.RemoveNamed(o.Name)
					}
				}(o)
			}
			wg.Wait()
			w.defs = append(w.defs, defs...)
			w.tps = append(w.tps, make([]dgo.NamedType, len(defs))...)
			for _, o := range ops {
				if o.Op == "register" && o.tp != nil {
					w.tps[o.Sn-1] = o.tp
					w.ids[o.tp] = o.Sn
				}
			}
			for _, o := range ops {
				if o.Op == "lookup" {
					o.Got = w.id(o.tp)
				}
				if o.bad != nil {
					rec.emit(map[string]interface{}{"op": "panic", "text": fmt.Sprint(o.bad)})
				}
			}
			after := J{}
			for _, n := range nNames[:2] {
				after = append(after, J{n, w.id(tf.Named(n))})
			}
			rec.emit(map[string]interface{}{"op": "race", "defs": append([]*ndef{}, w.defs...), "ops": ops, "after": after})
			rec.count("race")
		}
	}
}
