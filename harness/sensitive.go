package main

import (
	"fmt"
	"math/rand"
	"regexp"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
)

// Recordings of sensitive values

func init() { commands["sensitive"] = recSensitive }

// other yields some other content of the same kind
func (g *tgen) other(v *va) *va {
	r := *v
	switch v.K {
	case "i":
		r.I = g.num()
	case "f":
		r.F = g.flt()
	case "b":
		r.B = g.chance(2)
	case "s", "bin":
		r.S = g.str()
	case "err", "rx":
		r.S = []string{"a", "b", "a.b", "secret"}[g.pick(4)]
	case "tm":
		r.I = int64(g.pick(4) * 1000)
	case "t":
	case "arr":
		r.Vs = nil
		for _, e := range v.Vs {
			r.Vs = append(r.Vs, g.other(e))
			for g.chance(4) {
				r.Vs = append(r.Vs, g.other(e))
			}
		}
	case "map":
		r.Es = nil
		for _, e := range v.Es {
			r.put(g.other(e[0]), g.other(e[1]))
		}
	case "sens":
		r.Vs = []*va{g.other(v.Vs[0])}
	}
	return &r
}

// twin differs from v only in what sensitives wrap
func (g *tgen) twin(v *va) *va {
	r := *v
	switch v.K {
	case "arr":
		r.Vs = nil
		for _, e := range v.Vs {
			r.Vs = append(r.Vs, g.twin(e))
		}
	case "map":
		r.Es = nil
		for _, e := range v.Es {
			r.put(g.twin(e[0]), g.twin(e[1]))
		}
	case "sens":
		r.Vs = []*va{g.other(v.Vs[0])}
	}
	return &r
}

// veiled is a value with sensitives in it
func (g *tgen) veiled(d int) *va {
	k := g.pick(6)
	if d <= 0 {
		k = 0
	}
	switch k {
	case 1, 2:
		v := &va{K: "arr"}
		for n := 1 + g.pick(3); n > 0; n-- {
			v.Vs = append(v.Vs, g.veiled(d-1))
		}
		return v
	case 3, 4:
		v := &va{K: "map"}
		for n := 1 + g.pick(3); n > 0; n-- {
			k := g.key()
			if g.chance(6) {
				k = g.veiled(0)
			}
			v.put(k, g.veiled(d-1))
		}
		return v
	case 5:
		return g.scalar()
	}
	return &va{K: "sens", Vs: []*va{g.val(g.pick(3))}}
}

var saidTypes = []dgo.Type{typ.Integer, typ.Float, typ.String, typ.Boolean, typ.Binary, typ.Time, typ.Regexp, typ.Error, typ.Type, typ.Nil,
	tf.Array(typ.Integer), tf.Map(typ.Integer, typ.Integer), tf.Tuple(typ.Integer, typ.String), tf.Integer(0, 3, true), vf.String("x").Type(),
	tf.Pattern(regexp.MustCompile("zz")), tf.CiString("x"), tf.AnyOf(typ.Integer, typ.Float), tf.Not(typ.Any), typ.Native,
	vf.Values(1).Type(), vf.Map("a", 1).Type(), tf.ParseType(`{"a":1..2}`), vf.True.Type(), vf.Float(1).Type()}

// told is what is told about a value
func told(mk func() dgo.Value) J {
	r := J{}
	say := func(f func() interface{}) {
		s := ""
		if failed, what := try(func() { s = fmt.Sprint(f()) }); failed {
			s = "panic: " + what
		}
		r = append(r, s)
	}
	v := mk()
	say(func() interface{} { return v.String() })
	say(func() interface{} { return v.Type() })
	say(func() interface{} { return v.Type().Type() })
	say(func() interface{} { return typ.Generic(v.Type()) })
	if s, ok := v.(dgo.Sensitive); ok {
		for _, f := range []string{"%v", "%s", "%q", "%x", "%+v", "%#v", "%d", "%t", "%5d", "%f", "%o"} {
			say(func() interface{} { return fmt.Sprintf(f, s) })
			if f != "%+v" && f != "%#v" {
				say(func() interface{} { return vf.New(typ.String, vf.Arguments(v, f)) })
			}
		}
	}
	say(func() interface{} { return fmt.Sprintf("%v %s", v, v) })
	if ia, ok := v.(dgo.Indentable); ok {
		say(func() interface{} { return util.ToIndentedString(ia) + util.ToIndentedStringERP(ia) })
	}
	for _, t := range saidTypes {
		say(func() interface{} { return vf.New(t, v) })
		say(func() interface{} { return vf.New(t, vf.Arguments(v, v)) })
	}
	st := tf.ParseType(`{"a":int,"b"?:string}`).(dgo.StructMapType)
	for _, m := range []func() dgo.Map{func() dgo.Map { return vf.Map("a", v) }, func() dgo.Map { return vf.Map("b", v, v, 1) }} {
		say(func() interface{} { return st.Validate(nil, m()) })
		say(func() interface{} { return vf.New(st, m()) })
		say(func() interface{} {
			w := util.NewIndenter("  ")
			ok := st.ValidateVerbose(m(), w)
			return w.String() + fmt.Sprint(ok)
		})
	}
	say(func() interface{} { return st.Validate(nil, v) })
	for _, rich := range []bool{false} {
		o := streamer.DefaultOptions()
		o.RichData = rich
		say(func() interface{} {
			c := streamer.NewCollector()
			streamer.New(nil, o).Stream(vf.Map("k", vf.Values(v)), c)
			return c.Value()
		})
	}
	say(func() interface{} { return vf.Arguments(1, v).Arg("f", 1, typ.Integer) })
	say(func() interface{} { return vf.Arguments(v).Arg("f", 0, typ.String) })
	say(func() interface{} { return vf.Value(func(i int) int { return i }).(dgo.Function).Call(vf.Arguments(v)) })
	say(func() interface{} {
		return vf.Value(func(i int, s ...string) int { return i }).(dgo.Function).Call(vf.Arguments(1, v))
	})
	say(func() interface{} { return vf.Map("a", 1).Put("a", v) })
	say(func() interface{} { return vf.Map("a", 1).Put(v, 1) })
	say(func() interface{} { return vf.MutableMap(&struct{ A int }{}).Put(v, v) })
	say(func() interface{} { return vf.MutableMap(&struct{ A int }{}).Put("A", v) })
	say(func() interface{} { return vf.Map(v) })
	say(func() interface{} { return vf.Map(vf.Values(v)) })
	say(func() interface{} { return vf.Map(vf.Values(v, v, v)) })
	say(func() interface{} { return vf.Array(v) })
	say(func() interface{} { vf.Values(1).Add(v); return nil })
	say(func() interface{} { return tf.Array(v) })
	say(func() interface{} { return tf.Sensitive(v) })
	say(func() interface{} { return tf.Map(typ.String, v) })
	say(func() interface{} { return tf.String(v) })
	say(func() interface{} { return tf.StructMap(false, tf.StructMapEntry("a", typ.String, true)).Get(v) })
	say(func() interface{} { var s string; vf.FromValue(v, &s); return s })
	say(func() interface{} { var s int; vf.FromValue(v, &s); return s })
	say(func() interface{} { var s map[string]int; vf.FromValue(vf.Map("a", v), &s); return s })
	say(func() interface{} { return vf.Value(fmt.Errorf("with %v", v)) })
	return r
}

func recSensitive(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1063 + int64(c.shard))), noNative: true}
	for rec.n < c.n {
		if g.chance(2) {
			v := g.veiled(g.pick(4))
			vs := []*va{v, g.twin(v)}
			if g.chance(2) {
				vs = append(vs, g.twin(v))
			}
			if !encodable(func() { encVs(vs) }) {
				continue
			}
			rec.guarded(func() {
				ev := M{"op": "said", "vs": encVs(vs)}
				said := J{}
				for _, v := range vs {
					said = append(said, told(func() dgo.Value { return v.real() }))
				}
				ev["said"] = said
				rec.count("said " + v.K)
				rec.emit(ev)
			})
			continue
		}
		v := g.val(g.pick(4))
		o := v
		switch g.pick(3) {
		case 0:
			o = g.other(v)
		case 1:
			o = g.mutate(v)
		}
		if !encodable(func() { v.enc(); o.enc() }) {
			continue
		}
		rec.guarded(func() {
			build := func(v *va) dgo.Value {
				r := v.real()
				if f, ok := r.(dgo.Freezable); ok && g.chance(2) {
					r = f.ThawedCopy()
				}
				return r
			}
			w := build(v)
			s := vf.Sensitive(w)
			ev := M{"op": "wrap", "v": v.enc(), "o": o.enc()}
			frozen := func(x dgo.Value) bool {
				f, ok := x.(dgo.Freezable)
				return !ok || f.Frozen()
			}
			ev["unwrap"], ev["same"] = fromReal(s.Unwrap()).enc(), s.Unwrap() == w
			ev["eqbare"] = s.Equals(w) || w.Equals(s) || s.Equals(build(v)) || vf.Values(s).Equals(vf.Values(w))
			ev["eqsame"] = s.Equals(vf.Sensitive(build(v)))
			t := vf.Sensitive(build(o))
			ev["eqother"] = s.Equals(t)
			if s.Equals(t) != t.Equals(s) {
				ev["eqother"] = "not symmetric"
			}
			ev["hash"] = classes([]int{s.HashCode(), t.HashCode()})
			ev["frozen"], ev["wfrozen"] = frozen(s), frozen(w)
			f, ok := s.(dgo.Freezable)
			if !ok {
				panic("a sensitive can't be frozen")
			}
			fc, tc := f.FrozenCopy(), f.ThawedCopy()
			ev["fcopy"], ev["tcopy"] = fromReal(fc).enc(), fromReal(tc).enc()
			ev["fcopyfrozen"], ev["tcopyfrozen"] = frozen(fc), frozen(tc)
			switch m := tc.(dgo.Sensitive).Unwrap().(type) {
			case dgo.Array:
				m.Add(vf.String("more"))
			case dgo.Map:
				m.Put(vf.String("more"), 1)
			}
			switch m := w.(type) {
			case dgo.Array:
				if !m.Frozen() {
					m.Add(vf.String("more"))
					ev["fcopy"] = fromReal(fc).enc()
					m.Remove(m.Len() - 1)
				}
			}
			ev["after"] = fromReal(s).enc()
			f.Freeze()
			ev["frozen2"], ev["wfrozen2"] = frozen(s), frozen(w)
			rec.count("wrap " + v.K)
			rec.emit(ev)
		})
	}
	rec.close()
}
