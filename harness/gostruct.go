package main

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

// Go structs that are wrapped as maps. See GoStruct.tla

func init() { commands["gostruct"] = recGoStruct }

type gsT struct {
	A int8
	B string
	C []int
	D interface{}
	E dgo.Array
	F *string
}

var gsFields = []string{"A", "B", "C", "D", "E", "F"}

type gsState struct {
	structs []*gsT
	views   []dgo.Struct
	pool    []dgo.Array
}

func gsVal(v dgo.Value) J {
	switch v := v.(type) {
	case dgo.Integer:
		return J{"i", v.GoInt()}
	case dgo.String:
		return J{"s", v.GoString()}
	case dgo.Float:
		return J{"f"}
	case dgo.Array:
		es := J{}
		v.Each(func(e dgo.Value) { es = append(es, gsVal(e)) })
		return J{"arr", es}
	}
	if v == vf.Nil {
		return J{"n"}
	}
	return J{"other", fmt.Sprintf("%T %s", v, v)}
}

func isFrozen(v dgo.Value) bool {
	f, ok := v.(dgo.Freezable)
	return !ok || f.Frozen()
}

// gsPairs is what is in m, and whether it's frozen
func gsPairs(m dgo.Map) (J, bool) {
	es := J{}
	frozen := true
	m.EachEntry(func(e dgo.MapEntry) {
		es = append(es, J{gsVal(e.Key()), gsVal(e.Value())})
		frozen = frozen && isFrozen(e.Value())
	})
	return es, frozen
}

func gsMap(m dgo.Map, v dgo.Map) J {
	if m == v {
		return J{"same"}
	}
	es, frozen := gsPairs(m)
	return J{"map", es, m.Frozen(), frozen || !m.Frozen()}
}

// gsRead reads all that can be read from v in each way
func gsRead(v dgo.Struct) J {
	es, frozen := gsPairs(v)
	if v.Frozen() && !frozen {
		return J{"frozen, but what is in it isn't"}
	}
	m := vf.MutableMap()
	v.EachEntry(func(e dgo.MapEntry) { m.Put(e.Key(), e.Value()) })
	ks, vs := vf.MutableValues(), vf.MutableValues()
	m.EachEntry(func(e dgo.MapEntry) { ks.Add(e.Key()); vs.Add(e.Value()) })
	iter := func(f func(a dgo.Array)) dgo.Array {
		a := vf.MutableValues()
		f(a)
		return a
	}
	is := func(w dgo.Value) dgo.Predicate { return func(x dgo.Value) bool { return x.Equals(w) } }
	last := vf.String("E")
	facts := []bool{
		v.Len() == 6, v.StringKeys(), v.Equals(m), m.Equals(v), v.HashCode() == m.HashCode(), v.String() == m.String(),
		v.Keys().Equals(ks), v.Values().Equals(vs),
		iter(func(a dgo.Array) { v.EachKey(func(k dgo.Value) { a.Add(k) }) }).Equals(ks),
		iter(func(a dgo.Array) { v.EachValue(func(k dgo.Value) { a.Add(k) }) }).Equals(vs),
		iter(func(a dgo.Array) { v.Each(func(k dgo.Value) { a.Add(k.(dgo.MapEntry).Key()) }) }).Equals(ks),
		iter(func(a dgo.Array) {
			v.All(func(e dgo.MapEntry) bool { a.Add(e.Key()); return !e.Key().Equals(last) })
		}).Equals(ks.Slice(0, 5)),
		iter(func(a dgo.Array) {
			v.AllKeys(func(e dgo.Value) bool { a.Add(e); return !e.Equals(last) })
		}).Equals(ks.Slice(0, 5)),
		v.All(func(e dgo.MapEntry) bool { return true }), !v.All(func(e dgo.MapEntry) bool { return !e.Key().Equals(last) }),
		v.AllKeys(func(e dgo.Value) bool { return true }), !v.AllKeys(func(e dgo.Value) bool { return !e.Equals(last) }),
		v.AllValues(func(e dgo.Value) bool { return true }), !v.AllValues(func(e dgo.Value) bool { return !e.Equals(v.Get("E")) }),
		!v.Any(func(e dgo.MapEntry) bool { return false }), v.Any(func(e dgo.MapEntry) bool { return e.Key().Equals(last) }),
		!v.AnyKey(func(e dgo.Value) bool { return false }), v.AnyKey(is(last)),
		!v.AnyValue(func(e dgo.Value) bool { return false }), v.AnyValue(is(v.Get("E"))),
		v.Find(func(e dgo.MapEntry) bool { return e.Key().Equals(last) }).Value().Equals(v.Get(last)),
		v.Find(func(e dgo.MapEntry) bool { return false }) == nil,
		v.Get("Z") == nil, v.Get(1) == nil, !v.ContainsKey("Z"), !v.ContainsKey(1), !v.ContainsKey("a"), v.Get("a") == nil,
		v.Type().Instance(v), v.Type().Instance(m), m.Type().Instance(v), v.Type().Equals(m.Type()), v.Equals(v.Copy(true)), v.Equals(v.Copy(false)),
		v.Copy(true).Frozen(), !v.Copy(false).Frozen(),
	}
	for _, k := range gsFields {
		facts = append(facts, v.ContainsKey(k), v.ContainsKey(vf.String(k)), v.Get(k).Equals(m.Get(k)), v.Get(vf.String(k)).Equals(m.Get(k)))
	}
	for i, f := range facts {
		if !f {
			return J{"not", i}
		}
	}
	return J{"read", es, v.Frozen()}
}

func (s *gsState) seen() M {
	nos := map[interface{}]int{}
	cells := J{}
	no := func(id interface{}, cell func() J) int {
		if n, ok := nos[id]; ok {
			return n
		}
		cells = append(cells, cell())
		nos[id] = len(cells)
		return len(cells)
	}
	arr := func(a interface{}) int {
		if a == nil || a == vf.Nil {
			return 0
		}
		x, ok := a.(dgo.Array)
		if !ok {
			return -2
		}
		return no(a, func() J { return J{"arr", gsVal(x)[1], x.Frozen()} })
	}
	structs, views, pool := J{}, J{}, J{}
	for _, x := range s.structs {
		c, e, f := 0, 0, 0
		if x.C != nil {
			c = -1
			if len(x.C) > 0 {
				c = no(&x.C[0], func() J { return J{"sl", gsVal(vf.Array(x.C))[1]} })
			}
		}
		if x.E != nil {
			e = arr(x.E)
		}
		if x.F != nil {
			f = no(x.F, func() J { return J{"ptr", *x.F} })
		}
		structs = append(structs, J{gsVal(vf.Value(x.A)), gsVal(vf.Value(x.B)), c, gsVal(vf.Value(x.D)), e, f})
	}
	for _, v := range s.views {
		im := J{}
		for _, k := range gsFields {
			x := v.Get(k)
			if k == "E" {
				im = append(im, J{"cell", arr(x)})
			} else {
				im = append(im, gsVal(x))
			}
		}
		views = append(views, J{v.Frozen(), im})
	}
	for _, a := range s.pool {
		pool = append(pool, arr(a))
	}
	return M{"structs": structs, "views": views, "pool": pool, "cells": cells}
}

func (s *gsState) know(p interface{}) {
	x := p.(*gsT)
	for _, o := range s.structs {
		if o == x {
			return
		}
	}
	s.structs = append(s.structs, x)
}

// arg makes a value, and what it's called
func (s *gsState) arg(g *tgen, j J) interface{} {
	switch j[0] {
	case "n":
		if g.chance(2) {
			return nil
		}
		return vf.Nil
	case "i":
		if g.chance(2) {
			return j[1].(int)
		}
		return vf.Integer(int64(j[1].(int)))
	case "s":
		if g.chance(2) {
			return j[1].(string)
		}
		return vf.String(j[1].(string))
	case "f":
		return vf.Float(1.5)
	}
	return s.pool[j[1].(int)-1]
}

func (s *gsState) val(g *tgen, k string) J {
	if !g.chance(4) {
		switch k {
		case "A":
			return J{"i", []int{1, -1, 127, -128, 128, -129, 300, 5}[g.pick(8)]}
		case "B":
			return J{"s", []string{"", "a", "b"}[g.pick(3)]}
		case "F":
			return []J{{"s", "p"}, {"s", "q"}, {"n"}}[g.pick(3)]
		case "C", "E":
			if len(s.pool) > 0 {
				return J{"ref", 1 + g.pick(len(s.pool))}
			}
		}
	}
	switch g.pick(5) {
	case 0:
		if k != "A" && k != "B" && k != "E" {
			return J{"n"}
		}
	case 1:
		return J{"s", "c"}
	case 2:
		return J{"f"}
	case 3:
		if len(s.pool) > 0 {
			return J{"ref", 1 + g.pick(len(s.pool))}
		}
	}
	return J{"i", g.pick(5)}
}

// goset performs what a go program would do
func (s *gsState) goset(g *tgen, x *gsT, k string, v J) {
	switch k {
	case "A":
		x.A = int8(v[1].(int))
	case "B":
		x.B = v[1].(string)
	case "C":
		a := s.pool[v[1].(int)-1]
		x.C = make([]int, 0, a.Len()+g.pick(2))
		a.Each(func(e dgo.Value) { x.C = append(x.C, int(e.(dgo.Integer).GoInt())) })
	case "D":
		switch v[0] {
		case "n":
			x.D = nil
		case "ref":
			d := []interface{}{}
			s.pool[v[1].(int)-1].Each(func(e dgo.Value) {
				var w interface{}
				vf.FromValue(e, &w)
				d = append(d, w)
			})
			x.D = d
		case "f":
			x.D = 1.5
		default:
			x.D = v[1]
		}
	case "E":
		x.E = s.pool[v[1].(int)-1]
	case "F":
		t := v[1].(string)
		x.F = &t
	}
}

func (s *gsState) step(g *tgen) (ev M) {
	scalar := func() J {
		if g.chance(4) {
			return J{"s", "x"}
		}
		return J{"i", g.pick(4)}
	}
	ev = M{"r": J{}}
	done := func(f func()) {
		if failed, _ := try(f); failed {
			ev["r"] = J{"refused"}
		}
	}
	n := g.pick(12)
	switch {
	case len(s.pool) == 0 || n == 0 && len(s.pool) < 4:
		es := J{}
		a := vf.MutableValues()
		for i := g.pick(4); i > 0; i-- {
			e := scalar()
			es = append(es, e)
			a.Add(s.arg(g, e))
		}
		frozen := g.chance(3)
		if frozen {
			a.Freeze()
		}
		s.pool = append(s.pool, a)
		ev["op"], ev["es"], ev["frozen"] = "newarr", es, frozen
		return ev
	case len(s.structs) == 0 || n == 1 && len(s.structs) < 4:
		s.structs = append(s.structs, &gsT{})
		ev["op"] = "struct"
		return ev
	case n == 2:
		a, v := g.pick(len(s.pool)), scalar()
		ev["op"], ev["a"], ev["v"] = "add", a+1, v
		done(func() { s.pool[a].Add(s.arg(g, v)) })
		return ev
	case len(s.views) == 0 || n == 3 && len(s.views) < 5:
		i := g.pick(len(s.structs))
		ev["s"] = i + 1
		if g.chance(4) {
			ev["op"] = "wrapvalue"
			done(func() {
				v := vf.Map(*s.structs[i]).(dgo.Struct)
				s.views = append(s.views, v)
				s.know(v.GoStruct())
			})
			return ev
		}
		ev["op"] = "wrap"
		done(func() {
			if g.chance(2) {
				s.views = append(s.views, vf.Map(s.structs[i]).(dgo.Struct))
			} else {
				s.views = append(s.views, vf.MutableMap(s.structs[i]).(dgo.Struct))
			}
		})
		return ev
	case n <= 5:
		i := g.pick(len(s.structs))
		x := s.structs[i]
		ev["s"] = i + 1
		k := gsFields[g.pick(6)]
		ev["k"] = k
		switch {
		case g.chance(3) && len(x.C) > 0:
			j, v := g.pick(len(x.C)), g.pick(9)
			ev["op"], ev["i"], ev["v"] = "goelem", j+1, J{"i", v}
			x.C[j] = v
			return ev
		case g.chance(3) && x.F != nil:
			t := []string{"p", "q", "r"}[g.pick(3)]
			ev["op"], ev["v"] = "goptr", J{"s", t}
			*x.F = t
			return ev
		case (k == "C" || k == "E" || k == "F") && g.chance(4):
			ev["op"] = "gonil"
			switch k {
			case "C":
				x.C = nil
			case "E":
				x.E = nil
			case "F":
				x.F = nil
			}
			return ev
		}
		for {
			v := s.val(g, k)
			ok := false
			switch k {
			case "A":
				ok = v[0] == "i" && v[1].(int) >= -128 && v[1].(int) <= 127
			case "B", "F":
				ok = v[0] == "s"
			case "C":
				ok = v[0] == "ref" && s.pool[v[1].(int)-1].All(func(e dgo.Value) bool { _, ok := e.(dgo.Integer); return ok })
				if v[0] == "ref" && !ok && g.chance(3) {
					k = "B"
					ev["k"] = k
				}
			case "D":
				ok = true
			case "E":
				ok = v[0] == "ref"
			}
			if ok {
				ev["op"], ev["v"] = "goset", v
				s.goset(g, x, k, v)
				return ev
			}
		}
	}
	i := g.pick(len(s.views))
	w := s.views[i]
	ev["w"] = i + 1
	k := append(gsFields, "Z")[g.pick(7)]
	if g.chance(3) {
		k = gsFields[g.pick(6)]
	}
	ev["k"] = k
	pairs := func() (dgo.Map, J) {
		m, ps := vf.MutableMap(), J{}
		for _, j := range g.r.Perm(7)[:g.pick(3)] {
			k := append(gsFields, "Z")[j]
			if k == "Z" && !g.chance(3) {
				continue
			}
			v := s.val(g, k)
			m.Put(k, s.arg(g, v))
			ps = append(ps, J{k, v})
		}
		return m, ps
	}
	key := func() interface{} {
		if g.chance(2) {
			return k
		}
		return vf.String(k)
	}
	switch g.pick(17) {
	case 0, 1, 2:
		v := s.val(g, k)
		ev["op"], ev["v"] = "put", v
		done(func() { ev["r"] = gsVal(w.Put(key(), s.arg(g, v))) })
	case 3:
		m, ps := pairs()
		ev["op"], ev["ps"] = "putall", ps
		done(func() { w.PutAll(m) })
	case 4:
		ev["op"] = "remove"
		done(func() { ev["r"] = gsVal(w.Remove(key())) })
	case 5:
		ev["op"] = "removeall"
		done(func() { w.RemoveAll(vf.Values(k)) })
	case 6:
		ev["op"] = "freeze"
		done(func() { w.Freeze() })
	case 7:
		ev["op"] = "frozencopy"
		done(func() {
			if g.chance(2) {
				s.views = append(s.views, w.Copy(true).(dgo.Struct))
			} else {
				s.views = append(s.views, w.FrozenCopy().(dgo.Struct))
			}
		})
	case 8:
		ev["op"] = "thawedcopy"
		done(func() {
			var c dgo.Struct
			if g.chance(2) {
				c = w.Copy(false).(dgo.Struct)
			} else {
				c = w.ThawedCopy().(dgo.Struct)
			}
			s.views = append(s.views, c)
			s.know(c.GoStruct())
		})
	case 9:
		ev["op"] = "gostruct"
		done(func() {
			if g.chance(2) {
				s.know(w.GoStruct())
			} else {
				var p *gsT
				vf.FromValue(w, &p)
				s.know(p)
			}
		})
	case 10:
		ev["op"] = "reflectvalue"
		done(func() {
			p := &gsT{}
			w.(dgo.ReflectedValue).ReflectTo(reflect.ValueOf(p).Elem())
			s.know(p)
		})
	case 11:
		v := s.val(g, k)
		ev["op"], ev["v"] = "with", v
		done(func() { ev["r"] = gsMap(w.With(key(), s.arg(g, v)), w) })
	case 12:
		ev["op"] = "without"
		done(func() { ev["r"] = gsMap(w.Without(key()), w) })
	case 13:
		ks, a := J{}, vf.MutableValues()
		for _, j := range g.r.Perm(7)[:1+g.pick(3)] {
			ks = append(ks, append(gsFields, "Z")[j])
			a.Add(ks[len(ks)-1])
		}
		ev["op"], ev["ks"] = "withoutall", ks
		done(func() { ev["r"] = gsMap(w.WithoutAll(a), w) })
	case 14:
		m, ps := pairs()
		if g.chance(2) {
			m = m.FrozenCopy().(dgo.Map)
		}
		ev["op"], ev["ps"] = "merge", ps
		done(func() { ev["r"] = gsMap(w.Merge(m), w) })
	case 15:
		v := s.val(g, "E")
		ev["op"], ev["v"] = "map", v
		x := s.arg(g, v)
		done(func() { ev["r"] = gsMap(w.Map(func(dgo.MapEntry) interface{} { return x }), w) })
	default:
		ev["op"] = "read"
		done(func() { ev["r"] = gsRead(w) })
	}
	return ev
}

func recGoStruct(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1087 + int64(c.shard)))}
	for rec.n < c.n {
		s := &gsState{}
		rec.emit(M{"op": "reset"})
		for i := 0; i < 40; i++ {
			stop := false
			rec.guarded(func() {
				stop = true
				ev := s.step(g)
				ev["seen"] = s.seen()
				stop = len(s.views) > 6 || len(s.structs) > 6
				rec.count(ev["op"].(string))
				rec.emit(ev)
			})
			if stop {
				break
			}
		}
	}
	rec.close()
}
