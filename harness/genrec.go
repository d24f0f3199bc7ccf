package main

import (
	"math/rand"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
)

func init() {
	commands["gen"] = recGen
	commands["exact"] = recExact
}

// P09: generic forms
func recGen(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1033 + int64(c.shard)))}
	for rec.n < c.n {
		t := g.typ(1 + g.pick(3))
		if g.chance(3) {
			t = g.exact(g.val(3))
		}
		var vs []*va
		for i := 0; i < 5; i++ {
			vs = append(vs, g.candidate(t))
		}
		if !encodable(func() { t.enc(); encVs(vs) }) {
			continue
		}
		ev := M{"op": "gen", "t": t.enc(), "vs": encVs(vs)}
		rec.guarded(func() {
			rec.count("type " + t.K)
			rt := t.realOr(g)
			gt := typ.Generic(rt)
			mt := typeFromReal(gt)
			if mt.has("other", "func") {
				rec.count("skipped")
				return
			}
			if !encodable(func() { mt.enc() }) {
				return
			}
			ev["src"] = rt.String()
			ev["g"] = mt.enc()
			ev["wider"] = gt.Assignable(rt)
			ev["again"] = typ.Generic(gt).Equals(gt) && gt.Equals(typ.Generic(gt))
			rs := make(J, len(vs))
			for i, v := range vs {
				rs[i] = gt.Instance(v.build(g))
			}
			ev["rs"] = rs
			rec.emit(env([]*ty{t, mt}, vs, ev))
		})
	}
	rec.close()
}

// P09: types of values
func recExact(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1039 + int64(c.shard))), noMeta: true, noNative: true}
	for rec.n < c.n {
		vs := g.pool(4, 1+g.pick(3))
		sens := false
		for _, v := range vs {
			sens = sens || v.K == "sens" // the type of a sensitive value doesn't reveal it
		}
		if sens || !encodable(func() { encVs(vs) }) {
			continue
		}
		ev := M{"op": "exact", "vs": encVs(vs)}
		rec.guarded(func() {
			n := len(vs)
			is, as, qs, val := make(J, n), make(J, n), make(J, n), make(J, n)
			ts := make([]dgo.Type, n)
			for i, v := range vs {
				rec.count("value " + v.K)
				x := v.build(g)
				if m, ok := x.(dgo.Freezable); ok && !m.Frozen() {
					x = m.FrozenCopy()
				}
				ts[i] = x.Type()
				val[i] = v.enc()
				if et, ok := ts[i].(dgo.ExactType); ok {
					val[i] = fromReal(et.ExactValue()).enc()
				}
			}
			for i := range vs {
				r, a, q := make(J, n), make(J, n), make(J, n)
				for j, w := range vs {
					r[j] = ts[i].Instance(w.build(g))
					a[j] = ts[i].Assignable(ts[j])
					q[j] = ts[i].Equals(ts[j]) && (ts[i].HashCode() == ts[j].HashCode())
				}
				is[i], as[i], qs[i] = r, a, q
			}
			ev["inst"], ev["asgn"], ev["eq"], ev["val"] = is, as, qs, val
			rec.emit(ev)
		})
	}
	rec.close()
}
