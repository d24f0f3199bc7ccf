package main

import (
	"math/rand"

	"github.com/lyraproj/dgo/dgo"
)

func init() { commands["asg"] = recAsg }

// exactable is false for values whose exact type is a matter of something else than equality
func (v *va) exactable() bool {
	ok := true
	v.walk(func(v *va) { ok = ok && v.K != "t" && v.K != "nat" && v.K != "err" && v.K != "sens" && v.K != "nan" })
	return ok
}

// family makes n types that are close to each other
func (g *tgen) family(n, depth int) []*ty {
	ts := []*ty{g.typ(depth)}
	for len(ts) < n {
		switch g.pick(8) {
		case 0:
			ts = append(ts, g.typ(2))
		case 1:
			ts = append(ts, g.shuffleT(ts[g.pick(len(ts))]))
		case 2:
			ts = append(ts, g.widen(g.inst(ts[g.pick(len(ts))], 3), 3))
		default:
			ts = append(ts, g.near(ts[g.pick(len(ts))]))
		}
	}
	return ts
}

// P08
func recAsg(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1031 + int64(c.shard)))}
	for rec.n < c.n {
		ts := g.family(3, 1+g.pick(3))
		var vs []*va
		for _, t := range ts {
			vs = append(vs, g.inst(t, 3), g.candidate(t), g.candidate(t))
		}
		if !encodable(func() { encTs(ts); encVs(vs) }) {
			continue
		}
		ev := env(ts, vs, M{"op": "asg", "ts": encTs(ts), "vs": encVs(vs)})
		rec.guarded(func() {
			n := len(ts)
			a, b := make([]dgo.Type, n), make([]dgo.Type, n)
			src := make(J, n)
			for i := range ts {
				a[i], b[i] = ts[i].realOr(g), ts[i].realOr(g)
				src[i] = a[i].String()
			}
			ev["src"] = src
			asg, self, ex, parts := make(J, n), make(J, n), make(J, n), make(J, n)
			for i := range ts {
				r, x, ps := make(J, n), make(J, len(vs)), make(J, n)
				for j := range ts {
					q := J{}
					if ts[i].K == "not" && (ts[j].K == "anyof" || ts[j].K == "one") {
						for _, p := range ts[j].Ts {
							q = append(q, a[i].Assignable(p.real()))
						}
					}
					ps[j] = q
					r[j] = a[i].Assignable(a[j])
					if r[j] == true {
						rec.count("assignable")
					} else {
						rec.count("not assignable")
					}
					rec.count(ts[i].K + " from " + ts[j].K)
				}
				for k, v := range vs {
					x[k] = -1
					if v.exactable() {
						x[k] = 0
						if a[i].Assignable(v.real().Type()) {
							x[k] = 1
						}
					}
				}
				asg[i], ex[i], parts[i], self[i] = r, x, ps, a[i].Assignable(b[i])
			}
			ev["asgn"], ev["exact"], ev["parts"], ev["self"] = asg, ex, parts, self
			rec.emit(ev)
		})
	}
	rec.close()
}
