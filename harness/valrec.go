package main

import (
	"math/rand"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

// Recordings of equality, hashing and order

func init() {
	commands["eq"] = recEq
	commands["cmp"] = recCmp
}

// pool makes n values that are likely to be equal or close to each other
func (g *tgen) pool(n, depth int) []*va {
	vs := []*va{g.val(depth)}
	for len(vs) < n {
		switch g.pick(4) {
		case 0:
			vs = append(vs, g.val(depth))
		case 1:
			vs = append(vs, g.shuffle(vs[g.pick(len(vs))]))
		default:
			vs = append(vs, g.mutate(vs[g.pick(len(vs))]))
		}
	}
	return vs
}

// shuffle yields an equal value, where the entries of maps are in some other order
func (g *tgen) shuffle(v *va) *va {
	r := *v
	r.Vs = make([]*va, len(v.Vs))
	for i := range v.Vs {
		r.Vs[i] = g.shuffle(v.Vs[i])
	}
	r.Es = make([][2]*va, len(v.Es))
	for i, p := range g.r.Perm(len(v.Es)) {
		r.Es[p] = [2]*va{g.shuffle(v.Es[i][0]), g.shuffle(v.Es[i][1])}
	}
	return &r
}

// classes numbers the distinct elements of hs
func classes(hs []int) J {
	seen := map[int]int{}
	r := make(J, len(hs))
	for i, h := range hs {
		if _, ok := seen[h]; !ok {
			seen[h] = len(seen)
		}
		r[i] = seen[h]
	}
	return r
}

// keyable is false for what can't be a key
func (v *va) keyable() bool { return !v.hasKind("nat") }

// P05
func recEq(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1013 + int64(c.shard)))}
	for rec.n < c.n {
		vs := g.pool(4, 1+g.pick(3))
		if !encodable(func() { encVs(vs) }) {
			continue
		}
		ev := M{"op": "eq", "vs": encVs(vs)}
		rec.guarded(func() {
			n := len(vs)
			a := make([]dgo.Value, n)
			b := make([]dgo.Value, n)
			hs := make([]int, 2*n)
			for i := range vs {
				rec.count("value " + vs[i].K)
				a[i], b[i] = vs[i].build(g), g.shuffle(vs[i]).build(g)
				hs[2*i], hs[2*i+1] = a[i].HashCode(), b[i].HashCode()
			}
			eq := make(J, n)
			key := make(J, n)
			goeq := make(J, n)
			for i := range vs {
				r := make(J, n)
				k := make(J, n)
				q := make(J, n)
				for j := range vs {
					r[j] = a[i].Equals(b[j])
					q[j] = r[j]
					if x := g.goVal(vs[j]); x != nil || vs[j].K == "n" {
						q[j] = a[i].Equals(x)
					}
					k[j] = r[j]
					if vs[i].keyable() && vs[j].keyable() {
						m := vf.MutableMap(vf.String("none"), 1, a[i], i)
						k[j] = m.ContainsKey(b[j]) && vf.Integer(int64(i)).Equals(m.Get(b[j]))
						if vs[j].K == "s" && vs[j].S == "none" {
							k[j] = r[j]
						}
					}
					if r[j] == true && i != j {
						rec.count("equal pair")
					}
				}
				eq[i], key[i], goeq[i] = r, k, q
			}
			ev["eq"], ev["key"], ev["go"], ev["hash"] = eq, key, goeq, classes(hs)
			ev["again"] = func() bool {
				for i := range vs {
					if a[i].HashCode() != hs[2*i] || !a[i].Equals(a[i]) && !vs[i].hasNaN() {
						return false
					}
				}
				return true
			}()
			rec.emit(ev)
		})
	}
	rec.close()
}

func (v *va) hasNaN() bool {
	nan := false
	v.walk(func(v *va) { nan = nan || v.K == "f" && v.F != v.F })
	return nan
}

func cmp(a, b interface{}) J {
	if ca, ok := a.(dgo.Comparable); ok {
		r, ok := ca.CompareTo(b)
		return J{r, ok}
	}
	return J{0, false}
}

// ordered is a value that has an order among its kind
func (g *tgen) ordered(d int) *va {
	switch k := g.pick(9); {
	case k < 2:
		return &va{K: "i", I: g.num()}
	case k < 4:
		return &va{K: "f", F: g.flt()}
	case k == 4:
		return &va{K: "s", S: g.str()}
	case k == 5:
		return &va{K: "b", B: g.chance(2)}
	case k == 6:
		return &va{K: "bin", S: g.str()}
	case k == 7 && d > 0:
		v := &va{K: "arr"}
		for n := g.pick(4); n > 0; n-- {
			v.Vs = append(v.Vs, g.ordered(d-1))
		}
		return v
	case k == 8 && g.chance(3):
		return &va{K: "n"}
	case k == 8 && d > 1 && g.chance(3):
		return &va{K: "nan"}
	}
	return &va{K: "i", I: g.num()}
}

// P06
func recCmp(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1019 + int64(c.shard)))}
	for rec.n < c.n {
		var vs []*va
		switch g.pick(4) {
		case 0:
			vs = g.pool(3, 2)
		case 1:
			vs = []*va{g.ordered(2)}
			for i := 0; i < 3; i++ {
				vs = append(vs, g.mutate(vs[g.pick(len(vs))]))
			}
		default:
			for i := 0; i < 4; i++ {
				vs = append(vs, g.ordered(2))
			}
		}
		srt := []*va{}
		one := g.ordered(1)
		for n := g.pick(14); n > 0; n-- {
			x := g.ordered(1)
			for x.K != one.K && (x.K != "i" || one.K != "f") && (x.K != "f" || one.K != "i") {
				x = g.ordered(1)
			}
			srt = append(srt, x)
		}
		if !encodable(func() { encVs(vs); encVs(srt) }) {
			continue
		}
		ev := M{"op": "cmp", "vs": encVs(vs), "srt": encVs(srt)}
		rec.guarded(func() {
			n := len(vs)
			cs := make(J, n)
			gs := make(J, n)
			for i := range vs {
				r := make(J, n)
				q := make(J, n)
				a := vs[i].build(g)
				for j := range vs {
					r[j] = cmp(a, vs[j].build(g))
					q[j] = r[j]
					if x := g.goVal(vs[j]); x != nil && vs[j].K != "b" {
						q[j] = cmp(a, x)
					}
					rec.count("pair " + vs[i].K + " " + vs[j].K)
				}
				cs[i], gs[i] = r, q
			}
			ev["cmp"], ev["go"] = cs, gs
			// the elements of the sorted array are the very elements of the array, so their positions can be told
			els := make([]interface{}, len(srt))
			for i := range srt {
				els[i] = srt[i].real()
			}
			arr := vf.Values(els...)
			res := arr.Sort()
			rs := make(J, 0, res.Len())
			res.Each(func(v dgo.Value) { rs = append(rs, fromReal(v).enc()) })
			ev["sorted"] = rs
			rec.emit(ev)
		})
	}
	rec.close()
}

// shuffleT yields the same type, where the operands of logical operators are in some other order
func (g *tgen) shuffleT(t *ty) *ty {
	r := *t
	r.Ts = make([]*ty, len(t.Ts))
	p := g.r.Perm(len(t.Ts))
	for i := range t.Ts {
		j := i
		if t.K == "all" || t.K == "anyof" || t.K == "one" {
			j = p[i]
		}
		r.Ts[j] = g.shuffleT(t.Ts[i])
	}
	r.Es = make([]ent, len(t.Es))
	for i, e := range t.Es {
		r.Es[i] = ent{e.K, g.shuffleT(e.T), e.Req}
	}
	if t.V != nil {
		r.V = g.shuffle(t.V)
	}
	return &r
}

// realOr builds the real type from its source at times
func (t *ty) realOr(g *tgen) dgo.Type {
	if g.chance(4) {
		if rt, _, ok := t.parse(); ok {
			return rt
		}
	}
	return t.real()
}

func init() { commands["eqt"] = recEqT }

// P05 for types
func recEqT(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1021 + int64(c.shard)))}
	for rec.n < c.n {
		ts := []*ty{g.typ(1 + g.pick(3))}
		for len(ts) < 4 {
			switch g.pick(5) {
			case 0:
				ts = append(ts, g.typ(2))
			case 1, 2:
				ts = append(ts, g.shuffleT(ts[g.pick(len(ts))]))
			default:
				ts = append(ts, g.near(ts[g.pick(len(ts))]))
			}
		}
		vs := []*va{}
		for i := 0; i < 5; i++ {
			vs = append(vs, g.candidate(ts[g.pick(len(ts))]))
		}
		if !encodable(func() { encTs(ts); encVs(vs) }) {
			continue
		}
		ev := M{"op": "eqt", "ts": encTs(ts)}
		rec.guarded(func() {
			n := len(ts)
			a := make([]dgo.Type, n)
			b := make([]dgo.Type, n)
			hs := make([]int, 2*n)
			src := make(J, n)
			for i := range ts {
				rec.count("type " + ts[i].K)
				a[i], b[i] = ts[i].realOr(g), g.shuffleT(ts[i]).realOr(g)
				hs[2*i], hs[2*i+1] = a[i].HashCode(), b[i].HashCode()
				src[i] = J{a[i].String(), b[i].String()}
			}
			eq, qe, asg, inst, key := make(J, n), make(J, n), make(J, n), make(J, n), make(J, n)
			for i := range ts {
				r, q, s, is, k := make(J, n), make(J, n), make(J, n), make(J, len(vs)), make(J, n)
				m := vf.MutableMap(a[i], i)
				for j := range ts {
					r[j], q[j], s[j] = a[i].Equals(b[j]), b[j].Equals(a[i]), a[i].Assignable(b[j])
					k[j] = m.ContainsKey(b[j])
					if r[j] == true && i != j {
						rec.count("equal pair")
					}
				}
				for j := range vs {
					x := a[i]
					if g.chance(2) {
						x = b[i]
					}
					is[j] = x.Instance(vs[j].real())
				}
				eq[i], qe[i], asg[i], inst[i], key[i] = r, q, s, is, k
			}
			ev["eq"], ev["qe"], ev["asg"], ev["inst"], ev["key"], ev["hash"], ev["src"] = eq, qe, asg, inst, key, classes(hs), src
			rec.emit(ev)
		})
	}
	rec.close()
}
