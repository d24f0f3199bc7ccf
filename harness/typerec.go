package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
)

// Recordings of what types say about values and about each other

type M = map[string]interface{}

func text(x interface{}) string {
	bs, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(bs)
}

// walk visits all types in a type
func (t *ty) walk(f func(*ty), fv func(*va)) {
	f(t)
	for _, c := range t.Ts {
		c.walk(f, fv)
	}
	for _, e := range t.Es {
		e.T.walk(f, fv)
	}
	for _, v := range t.Vs {
		v.walk(fv)
	}
	if t.V != nil {
		t.V.walk(fv)
	}
}

func (v *va) walk(f func(*va)) {
	f(v)
	for _, c := range v.Vs {
		c.walk(f)
	}
	for _, e := range v.Es {
		e[0].walk(f)
		e[1].walk(f)
	}
}

// parses tells if the parser accepts a string
func parses(s string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	tf.Parse(s)
	return true
}

// env is the environment E of Types.tla: what the parser accepts, and what meta types depend on
func env(ts []*ty, vs []*va, ev M) M {
	var params, tvals []*ty
	strs := map[string]bool{}
	dgoSeen := false
	fv := func(v *va) {
		if v.K == "t" {
			tvals = append(tvals, v.T)
		}
		if v.K == "s" {
			strs[v.S] = true
		}
	}
	for _, t := range ts {
		t.walk(func(t *ty) {
			if t.K == "meta" {
				params = append(params, t.Ts[0])
			}
			if t.K == "dgo" {
				dgoSeen = true
			}
		}, fv)
	}
	for _, v := range vs {
		v.walk(fv)
	}
	asg := J{}
	seen := map[string]bool{}
	for _, p := range params {
		for _, v := range tvals {
			e := J{p.enc(), v.enc()}
			if k := text(e); !seen[k] {
				seen[k] = true
				if p.real().Assignable(v.real()) {
					asg = append(asg, e)
				}
			}
		}
	}
	dg := J{}
	if dgoSeen {
		for s := range strs {
			if parses(s) {
				dg = append(dg, codes(s))
			}
		}
	}
	ev["asg"], ev["dgo"] = asg, dg
	ali := J{}
	for _, t := range ts {
		t.walk(func(t *ty) {
			if t.K == "ref" && len(t.Ts) > 0 {
				ali = append(ali, J{t.S, t.Ts[0].enc()})
			}
		}, func(*va) {})
	}
	ev["ali"] = ali
	return ev
}

// goVal is a go value that can be used in place of a dgo value
func (g *tgen) goVal(v *va) interface{} {
	switch v.K {
	case "n":
		return nil
	case "b":
		return v.B
	case "i":
		c := []interface{}{v.I}
		if int64(int8(v.I)) == v.I {
			c = append(c, int8(v.I))
		}
		if int64(int16(v.I)) == v.I {
			c = append(c, int16(v.I))
		}
		if int64(int32(v.I)) == v.I {
			c = append(c, int32(v.I))
		}
		if int64(uint8(v.I)) == v.I {
			c = append(c, uint8(v.I))
		}
		if int64(uint16(v.I)) == v.I {
			c = append(c, uint16(v.I))
		}
		if int64(uint32(v.I)) == v.I {
			c = append(c, uint32(v.I))
		}
		if v.I >= 0 {
			c = append(c, uint64(v.I), uint(v.I))
		}
		c = append(c, int(v.I))
		return c[g.pick(len(c))]
	case "f":
		if v.F == 0 && g.chance(2) {
			return math.Copysign(0, -1)
		}
		if float64(float32(v.F)) == v.F && g.chance(2) {
			return float32(v.F)
		}
		return v.F
	case "s":
		return v.S
	}
	return nil
}

func enumerable(t *ty) bool { return !t.has("func", "other") }

// try calls f and tells if it panicked
func try(f func()) (panicked bool, what string) {
	defer func() {
		if x := recover(); x != nil {
			panicked, what = true, fmt.Sprint(x)
		}
	}()
	f()
	return
}

func init() {
	commands["inst"] = recInst
}

// encodable is false for what has numbers that the encoding can't represent
func encodable(f func()) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, bad := x.(badNum); !bad {
				panic(x)
			}
			ok = false
		}
	}()
	f()
	return true
}

// nested tells if a name is declared twice
func nested(t *ty) bool {
	seen := map[string]bool{}
	dup := false
	t.walk(func(t *ty) {
		if t.K == "ref" && len(t.Ts) > 0 {
			dup = dup || seen[t.S]
			seen[t.S] = true
		}
	}, func(*va) {})
	return dup
}

// P07
func recInst(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1009 + int64(c.shard)))}
	for rec.n < c.n {
		t := g.typ(1 + g.pick(3))
		if g.chance(8) {
			g.defs = nil
			t = g.recursive(2)
			if g.chance(2) {
				t = &ty{K: "anyof", Ts: []*ty{g.leaf(), t}}
			}
			if _, ok := t.src(); !ok || nested(t) {
				continue
			}
		}
		var vs []*va
		for i := 0; i < 6; i++ {
			vs = append(vs, g.candidate(t))
		}
		var te, ve J
		if !encodable(func() { te, ve = t.enc(), encVs(vs) }) {
			continue
		}
		ev := env([]*ty{t}, vs, M{"op": "inst", "t": te, "vs": ve})
		rec.count("type " + t.K)
		rec.guarded(func() {
			var rt dgo.Type
			how := "api"
			if t.has("ref") || g.chance(3) {
				var ok bool
				if rt, ev["src"], ok = t.parse(); ok {
					how = "parsed"
				}
			}
			if how == "api" {
				rt = t.real()
			}
			ev["how"] = how
			rs := J{}
			for _, v := range vs {
				r := rt.Instance(v.real())
				if gv := g.goVal(v); (gv != nil || v.K == "n") && !t.has("native") {
					if rt.Instance(gv) != r {
						ev["go"] = fmt.Sprintf("%T %v", gv, gv)
					}
				}
				if rt.Instance(v.build(g)) != r {
					ev["other"] = v.enc()
				}
				rs = append(rs, r)
				if r {
					rec.count("instance")
				} else {
					rec.count("not instance")
				}
			}
			ev["rs"] = rs
			rec.emit(ev)
		})
	}
	rec.close()
}

// build makes the real value in some other way than real does
func (v *va) build(g *tgen) dgo.Value {
	switch v.K {
	case "arr":
		r := vf.MutableValues()
		for _, e := range v.Vs {
			r.Add(e.build(g))
		}
		if g.chance(2) && !v.hasKind("nat") {
			return r.FrozenCopy()
		}
		if g.chance(3) && !v.hasKind("nat") {
			gs := make([]interface{}, len(v.Vs))
			for i := range gs {
				if gs[i] = g.goVal(v.Vs[i]); gs[i] == nil {
					gs[i] = v.Vs[i].build(g)
				}
			}
			return vf.Value(gs)
		}
		return r
	case "map":
		r := vf.MutableMap()
		for i := range v.Es {
			if g.chance(5) {
				r.Put("temporary", i)
			}
			r.Put(v.Es[i][0].build(g), v.Es[i][1].build(g))
		}
		for i := range v.Es {
			if g.chance(4) {
				// also last in order now
				r.Remove(v.Es[i][0].real())
				r.Put(v.Es[i][0].build(g), v.Es[i][1].build(g))
			}
		}
		r.Remove("temporary")
		if g.chance(2) && !v.hasKind("nat") {
			return r.FrozenCopy()
		}
		return r
	case "sens":
		return vf.Sensitive(v.Vs[0].build(g))
	case "s":
		return vf.Value(v.S)
	case "bin":
		if g.chance(2) {
			return vf.Binary([]byte(v.S), false)
		}
		return vf.Value([]byte(v.S))
	case "i", "f", "b":
		return vf.Value(g.goVal(v))
	case "tm":
		return vf.Time(time.Unix(v.I, 0).In([]*time.Location{time.UTC, time.FixedZone("x", 3600), time.FixedZone("", -1800)}[g.pick(3)]))
	}
	return v.real()
}
