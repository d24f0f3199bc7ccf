package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
)

func init() { commands["validate"] = recValidate }

// structTyp is a struct type, the type of a map, or something that comes down to one of them
func (g *tgen) structTyp() *ty {
	if g.chance(6) {
		for {
			if v := g.val(3); v.K == "map" && !v.hasKind("nat") && !v.hasKind("nan") {
				if g.chance(4) {
					v.put(&va{K: "t", T: &ty{K: []string{"int", "string", "any"}[g.pick(3)]}}, g.scalar())
				}
				return &ty{K: "x", V: v}
			}
		}
	}
	t := &ty{K: "struct", B: g.chance(3)}
	n := g.pick(5)
	if g.chance(10) {
		n = 8 + g.pick(12)
	}
	for i := 0; i < n; i++ {
		k := g.key()
		if n > 8 {
			k = g.bigKey(i)
		}
		t.putEnt(k, g.typ(g.pick(3)), g.chance(2))
	}
	return t
}

// fromMap makes the type with StructMapFromMap
func (t *ty) fromMap(g *tgen) dgo.StructMapType {
	m := vf.MutableMap()
	for _, e := range t.Es {
		if e.K.K != "s" {
			return nil
		}
		var rt dgo.Value = e.T.real()
		if src, ok := e.T.src(); ok && g.chance(2) && !e.T.has("ref") {
			rt = vf.String(src)
		}
		if !e.Req || g.chance(2) {
			mm := vf.Map("type", rt)
			if !e.Req || g.chance(2) {
				mm = mm.With("required", e.Req)
			}
			rt = mm
		}
		m.Put(e.K.S, rt)
	}
	return tf.StructMapFromMap(t.B, m)
}

var reportRx = regexp.MustCompile(`(?s)^(missing required |unknown |)<(\d+)>( is not an instance of type .*)?$`)

// P19
func recValidate(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1033 + int64(c.shard)))}
	for rec.n < c.n {
		t := g.structTyp()
		if g.chance(10) {
			g.defs = nil
			t = g.recursive(2)
			if _, ok := t.src(); !ok || nested(t) {
				continue
			}
			if g.defs[t.S].K != "struct" {
				continue
			}
		}
		var vs []*va
		for i := 0; i < 5; i++ {
			v := g.candidate(t)
			for n := g.pick(3); n > 0; n-- {
				v = g.mutate(v)
			}
			if v.hasKind("nat") {
				continue
			}
			vs = append(vs, v)
		}
		keys := []*va{g.key(), g.key(), {K: "t", T: &ty{K: "x", V: &va{K: "s", S: "a"}}}}
		for _, e := range t.Es {
			keys = append(keys, e.K)
			if g.chance(3) {
				keys = append(keys, g.mutate(e.K))
			}
			if g.chance(3) {
				// the type of the key isn't the key
				v := g.candidate(t)
				if v.K == "map" && v.exactable() {
					v.put(&va{K: "t", T: &ty{K: "x", V: e.K}}, g.inst(e.T, 1))
					vs = append(vs, v)
				}
			}
		}
		if !encodable(func() { t.enc(); encVs(vs); encVs(keys) }) {
			continue
		}
		ev := env([]*ty{t}, vs, M{"op": "validate", "t": t.enc(), "vs": encVs(vs), "keys": encVs(keys)})
		rec.guarded(func() {
			var rt dgo.Type
			how := "api"
			switch {
			case t.has("ref") || g.chance(3):
				var ok bool
				if rt, ev["src"], ok = t.parse(); ok {
					how = "parsed"
				}
			case t.K == "struct" && g.chance(3):
				if st := t.fromMap(g); st != nil {
					rt, how = st, "map"
				}
			}
			if how == "api" {
				rt = t.real()
			}
			ev["how"] = how
			st, ok := rt.(dgo.StructMapType)
			if !ok {
				panic("not a struct type: " + rt.String())
			}
			rec.count(how + " " + t.K)
			rs, errs, verb := J{}, J{}, J{}
			for _, v := range vs {
				val := v.build(g)
				var x interface{} = val
				if gv := g.goVal(v); gv != nil && g.chance(3) {
					x = gv
				}
				rs = append(rs, st.Instance(val))
				var labels []dgo.Value
				es := J{}
				for _, err := range st.Validate(func(k dgo.Value) string {
					labels = append(labels, k)
					return fmt.Sprintf("<%d>", len(labels)-1)
				}, x) {
					m := reportRx.FindStringSubmatch(err.Error())
					switch {
					case m == nil:
						es = append(es, J{"other", err.Error()})
					default:
						i, _ := strconv.Atoi(m[2])
						kind := strings.TrimSpace(m[1])
						if m[3] != "" {
							kind += "type"
						}
						es = append(es, J{kind, fromReal(labels[i]).enc()})
						rec.count("report " + kind)
					}
				}
				if len(es) == 0 {
					rec.count("valid")
				}
				errs = append(errs, es)
				out := util.NewIndenter("  ")
				ok := st.ValidateVerbose(x, out)
				s := out.String()
				verb = append(verb, J{ok, strings.Count(s, "Reason: expected a value"), strings.Count(s, "Reason: required key not found"),
					strings.Count(s, "Reason: key is not found")})
				if n := len(st.Validate(nil, x)); n != len(es) {
					ev["unlabeled"] = n
				}
			}
			ev["rs"], ev["errs"], ev["verbose"] = rs, errs, verb
			// what the type says about itself
			ents := J{}
			var defs []dgo.Type
			if t.K == "struct" {
				for _, e := range t.Es {
					defs = append(defs, e.T.real())
				}
			}
			entryOf := func(e dgo.StructMapEntry) J {
				r := entryOf(e)
				if len(r) > 0 && defs != nil {
					ok := false
					for _, d := range defs {
						// a type that occurs twice may be attributed to the wrong entry
						ok = ok || d.Equals(e.Value())
					}
					r[1] = ok
				}
				return r
			}
			st.Each(func(e dgo.StructMapEntry) {
				r := entryOf(e)
				if i := len(ents); i < len(defs) {
					r[1] = defs[i].Equals(e.Value())
				}
				ents = append(ents, r)
			})
			ev["min"], ev["max"], ev["len"], ev["additional"], ev["ents"] = size2(int64(st.Min())), size2(int64(st.Max())), st.Len(), st.Additional(), ents
			ev["unbounded"] = st.Unbounded()
			gets, getts := J{}, J{}
			for _, k := range keys {
				r := entryOf(st.Get(k.real()))
				for i := range defs {
					if len(r) > 0 && t.Es[i].K.same(k) {
						r[1] = defs[i].Equals(st.Get(k.real()).Value())
					}
				}
				gets = append(gets, r)
				if k.K == "t" {
					getts = append(getts, "?")
				} else {
					getts = append(getts, entryOf(st.Get(k.real().Type())))
				}
			}
			ev["gets"], ev["getts"] = gets, getts
			rec.emit(ev)
		})
	}
	rec.close()
}

func entryOf(e dgo.StructMapEntry) J {
	if e == nil {
		return J{}
	}
	rt := e.Value().(dgo.Type)
	if mt, ok := e.Key().(dgo.UnaryType); ok && mt.Operator() == dgo.OpMeta {
		return J{J{"t", shallow(mt.Operand())}, shallow(rt), e.Required()}
	}
	k := "other"
	if kt, ok := e.Key().(dgo.ExactType); ok {
		return J{fromReal(kt.ExactValue()).enc(), shallow(rt), e.Required()}
	}
	return J{k, rt == typ.Any, e.Required()}
}

// shallow describes a type that may be recursive
func shallow(t dgo.Type) J {
	rawTypes(true)
	defer rawTypes(false)
	x := typeFromReal(t)
	return x.enc()
}
