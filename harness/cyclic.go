package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
)

// Recordings of what is done with collections and types that contain themselves (P20)

func init() {
	commands["cyclic"] = recCyclic
	commands["cyclicdeep"] = func(c *cfg) {
		debug.SetMaxStack(1 << 24)
		cyclicDeep()[c.mode]()
	}
}

// cyclicDeep are operations that end the process when they recurse endlessly
func cyclicDeep() map[string]func() {
	a := vf.MutableValues()
	a.Add(a)
	m := vf.MutableMap()
	m.Put("m", m)
	t, u := tf.ParseType("cyc1={a:int,b?:cyc1}"), tf.ParseType("cyc2=[]cyc2")
	generic := func(t dgo.Type) func() {
		return func() {
			if g, ok := t.(dgo.GenericType); ok {
				g.Generic()
			}
		}
	}
	return map[string]func(){
		"generic type of array":     generic(a.Type()),
		"generic type of map":       generic(m.Type()),
		"type of sensitive":         func() { vf.Sensitive(a).Type() },
		"go type of array":          func() { a.Type().ReflectType() },
		"go type of map":            func() { m.Type().ReflectType() },
		"generic recursive type":    generic(t),
		"go type of recursive type": func() { u.ReflectType() },
		"indented text":             func() { _ = util.ToIndentedStringERP(vf.Values(a, m)) },
		"validation": func() {
			x := vf.MutableMap("a", 1)
			x.Put("b", x)
			t.(dgo.StructMapType).Validate(nil, x)
			t.(dgo.StructMapType).ValidateVerbose(x, util.NewIndenter(""))
		},
		"new":  func() { vf.New(u, vf.Arguments(a)) },
		"sort": func() { vf.Values(a, a, m.Get("x"), vf.Values(a)).Sort() },
		"type": func() { _ = a.Type().Type().String() + u.Type().Type().String() },
		"elements": func() {
			_ = a.Type().(dgo.ArrayType).ElementType().String() + m.Type().(dgo.MapType).ValueType().String()
		},
	}
}

// cgraph is the collections that can be reached. Their order is that in which they were found
type cgraph struct {
	objs []dgo.Value
	ids  map[dgo.Value]int
}

func (g *cgraph) ref(v dgo.Value) J {
	switch x := v.(type) {
	case dgo.Map, dgo.Array, dgo.Sensitive:
		return J{"c", g.add(v)}
	case dgo.Integer:
		return J{"v", fmt.Sprintf("i%d", x.GoInt())}
	case dgo.String:
		return J{"v", "s" + x.GoString()}
	}
	if v != vf.Nil {
		panic(fmt.Sprintf("found a %T", v))
	}
	return J{"v", "nil"}
}

func (g *cgraph) add(v dgo.Value) int {
	if n, ok := g.ids[v]; ok {
		return n
	}
	g.objs = append(g.objs, v)
	g.ids[v] = len(g.objs)
	return len(g.objs)
}

// list describes the collections
func (g *cgraph) list() J {
	js := J{}
	for i := 0; i < len(g.objs); i++ {
		cs := J{}
		switch x := g.objs[i].(type) {
		case dgo.Map:
			x.EachEntry(func(e dgo.MapEntry) { cs = append(cs, J{e.Key().(dgo.String).GoString(), g.ref(e.Value())}) })
			js = append(js, J{"m", x.Frozen(), cs})
		case dgo.Array:
			x.Each(func(e dgo.Value) { cs = append(cs, g.ref(e)) })
			js = append(js, J{"a", x.Frozen(), cs})
		case dgo.Sensitive:
			js = append(js, J{"s", x.(dgo.Freezable).Frozen(), J{g.ref(x.Unwrap())}})
		}
	}
	return js
}

// cyclicGen makes graphs
type cyclicGen struct {
	r *rand.Rand
	g *cgraph
}

func (c *cyclicGen) scalar() interface{} {
	switch c.r.Intn(6) {
	case 0:
		return nil
	case 1, 2:
		return string(rune('a' + c.r.Intn(2)))
	}
	return 1 + c.r.Intn(2)
}

func (c *cyclicGen) child() interface{} {
	if c.r.Intn(3) == 0 {
		return c.scalar()
	}
	return c.g.objs[c.r.Intn(len(c.g.objs))]
}

// extend adds something to the collection i
func (c *cyclicGen) extend(i int, v interface{}) {
	switch x := c.g.objs[i].(type) {
	case dgo.Map:
		if !x.Frozen() && x.Len() < 3 {
			x.Put(string(rune('a'+c.r.Intn(3))), v)
		}
	case dgo.Array:
		if !x.Frozen() && x.Len() < 3 {
			x.Add(v)
		}
	}
}

func (c *cyclicGen) make() {
	c.g = &cgraph{ids: map[dgo.Value]int{}}
	n := 1 + c.r.Intn(4)
	maps := c.r.Intn(5) // how common maps are
	for i := 0; i < n; i++ {
		switch {
		case c.r.Intn(5) < maps-1:
			c.g.add(vf.MutableMap())
		case i > 0 && c.r.Intn(6) == 0:
			c.g.add(vf.Sensitive(c.g.objs[c.r.Intn(i)]))
		default:
			c.g.add(vf.MutableValues())
		}
	}
	if c.r.Intn(3) == 0 {
		// several have the same shape, so that many are equal
		k := 1 + c.r.Intn(2)
		for ; k > 0; k-- {
			s := c.r.Intn(3) == 0
			v := c.scalar()
			key := string(rune('a' + c.r.Intn(3)))
			for i, o := range c.g.objs {
				u := v
				if !s {
					u = c.g.objs[c.r.Intn(len(c.g.objs))]
				}
				if m, ok := o.(dgo.Map); ok {
					m.Put(key, u)
				} else {
					c.extend(i, u)
				}
			}
		}
	} else {
		for k := c.r.Intn(2*n + 3); k > 0; k-- {
			c.extend(c.r.Intn(n), c.child())
		}
	}
	if c.r.Intn(4) == 0 {
		o := c.g.objs[c.r.Intn(n)]
		o.(dgo.Freezable).Freeze()
	}
	c.g.list()
}

// build makes the graph number k of those with the given number of arrays (and maps) with at most two elements
func (c *cyclicGen) build(k, n int, maps bool) bool {
	c.g = &cgraph{ids: map[dgo.Value]int{}}
	refs := n + 1 // a collection, or an integer
	lists := 1 + refs + refs*refs
	each := lists
	if maps {
		each += lists
	}
	ks := []int{}
	for i := 0; i < n; i++ {
		ks = append(ks, k%each)
		k /= each
	}
	if k > 0 {
		return false
	}
	for i := range ks {
		if ks[i] >= lists {
			ks[i] -= lists
			c.g.add(vf.MutableMap())
		} else {
			c.g.add(vf.MutableValues())
		}
	}
	for i, k := range ks {
		es := []interface{}{}
		ref := func(j int) interface{} {
			if j == n {
				return 1
			}
			return c.g.objs[j]
		}
		if k > refs {
			k -= refs + 1
			es = append(es, ref(k%refs), ref(k/refs))
		} else if k > 0 {
			es = append(es, ref(k-1))
		}
		for j, e := range es {
			if m, ok := c.g.objs[i].(dgo.Map); ok {
				m.Put(string(rune('a'+j)), e)
			} else {
				c.g.objs[i].(dgo.Array).Add(e)
			}
		}
	}
	return true
}

// typed tells if the type of what v consists of can be told: the type of a sensitive isn't when what it wraps contains itself
func (g *cgraph) typed(v dgo.Value) bool {
	seen := map[dgo.Value]bool{}
	ok := true
	var walk func(v dgo.Value)
	walk = func(v dgo.Value) {
		switch x := v.(type) {
		case dgo.Sensitive:
			ok = false
		case dgo.Map:
			if !seen[v] {
				seen[v] = true
				x.EachValue(walk)
			}
		case dgo.Array:
			if !seen[v] {
				seen[v] = true
				x.Each(walk)
			}
		}
	}
	walk(v)
	return ok
}

func (c *cyclicGen) reads() M {
	g := c.g
	ev := M{"op": "reads", "g": g.list()}
	typed, eq, tin, teq, tas, at, all, cm := J{}, J{}, J{}, J{}, J{}, J{}, J{}, J{}
	for _, a := range g.objs {
		typed = append(typed, g.typed(a))
		e, ti, te, ta, x, al, o := J{}, J{}, J{}, J{}, J{}, J{}, J{}
		for _, b := range g.objs {
			e = append(e, a.Equals(b))
			if g.typed(a) && g.typed(b) {
				ti = append(ti, a.Type().Instance(b))
				te = append(te, a.Type().Equals(b.Type()))
				ta = append(ta, a.Type().Assignable(b.Type()))
			} else {
				ti, te, ta = append(ti, false), append(te, false), append(ta, false)
			}
			i, s := -1, false
			if aa, ok := a.(dgo.Array); ok {
				i = aa.IndexOf(b)
				if bb, ok := b.(dgo.Array); ok {
					s = aa.ContainsAll(bb)
				}
			}
			x, al = append(x, i), append(al, s)
			c, ok := 0, false
			if ca, is := a.(dgo.Comparable); is {
				c, ok = ca.CompareTo(b)
			}
			o = append(o, J{ok, c})
		}
		eq, tin, teq, tas, at, all, cm = append(eq, e), append(tin, ti), append(teq, te), append(tas, ta), append(at, x), append(all, al), append(cm, o)
	}
	ev["typed"], ev["eq"], ev["tin"], ev["teq"], ev["tas"], ev["at"], ev["all"], ev["cmp"] = typed, eq, tin, teq, tas, at, all, cm
	ev["h"] = g.list()
	return ev
}

func (c *cyclicGen) freeze(n int) M {
	ev := M{"op": "freeze", "g": c.g.list(), "n": n + 1}
	c.g.objs[n].(dgo.Freezable).Freeze()
	ev["h"] = c.g.list()
	return ev
}

func (c *cyclicGen) copied(n int, frozen bool) M {
	g := c.g
	ev := M{"op": "copy", "g": g.list(), "n": n + 1, "frozen": frozen}
	v := g.objs[n]
	var x dgo.Value
	if frozen {
		x = v.(dgo.Freezable).FrozenCopy()
	} else {
		x = v.(dgo.Freezable).ThawedCopy()
	}
	ev["m"] = g.add(x)
	ev["h"] = g.list()
	same := J{}
	say := func(what string, f func(dgo.Value) interface{}) {
		if f(v) != f(x) {
			same = append(same, what)
		}
	}
	say("hash", func(v dgo.Value) interface{} { return v.HashCode() })
	say("hash again", func(v dgo.Value) interface{} { return v.HashCode() })
	say("string", func(v dgo.Value) interface{} { return v.String() })
	say("print", func(v dgo.Value) interface{} { return fmt.Sprintf("%v %s", v, v) })
	if g.typed(v) {
		say("type", func(v dgo.Value) interface{} { return v.Type().String() })
		say("hash of type", func(v dgo.Value) interface{} { return v.Type().HashCode() })
	}
	say("key", func(u dgo.Value) interface{} {
		return vf.Map(v, 1).Get(u) != nil && vf.Map(u, 1).Get(v) != nil && vf.Map(u, 1, v, 2).Len() == 1
	})
	if vf.Map(v, 1).Get(x) == nil || vf.MutableMap(v, 1, x, 2).Len() != 1 {
		same = append(same, "not found")
	}
	if vf.Values(v, x, v).Unique().Len() != 1 || vf.Values(v, 1).IndexOf(x) != 0 {
		same = append(same, "not unique")
	}
	ev["same"] = same
	return ev
}

func (c *cyclicGen) with(n, k int) M {
	g := c.g
	ev := M{"op": "with", "g": g.list(), "n": n + 1}
	switch x := g.objs[n].(type) {
	case dgo.Array:
		if y, ok := g.objs[k].(dgo.Array); ok && c.r.Intn(2) == 0 {
			ev["what"], ev["arg"] = "withAll", J{g.ref(y)}
			ev["m"] = g.add(x.WithAll(y))
		} else {
			ev["what"], ev["arg"] = "with", J{g.ref(g.objs[k])}
			ev["m"] = g.add(x.With(g.objs[k]))
		}
	case dgo.Map:
		y, ok := g.objs[k].(dgo.Map)
		if !ok {
			return nil
		}
		ev["what"], ev["arg"] = "merge", J{g.ref(y)}
		ev["m"] = g.add(x.Merge(y))
	default:
		return nil
	}
	ev["h"] = g.list()
	return ev
}

// ctypes makes texts and graphs of types
type ctypes struct {
	r     *rand.Rand
	t     J
	names int
}

// typ makes a type. The names are of the types that it is within
func (c *ctypes) typ(d int, names []string, ids []int) (string, int) {
	if len(ids) > 0 && c.r.Intn(3) > 0 {
		i := c.r.Intn(len(ids))
		return names[i], ids[i]
	}
	n := len(c.t)
	c.t = append(c.t, nil)
	put := func(s string, j J) (string, int) {
		c.t[n] = j
		return s, n + 1
	}
	if d <= 0 || c.r.Intn(5) == 0 {
		switch c.r.Intn(6) {
		case 0:
			return put("any", J{"any"})
		case 1, 2:
			return put("int", J{"int"})
		case 3, 4:
			return put("string", J{"str"})
		}
		return put("1", J{"v", "i1"})
	}
	if c.r.Intn(4) == 0 {
		// the alternatives are collections or scalars, not what it is within
		op, js := []string{"|", "&"}[c.r.Intn(6)/5], J{}
		ss := []string{}
		for i := 2 + c.r.Intn(2); i > 0; i-- {
			s, t := c.coll(d-1, names, ids)
			if strings.Contains(s, "=") {
				s = "(" + s + ")" // a name is for all that follows
			}
			ss, js = append(ss, s), append(js, t)
		}
		return put("("+strings.Join(ss, op)+")", J{map[string]string{"|": "or", "&": "and"}[op], js})
	}
	c.t = c.t[:n]
	return c.coll(d, names, ids)
}

func (c *ctypes) coll(d int, names []string, ids []int) (string, int) {
	n := len(c.t)
	c.t = append(c.t, nil)
	pre := ""
	if d < 0 || c.r.Intn(6) == 0 {
		c.t[n] = J{"int"}
		return "int", n + 1
	}
	if c.r.Intn(4) > 0 {
		c.names++
		pre = fmt.Sprintf("x%d", c.names)
		names = append(append([]string{}, names...), pre)
		ids = append(append([]int{}, ids...), n+1)
		pre += "="
	}
	s := ""
	size := func() (string, int, int) {
		if c.r.Intn(2) == 0 {
			return "", 0, 1000
		}
		a := c.r.Intn(3)
		b := a + c.r.Intn(3)
		return fmt.Sprintf("%d,%d", a, b), a, b
	}
	switch c.r.Intn(9) {
	case 0, 1, 2:
		b, min, max := size()
		e, t := c.typ(d-1, names, ids)
		s = "[" + b + "]" + e
		c.t[n] = J{"arr", t, min, max}
	case 3:
		b, min, max := size()
		e, t := c.typ(d-1, names, ids)
		if b != "" {
			b = "," + b
		}
		s = "map[string" + b + "]" + e
		c.t[n] = J{"map", t, min, max}
	case 4, 5:
		es, js := []string{}, J{}
		for i := c.r.Intn(4); i > 0; i-- {
			e, t := c.typ(d-1, names, ids)
			es, js = append(es, e), append(js, t)
		}
		s = "{" + strings.Join(es, ",") + "}"
		if len(es) == 0 {
			s = "[0,0]any"
			c.t[n] = J{"tup", J{}}
		}
		c.t[n] = J{"tup", js}
	case 6, 7:
		es, js := []string{}, J{}
		for _, k := range []string{"a", "b", "c"}[:1+c.r.Intn(3)] {
			e, t := c.typ(d-1, names, ids)
			q, req := "", true
			if c.r.Intn(2) == 0 {
				q, req = "?", false
			}
			es, js = append(es, k+q+":"+e), append(js, J{k, req, t})
		}
		more := c.r.Intn(3) == 0
		if more {
			es = append(es, "...")
		}
		s = "{" + strings.Join(es, ",") + "}"
		c.t[n] = J{"struct", js, more}
	default:
		e, t := c.coll(d-1, names, ids) // not a literal value
		s = "sensitive[" + e + "]"
		c.t[n] = J{"sens", t}
	}
	return pre + s, n + 1
}

func (c *cyclicGen) types() M {
	ev := M{"op": "types", "g": c.g.list()}
	ct := &ctypes{r: c.r}
	ts, texts, roots := []dgo.Type{}, J{}, J{}
	for i := 0; i < 3; i++ {
		ct.names = 0
		s, t := ct.coll(1+c.r.Intn(3), nil, nil)
		for k := c.r.Intn(3) / 2; k >= 0; k-- {
			var ty dgo.Type
			am := tf.BuiltInAliases()
			tf.AddAliases(&am, &sync.Mutex{}, func(a dgo.AliasAdder) { ty = tf.ParseFile(a, "", s).(dgo.Type) })
			ts, texts, roots = append(ts, ty), append(texts, s), append(roots, t)
		}
	}
	ev["t"], ev["roots"], ev["text"] = ct.t, roots, texts
	in, asg, eq, hash := J{}, J{}, J{}, J{}
	for _, t := range ts {
		i, a, e := J{}, J{}, J{}
		for _, v := range c.g.objs {
			i = append(i, t.Instance(v))
		}
		for _, u := range ts {
			a, e = append(a, t.Assignable(u)), append(e, t.Equals(u))
		}
		in, asg, eq, hash = append(in, i), append(asg, a), append(eq, e), append(hash, fmt.Sprint(t.HashCode()))
		_ = t.String()
		_ = t.Type().String()
	}
	ev["in"], ev["asg"], ev["eq"], ev["hash"], ev["h"] = in, asg, eq, hash, c.g.list()
	return ev
}

func recCyclic(c *cfg) {
	rec := newRecorder(c.out)
	g := &cyclicGen{r: rand.New(rand.NewSource(c.seed*1201 + int64(c.shard)))}
	emit := func(f func() M) {
		rec.guarded(func() {
			if ev := f(); ev != nil {
				rec.count(fmt.Sprint(ev["op"]))
				rec.emit(ev)
			}
		})
	}
	if c.mode != "" {
		// all graphs
		n, maps := int(c.mode[0]-'0'), strings.HasSuffix(c.mode, "m")
		for k := 0; g.build(k, n, maps); k++ {
			if k%8 != c.shard%8 {
				continue
			}
			emit(g.reads)
			emit(func() M { return g.copied(k/8%n, k/8%2 == 0) })
		}
		rec.close()
		return
	}
	if c.shard == 0 {
		// one process for each
		names := []string{}
		for k := range cyclicDeep() {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
			err := exec.CommandContext(ctx, os.Args[0], "cyclicdeep", "-mode", k).Run()
			cancel()
			rec.emit(M{"op": "deep", "what": k, "ends": err == nil})
		}
	}
	for rec.n < c.n {
		g.make()
		switch g.r.Intn(6) {
		case 0, 1:
			emit(g.reads)
		case 2:
			emit(func() M { return g.copied(g.r.Intn(len(g.g.objs)), g.r.Intn(2) == 0) })
		case 3:
			emit(func() M { return g.with(g.r.Intn(len(g.g.objs)), g.r.Intn(len(g.g.objs))) })
		case 4:
			emit(g.types)
		default:
			emit(func() M { return g.freeze(g.r.Intn(len(g.g.objs))) })
		}
	}
	rec.close()
}
