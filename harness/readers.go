package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// Recordings of goroutines that read the same frozen values (P21)

func init() { commands["readers"] = recReaders }

type readerS struct {
	A int
	B string
	C []string
	D dgo.Array
	E map[string]int
	F *string
}

// readerSpecials are frozen values that Types.tla doesn't know
var readerSpecials = []func(n int) dgo.Value{
	func(n int) dgo.Value {
		f := "f"
		s := vf.Map(&readerS{A: n, B: "bb", C: []string{"x", "y"}, D: vf.MutableValues("d", n), E: map[string]int{"e": n}, F: &f})
		s.Freeze()
		return s
	},
	func(n int) dgo.Value { return vf.Value(func(a int, b ...string) string { return fmt.Sprint(a, b) }) },
	func(n int) dgo.Value { return vf.Sensitive(vf.Values("secret", n, vf.Map("k", "v"))) },
	func(n int) dgo.Value { return vf.Map("a", 1, "b", vf.Values("x", "y", vf.Map("z", n))).Type() },
	func(n int) dgo.Value {
		a := vf.MutableValues("x", n)
		a.Add(vf.MutableMap("self", "y"))
		a.Get(2).(dgo.Map).Put("self", a)
		return a.FrozenCopy()
	},
	func(n int) dgo.Value { return vf.Binary([]byte{1, 2, byte(n)}, true) },
	func(n int) dgo.Value { return vf.Arguments([]interface{}{"a", n, vf.Strings("b", "c")}) },
	func(n int) dgo.Value {
		return vf.Map("a", map[string]string{"type": "string"}, "b", vf.Map("type", "int", "required", true))
	},
	func(n int) dgo.Value { return readerNamed.New(vf.Strings("nm", "x")) },
}

var readerNames int64

var readerNamed = tf.NewNamed("readerNamed",
	func(v dgo.Value) dgo.Value { return readerName(v.String()) },
	func(v dgo.Value) dgo.Value { return vf.String(string(v.(readerName))) },
	reflect.TypeOf(readerName("")), nil, nil)

type readerName string

func (n readerName) Equals(other interface{}) bool { return n == other }
func (n readerName) HashCode() int                 { return len(n) }
func (n readerName) String() string                { return "name:" + string(n) }
func (n readerName) Type() dgo.Type                { return tf.ExactNamed(readerNamed, n) }

var readerTypes = []string{
	`{"a":int,"b"?:[]string}`, `map[string](int|string)`, `[]{"a","b"}`, `/ab*/`, `"a"|"b"|int`, `[2,3](int&!0)`, `func(string,...int) string`,
	`rt={"x":int,"next"?:rt}`, `map[string]dgo`, `type[string]`, `sensitive[string]`, `{string,...int}`, `1.0..2.5`, `3..8`, `!string`, `~"Ab"`}

func (g *tgen) readerType() (recursive bool, _ func() dgo.Type) {
	src := readerTypes[g.pick(len(readerTypes))]
	return src[:2] == "rt", func() (t dgo.Type) {
		tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { t = tf.ParseFile(aa, "", src).(dgo.Type) })
		return
	}
}

// show is a text that tells values from each other
func show(v dgo.Value) string {
	if v == nil {
		return "nothing"
	}
	return fmt.Sprintf("%T %s", v, v)
}

func shows(vs []dgo.Value) string {
	ss := make([]string, len(vs))
	for i := range vs {
		ss[i] = show(vs[i])
	}
	return strings.Join(ss, "; ")
}

// meddle changes a value that is the caller's own
func meddle(v dgo.Value, d int) {
	switch v := v.(type) {
	case dgo.Array:
		if v.Frozen() {
			return
		}
		if d > 0 {
			v.Each(func(e dgo.Value) { meddle(e, d-1) })
		}
		v.Add("meddled")
		v.Set(0, "first")
		if v.Len() > 2 {
			v.Remove(1)
		}
	case dgo.Struct:
		if !v.Frozen() {
			v.Put("A", 77)
			meddle(v.Get("D"), d-1)
		}
	case dgo.Map:
		if v.Frozen() {
			return
		}
		if d > 0 {
			v.EachValue(func(e dgo.Value) { meddle(e, d-1) })
		}
		v.Put("meddled", 1)
		if v.Len() > 2 {
			v.Remove(v.Keys().Get(0))
		}
	}
}

type rgroup struct {
	vs []dgo.Value
	ts []dgo.Type
}

func (r *rgroup) v(i int) dgo.Value { return r.vs[(i-1)%len(r.vs)] }
func (r *rgroup) t(i int) dgo.Type  { return r.ts[(i-1)%len(r.ts)] }

// readerOps are what readers do. The result is a text.
var readerOps = map[string]func(r *rgroup, i, j int) string{
	"eq":      func(r *rgroup, i, j int) string { return fmt.Sprint(r.v(i).Equals(r.v(j))) },
	"in":      func(r *rgroup, i, j int) string { return fmt.Sprint(r.t(j).Instance(r.v(i))) },
	"hash":    func(r *rgroup, i, j int) string { return fmt.Sprint(r.v(i).HashCode()) },
	"string":  func(r *rgroup, i, j int) string { return r.v(i).String() },
	"format":  func(r *rgroup, i, j int) string { return fmt.Sprintf("%v %s", r.v(i), r.v(j)) },
	"pretty":  func(r *rgroup, i, j int) string { return stringer.TypeString(r.v(i).Type()) },
	"typeof":  func(r *rgroup, i, j int) string { return r.v(i).Type().String() },
	"generic": func(r *rgroup, i, j int) string { return typ.Generic(r.v(i).Type()).String() },
	"exact":   func(r *rgroup, i, j int) string { return fmt.Sprint(r.v(i).Type().Instance(r.v(j))) },
	"exacta": func(r *rgroup, i, j int) string {
		return fmt.Sprint(r.t(i).Assignable(r.v(j).Type()), r.v(j).Type().Assignable(r.v(i).Type()))
	},
	"exacth": func(r *rgroup, i, j int) string {
		return fmt.Sprint(r.v(i).Type().HashCode(), r.v(i).Type().Equals(r.v(j).Type()))
	},
	"asg":     func(r *rgroup, i, j int) string { return fmt.Sprint(r.t(i).Assignable(r.t(j))) },
	"teq":     func(r *rgroup, i, j int) string { return fmt.Sprint(r.t(i).Equals(r.t(j))) },
	"thash":   func(r *rgroup, i, j int) string { return fmt.Sprint(r.t(i).HashCode()) },
	"tstring": func(r *rgroup, i, j int) string { return r.t(i).String() },
	"tgen":    func(r *rgroup, i, j int) string { return typ.Generic(r.t(i)).String() },
	"tmeta": func(r *rgroup, i, j int) string {
		return r.t(i).Type().String() + fmt.Sprint(r.t(i).Type().Instance(r.t(j)))
	},
	"tnew": func(r *rgroup, i, j int) string { return show(vf.New(r.t(i), r.v(j))) },
	"cmp": func(r *rgroup, i, j int) string {
		if c, ok := r.v(i).(dgo.Comparable); ok {
			x, ok := c.CompareTo(r.v(j))
			return fmt.Sprint(x, ok)
		}
		return ""
	},
	"json":  func(r *rgroup, i, j int) string { return string(streamer.MarshalJSON(r.v(i), nil)) },
	"tjson": func(r *rgroup, i, j int) string { return string(streamer.MarshalJSON(r.t(i), nil)) },
	"stream": func(r *rgroup, i, j int) string {
		ds := streamer.DataCollector()
		streamer.New(nil, streamer.DefaultOptions()).Stream(vf.Values(r.v(i), r.v(j)), ds)
		return show(ds.Value())
	},
	"frozen": func(r *rgroup, i, j int) string {
		f, ok := r.v(i).(dgo.Freezable)
		if ok {
			f.Freeze()
			c := f.FrozenCopy()
			return fmt.Sprint(f.Frozen(), c.Equals(r.v(i)))
		}
		return ""
	},
	"thaw": func(r *rgroup, i, j int) string {
		if f, ok := r.v(i).(dgo.Freezable); ok {
			c := f.ThawedCopy()
			meddle(c, 2)
			return show(c)
		}
		return ""
	},
	"copy": func(r *rgroup, i, j int) string {
		switch v := r.v(i).(type) {
		case dgo.Array:
			c := v.Copy(false)
			meddle(c, 0)
			return show(c)
		case dgo.Map:
			c := v.Copy(false)
			meddle(c, 0)
			return show(c)
		case dgo.Binary:
			return show(v.Copy(false))
		}
		return ""
	},
	"with": func(r *rgroup, i, j int) string {
		switch v := r.v(i).(type) {
		case dgo.Array:
			return show(v.With(r.v(j)))
		case dgo.Map:
			return show(v.With("meddled", r.v(j))) + show(v.With(r.v(j), "v")) + show(v.Without("a"))
		}
		return ""
	},
	"join": func(r *rgroup, i, j int) string {
		switch v := r.v(i).(type) {
		case dgo.Array:
			if w, ok := r.v(j).(dgo.Array); ok {
				return show(v.WithAll(w))
			}
		case dgo.Map:
			if w, ok := r.v(j).(dgo.Map); ok {
				return show(v.Merge(w)) + fmt.Sprint(w.ContainsKey("a"))
			}
		}
		return ""
	},
	"walk": func(r *rgroup, i, j int) string {
		switch v := r.v(i).(type) {
		case dgo.Array:
			return show(v.Map(func(e dgo.Value) interface{} { return e.HashCode() })) + show(v.Select(func(e dgo.Value) bool { return e.Equals(r.v(j)) })) +
				fmt.Sprint(v.IndexOf(r.v(j)))
		case dgo.Map:
			return show(v.Map(func(e dgo.MapEntry) interface{} { return e.Key().HashCode() })) + show(v.Keys()) + show(v.Values()) + show(v.Get(r.v(j)))
		}
		return ""
	},
	"order": func(r *rgroup, i, j int) string {
		if v, ok := r.v(i).(dgo.Array); ok {
			return show(v.Unique()) + show(v.Flatten()) + show(v.Sort())
		}
		return ""
	},
	"go": func(r *rgroup, i, j int) string {
		var x interface{}
		vf.FromValue(r.v(i), &x)
		return fmt.Sprintf("%T", x)
	},
	"gostruct": func(r *rgroup, i, j int) string {
		if v, ok := r.v(i).(dgo.Struct); ok {
			s := v.GoStruct().(*readerS)
			s.C[0] = "changed"
			*s.F += "x"
			s.E["n"] = 3
			return fmt.Sprint(s.A, s.B, s.C, len(s.E), *s.F)
		}
		return ""
	},
	"call": func(r *rgroup, i, j int) string {
		if v, ok := r.v(i).(dgo.Function); ok {
			return shows(v.Call(vf.Values(3, "x", "y")))
		}
		return ""
	},
	"unwrap": func(r *rgroup, i, j int) string {
		if v, ok := r.v(i).(dgo.Sensitive); ok {
			return show(v.Unwrap()) + fmt.Sprint(v.Unwrap().HashCode())
		}
		return ""
	},
	"structmap": func(r *rgroup, i, j int) string {
		if v, ok := r.v(i).(dgo.Map); ok {
			return tf.StructMapFromMap(false, v).String()
		}
		return ""
	},
	"parse": func(r *rgroup, i, j int) string {
		return tf.ParseType([]string{`[]"a"|{"a":int}`, `map[string]data`, `{int,...richData}`}[(i+j)%3]).String()
	},
	"newnamed": func(r *rgroup, i, j int) string {
		n := tf.NewNamed(fmt.Sprintf("rn%d", atomic.AddInt64(&readerNames, 1)), func(v dgo.Value) dgo.Value { return v }, nil,
			reflect.TypeOf(readerS{}), reflect.TypeOf((*dgo.Value)(nil)).Elem(), nil)
		s := fmt.Sprint(tf.Named(n.Name()).Equals(n), n.HashCode() == tf.Named(n.Name()).HashCode(), n.New(r.v(i)).Equals(r.v(i)))
		tf.RemoveNamed(n.Name())
		return s + fmt.Sprint(tf.Named(n.Name()))
	},
	"alias": func(r *rgroup, i, j int) string {
		was := tf.DefaultAliases()
		am := was.Collect(func(aa dgo.AliasAdder) { aa.Add(r.t(i), vf.String(fmt.Sprint("readerAlias", j))) })
		n := am.GetType(vf.String(fmt.Sprint("readerAlias", j)))
		return fmt.Sprint(n.Equals(r.t(i)), tf.BuiltInAliases().GetType(vf.String("data")), was.GetType(vf.String("readerAlias1")))
	},
	"defalias": func(r *rgroup, i, j int) string {
		tf.AddDefaultAliases(func(aa dgo.AliasAdder) {
			aa.Add(vf.String(fmt.Sprint("the default ", j)).Type(), vf.String(fmt.Sprint("readerDefault", j)))
		})
		return tf.ParseType(fmt.Sprintf("[]readerDefault%d", j)).String()
	},
	"named": func(r *rgroup, i, j int) string {
		return fmt.Sprint(tf.Named("readerNamed"), tf.NamedFromReflected(reflect.TypeOf(readerName(""))), tf.ParseType("readerNamed"))
	},
}

func recReaders(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1091 + int64(c.shard))), noNative: true}
	names := []string{}
	for k := range readerOps {
		names = append(names, k)
	}
	sort.Strings(names)
	for rec.n < c.n {
		vs, ts := []*va{}, []*ty{}
		for i := 0; i < 4; i++ {
			v := g.val(g.pick(4))
			if i > 0 && g.chance(3) {
				v = vs[i-1]
			} else if i > 0 && g.chance(3) {
				v = g.mutate(vs[i-1])
			}
			vs = append(vs, v)
		}
		for i := 0; i < 3; i++ {
			t := g.typ(1 + g.pick(2))
			if g.chance(2) {
				t = g.widen(vs[g.pick(4)], 2)
			}
			ts = append(ts, t)
		}
		var ve, te J
		if !encodable(func() { ve, te = encVs(vs), encTs(ts) }) {
			continue
		}
		ev := env(ts, vs, M{"op": "round", "vs": ve, "ts": te})
		rec.guarded(func() {
			s1, s2, n := g.pick(len(readerSpecials)), g.pick(len(readerSpecials)), g.pick(3)
			recursive, t1 := g.readerType()
			make1 := func() *rgroup {
				r := &rgroup{}
				for _, v := range vs {
					r.vs = append(r.vs, v.real())
				}
				r.vs = append(r.vs, readerSpecials[s1](n), readerSpecials[s2](n+1))
				for _, t := range ts {
					r.ts = append(r.ts, t.real())
				}
				r.ts = append(r.ts, t1())
				return r
			}
			ops := J{}
			reads := []func(r *rgroup) string{}
			for k := 12 + g.pick(12); k > 0; k-- {
				name, i, j := names[g.pick(len(names))], 1+g.pick(6), 1+g.pick(6)
				switch name {
				case "in":
					j = 1 + g.pick(4)
				case "gostruct", "call", "unwrap":
					i = 5 + g.pick(2)
				}
				if (s1 == 1 && i == 5 || s2 == 1 && i == 6) && (name == "hash" || name == "format" || name == "exacth" || name == "walk") {
					i = 1 // the hash code of a function is an address
				}
				if recursive && name == "tgen" {
					i = 1
				}
				if s1 == 4 && i == 5 || s2 == 4 && i == 6 {
					switch name { // not for what contains itself
					case "generic", "order", "json", "thaw", "stream", "copy", "go":
						i = 2
					}
				}
				if strings.Contains("order thaw copy structmap", name) && g.chance(2) {
					i = 1 + g.pick(2)
				}
				f := readerOps[name]
				rec.count(name)
				ops = append(ops, J{name, i, j})
				reads = append(reads, func(r *rgroup) (s string) {
					if failed, what := try(func() { s = f(r, i, j) }); failed {
						s = "panic: " + what
					}
					return
				})
			}
			describe := func(r *rgroup) J {
				d := J{}
				for _, v := range r.vs {
					d = append(d, show(v))
				}
				for _, t := range r.ts {
					d = append(d, t.String())
				}
				return d
			}
			shared := make1()
			before := J{}
			if g.chance(2) {
				before = describe(shared)
			}
			procs := 2 + g.pick(3)
			seen := make([]J, procs)
			order := make([][]int, procs)
			for p := range order {
				order[p] = g.r.Perm(len(reads))
				seen[p] = make(J, len(reads))
			}
			var wg sync.WaitGroup
			start := make(chan bool)
			for p := 0; p < procs; p++ {
				wg.Add(1)
				go func(p int) {
					defer wg.Done()
					<-start
					for _, k := range order[p] {
						seen[p][k] = reads[k](shared)
					}
				}(p)
			}
			close(start)
			wg.Wait()
			after := describe(shared)
			// alone: every read has a group of its own. This comes last because what is made when it's first needed
			// must be made by the goroutines
			alone := J{}
			for _, f := range reads {
				alone = append(alone, f(make1()))
			}
			if len(before) == 0 {
				before = describe(make1())
			}
			ev["ops"], ev["alone"], ev["seen"], ev["before"], ev["after"] = ops, alone, seen, before, after
			rec.emit(ev)
		})
	}
	rec.close()
}
