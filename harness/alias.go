package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
)

func init() {
	commands["alias"] = recAlias
	commands["aliasfree"] = recAliasFree
	commands["replayalias"] = replayAlias
}

// aop is one operation of a script
type aop struct {
	Op   string `json:"op"`
	Name string `json:"name,omitempty"`
	V    int    `json:"v,omitempty"`
	T    lst    `json:"t,omitempty"`
}

// acall is a call
type acall struct {
	On     string `json:"on"`
	I      int    `json:"i"`
	Script []aop  `json:"script"`
}

func (o *acall) event() interface{} {
	sc := lst{}
	for i := range o.Script {
		sc = append(sc, o.Script[i])
	}
	return map[string]interface{}{"on": o.On, "i": o.I, "script": sc}
}

// aworld is what Alias.tla describes
type aworld struct {
	mu    sync.Mutex
	ids   map[dgo.Type]int
	types map[int]dgo.Type
	maps  []dgo.AliasMap
	vars  []dgo.AliasMap // all but the first variable, which is the default aliases
	lock  sync.Mutex
	n     int
	busy  []bool
	res   []chan struct{}
	ctl   chan lst
	free  bool
	names []string
	hot   []string // names that are likely to be known by a call
}

var anames = []string{"ta", "tb", "tc", "td"}

func newAworld(np, nv int, free bool) *aworld {
	w := &aworld{ids: map[dgo.Type]int{}, types: map[int]dgo.Type{}, ctl: make(chan lst), free: free, names: anames}
	tf.VerifResetDefaultAliases()
	w.maps = []dgo.AliasMap{tf.BuiltInAliases()}
	for i := 1; i < nv; i++ {
		w.vars = append(w.vars, tf.BuiltInAliases())
	}
	for i := 0; i < np; i++ {
		w.busy = append(w.busy, false)
		w.res = append(w.res, make(chan struct{}))
	}
	return w
}

// real type of a term
func aliasTerm(t lst) dgo.Type {
	switch t[0] {
	case "al":
		return parser.NewAlias(vf.String(t[1].(string)))
	case "intr":
		return tf.Integer(int64(toInt(t[1])/4), int64(toInt(t[2])/4), t[3].(bool))
	case "arrz":
		return tf.Array(aliasTerm(t[1].([]interface{})), realSize(int64(toInt(t[2]))), realSize(int64(toInt(t[3]))))
	case "anyof":
		os := t[1].([]interface{})
		return tf.AnyOf(aliasTerm(os[0].([]interface{})), aliasTerm(os[1].([]interface{})))
	case "struct":
		e := t[1].([]interface{})[0].([]interface{})
		return tf.StructMap(t[2].(bool), tf.StructMapEntry("k", aliasTerm(e[1].([]interface{})), e[2].(bool)))
	}
	panic("no such term")
}

func aliasText(t lst) string {
	switch t[0] {
	case "al":
		return t[1].(string)
	case "intr":
		d := ".."
		if !t[3].(bool) {
			d = "..."
		}
		return strconv.Itoa(toInt(t[1])/4) + d + strconv.Itoa(toInt(t[2])/4)
	case "arrz":
		if s := sizeSrc(int64(toInt(t[2])), int64(toInt(t[3])), true); s != "" {
			return "[" + s + "]" + aliasText(t[1].([]interface{}))
		}
		return "[]" + aliasText(t[1].([]interface{}))
	case "anyof":
		os := t[1].([]interface{})
		return "(" + aliasText(os[0].([]interface{})) + "|" + aliasText(os[1].([]interface{})) + ")"
	case "struct":
		e := t[1].([]interface{})[0].([]interface{})
		q, more := "", ""
		if !e[2].(bool) {
			q = "?"
		}
		if t[2].(bool) {
			more = ",..."
		}
		return "{k" + q + ":" + aliasText(e[1].([]interface{})) + more + "}"
	}
	panic("no such term")
}

func (w *aworld) know(v int, t dgo.Type) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if _, ok := w.ids[t]; !ok {
		w.ids[t] = v
		w.types[v] = t
	}
}

func (w *aworld) version(t dgo.Type) int {
	if t == nil {
		return 0
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if v, ok := w.ids[t]; ok {
		return v
	}
	return -1
}

func (w *aworld) script(p int, ops []aop, obs *lst) func(dgo.AliasAdder) {
	return func(a dgo.AliasAdder) {
		for _, o := range ops {
			switch o.Op {
			case "gate":
				if w.free {
					runtime.Gosched()
				} else {
					w.ctl <- lst{"gate"}
					<-w.res[p]
				}
			case "add":
				t := aliasTerm(o.T)
				w.know(o.V, t)
				a.Add(t, vf.String(o.Name))
			case "give":
				w.mu.Lock()
				t := w.types[o.V]
				w.mu.Unlock()
				a.Add(t, vf.String(o.Name))
			case "get":
				*obs = append(*obs, w.version(a.GetType(vf.String(o.Name))))
			case "parse":
				tf.ParseFile(a, "", o.Name+"="+aliasText(o.T))
				w.know(o.V, a.GetType(vf.String(o.Name)))
			}
		}
	}
}

func aliasPanic(x interface{}) string {
	s := fmt.Sprint(x)
	for _, c := range [][2]string{{"reference to unresolved", "unresolved"}, {"attempt to redeclare", "redeclare"}} {
		if strings.Contains(s, c[0]) {
			return c[1]
		}
	}
	return s
}

// variable returns the map that a variable holds
func (w *aworld) variable(i int) dgo.AliasMap {
	if i == 1 {
		return tf.DefaultAliases()
	}
	w.lock.Lock()
	defer w.lock.Unlock()
	return w.vars[i-2]
}

// index of a map. A map that isn't known is added
func (w *aworld) index(m dgo.AliasMap) int {
	for i := range w.maps {
		if w.maps[i] == m {
			return i + 1
		}
	}
	w.maps = append(w.maps, m)
	return len(w.maps)
}

func (w *aworld) perform(p int, o *acall) (out lst) {
	defer func() {
		if x := recover(); x != nil {
			out = lst{"panic", aliasPanic(x)}
		}
	}()
	obs := lst{}
	sc := w.script(p, o.Script, &obs)
	if o.On == "map" {
		w.lock.Lock()
		m := w.maps[o.I-1]
		w.lock.Unlock()
		return lst{"done", obs, m.Collect(sc), &obs}
	}
	if o.I == 1 {
		tf.AddDefaultAliases(sc)
	} else {
		tf.AddAliases(&w.vars[o.I-2], &w.lock, sc)
	}
	return lst{"done", obs, nil, &obs}
}

func (w *aworld) call(p int, o *acall, cont bool) lst {
	w.busy[p] = true
	if cont {
		w.res[p] <- struct{}{}
	} else {
		go func() {
			out := w.perform(p, o)
			if out[0] == "done" {
				out[1] = *out[3].(*lst)
				m, ok := out[2].(dgo.AliasMap)
				if !ok {
					m = w.variable(o.I)
				}
				out = lst{"done", out[1], w.index(m)}
			}
			w.ctl <- out
		}()
	}
	out := <-w.ctl
	if out[0] != "gate" {
		w.busy[p] = false
	}
	return out
}

// the values that types are probed with
func aliasProbes() []*va {
	i := func(n int64) *va { return &va{K: "i", I: n} }
	a := func(vs ...*va) *va { return &va{K: "arr", Vs: vs} }
	m := func(v *va) *va { return &va{K: "map", Es: [][2]*va{{&va{K: "s", S: "k"}, v}}} }
	return []*va{i(0), i(1), i(2), i(3), a(), a(i(0)), a(i(3)), a(a()), a(i(1), a(i(1))), a(a(a())), m(i(1)), m(a()), m(m(i(0))),
		a(m(i(2))), a(m(i(0))), m(m(m(a()))), {K: "map"}, m(a(m(a(i(1))))), a(i(0), i(1), i(2), i(3), i(4))}
}

// describe describes a map
func (w *aworld) describe(m int, vs []*va) interface{} {
	am := w.maps[m-1]
	es, ns, is := lst{}, lst{}, lst{}
	for _, n := range w.names {
		if t := am.GetType(vf.String(n)); t != nil {
			v := w.version(t)
			es = append(es, lst{n, v})
			rs := lst{}
			for _, x := range vs {
				rs = append(rs, t.Instance(x.real()))
			}
			is = append(is, lst{v, rs})
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for v := range w.types {
		if _, ok := w.types[v].(dgo.Alias); ok || !w.committed(v) {
			continue
		}
		n := am.GetName(w.types[v])
		s := ""
		if n != nil {
			s = n.GoString()
		}
		ns = append(ns, lst{v, s})
	}
	sortLst(ns)
	return map[string]interface{}{"m": m, "entries": es, "names": ns, "inst": is}
}

func sortLst(l lst) {
	for i := range l {
		for j := i; j > 0 && l[j].([]interface{})[0].(int) < l[j-1].([]interface{})[0].(int); j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// committed tells whether a type is in a map. Others may have unresolved references
func (w *aworld) committed(v int) bool {
	for _, m := range w.maps {
		for _, n := range w.names {
			if t := m.GetType(vf.String(n)); t != nil && t == w.types[v] {
				return true
			}
		}
	}
	return false
}

func (w *aworld) observe(ev map[string]interface{}, before, old int, vs []*va) {
	v := lst{}
	for i := 0; i <= len(w.vars); i++ {
		v = append(v, w.index(w.variable(i+1)))
	}
	ev["V"] = v
	n := lst{}
	for i := before + 1; i <= len(w.maps); i++ {
		n = append(n, w.describe(i, vs))
	}
	ev["new"] = n
	ev["old"] = lst{}
	if old > 0 {
		ev["old"] = lst{w.describe(old, vs)}
	}
}

// refName is the name of something that is known, mostly
func (w *aworld) refName(r *rand.Rand) string {
	if len(w.hot) > 0 && r.Intn(6) != 0 {
		return w.hot[r.Intn(len(w.hot))]
	}
	return w.names[r.Intn(len(w.names))]
}

func (w *aworld) randTerm(r *rand.Rand, depth int, top bool) lst {
	leaf := func() lst {
		if !top && r.Intn(2) == 0 {
			return lst{"al", w.refName(r)}
		}
		lo := r.Intn(3)
		inc := r.Intn(4) != 0
		return lst{"intr", 4 * lo, 4 * (lo + 1 + r.Intn(2)), inc}
	}
	k := r.Intn(9)
	if top && r.Intn(6) == 0 {
		return lst{"al", w.refName(r)}
	}
	if depth == 0 || k < 3 {
		return leaf()
	}
	switch k {
	case 3, 4, 5:
		lo, hi := 0, unbounded
		switch r.Intn(4) {
		case 0:
			lo = 1
		case 1:
			hi = 2
		}
		return lst{"arrz", w.randTerm(r, depth-1, false), lo, hi}
	case 6, 7:
		return lst{"struct", lst{lst{lst{"s", codes("k")}, w.randTerm(r, depth-1, false), r.Intn(2) == 0}}, r.Intn(2) == 0}
	}
	// an operand is never a reference. A union that contains itself denotes nothing
	lo := r.Intn(2)
	return lst{"anyof", lst{lst{"intr", 4 * lo, 4 * (lo + 1), true}, lst{"arrz", w.randTerm(r, depth-1, false), 0, unbounded}}}
}

func (w *aworld) randCall(r *rand.Rand, given []int) *acall {
	o := &acall{On: "var", I: 1 + r.Intn(1+len(w.vars))}
	if !w.free && r.Intn(4) == 0 {
		o.On, o.I = "map", 1+r.Intn(len(w.maps))
	}
	w.hot = nil
	m := w.maps[0]
	if o.On == "map" {
		m = w.maps[o.I-1]
	} else if !w.free {
		m = w.variable(o.I)
	}
	for _, n := range w.names {
		if m.GetType(vf.String(n)) != nil {
			w.hot = append(w.hot, n)
		}
	}
	for i := r.Intn(5); i >= 0; i-- {
		s := aop{Name: w.names[r.Intn(len(w.names))]}
		switch k := r.Intn(12); {
		case k < 5:
			w.n++
			w.hot = append(w.hot, s.Name)
			s.Op, s.V, s.T = "add", w.n, w.randTerm(r, 3, true)
		case k < 7:
			w.n++
			for i := range w.hot {
				if s.Name == w.hot[i] && r.Intn(4) != 0 {
					s.Name = w.names[r.Intn(len(w.names))]
				}
			}
			w.hot = append(w.hot, s.Name)
			s.Op, s.V, s.T = "parse", w.n, w.randTerm(r, 3, true)
		case k < 8:
			if len(given) == 0 {
				continue
			}
			s.Op, s.V = "give", given[r.Intn(len(given))]
		case k < 10:
			s.Op = "get"
		default:
			s = aop{Op: "gate"}
		}
		o.Script = append(o.Script, s)
	}
	return o
}

// versions that are in some map
func (w *aworld) given() []int {
	var vs []int
	for v := 1; v <= w.n; v++ {
		if w.types[v] != nil && w.committed(v) {
			vs = append(vs, v)
		}
	}
	return vs
}

func (w *aworld) finish() {
	for p := range w.busy {
		for w.busy[p] {
			w.call(p, nil, true)
		}
	}
}

func encProbes(vs []*va) lst {
	es := lst{}
	for _, v := range vs {
		es = append(es, v.enc())
	}
	return es
}

// P15, the driver decides who runs
func recAlias(c *cfg) {
	rec := newRecorder(c.out)
	r := rand.New(rand.NewSource(c.seed*7919 + int64(c.shard)))
	vs := aliasProbes()
	for rec.n < c.n {
		np, nv := 1+r.Intn(3), 1+r.Intn(2)
		w := newAworld(np, nv, false)
		rec.emit(map[string]interface{}{"op": "reset", "np": np, "nv": nv, "vs": encProbes(vs)})
		for i := 3 + r.Intn(15); i > 0; i-- {
			p := r.Intn(np)
			ev := map[string]interface{}{"p": p + 1}
			before := len(w.maps)
			var out lst
			if w.busy[p] {
				ev["op"] = "resume"
				out = w.call(p, nil, true)
			} else {
				o := w.randCall(r, w.given())
				ev["op"], ev["o"] = "call", o.event()
				out = w.call(p, o, false)
			}
			ev["out"] = out
			old := 0
			if r.Intn(4) == 0 {
				old = 1 + r.Intn(before)
			}
			w.observe(ev, before, old, vs)
			rec.count(fmt.Sprint(ev["op"], " ", out[0]))
			if out[0] == "panic" {
				rec.count(fmt.Sprint("panic ", out[1]))
			}
			rec.emit(ev)
		}
		w.finish()
	}
	rec.close()
}

// P15, the go scheduler decides who runs
func recAliasFree(c *cfg) {
	rec := newRecorder(c.out)
	r := rand.New(rand.NewSource(c.seed*104729 + int64(c.shard)))
	for rec.n < c.n {
		np, nv := 2+r.Intn(3), 1+r.Intn(2)
		w := newAworld(np, nv, true)
		w.names = anames[:2+r.Intn(3)]
		rec.emit(map[string]interface{}{"op": "reset", "np": np, "nv": nv})
		var wg sync.WaitGroup
		start := make(chan struct{})
		var lm sync.Mutex
		log := func(ev map[string]interface{}) {
			lm.Lock()
			defer lm.Unlock()
			rec.emit(ev)
		}
		for p := 0; p < np; p++ {
			var prog []interface{}
			for j := 1 + r.Intn(3); j > 0; j-- {
				if r.Intn(3) == 0 {
					prog = append(prog, map[string]interface{}{"op": "get", "i": 1 + r.Intn(nv), "name": w.names[r.Intn(len(w.names))]})
				} else {
					prog = append(prog, w.randCall(r, nil))
				}
			}
			wg.Add(1)
			go func(p int, prog []interface{}, spin int) {
				defer wg.Done()
				<-start
				for s := 0; s < spin; s++ {
					runtime.Gosched()
				}
				var got dgo.Type
				for _, x := range prog {
					switch o := x.(type) {
					case *acall:
						log(map[string]interface{}{"op": "call", "p": p + 1, "o": o.event()})
						out := w.perform(p, o)
						if out[0] == "done" {
							out = lst{"done", *out[3].(*lst)}
						}
						log(map[string]interface{}{"op": "done", "p": p + 1, "out": out})
					case map[string]interface{}:
						log(map[string]interface{}{"op": "call", "p": p + 1, "o": o})
						got = w.variable(o["i"].(int)).GetType(vf.String(o["name"].(string)))
						v := w.version(got)
						log(map[string]interface{}{"op": "done", "p": p + 1, "out": lst{"done", v}})
						if v > 0 {
							o = map[string]interface{}{"op": "name", "i": o["i"], "v": v}
							log(map[string]interface{}{"op": "call", "p": p + 1, "o": o})
							n := w.variable(o["i"].(int)).GetName(got)
							s := ""
							if n != nil {
								s = n.GoString()
							}
							log(map[string]interface{}{"op": "done", "p": p + 1, "out": lst{"done", s}})
						}
					}
				}
			}(p, prog, r.Intn(10))
		}
		close(start)
		wg.Wait()
		v := lst{}
		for i := 0; i < nv; i++ {
			w.index(w.variable(i + 1))
		}
		for i := 0; i < nv; i++ {
			v = append(v, w.describe(w.index(w.variable(i+1)), nil))
		}
		rec.emit(map[string]interface{}{"op": "end of history", "V": v})
		rec.count("history")
	}
	rec.close()
}

// replayAlias performs the transitions that TLC emitted
func replayAlias(c *cfg) {
	f, err := os.Open(c.in)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	dec := json.NewDecoder(bufio.NewReaderSize(f, 1<<20))
	n, bad := 0, 0
	stats := map[string]int{}
	for dec.More() {
		var cs struct {
			Np   int `json:"np"`
			Nv   int `json:"nv"`
			Path []struct {
				Op string `json:"op"`
				P  int    `json:"p"`
				O  *acall `json:"o"`
			} `json:"path"`
			Out interface{} `json:"out"`
			V   interface{} `json:"v"`
			M   interface{} `json:"m"`
		}
		if err := dec.Decode(&cs); err != nil {
			panic(err)
		}
		w := newAworld(cs.Np, cs.Nv, false)
		var out lst
		for _, s := range cs.Path {
			if (s.Op == "resume") != w.busy[s.P-1] {
				out = lst{"out of step"}
				break
			}
			out = w.call(s.P-1, s.O, s.Op == "resume")
		}
		ev := map[string]interface{}{}
		w.observe(ev, len(w.maps), 0, nil)
		ms := lst{}
		for i := range w.maps {
			es := lst{}
			for _, n := range w.names {
				if t := w.maps[i].GetType(vf.String(n)); t != nil {
					es = append(es, lst{n, w.version(t)})
				}
			}
			ms = append(ms, es)
		}
		if !sameJSON(out, cs.Out) || !sameJSON(ev["V"], cs.V) || !sameJSON(ms, cs.M) {
			if bad++; bad <= 10 {
				bs, _ := json.Marshal(map[string]interface{}{"path": cs.Path, "expected": lst{cs.Out, cs.V, cs.M}, "actual": lst{out, ev["V"], ms}})
				fmt.Printf("MISMATCH %s\n", bs)
			}
		}
		stats[fmt.Sprint("step ", len(cs.Path))]++
		n++
		atomic.AddInt64(&progress, 1)
		w.finish()
	}
	printStats(stats, n)
	fmt.Printf("REPLAYED %d mismatches %d\n", n, bad)
	if bad > 0 {
		os.Exit(1)
	}
}
