package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/vf"
)

func init() {
	commands["loader"] = recLoader
	commands["loaderfree"] = recLoaderFree
	commands["replayloader"] = replayLoader
}

type lst = []interface{}

// lop is a call
type lop struct {
	Op string      `json:"op"`
	L  interface{} `json:"l"`
	K  interface{} `json:"k,omitempty"`
	F  string      `json:"f"`
	C  string      `json:"c"`
}

func (o *lop) event() map[string]interface{} {
	ev := map[string]interface{}{"op": o.Op, "l": o.L}
	if o.Op == "child" {
		ev["f"], ev["c"] = o.F, o.C
	} else if o.K != nil {
		ev["k"] = o.K
	}
	return ev
}

type lproc struct {
	id     int
	busy   bool
	resume chan struct{}
}

// lworld is a hierarchy of loaders and processes that use it
type lworld struct {
	mu     sync.Mutex
	ids    map[dgo.Loader]int
	base   []dgo.Loader
	serial map[dgo.Array]int
	n      int
	procs  []*lproc
	ctl    chan lst // what became of a step

	gated bool
	cur   *lproc
	// in free mode
	log    func(map[string]interface{})
	byGoid map[string]*lproc
	refs   []dgo.Loader
}

// content is a value that a finder finds
func content(s string) dgo.Array { return vf.Values(s) }

func (w *lworld) val(s string, n int) dgo.Array {
	v := content(s)
	w.serial[v] = n
	return v
}

func (w *lworld) add(l dgo.Loader) dgo.Loader {
	w.base = append(w.base, l)
	w.ids[l] = len(w.base)
	return l
}

func boom() { panic(fmt.Errorf("boom")) }

func goid() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	return s[:strings.IndexByte(s, '[')]
}

func (w *lworld) proc() *lproc {
	if w.gated {
		return w.cur
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.byGoid[goid()]
}

// gate is called when a process enters a finder or creator
func (w *lworld) gate(kind string, l dgo.Loader, key string) {
	p := w.proc()
	if w.gated {
		w.ctl <- lst{"gate", lst{kind, w.ids[l], key}}
		<-p.resume
		return
	}
	w.mu.Lock()
	w.log(map[string]interface{}{"op": "gate", "p": p.id, "g": lst{kind, w.ids[l], key}})
	w.mu.Unlock()
	runtime.Gosched()
}

// leave is called when a finder or a creator is about to return
func (w *lworld) leave() {
	if !w.gated {
		p := w.byGoid[goid()]
		w.log(map[string]interface{}{"op": "end", "p": p.id})
	}
}

func (w *lworld) finder(f string) dgo.Finder {
	if f == "" {
		return nil
	}
	return func(l dgo.Loader, key string) interface{} {
		w.gate("find", l, key)
		switch key {
		case "q":
			l.Load("a")
		case "qn":
			l.Load("n")
		case "qx":
			l.Get("x")
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		w.n++
		n := w.n
		w.leave()
		v := func(k string) dgo.Array { return w.val(f+k, n) }
		switch key {
		case "n":
			return nil
		case "p":
			boom()
		case "x":
			return w.val(f+key+strconv.Itoa(n), n)
		case "m", "m2":
			return loader.Multiple(vf.Map("m", v("m"), "m2", v("m2")))
		case "mb":
			return loader.Multiple(vf.Map("b", v("b"), "mb", v("mb")))
		case "mc":
			return loader.Multiple(vf.Map("y", v("y"), "mc", v("mc"), "a", v("other")))
		case "mn":
			return loader.Multiple(vf.Map("mn", nil, "b", v("b")))
		case "w":
			return loader.Multiple(vf.Map("z", v("z")))
		}
		return v(key)
	}
}

func (w *lworld) creator(c string) dgo.NsCreator {
	if c == "" {
		return nil
	}
	return func(l dgo.Loader, name string) dgo.Loader {
		w.gate("create", l, name)
		switch name {
		case "q":
			l.Namespace("s")
		case "qv":
			l.Namespace("v")
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		w.n++
		n := w.n
		w.leave()
		switch name {
		case "n":
			return nil
		case "p":
			boom()
		case "m":
			return w.add(loader.New(l, name, vf.Map("a", w.val(c+"a", 0)), nil, nil))
		case "v":
			return w.add(loader.New(l, name, vf.Map("a", w.val(c+"a"+strconv.Itoa(n), 0)), nil, nil))
		case "j":
			return w.add(loader.New(l, name, vf.Map("a", w.val(c+"a", 0)), w.finder("G"), nil))
		case "k":
			return w.add(loader.New(l, name, nil, nil, w.creator(c)))
		}
		return w.add(loader.New(l, name, nil, w.finder("G"), w.creator(c)))
	}
}

func newLworld(h, np int, gated bool) *lworld {
	w := &lworld{ids: map[dgo.Loader]int{}, serial: map[dgo.Array]int{}, ctl: make(chan lst), gated: gated, byGoid: map[string]*lproc{}}
	for i := 0; i < np; i++ {
		w.procs = append(w.procs, &lproc{id: i + 1, resume: make(chan struct{})})
	}
	p := func(ks ...string) dgo.Map {
		m := vf.MutableMap()
		for _, k := range ks {
			m.Put(k, w.val("P"+k, 0))
		}
		return m
	}
	child := func(parent dgo.Loader, f, c string) dgo.Loader {
		ch := parent.NewChild(w.finder(f), w.creator(c))
		own, _ := chParts(ch)
		w.add(own)
		return ch
	}
	switch h {
	case 1:
		w.refs = []dgo.Loader{w.add(loader.New(nil, "", p("e"), w.finder("F"), w.creator("C")))}
	case 2:
		a := w.add(loader.New(nil, "my", p("a", "e"), nil, nil))
		w.refs = []dgo.Loader{child(a, "F", "C")}
	case 3:
		a := w.add(loader.New(nil, "my", p("e"), w.finder("F"), w.creator("C")))
		w.refs = []dgo.Loader{child(a, "D", "E"), a}
	case 4:
		a := w.add(loader.New(nil, "", nil, w.finder("F"), nil))
		b := child(a, "", "C")
		w.refs = []dgo.Loader{child(b, "D", "E"), b}
	}
	return w
}

// initArg is the map that a loader can be recreated from, which is how its state is observed
func initArg(l dgo.Loader) dgo.Map {
	return l.Type().(dgo.NamedType).ExtractInitArg(l).(dgo.Map)
}

// chParts returns the loaders that a child loader consists of. The own loader is nil when it isn't a child loader
func chParts(l dgo.Loader) (own, parent dgo.Loader) {
	m := initArg(l)
	if o := m.Get("loader"); o != nil {
		return o.(dgo.Loader), m.Get("parent").(dgo.Loader)
	}
	return nil, nil
}

// ref describes a loader
func (w *lworld) ref(l dgo.Loader) interface{} {
	if l == nil {
		return lst{"nil"}
	}
	if id, ok := w.ids[l]; ok {
		return lst{"l", id}
	}
	own, parent := chParts(l)
	if own == nil {
		return lst{"unknown"}
	}
	return lst{"ch", w.ref(own), w.ref(parent)}
}

func (w *lworld) loader(ref interface{}) dgo.Loader {
	r := ref.([]interface{})
	if r[0] == "l" {
		return w.base[toInt(r[1])-1]
	}
	for _, l := range w.refs {
		if sameJSON(w.ref(l), ref) {
			return l
		}
	}
	panic(fmt.Errorf("no such loader %v", ref))
}

func toInt(x interface{}) int {
	switch x := x.(type) {
	case int:
		return x
	case float64:
		return int(x)
	}
	panic(x)
}

func sameJSON(a, b interface{}) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

// value describes a value
func (w *lworld) value(v dgo.Value) interface{} {
	if v == nil {
		return lst{"nil"}
	}
	if vf.Nil == v {
		return lst{"Nil"}
	}
	a, ok := v.(dgo.Array)
	if !ok || a.Len() != 1 {
		return lst{"unknown", v.String()}
	}
	n, ok := w.serial[a]
	if !ok {
		n = 0
	}
	return lst{"v", a.Get(0).String(), n}
}

func panicCode(x interface{}) string {
	s := fmt.Sprint(x)
	for _, c := range [][2]string{{"attempt to override", "override"}, {"doesn't contain original key", "missing"},
		{"is already defined", "defined"}} {
		if strings.Contains(s, c[0]) {
			return c[1]
		}
	}
	return s
}

func (w *lworld) perform(o *lop) (r func() interface{}) {
	defer func() {
		if x := recover(); x != nil {
			r = func() interface{} { return lst{"panic", panicCode(x)} }
		}
	}()
	w.mu.Lock()
	l := w.loader(o.L)
	w.mu.Unlock()
	val := func(v dgo.Value) func() interface{} {
		return func() interface{} { return w.value(v) }
	}
	ref := func(l dgo.Loader) func() interface{} {
		return func() interface{} { return w.ref(l) }
	}
	switch o.Op {
	case "get":
		return val(l.Get(o.K.(string)))
	case "ns":
		return ref(l.Namespace(o.K.(string)))
	case "load":
		var ps []string
		for _, p := range o.K.([]interface{}) {
			ps = append(ps, p.(string))
		}
		return val(l.Load(strings.Join(ps, "/")))
	case "child":
		ch := l.NewChild(w.finder(o.F), w.creator(o.C))
		own, _ := chParts(ch)
		w.mu.Lock()
		w.add(own)
		w.refs = append(w.refs, ch)
		w.mu.Unlock()
		return ref(ch)
	case "abs":
		s := l.AbsoluteName()
		return func() interface{} { return lst{"s", s} }
	case "name":
		s := l.Name()
		return func() interface{} { return lst{"s", s} }
	case "pns":
		return ref(l.ParentNamespace())
	}
	panic("no such op")
}

// call makes a process perform a call until the process stops. It returns what came of it
func (w *lworld) call(p *lproc, o *lop) lst {
	w.cur = p
	p.busy = true
	go func() {
		r := w.perform(o)
		w.ctl <- lst{"done", r()}
	}()
	return w.wait(p)
}

func (w *lworld) cont(p *lproc) lst {
	w.cur = p
	p.resume <- struct{}{}
	return w.wait(p)
}

func (w *lworld) wait(p *lproc) lst {
	out := <-w.ctl
	if out[0] == "done" {
		p.busy = false
	}
	return out
}

func (w *lworld) project() interface{} {
	h := lst{}
	for _, l := range w.base {
		m := initArg(l)
		es, ns := lst{}, lst{}
		m.Get("entries").(dgo.Map).EachEntry(func(e dgo.MapEntry) {
			v := w.value(e.Value())
			if e.Value() == vf.Nil {
				v = lst{"nil"}
			}
			es = append(es, lst{e.Key().String(), v})
		})
		if nss, ok := m.Get("namespaces").(dgo.Map); ok {
			nss.EachEntry(func(e dgo.MapEntry) { ns = append(ns, lst{e.Key().String(), w.ids[e.Value().(dgo.Loader)]}) })
		}
		h = append(h, map[string]interface{}{"e": es, "ns": ns})
	}
	return h
}

// finish lets all processes run to their end
func (w *lworld) finish() {
	for _, p := range w.procs {
		for p.busy {
			w.cont(p)
		}
	}
}

var lkeys = []string{"a", "a", "b", "b", "e", "n", "x", "x", "m", "m2", "mb", "mc", "mn", "w", "p", "q", "qn", "qx", "y", "z", "other", ""}
var lnames = []string{"s", "s", "s", "n", "m", "v", "v", "j", "k", "p", "q", "qv", "t", ""}

func (w *lworld) randOp(r *rand.Rand, free bool) *lop {
	l := w.refs[r.Intn(len(w.refs))]
	if r.Intn(3) == 0 {
		l = w.base[r.Intn(len(w.base))]
	}
	o := &lop{L: w.ref(l)}
	k := 20
	if free {
		k = 16
	}
	switch k = r.Intn(k); {
	case k < 6:
		o.Op, o.K = "get", lkeys[r.Intn(len(lkeys))]
	case k < 10:
		o.Op, o.K = "ns", lnames[r.Intn(len(lnames))]
	case k < 16:
		var ps lst
		for i := r.Intn(3); i > 0; i-- {
			ps = append(ps, lnames[r.Intn(len(lnames))])
		}
		o.Op, o.K = "load", append(ps, lkeys[r.Intn(len(lkeys))])
	case k < 17:
		o.Op = "child"
		o.F = []string{"", "F", "H"}[r.Intn(3)]
		o.C = []string{"", "C", "I"}[r.Intn(3)]
	default:
		o.Op = []string{"abs", "name", "pns"}[k-17]
	}
	return o
}

// P14, the driver decides who runs
func recLoader(c *cfg) {
	rec := newRecorder(c.out)
	r := rand.New(rand.NewSource(c.seed*7919 + int64(c.shard)))
	for rec.n < c.n {
		h, np := 1+r.Intn(4), 1+r.Intn(4)
		w := newLworld(h, np, true)
		rec.emit(map[string]interface{}{"op": "reset", "h": h, "np": np})
		for i := 5 + r.Intn(30); i > 0; i-- {
			p := w.procs[r.Intn(np)]
			ev := map[string]interface{}{"p": p.id}
			if p.busy {
				ev["op"] = "resume"
				ev["out"] = w.cont(p)
			} else {
				o := w.randOp(r, false)
				ev["op"], ev["o"] = "call", o.event()
				ev["out"] = w.call(p, o)
			}
			ev["h"] = w.project()
			out := ev["out"].(lst)
			rec.count(fmt.Sprint(ev["op"], " ", out[0]))
			if x := out[1].([]interface{}); x[0] == "panic" {
				rec.count(fmt.Sprint("panic ", x[1]))
			}
			rec.emit(ev)
		}
		w.finish()
	}
	rec.close()
}

// P14, the go scheduler decides who runs
func recLoaderFree(c *cfg) {
	rec := newRecorder(c.out)
	r := rand.New(rand.NewSource(c.seed*104729 + int64(c.shard)))
	for rec.n < c.n {
		h, np := 1+r.Intn(4), 2+r.Intn(2)
		w := newLworld(h, np, false)
		w.log = func(ev map[string]interface{}) { rec.emit(ev) }
		rec.emit(map[string]interface{}{"op": "reset", "h": h, "np": np})
		// the calls are on the loaders that exist from the start and are often the same, so that they meet
		ops := [3]*lop{}
		for i := range ops {
			ops[i] = w.randOp(r, true)
		}
		progs := make([][]*lop, np)
		for i := range progs {
			for j := 1 + r.Intn(2); j > 0; j-- {
				progs[i] = append(progs[i], ops[r.Intn(3)])
			}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, p := range w.procs {
			wg.Add(1)
			go func(p *lproc, prog []*lop, spin int) {
				defer wg.Done()
				w.mu.Lock()
				w.byGoid[goid()] = p
				w.mu.Unlock()
				<-start
				for s := 0; s < spin; s++ {
					runtime.Gosched()
				}
				for _, o := range prog {
					w.mu.Lock()
					rec.emit(map[string]interface{}{"op": "call", "p": p.id, "o": o.event()})
					w.mu.Unlock()
					r := w.perform(o)
					w.mu.Lock()
					out := r()
					rec.count(o.Op)
					if x := out.([]interface{}); x[0] == "panic" {
						rec.count(fmt.Sprint("panic ", x[1]))
					}
					rec.emit(map[string]interface{}{"op": "done", "p": p.id, "out": out})
					w.mu.Unlock()
				}
			}(p, progs[i], r.Intn(20))
		}
		close(start)
		wg.Wait()
		rec.emit(map[string]interface{}{"op": "end of history", "h": w.project()})
	}
	rec.close()
}

// replayLoader performs the transitions that TLC emitted
func replayLoader(c *cfg) {
	f, err := os.Open(c.in)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	in := bufio.NewReaderSize(f, 1<<20)
	dec := json.NewDecoder(in)
	n, bad := 0, 0
	stats := map[string]int{}
	for dec.More() {
		var cs struct {
			H    int `json:"h"`
			Np   int `json:"np"`
			Path []struct {
				Op string `json:"op"`
				P  int    `json:"p"`
				O  *lop   `json:"o"`
			} `json:"path"`
			Out interface{} `json:"out"`
			P   interface{} `json:"p"`
		}
		if err := dec.Decode(&cs); err != nil {
			panic(err)
		}
		w := newLworld(cs.H, cs.Np, true)
		var out lst
		for _, s := range cs.Path {
			p := w.procs[s.P-1]
			if (s.Op == "resume") != p.busy {
				out = lst{"out of step"}
				break
			}
			if s.Op == "call" {
				out = w.call(p, s.O)
			} else {
				out = w.cont(p)
			}
		}
		pr := w.project()
		if !sameJSON(out, cs.Out) || !sameJSON(pr, cs.P) {
			if bad++; bad <= 10 {
				bs, _ := json.Marshal(map[string]interface{}{"h": cs.H, "path": cs.Path, "expected": lst{cs.Out, cs.P}, "actual": lst{out, pr}})
				fmt.Printf("MISMATCH %s\n", bs)
			}
		}
		stats[fmt.Sprint("step ", len(cs.Path))]++
		n++
		atomic.AddInt64(&progress, 1)
		w.finish()
	}
	printStats(stats, n)
	fmt.Printf("REPLAYED %d mismatches %d\n", n, bad)
	if bad > 0 {
		os.Exit(1)
	}
}
