package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
)

// Recordings of streams and JSON: P12, P13

func init() {
	commands["stream"] = recStream
	commands["json"] = recJSON
	commands["unjson"] = recUnJSON
}

// A type with a name whose instances are described by a map or by an array
type namedVal struct {
	name string
	a, b dgo.Value
}

func (v *namedVal) String() string { return v.name }
func (v *namedVal) Type() dgo.Type { return tf.ExactNamed(tf.Named(v.name), v) }
func (v *namedVal) HashCode() int  { return v.a.HashCode() }
func (v *namedVal) Equals(o interface{}) bool {
	ov, ok := o.(*namedVal)
	return ok && v.name == ov.name && v.a.Equals(ov.a) && v.b.Equals(ov.b)
}

type namedMap struct{ namedVal }

func (v *namedMap) Equals(o interface{}) bool {
	ov, ok := o.(*namedMap)
	return ok && v.name == ov.name && v.a.Equals(ov.a) && v.b.Equals(ov.b)
}

func (v *namedMap) Type() dgo.Type { return tf.ExactNamed(tf.Named(v.name), v) }

const nvArr, nvMap = "nvArr", "nvMap"

func registerNamed() {
	tf.NewNamed(nvArr, func(arg dgo.Value) dgo.Value {
		a := arg.(dgo.Array)
		return &namedVal{nvArr, a.Get(0), a.Get(1)}
	}, func(v dgo.Value) dgo.Value {
		n := v.(*namedVal)
		a := vf.MutableValues()
		a.Add(n.a)
		a.Add(n.b)
		return a
	}, reflect.TypeOf(&namedVal{}), nil, nil)
	tf.NewNamed(nvMap, func(arg dgo.Value) dgo.Value {
		m := arg.(dgo.Map)
		return &namedMap{namedVal{nvMap, m.Get("a"), m.Get("b")}}
	}, func(v dgo.Value) dgo.Value {
		n := v.(*namedMap)
		m := vf.MutableMap()
		m.Put("a", n.a)
		m.Put("b", n.b)
		return m
	}, reflect.TypeOf(&namedMap{}), nil, nil)
}

// sgen generates values that share things
type sgen struct {
	*tgen
	json  bool // only what JSON can express
	keys  bool // keys that are not strings
	rich  bool
	types []dgo.Type
	texts map[string]bool
	pool  []dgo.Value // what can be shared
}

var streamTypes = []string{"string", "int", "any", "string[1,3]", "{a:int,b?:string}", "[](int|nil)", "1..5", "\"x\"", "map[string]int", "true",
	"binary", "/a.b/", "!int", "nil", "{string,...int}", "type[int]", "{...}", "map[int,2,4]any", "float", "func(int) string"}

func (g *sgen) typeVal() dgo.Type {
	if g.chance(5) {
		t := g.typ(2)
		if !t.has("native", "ref") {
			rt := t.real()
			if s := rt.String(); printable(rt) {
				if v, err := parsePrivate(s, ""); err == nil {
					if pt, ok := v.(dgo.Type); ok && pt.String() == s && pt.Equals(rt) && rt.Equals(pt) {
						return rt
					}
				}
			}
		}
	}
	return tf.ParseType(streamTypes[g.pick(len(streamTypes))])
}

func (g *sgen) text() string {
	switch g.pick(8) {
	case 0:
		return "this is a rather long string"
	case 1:
		return "exactly twenty bytes"
	case 2:
		return "only nineteen bytes"
	case 3:
		return []string{"AQID", "string", "sensitive", "map", "__value", "int", "aGVsbG8gd29ybGQhISEhISE="}[g.pick(7)]
	case 4:
		rs := []rune{0, 8, 9, 10, 13, 12, 27, 31, 32, '"', '\\', '/', '<', '>', '&', 0x7f, 0x80, 0xe4, 0x2028, 0x2029, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}
		sb := strings.Builder{}
		for n := g.pick(6); n >= 0; n-- {
			sb.WriteRune(rs[g.pick(len(rs))])
		}
		if g.chance(3) {
			sb.WriteString(strings.Repeat("ä", 10))
		}
		return sb.String()
	}
	return g.str()
}

func (g *sgen) scalarVal() dgo.Value {
	switch g.pick(10) {
	case 0:
		return vf.Nil
	case 1:
		return vf.Boolean(g.chance(2))
	case 2, 3:
		return vf.Integer(g.num())
	case 4:
		f := g.flt()
		if g.chance(3) {
			f = roughFloats[g.pick(len(roughFloats))]
		}
		if math.IsNaN(f) || math.IsInf(f, 0) && g.json {
			f = 0.25
		}
		return vf.Float(f)
	}
	return vf.String(g.text())
}

func (g *sgen) immutable(d int) dgo.Value {
	switch g.pick(6) {
	case 0:
		bs := make([]byte, g.pick(8))
		g.r.Read(bs)
		return vf.Binary(bs, true)
	case 1:
		t := time.Unix(int64(g.pick(3)*1000), int64(g.pick(3)*1000)).In([]*time.Location{time.UTC, time.FixedZone("", 3600*(g.pick(5)-2))}[g.pick(2)])
		return vf.Time(t)
	case 2:
		return vf.Sensitive(g.value(d - 1))
	case 3:
		if g.chance(3) {
			return &namedVal{nvArr, g.scalarVal(), g.value(d - 1)}
		}
		return &namedMap{namedVal{nvMap, g.scalarVal(), g.value(d - 1)}}
	}
	t := g.typeVal()
	if len(g.types) > 0 && g.chance(2) {
		t = g.types[g.pick(len(g.types))]
	}
	g.texts[t.String()] = true
	g.types = append(g.types, t)
	return t
}

func (g *sgen) keyVal() dgo.Value {
	if g.keys && g.chance(2) {
		switch g.pick(5) {
		case 0:
			return vf.Integer(int64(g.pick(4)))
		case 1:
			return vf.Values(g.scalarVal(), g.scalarVal())
		case 2:
			if len(g.pool) > 0 {
				x := g.pool[g.pick(len(g.pool))]
				if f, ok := x.(dgo.Freezable); !ok || f.Frozen() {
					if _, ok = x.(dgo.Sensitive); !ok {
						return x
					}
				}
			}
		case 3:
			return vf.Map("k", g.scalarVal())
		}
	}
	s := g.text()
	if s == "" && g.chance(2) || len(s) > 0 && g.chance(2) {
		s = []string{"a", "b", "the key", "__value", "a long key that can be shared"}[g.pick(5)]
	}
	return vf.String(s)
}

// value makes a value that may share things with other values
func (g *sgen) value(d int) dgo.Value {
	if d <= 0 {
		return g.scalarVal()
	}
	if len(g.pool) > 0 && g.chance(4) {
		return g.pool[g.pick(len(g.pool))]
	}
	var v dgo.Value
	switch k := g.pick(9); {
	case k < 3:
		a := vf.MutableValues()
		for n := g.pick(4); n > 0; n-- {
			a.Add(g.value(d - 1))
		}
		v = a
	case k < 6:
		m := vf.MutableMap()
		for n := g.pick(4); n > 0; n-- {
			m.Put(g.keyVal(), g.value(d-1))
		}
		v = m
	case k == 6 && g.rich:
		v = g.immutable(d)
	default:
		v = g.scalarVal()
		if _, ok := v.(dgo.String); !ok {
			return v
		}
	}
	if f, ok := v.(dgo.Freezable); ok && g.chance(6) {
		f.Freeze()
	}
	g.pool = append(g.pool, v)
	return v
}

// large is an array with about a thousand elements, with what is in the pool in some places
func (g *sgen) large(v dgo.Value) dgo.Value {
	a := vf.MutableValues()
	g.pool = append(g.pool, vf.String(strings.Repeat("x", 20+g.pick(9))), vf.Values(1, 2))
	for n := 900 + g.pick(400); n > 0; n-- {
		if g.chance(150) {
			a.Add(g.pool[g.pick(len(g.pool))])
		} else {
			a.Add(g.pick(10))
		}
	}
	a.Add(v)
	for n := g.pick(5); n >= 0; n-- {
		a.Add(g.pool[g.pick(len(g.pool))])
	}
	return a
}

// cyclic adds what is in the pool to what is in the pool
func (g *sgen) cyclic() {
	for n := 1 + g.pick(2); n > 0 && len(g.pool) > 0; n-- {
		x, y := g.pool[g.pick(len(g.pool))], g.pool[g.pick(len(g.pool))]
		if f, ok := y.(dgo.Freezable); ok && f.Frozen() {
			continue
		}
		switch x := x.(type) {
		case dgo.Array:
			if !x.Frozen() {
				x.Add(y)
			}
		case dgo.Map:
			if !x.Frozen() {
				x.Put(g.keyVal(), y)
			}
		}
	}
}

// graph describes a value and all that it consists of
type graph struct {
	nodes J
	ids   map[interface{}]int
	cycle bool
	open  map[int]bool
	texts map[string]bool
	times map[string]bool
	inf   bool
	inKey int
	never bool // a key that contains the map
	coll  int
}

// readable tells if the types can be parsed
func (g *graph) readable() bool {
	for s := range g.texts {
		same := false
		if failed, _ := try(func() { same = tf.ParseType(s).String() == s }); failed || !same {
			return false
		}
	}
	return true
}

func graphOf(v dgo.Value) *graph {
	g := &graph{ids: map[interface{}]int{}, open: map[int]bool{}, texts: map[string]bool{}, times: map[string]bool{}}
	g.add(v)
	return g
}

func (g *graph) add(v dgo.Value) int {
	if v == nil {
		v = vf.Nil
	}
	n := len(g.nodes) + 1
	switch x := v.(type) {
	case dgo.String:
		g.nodes = append(g.nodes, J{"leaf", J{"s", codes(x.GoString())}})
		return n
	case dgo.Integer:
		g.nodes = append(g.nodes, J{"leaf", J{"i", encInt(x.GoInt())}})
		return n
	case dgo.Float:
		g.inf = g.inf || math.IsInf(x.GoFloat(), 0) || math.IsNaN(x.GoFloat())
		g.nodes = append(g.nodes, J{"leaf", J{"f", encFloat(x.GoFloat())}})
		return n
	case dgo.Boolean:
		g.nodes = append(g.nodes, J{"leaf", J{"b", x.GoBool()}})
		return n
	}
	if v == vf.Nil {
		g.nodes = append(g.nodes, J{"leaf", J{"n"}})
		return n
	}
	if reflect.TypeOf(v).Comparable() {
		if i, ok := g.ids[v]; ok {
			g.cycle = g.cycle || g.open[i]
			g.never = g.never || g.open[i] && g.inKey > 0
			return i
		}
		g.ids[v] = n
	}
	g.open[n] = true
	defer delete(g.open, n)
	g.nodes = append(g.nodes, nil)
	cs := J{}
	switch x := v.(type) {
	case dgo.Map:
		g.coll++
		x.EachEntry(func(e dgo.MapEntry) {
			g.inKey++
			cs = append(cs, g.add(e.Key()))
			g.inKey--
			cs = append(cs, g.add(e.Value()))
		})
		g.nodes[n-1] = J{"map", cs}
	case dgo.Array:
		g.coll++
		x.Each(func(e dgo.Value) { cs = append(cs, g.add(e)) })
		g.nodes[n-1] = J{"arr", cs}
	case dgo.Sensitive:
		g.nodes[n-1] = J{"sens", g.add(x.Unwrap())}
	case dgo.Binary:
		g.nodes[n-1] = J{"bin", codes(string(x.GoBytes()))}
	case dgo.Time:
		g.times[x.GoTime().Format(time.RFC3339Nano)] = true
		g.nodes[n-1] = J{"tm", codes(x.GoTime().Format(time.RFC3339Nano))}
	case dgo.Type:
		g.texts[x.String()] = true
		g.nodes[n-1] = J{"t", codes(x.String())}
	case *namedVal:
		g.nodes[n-1] = J{"named", codes(nvArr), J{g.add(x.a), g.add(x.b)}}
	case *namedMap:
		cs = append(cs, g.add(vf.String("a")))
		cs = append(cs, g.add(x.a))
		cs = append(cs, g.add(vf.String("b")))
		cs = append(cs, g.add(x.b))
		g.nodes[n-1] = J{"named", codes(nvMap), cs}
	default:
		g.nodes[n-1] = J{"odd"}
	}
	return n
}

// tee records what is passed on to a consumer
type tee struct {
	streamer.Consumer
	evs J
}

func (t *tee) AddArray(n int, doer dgo.Doer) {
	t.evs = append(t.evs, J{"arr", n})
	t.Consumer.AddArray(n, doer)
	t.evs = append(t.evs, J{"end"})
}

func (t *tee) AddMap(n int, doer dgo.Doer) {
	t.evs = append(t.evs, J{"map", n})
	t.Consumer.AddMap(n, doer)
	t.evs = append(t.evs, J{"end"})
}

func (t *tee) Add(v dgo.Value) {
	var e J
	switch v := v.(type) {
	case dgo.Binary:
		e = J{"bin", codes(string(v.GoBytes()))}
	case dgo.Time:
		e = J{"tm", codes(v.GoTime().Format(time.RFC3339Nano))}
	case dgo.String, dgo.Integer, dgo.Float, dgo.Boolean:
		e = graphOf(v).nodes[0].(J)[1].(J)
	default:
		e = J{"n"}
		if v != vf.Nil {
			e = J{"odd", fmt.Sprintf("%T", v)}
		}
	}
	t.evs = append(t.evs, J{"add", e})
	t.Consumer.Add(v)
}

func (t *tee) AddRef(i int) {
	t.evs = append(t.evs, J{"ref", i})
	t.Consumer.AddRef(i)
}

// sink has any abilities
type sink struct {
	bin, time, complex bool
	min                int
}

func (s *sink) CanDoBinary() bool             { return s.bin }
func (s *sink) CanDoTime() bool               { return s.time }
func (s *sink) CanDoComplexKeys() bool        { return s.complex }
func (s *sink) StringDedupThreshold() int     { return s.min }
func (s *sink) AddArray(_ int, doer dgo.Doer) { doer() }
func (s *sink) AddMap(_ int, doer dgo.Doer)   { doer() }
func (s *sink) Add(dgo.Value)                 {}
func (s *sink) AddRef(int)                    {}

var jsonNumeral = regexp.MustCompile(`-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?`)

// jsonNumbers describes what the numerals in a text denote
func jsonNumbers(s string) J {
	seen := map[string]bool{}
	r := J{}
	add := func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		if i, err := strconv.ParseInt(n, 10, 64); err == nil {
			r = append(r, J{codes(n), J{"i", encInt(i)}})
		} else if f, err := strconv.ParseFloat(n, 64); err == nil || math.IsInf(f, 0) {
			r = append(r, J{codes(n), J{"f", encFloat(f)}})
		}
	}
	// all numerals that start anywhere
	for i := 0; i < len(s); i++ {
		if (s[i] == '-' || s[i] >= '0' && s[i] <= '9') && (i == 0 || !(s[i-1] >= '0' && s[i-1] <= '9')) {
			if n := jsonNumeral.FindString(s[i:]); n != "" && strings.HasPrefix(s[i:], n) {
				add(n)
				if d := strings.TrimPrefix(n, "-"); len(d) > 1 && d[0] == '0' {
					add(n[:len(n)-len(d)+1])
				}
				for _, sep := range []string{".", "e", "E"} {
					if at := strings.Index(n, sep); at > 0 {
						add(n[:at])
					}
				}
			}
		}
	}
	return r
}

func (g *sgen) fresh() {
	g.pool, g.types, g.texts = nil, nil, map[string]bool{}
	g.rich = !g.chance(3)
	g.keys = g.chance(3)
}

func textsOf(m map[string]bool) J {
	r := J{}
	for s := range m {
		r = append(r, codes(s))
	}
	return r
}

func newSgen(c *cfg, f int64) *sgen {
	interned = map[string]int{}
	internInts = true
	return &sgen{tgen: &tgen{r: rand.New(rand.NewSource(c.seed*f + int64(c.shard))), noNative: true}}
}

var namedCodes = J{codes(nvArr), codes(nvMap)}

func dialectOf(g *sgen) (streamer.Dialect, string) {
	if g.chance(3) {
		return pcore.Dialect(), "pcore"
	}
	return streamer.DgoDialect(), "dgo"
}

// P13
func recStream(c *cfg) {
	rec := newRecorder(c.out)
	g := newSgen(c, 1039)
	registerNamed()
	for rec.n < c.n {
		kind := []string{"basic", "data", "decoder", "json", "sink", "sink"}[g.pick(6)]
		g.json = kind == "json"
		g.fresh()
		v := g.value(1 + g.pick(4))
		if g.chance(3) {
			g.cyclic()
		}
		if c.mode == "large" {
			v = g.large(v)
		}
		if g.chance(25) && !graphOf(v).cycle {
			a := vf.MutableValues(v)
			a.Add([]dgo.Value{vf.Value(fmt.Errorf("no")), vf.Value(regexp.MustCompile("a"))}[g.pick(2)])
			v = a
		}
		var in *graph
		if !encodable(func() { in = graphOf(v) }) {
			continue
		}
		o := streamer.DefaultOptions()
		if !g.chance(3) {
			o.DedupLevel = streamer.DedupLevel(g.pick(3))
		}
		if in.never || in.cycle && o.DedupLevel == streamer.NoDedup {
			continue // a tree that never ends
		}
		if in.coll > 60 && c.mode == "" {
			continue
		}
		o.RichData = in.cycle || !g.chance(5)
		dialect := "dgo"
		if kind != "json" && len(in.texts) == 0 {
			o.Dialect, dialect = dialectOf(g)
		}
		aliases := J{}
		var am dgo.AliasMap
		if len(in.texts) > 0 && dialect == "dgo" && g.chance(3) {
			am = tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) {
				for s := range in.texts {
					if g.chance(2) {
						name := "n" + strconv.Itoa(len(aliases))
						aa.Add(tf.ParseType(s), vf.String(name))
					}
				}
			})
			for s := range in.texts {
				if n := am.GetName(tf.ParseType(s)); n != nil {
					aliases = append(aliases, J{codes(n.GoString()), codes(s)})
				}
			}
			rec.count("with names of types")
		}
		var inner streamer.Consumer
		var after dgo.AliasMap
		buf := bytes.Buffer{}
		switch kind {
		case "basic":
			inner = streamer.NewCollector()
		case "data":
			inner = streamer.DataCollector()
		case "json":
			inner = streamer.JSON(&buf)
		case "sink":
			inner = &sink{g.chance(2), g.chance(2), g.chance(2), []int{0, 1, 2, 19, 20, 21}[g.pick(6)]}
		}
		ev := M{"op": "stream", "kind": kind, "dialect": dialect, "g": in.nodes, "aliases": aliases, "types": textsOf(in.texts),
			"times": textsOf(in.times), "named": namedCodes}
		rec.guarded(func() {
			var tc *tee
			var failure interface{}
			perform := func() {
				tc = &tee{Consumer: inner, evs: J{}}
				defer func() { failure = recover() }()
				streamer.New(am, o).Stream(v, tc)
			}
			if kind == "decoder" {
				after = tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) {
					if !g.chance(4) || len(aliases) > 0 {
						inner = streamer.DataDecoder(aa, o.Dialect)
					} else {
						inner = streamer.DataDecoder(nil, o.Dialect)
					}
					perform()
				})
			} else {
				perform()
			}
			ev["cfg"] = M{"level": int(o.DedupLevel), "rich": o.RichData, "bin": inner.CanDoBinary(), "time": inner.CanDoTime(),
				"complex": inner.CanDoComplexKeys(), "min": inner.StringDedupThreshold()}
			ev["ok"] = failure == nil
			ev["events"] = tc.evs
			if failure != nil {
				ev["err"] = fmt.Sprint(failure)
				rec.count("refused")
			} else {
				rec.count(kind)
				switch kind {
				case "basic", "data", "decoder":
					ev["res"] = graphOf(inner.(streamer.Collector).Value()).nodes
				case "json":
					s := buf.String()
					ev["text"], ev["json"], ev["nums"] = codes(s), s, jsonNumbers(s)
					ev["back"] = unmarshal(s, o.Dialect, ev)
				}
				names := J{}
				if after != nil {
					for s := range in.texts {
						if n := after.GetName(tf.ParseType(s)); n != nil {
							names = append(names, J{codes(n.GoString()), codes(s)})
						}
					}
				}
				ev["after"] = names
				if in.cycle {
					rec.count("cyclic")
				}
			}
			rec.emit(ev)
		})
	}
	rec.close()
}

// unmarshal yields the graph of what a JSON text means
func unmarshal(s string, d streamer.Dialect, ev M) (r J) {
	defer func() {
		if x := recover(); x != nil {
			ev["back err"] = fmt.Sprint(x)
			r = J{}
		}
	}()
	return graphOf(streamer.UnmarshalJSON([]byte(s), d)).nodes
}

// P12
func recJSON(c *cfg) {
	rec := newRecorder(c.out)
	g := newSgen(c, 1049)
	registerNamed()
	for rec.n < c.n {
		g.json = true
		g.fresh()
		v := g.value(1 + g.pick(4))
		if g.chance(5) {
			g.cyclic()
		}
		if c.mode == "large" {
			v = g.large(v)
		}
		if g.chance(40) {
			v = fromBig(g)
		}
		var in *graph
		if !encodable(func() { in = graphOf(v) }) {
			continue
		}
		if in.inf || in.never || !in.readable() {
			continue
		}
		var d streamer.Dialect
		dialect := "dgo"
		if len(in.texts) == 0 {
			d, dialect = dialectOf(g)
		}
		if dialect == "dgo" && g.chance(2) {
			d = nil
		}
		ev := M{"op": "marshal", "dialect": dialect, "g": in.nodes, "types": textsOf(in.texts), "times": textsOf(in.times), "named": namedCodes,
			"cfg": M{"level": 1, "rich": true, "bin": false, "time": false, "complex": false, "min": 20}}
		rec.guarded(func() {
			var bs []byte
			failed, what := try(func() { bs = streamer.MarshalJSON(v, d) })
			ev["ok"] = !failed
			if failed {
				ev["err"] = what
			} else {
				s := string(bs)
				ev["text"], ev["json"], ev["nums"] = codes(s), s, jsonNumbers(s)
				ev["back"] = unmarshal(s, d, ev)
				if in.cycle {
					rec.count("cyclic")
				}
			}
			rec.count(dialect)
			rec.emit(ev)
		})
	}
	rec.close()
}

func fromBig(g *sgen) dgo.Value { return g.bigVal().real() }

func (g *sgen) jsonSpace() string {
	return []string{"", "", "", " ", "\n", "\t ", "\r\n"}[g.pick(7)]
}

func (g *sgen) jsonString() string {
	if g.chance(3) {
		return []string{`"a"`, `"b"`, `"__value"`, `"\u0061"`, `""`}[g.pick(5)]
	}
	sb := strings.Builder{}
	sb.WriteByte('"')
	for n := g.pick(5); n > 0; n-- {
		sb.WriteString([]string{`a`, `\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`, `\u00e4`, `\uD83D\uDE00`, `\ud800`, `\udc00\ud800`, `\u0000`, "ä", "\u2028", "\U0001f600",
			`\uFFFF`, "\x7f", `\ud83dx`, `/`}[g.pick(21)])
	}
	sb.WriteByte('"')
	return sb.String()
}

func (g *sgen) jsonNumber() string {
	return []string{"0", "-0", "1", "-1", "12", "0.5", "-0.25", "1e3", "1E+2", "25e-2", "3.0", "1.50", "9223372036854775807", "-9223372036854775808", "0e0", "100", "4", "2.5e1"}[g.pick(18)]
}

// jsonText is a JSON text, or almost
func (g *sgen) jsonText(d int) string {
	sp := g.jsonSpace
	k := g.pick(10)
	if d <= 0 {
		k = g.pick(4)
	}
	switch k {
	case 0:
		return sp() + g.jsonNumber() + sp()
	case 1:
		return sp() + []string{"true", "false", "null"}[g.pick(3)] + sp()
	case 2, 3:
		return sp() + g.jsonString() + sp()
	case 4, 5, 6:
		ss := []string{}
		for n := g.pick(4); n > 0; n-- {
			ss = append(ss, g.jsonText(d-1))
		}
		return sp() + "[" + strings.Join(ss, ",") + sp() + "]" + sp()
	}
	if g.chance(5) {
		return sp() + "{" + sp() + `"__ref"` + sp() + ":" + sp() + strconv.Itoa(g.pick(8)) + sp() + "}"
	}
	if g.chance(5) {
		b64 := []string{"", "AQID", "AQI=", "AQ==", "+/+/"}
		s := sp() + "{" + sp() + `"__type"` + sp() + ":" + sp()
		switch g.pick(6) {
		case 0:
			return s + `"binary","__value":"` + b64[g.pick(len(b64))] + `"}`
		case 1:
			return s + `"sensitive",` + sp() + `"__value":` + g.jsonText(d-1) + "}"
		case 2:
			ss := []string{}
			for n := g.pick(3); n > 0; n-- {
				ss = append(ss, g.jsonText(g.pick(d)), g.jsonText(d-1))
			}
			return s + `"map",` + sp() + `"__value":` + sp() + "[" + strings.Join(ss, ",") + "]" + "}"
		case 3:
			return s + `"nvArr","__value":[` + g.jsonText(d-1) + "," + g.jsonText(d-1) + "]}"
		case 4:
			return s + `"nvMap","a":` + g.jsonText(d-1) + `,"b":` + g.jsonText(d-1) + "}"
		}
		return s + `"` + []string{"string", "[]int", "map[string]int"}[g.pick(3)] + `"}`
	}
	ss := []string{}
	for n := g.pick(4); n > 0; n-- {
		ss = append(ss, sp()+g.jsonString()+sp()+":"+g.jsonText(d-1))
	}
	return sp() + "{" + strings.Join(ss, ",") + sp() + "}"
}

func (g *sgen) damage(s string) string {
	for n := 1 + g.pick(2); n > 0; n-- {
		i := g.pick(len(s) + 1)
		switch g.pick(3) {
		case 0:
			s = s[:i] + []string{",", "[", "]", "{", "}", ":", "\"", "1", "-", ".", "e", "true", "null", " ", "\\", "x", "0", "\x01"}[g.pick(18)] + s[i:]
		case 1:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		default:
			s = s[:i]
		}
	}
	return strings.ToValidUTF8(s, "")
}

// P12: any text
func recUnJSON(c *cfg) {
	rec := newRecorder(c.out)
	g := newSgen(c, 1051)
	registerNamed()
	for rec.n < c.n {
		g.fresh()
		s := g.jsonText(1 + g.pick(4))
		if len(s) > 400 {
			continue
		}
		if g.chance(3) {
			s = g.damage(s)
		}
		ev := M{"op": "unmarshal", "dialect": "dgo", "text": codes(s), "json": s, "named": namedCodes,
			"types": J{codes("string"), codes("[]int"), codes("map[string]int")}, "times": J{}}
		if !encodable(func() { ev["nums"] = jsonNumbers(s) }) {
			continue
		}
		rec.guarded(func() {
			var v dgo.Value
			failed, what := try(func() { v = streamer.UnmarshalJSON([]byte(s), nil) })
			ev["ok"] = !failed
			if failed {
				ev["err"] = what
				rec.count("refused")
			} else {
				ev["res"] = graphOf(v).nodes
				rec.count("accepted")
			}
			rec.emit(ev)
		})
	}
	rec.close()
}
