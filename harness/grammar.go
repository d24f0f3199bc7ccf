package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
)

func init() {
	commands["parse"] = recParse
	commands["print"] = recPrint
}

var numeral = regexp.MustCompile(`^(0[0-9]*[xX][0-9a-fA-F]+|[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?)`)

// numerals describes all numerals that can be found in s
func numerals(s string) J {
	seen := map[string]bool{}
	r := J{}
	add := func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		iv, fv, xv := J{}, J{}, J{}
		if i, err := strconv.ParseInt(n, 0, 64); err == nil {
			iv = J{encInt(i)}
			xv = J{encFloat(float64(i))}
		}
		if f, err := strconv.ParseFloat(n, 64); err == nil && !strings.ContainsAny(n, "xX") {
			fv = J{encFloat(f)}
		}
		r = append(r, J{codes(n), iv, fv, xv})
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' || i > 0 && s[i-1] >= '0' && s[i-1] <= '9' {
			continue
		}
		n := numeral.FindString(s[i:])
		add(n)
		if m := strings.IndexByte(n, '.'); m > 0 {
			add(n[:m])
		}
		if i > 0 && s[i-1] == '-' {
			add("-" + n)
		}
	}
	return r
}

// regexps tells if what is between each slash and the next one that isn't escaped is a valid regular expression
func regexps(s string) J {
	seen := map[string]bool{}
	r := J{}
	for i := 0; i < len(s); i++ {
		if s[i] != '/' {
			continue
		}
		var sb []byte
		j := i + 1
		for ; j < len(s) && s[j] != '/' && s[j] != '\n' && s[j] != 0; j++ {
			if s[j] == '\\' && j+1 < len(s) {
				j++
				if s[j] != '/' {
					sb = append(sb, '\\')
				}
			}
			sb = append(sb, s[j])
		}
		if x := string(sb); !seen[x] {
			seen[x] = true
			_, err := regexp.Compile(x)
			r = append(r, J{codes(x), err == nil})
		}
	}
	return r
}

// describe makes a term of what the parser yields
func describe(v dgo.Value) J {
	rawTypes(true)
	defer rawTypes(false)
	if t, ok := v.(dgo.Type); ok {
		return typeFromReal(t).enc()
	}
	return J{"val", fromReal(v).enc()}
}

var position = regexp.MustCompile(`: \((?:file: [^,]*, )?(?:line: (\d+), )?column: (-?\d+)\)$`)

func describeErr(x interface{}) M {
	e, ok := x.(error)
	if !ok {
		return M{"crash": true, "pos": false, "line": 0, "col": 0, "text": fmt.Sprint(x)}
	}
	s := e.Error()
	m := M{"text": s, "pos": false, "line": 1, "col": 0}
	for _, bad := range []string{"runtime error", "interface conversion", "nil pointer", "reflect:", "reflect."} {
		if strings.Contains(s, bad) {
			m["crash"] = true
			return m
		}
	}
	m["crash"] = false
	if at := position.FindStringSubmatch(s); at != nil {
		m["pos"] = true
		if at[1] != "" {
			m["line"], _ = strconv.Atoi(at[1])
		}
		m["col"], _ = strconv.Atoi(at[2])
	}
	return m
}

// parsePrivate parses with aliases that are private to the text
func parsePrivate(s, file string) (v dgo.Value, err interface{}) {
	defer func() { err = recover() }()
	tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { v = tf.ParseFile(aa, file, s) })
	return
}

func parseEvent(s string, g *tgen) (ev M, ok bool) {
	ev = M{"op": "parse", "s": codes(s), "text": s}
	ok = encodable(func() { ev["nums"] = numerals(s) })
	if !ok {
		return
	}
	ev["rx"] = regexps(s)
	for i, w := 0, 0; i < len(s); i += w {
		var r rune
		if r, w = utf8.DecodeRuneInString(s[i:]); r == utf8.RuneError && w == 1 {
			ev["bad"] = i + 1
			break
		}
	}
	file := ""
	if g.chance(4) {
		file = "x.dgo"
	}
	v, err := parsePrivate(s, file)
	ev["ok"] = err == nil
	if err != nil {
		ev["err"] = describeErr(err)
		return
	}
	ok = encodable(func() { ev["val"] = describe(v) })
	return
}

// recParse records what the parser makes of texts: P11
func recParse(c *cfg) {
	rec := newRecorder(c.out)
	interned = map[string]int{}
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1031 + int64(c.shard))), noNative: true}
	put := func(s string) {
		rec.guarded(func() {
			if ev, ok := parseEvent(s, g); ok {
				switch {
				case ev["ok"] == true:
					rec.count("accepted")
				case ev["bad"] != nil:
					rec.count("refused, not UTF-8")
				default:
					rec.count("refused")
				}
				rec.emit(ev)
			}
		})
	}
	if c.mode != "" {
		enumTexts(c, put)
	} else {
		for rec.n < c.n {
			put(g.anyText())
		}
	}
	rec.close()
}

// recPrint records what becomes of types that are printed and then parsed: P10
func recPrint(c *cfg) {
	rec := newRecorder(c.out)
	interned = map[string]int{}
	internInts = true
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1033 + int64(c.shard))), noNative: true, rough: true}
	for rec.n < c.n {
		var t dgo.Type
		how := "api"
		switch g.pick(3) {
		case 0:
			v, err := parsePrivate(g.validText(1+g.pick(4)), "")
			if err != nil {
				continue
			}
			var ok bool
			if t, ok = v.(dgo.Type); !ok {
				t = v.Type()
			}
			how = "parsed"
		default:
			m := g.typ(1 + g.pick(4))
			if g.chance(8) {
				m = &ty{K: "func", Ts: []*ty{g.tuple(2), g.tuple(2)}}
				if m.Ts[1].B {
					m.Ts[1] = &ty{K: "tup", B: true, Ts: []*ty{{K: "any"}}}
				}
			}
			if m.has("native") {
				continue
			}
			t = m.real()
		}
		if g.chance(40) { // what isn't in the language has a string form all the same
			u := []dgo.Type{typ.AnyOf, typ.AllOf, typ.OneOf}[g.pick(3)]
			t = []dgo.Type{u, tf.Array(u), tf.Function(tf.Tuple(t), tf.Tuple(u)), tf.Map(typ.String, u), tf.Not(u), tf.AnyOf(t, u), tf.VariadicTuple(u)}[g.pick(7)]
		}
		if !printable(t) {
			rec.count("not in the language")
			rec.guarded(func() { _ = t.String() })
			continue
		}
		rec.guarded(func() {
			s := t.String()
			ev := M{"op": "print", "s": codes(s), "text": s, "how": how, "same": t.String() == s}
			ev["nums"] = numerals(s)
			ev["t"] = describe(t)
			ev["rx"] = regexps(s)
			v, err := parsePrivate(s, "")
			ev["ok"] = err == nil
			if err != nil {
				ev["err"] = fmt.Sprint(err)
			} else {
				u, ok := v.(dgo.Type)
				if !ok {
					u = v.Type()
				}
				ev["eq"] = t.Equals(u) && u.Equals(t)
				ev["again"] = u.String() == s
				ev["back"] = u.String()
			}
			rec.count(t.TypeIdentifier().String())
			rec.emit(ev)
		})
	}
	rec.close()
}

func (g *tgen) tuple(d int) *ty {
	t := &ty{K: "tup", Ts: g.typs(g.pick(3), d-1)}
	t.B = len(t.Ts) > 0 && g.chance(2)
	return t
}

// printable tells if the type has a form in the type language
func printable(rt dgo.Type) bool {
	rawTypes(true)
	defer rawTypes(false)
	return typeFromReal(rt).printable()
}

func (t *ty) printable() bool {
	switch t.K {
	case "other", "regexp", "time", "error", "native", "?":
		return false
	case "bin":
		return t.Lo == 0 && t.Hi == unbounded
	case "tup", "all", "anyof", "one":
		if len(t.Ts) == 0 {
			return false
		}
	case "func":
		// here, empty is fine
		for _, io := range t.Ts {
			empty := io.K == "tup" && len(io.Ts) == 0 || io.K == "x" && len(io.V.Vs) == 0
			if !empty && !io.printable() {
				return false
			}
		}
		return true
	case "floatr":
		if t.FL-t.FL != 0 || t.FH-t.FH != 0 {
			return false
		}
	}
	if t.late() {
		return false
	}
	for _, c := range t.Ts {
		if !c.printable() {
			return false
		}
	}
	for _, e := range t.Es {
		if !e.K.printable() || !e.T.printable() {
			return false
		}
	}
	for _, v := range t.Vs {
		if !v.printable() {
			return false
		}
	}
	return t.V == nil || t.V.printable()
}

// late tells if a reference was replaced in a type that would have been made in another way, had it been known what the
// reference stood for. The two ways are not equal.
func (t *ty) late() bool {
	exact := func(t *ty) bool { return t.K == "x" || t.K == "nil" }
	switch t.K {
	case "tup":
		for _, c := range t.Ts {
			if !exact(c) {
				return false
			}
		}
		return !t.B
	case "struct":
		for _, e := range t.Es {
			if !exact(e.T) || !e.Req {
				return false
			}
		}
		return !t.B
	case "arrz":
		return t.Lo == 0 && t.Hi == unbounded && t.Ts[0].K == "any" || t.Lo == 1 && t.Hi == 1 && exact(t.Ts[0])
	case "mapz":
		return t.Lo == 0 && t.Hi == unbounded && t.Ts[0].K == "any" && t.Ts[1].K == "any"
	}
	return false
}

func (v *va) printable() (ok bool) {
	ok = true
	v.walk(func(v *va) {
		switch v.K {
		case "bin", "rx", "tm", "err", "nat", "nan", "sens", "other", "?", "t":
			ok = false
		case "f":
			ok = ok && v.F-v.F == 0
		case "arr":
			ok = ok && len(v.Vs) > 0
		}
	})
	return
}
