package main

import (
	"math"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
)

// src is an expression in the type language that denotes the type, if there is one
func (t *ty) src() (s string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(noSrc); !is {
				panic(x)
			}
			ok = false
		}
	}()
	return t.text(0), true
}

type noSrc struct{}

func sizeSrc(lo, hi int64, first bool) string {
	if lo > hi {
		lo, hi = hi, lo
	}
	if lo == 0 && hi == unbounded {
		return ""
	}
	s := strconv.FormatInt(lo, 10)
	if hi != unbounded {
		s += "," + strconv.FormatInt(hi, 10)
	}
	if !first {
		s = "," + s
	}
	return s
}

func (v *va) text() string {
	switch v.K {
	case "n":
		return "nil"
	case "b":
		return strconv.FormatBool(v.B)
	case "i":
		return strconv.FormatInt(v.I, 10)
	case "f":
		return fltSrc(v.F)
	case "s":
		for _, c := range v.S {
			if c < 32 || c == 127 || c == 0xfffd {
				panic(noSrc{})
			}
		}
		if strings.ContainsRune(v.S, '`') || len(v.S)%2 == 0 {
			return `"` + strings.Replace(strings.Replace(v.S, `\`, `\\`, -1), `"`, `\"`, -1) + `"`
		}
		return "`" + v.S + "`"
	case "arr":
		if v.hasKind("t") || len(v.Vs) == 0 {
			panic(noSrc{}) // {} is the empty map
		}
		es := make([]string, len(v.Vs))
		for i := range es {
			es[i] = v.Vs[i].text()
		}
		return "{" + strings.Join(es, ",") + "}"
	case "map":
		es := make([]string, len(v.Es))
		for i := range es {
			es[i] = v.Es[i][0].keyText() + ":" + v.Es[i][1].text()
		}
		return "{" + strings.Join(es, ",") + "}"
	}
	panic(noSrc{})
}

// keyText is the text of a key. A name followed by a colon is a string
func (v *va) keyText() string {
	if v.K == "b" || v.K == "n" {
		return "(" + v.text() + ")"
	}
	return v.text()
}

func fltSrc(f float64) string {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		panic(noSrc{})
	}
	s := strconv.FormatFloat(f, 'g', -1, 64)
	if !strings.ContainsAny(s, ".e") {
		s += ".0"
	}
	return s
}

// precedence levels: 0 |, 1 ^, 2 &, 3 unary, 4 typeExpression
func (t *ty) text(level int) string {
	paren := func(l int, s string) string {
		if l < level {
			return "(" + s + ")"
		}
		return s
	}
	join := func(op string, l int) string {
		es := make([]string, len(t.Ts))
		for i := range es {
			es[i] = t.Ts[i].text(l + 1)
		}
		return paren(l, strings.Join(es, op))
	}
	switch t.K {
	case "ref":
		if len(t.Ts) == 0 {
			return t.S
		}
		return "(" + t.S + "=" + t.Ts[0].text(0) + ")"
	case "any", "nil", "bool", "int", "float", "dgo":
		return t.K
	case "string":
		return "string"
	case "arr":
		return "[]any"
	case "map":
		return "map[any]any"
	case "x":
		return t.V.text()
	case "intr":
		d := ".."
		if !t.Inc {
			d = "..."
		}
		lo, hi := t.Lo, t.Hi
		if lo > hi {
			lo, hi = hi, lo
		}
		switch {
		case lo == math.MinInt64 && hi == math.MaxInt64:
			panic(noSrc{})
		case lo == math.MinInt64:
			if d == "..." {
				// at the start of a list element, the dots would denote a variadic tuple
				return "(" + d + strconv.FormatInt(hi, 10) + ")"
			}
			return d + strconv.FormatInt(hi, 10)
		case hi == math.MaxInt64 && lo != hi:
			return strconv.FormatInt(lo, 10) + d
		}
		return strconv.FormatInt(lo, 10) + d + strconv.FormatInt(hi, 10)
	case "floatr":
		d := ".."
		if !t.Inc {
			d = "..."
		}
		lo, hi := t.FL, t.FH
		if lo > hi {
			lo, hi = hi, lo
		}
		return fltSrc(lo) + d + fltSrc(hi)
	case "strsz":
		return "string[" + sizeSrc(t.Lo, t.Hi, true) + "]"
	case "bin":
		panic(noSrc{})
	case "pat":
		return "/" + strings.Replace(patSrc(t.Pk, t.S), "/", `\/`, -1) + "/"
	case "ci":
		v := &va{K: "s", S: t.S}
		return paren(3, "~"+v.text())
	case "arrz":
		s := sizeSrc(t.Lo, t.Hi, true)
		return "[" + s + "]" + t.Ts[0].text(4)
	case "mapz":
		return "map[" + t.Ts[0].text(0) + sizeSrc(t.Lo, t.Hi, false) + "]" + t.Ts[1].text(4)
	case "tup":
		if len(t.Ts) == 0 {
			panic(noSrc{})
		}
		es := make([]string, len(t.Ts))
		for i := range es {
			es[i] = t.Ts[i].text(0)
		}
		if t.B {
			es[len(es)-1] = "..." + es[len(es)-1]
		}
		return "{" + strings.Join(es, ",") + "}"
	case "struct":
		var es []string
		for _, e := range t.Es {
			k := e.K.keyText()
			if e.K.K == "s" && len(k) == 3 && k[1] >= 'a' && k[1] <= 'z' {
				k = k[1:2]
			}
			if !e.Req {
				k += "?"
			}
			es = append(es, k+":"+e.T.text(0))
		}
		if t.B {
			es = append(es, "...")
		}
		return "{" + strings.Join(es, ",") + "}"
	case "not":
		if t.Ts[0].K == "not" {
			panic(noSrc{})
		}
		if t.Ts[0].K == "ci" {
			return paren(3, "!"+t.Ts[0].text(3))
		}
		return paren(3, "!"+t.Ts[0].text(4))
	case "all":
		return join("&", 2)
	case "anyof":
		return join("|", 0)
	case "one":
		return join("^", 1)
	case "sens":
		if k := t.Ts[0].K; k == "x" || k == "nil" {
			panic(noSrc{}) // the parser insists on a type
		}
		return "sensitive[" + t.Ts[0].text(0) + "]"
	case "meta":
		return "type[" + t.Ts[0].text(0) + "]"
	}
	panic(noSrc{})
}

// parse makes the real type from its text. The aliases that it declares are private to it
func (t *ty) parse() (rt dgo.Type, src string, ok bool) {
	if src, ok = t.src(); ok {
		if t.has("ref") {
			tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) {
				rt = tf.ParseFile(aa, "", src).(dgo.Type)
			})
		} else {
			rt = tf.ParseType(src)
		}
	}
	return
}

// recursive is a type that refers to itself
func (g *tgen) recursive(d int) *ty {
	name := []string{"A", "B", "C"}[len(g.refs)%3]
	r := &ty{K: "ref", S: name}
	self := &ty{K: "ref", S: name}
	g.refs = append(g.refs, self)
	defer func() { g.refs = g.refs[:len(g.refs)-1] }()
	inner := func() *ty {
		if d > 0 && g.chance(3) && len(g.refs) < 3 {
			return g.recursive(d - 1)
		}
		return g.refs[g.pick(len(g.refs))]
	}
	var def *ty
	arr := func() *ty {
		switch g.pick(4) {
		case 0:
			return &ty{K: "arrz", Ts: []*ty{inner()}, Lo: int64(g.pick(2)), Hi: unbounded}
		case 1:
			return &ty{K: "mapz", Ts: []*ty{{K: "string"}, inner()}, Lo: int64(g.pick(2)), Hi: unbounded}
		case 2:
			t := &ty{K: "struct", B: g.chance(4)}
			t.putEnt(g.key(), g.leaf(), true)
			t.putEnt(g.key(), inner(), false)
			return t
		}
		return &ty{K: "tup", Ts: []*ty{g.leaf(), inner()}, B: true}
	}
	if g.chance(2) {
		def = arr()
	} else {
		def = &ty{K: "anyof", Ts: []*ty{g.leaf(), arr()}}
		if g.chance(3) {
			def.Ts = append(def.Ts, arr())
		}
	}
	r.Ts = []*ty{def}
	if g.defs == nil {
		g.defs = map[string]*ty{}
	}
	g.defs[name] = def
	return r
}
