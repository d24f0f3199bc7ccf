package main

import (
	"strconv"
	"strings"
)

// Texts in the type language, and texts that are close to it

var (
	gIdents  = []string{"a", "b", "c", "foo", "$x", "_y1", "aB9"}
	gSimples = []string{"any", "bool", "int", "float", "string", "dgo", "binary", "true", "false", "nil", "type", "sensitive"}
	gInts    = []string{"0", "1", "2", "3", "7", "12", "-1", "-3", "+4", "0x1F", "0X0a", "-0x2", "9223372036854775807", "-9223372036854775808", "010", "100"}
	gBadInts = []string{"9223372036854775808", "08", "99999999999999999999", "-9223372036854775809", "0xffffffffffffffff"}
	gFloats  = []string{"0.5", "1.0", "2.25", "-1.5", "1e2", "2.5e1", "1E+2", "-0.25e0", "1.0e-0", "1e100", "+0.75", "00.5", "0.1", "1e-300", "3.14159265358979", "5e-324"}
	gBadNum  = []string{"1.", "1.e2", "1e", "1e+", "0x", "0xg", "12x", "1.2.3", "1e5.2", "1.5x2", "-", "+", "-a", "1e999", "--1", "1e2a", "1.0e5e", ".5"}
	gStrs    = []string{`"a"`, `"b c"`, "`a\\n`", `""`, `"\n\t\r\\\""`, `"\a\b\f\v"`, `"\x41\xff"`, `"\u00e9\U0001F600"`, `"é"`, "`\"`", "`x\ny`", `"'"`, `"/"`}
	gBadStrs = []string{`"a`, "\"a\nb\"", `"\q"`, `"\x4"`, `"\xg1"`, `"\ud800"`, `"\U00110000"`, `"\u12"`, "`a", `"\`, "\"a\x00b\"", "`\x00`", `"\U1F600"`, `"\'"`}
	gRxs     = []string{`/a/`, `/a.*b/`, `/\//`, `/\d+/`, `/^a\/b$/`, `//`, `/[a-z]/`, `/é/`, `/"/`, `/\\/`, `/(a|b)+/`}
	gBadRxs  = []string{`/(/`, `/a`, "/a\nb/", `/\`, `/[/`, `/*/`, `/\`, "/\x00/", `/a\`}
	gPuncts  = []string{"{", "}", "[", "]", "(", ")", "<", ">", ",", ":", "?", "=", "|", "^", "&", "!", "~", "..", "...", ".", ";", "*", "'", "@", "%", "#", "é", "\x01", "\r", "\\", "\x7f", "\u2028"}
	gWords   = []string{"map", "type", "string", "sensitive", "func", "int", "any", "nil", "true", "a", "b", "foo", "dgo", "binary"}
	gSpaces  = []string{"", "", "", " ", "  ", "\n", "\t", " \n "}
)

func (g *tgen) of(ss []string) string { return ss[g.pick(len(ss))] }

// sp is white space, most often none
func (g *tgen) sp() string { return g.of(gSpaces) }

// declarations that are in progress or done, and those that must be made
type texts struct {
	g        *tgen
	declared []string
	pending  []string
}

func (g *tgen) validText(d int) string {
	x := &texts{g: g}
	s := x.expr(d, 0)
	if g.chance(3) {
		s = g.sp() + s + g.sp()
	}
	return s
}

func (x *texts) list(n int, f func() string) string {
	g := x.g
	es := make([]string, n)
	for i := range es {
		es[i] = g.sp() + f() + g.sp()
	}
	s := strings.Join(es, ",")
	if n > 0 && g.chance(8) {
		s += "," + g.sp()
	}
	return s
}

// expr is an expression that can be an operand of an operator of the level
func (x *texts) expr(d, level int) string {
	g := x.g
	if d <= 0 || g.chance(4) {
		return x.leaf(level)
	}
	switch g.pick(16) {
	case 0, 1:
		l := g.pick(3)
		es := make([]string, 2+g.pick(2))
		for i := range es {
			es[i] = x.expr(d-1, l+1)
		}
		s := strings.Join(es, g.sp()+[]string{"|", "^", "&"}[l]+g.sp())
		if l < level || g.chance(8) {
			s = "(" + s + ")"
		}
		return s
	case 2:
		return "!" + g.sp() + x.expr(d-1, 3)
	case 3:
		return "(" + g.sp() + x.expr(d-1, 0) + g.sp() + ")"
	case 4, 5:
		n := 1 + g.pick(3)
		if g.chance(4) {
			return "{" + x.list(n-1, func() string { return x.expr(d-1, 0) }) + map[bool]string{true: "", false: ","}[n == 1] + "..." + x.expr(d-1, 0) + "}"
		}
		return "{" + x.list(n, func() string { return x.expr(d-1, 0) }) + "}"
	case 6, 7:
		s := x.list(g.pick(4), func() string { return x.key(d-1) + ":" + g.sp() + x.expr(d-1, 0) })
		if g.chance(4) {
			if s != "" && !strings.HasSuffix(strings.TrimSpace(s), ",") {
				s += ","
			}
			s += "..."
		}
		return "{" + s + "}"
	case 8, 9:
		return "[" + x.sizes() + "]" + g.sp() + x.expr(d-1, 3)
	case 10:
		z := x.sizes()
		if z != "" || g.chance(10) {
			z = "," + z
		}
		return "map[" + x.expr(d-1, 0) + z + "]" + g.sp() + x.expr(d-1, 3)
	case 11:
		return "type[" + x.expr(d-1, 0) + "]"
	case 12:
		if g.chance(3) {
			return "sensitive " + x.expr(d-1, level)
		}
		return "sensitive[" + x.expr(d-1, 0) + "]"
	case 13:
		s := "func(" + x.list(g.pick(3), func() string { return x.expr(d-1, 0) }) + ")"
		switch g.pick(4) {
		case 0:
			s += "(" + x.list(g.pick(3), func() string { return x.expr(d-1, 0) }) + ")"
		case 1:
			s += " " + x.expr(d-1, level)
		case 2:
			s = strings.Replace(s, "func(", "func(..."+x.expr(d-1, 0), 1)
			if i := strings.IndexByte(s, ')'); g.chance(2) && i > 0 {
				s += "(...any)"
			}
		}
		return s
	case 14:
		n := g.of(gIdents)
		for _, p := range x.declared {
			if n == p && !g.chance(10) {
				return n
			}
		}
		x.declared = append(x.declared, n)
		if g.chance(2) {
			return "(" + n + g.sp() + "=" + g.sp() + x.expr(d-1, 0) + ")"
		}
		return n + "=" + x.expr(d-1, 0)
	}
	return x.leaf(level)
}

func (x *texts) key(d int) string {
	g := x.g
	s := ""
	switch g.pick(8) {
	case 0:
		s = x.g.of(gStrs)
	case 1:
		s = g.of(gInts)
	case 2:
		s = x.expr(d, 0)
	case 3:
		s = g.of(gWords)
	case 4:
		s = "(" + g.of([]string{"true", "nil", "false", "1", "a"}) + ")"
	default:
		s = g.of(gIdents)
	}
	if g.chance(3) {
		s += g.sp() + "?"
	}
	return s
}

func (x *texts) sizes() string {
	g := x.g
	switch g.pick(8) {
	case 0:
		return g.of([]string{"0", "1", "3", "-1", "0x2"})
	case 1:
		return strconv.Itoa(g.pick(4)) + "," + strconv.Itoa(g.pick(5))
	case 2:
		if g.chance(3) {
			return g.of([]string{"int", "\"a\"", "1,2,3", "1.5", "0,", "1,2,", ",", "9223372036854775807", "0,9223372036854775807"})
		}
	}
	return ""
}

func (x *texts) leaf(level int) string {
	g := x.g
	switch g.pick(13) {
	case 0, 1, 2:
		return g.of(gSimples)
	case 3:
		return g.of(gInts)
	case 4:
		return g.of(gFloats)
	case 5:
		return g.of(gStrs)
	case 6:
		return g.of(gRxs)
	case 7, 8:
		a := append(append([]string{}, gInts...), gFloats...)
		switch g.pick(4) {
		case 0:
			return g.of(a) + g.of([]string{"..", "...", " .. ", "... "})
		case 1:
			return g.of([]string{"..", "...", " .. ", "... "}) + g.of(a)
		}
		return g.of(a) + g.of([]string{"..", "...", " ..", "... "}) + g.of(a)
	case 9:
		return "~" + g.sp() + g.of(gStrs)
	case 10:
		return "string[" + g.of([]string{"1", "1,3", "0", "3,1", `"a"`, "", "-2,2"}) + "]"
	case 11:
		if len(x.declared) > 0 && !g.chance(6) {
			n := x.declared[g.pick(len(x.declared))]
			if g.chance(3) {
				return "<" + n + ">"
			}
			return n
		}
		if g.chance(5) {
			return g.of(gIdents)
		}
	}
	return g.of(gSimples)
}

// token is any token, or something that isn't
func (g *tgen) token() string {
	switch g.pick(20) {
	case 0, 1:
		return g.of(gInts)
	case 2:
		return g.of(gFloats)
	case 3:
		return g.of(gStrs)
	case 4:
		return g.of(gRxs)
	case 5:
		if g.chance(2) {
			return g.of([][]string{gBadInts, gBadNum, gBadStrs, gBadRxs}[g.pick(4)])
		}
		return g.of(gIdents)
	case 6, 7, 8, 9, 10:
		return g.of(gWords)
	case 11:
		return g.of(gIdents) + "="
	}
	if g.chance(8) {
		return g.of(gPuncts)
	}
	return g.of(gPuncts[:19])
}

func (g *tgen) anyText() string {
	switch g.pick(8) {
	case 0, 1:
		return g.validText(g.pick(4))
	case 2: // tokens
		s := ""
		for n := 1 + g.pick(7); n > 0; n-- {
			s += g.token() + g.of([]string{" ", "", " ", "\n"})
		}
		return s
	case 3: // characters
		s := ""
		for n := g.pick(8); n > 0; n-- {
			if g.chance(2) {
				s += g.of(gPuncts)
			} else {
				s += g.of([]string{"0", "1", "9", ".", "e", "x", "a", "f", "-", "+", "\"", "`", "/", "\\", "\n", " ", "\x00", "\xff", "\ufffd", "u", "n"})
			}
		}
		return s
	}
	// a valid one with some damage
	s := g.validText(1 + g.pick(3))
	for n := 1 + g.pick(2); n > 0; n-- {
		if s == "" {
			break
		}
		i := g.pick(len(s) + 1)
		switch g.pick(6) {
		case 0:
			s = s[:i] + g.token() + s[i:]
		case 1:
			s = s[:i] + g.of(gPuncts) + s[i:]
		case 2:
			s = s[:i]
		case 3:
			j := i + 1 + g.pick(4)
			if j > len(s) {
				j = len(s)
			}
			s = s[:i] + s[j:]
		case 4:
			if i < len(s) {
				j := i + 1 + g.pick(6)
				if j > len(s) {
					j = len(s)
				}
				s = s[:j] + s[i:j] + s[j:]
			}
		case 5:
			s = s[:i] + string([]byte{"\"`/\\\n\x00\xff\xc3.0e|"[g.pick(12)]}) + s[i:]
		}
	}
	return s
}

// enumTexts puts all sequences of tokens of the length that the mode tells, from each alphabet. The sequences are divided
// between 8 shards
func enumTexts(c *cfg, put func(string)) { enumTokens(c, alphabets, put) }

func enumTokens(c *cfg, alphabets [][]string, put func(string)) {
	n, _ := strconv.Atoi(c.mode)
	i := 0
	for _, abc := range alphabets {
		idx := make([]int, n)
		for j := 0; j >= 0; i++ {
			if i%8 == c.shard {
				ts := make([]string, n)
				for j := range ts {
					ts[j] = abc[idx[j]]
				}
				put(strings.Join(ts, " "))
			}
			for j = n - 1; j >= 0; j-- {
				if idx[j]++; idx[j] < len(abc) {
					break
				}
				idx[j] = 0
			}
		}
	}
}

var alphabets = [][]string{
	{"int", "nil", "!", "|", "&", "^", "(", ")", "[", "]"},
	{"a", "1", "{", "}", ",", ":", "?", "...", "\"s\""},
	{"1", "2.5", "..", "...", "-3", "[", "]", ",", "{", "}"},
	{"func", "(", ")", "int", "a", "...", ",", "|", "any"},
	{"a", "=", "b", "{", "}", "int", ",", "|", "<", ">"},
	{"map", "[", "]", ",", "int", "1", "string", "!", "nil"},
	{"sensitive", "type", "[", "]", "int", "1", "~", "\"a\"", "/b/", "|"},
}
