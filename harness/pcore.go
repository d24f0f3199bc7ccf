package main

import (
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
)

// Recordings of what the pcore parser makes of texts: P25

func init() {
	commands["pcore"] = recPcore
}

func pcorePrivate(s, file string) (v dgo.Value, err interface{}) {
	defer func() { err = recover() }()
	tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { v = pcore.ParseFile(aa, file, s) })
	return
}

// pcoreNumbers has the nearest floats of integers, and the integers that are closest to floats
func pcoreNumbers(s string) (nums, fl, round J) {
	nums = numerals(s)
	fl, round = J{}, J{}
	addFloat := func(f float64) {
		lo, hi := J{}, J{}
		if c := math.Ceil(f); c >= -(1<<63) && c < 1<<63 {
			lo = J{encInt(int64(c))}
		} else if c < 0 {
			lo = J{encInt(math.MinInt64)}
		}
		if c := math.Floor(f); c >= -(1<<63) && c < 1<<63 {
			hi = J{encInt(int64(c))}
		} else if c > 0 {
			hi = J{encInt(math.MaxInt64)}
		}
		round = append(round, J{encFloat(f), lo, hi})
	}
	for _, n := range nums {
		x := string(fromCodes(n.(J)[0]))
		if i, err := strconv.ParseInt(x, 0, 64); err == nil {
			fl = append(fl, J{encInt(i), encFloat(float64(i))})
			addFloat(float64(i))
		}
		if f, err := strconv.ParseFloat(x, 64); err == nil && !strings.ContainsAny(x, "xX") {
			addFloat(f)
		}
	}
	return
}

func fromCodes(x interface{}) []byte {
	var bs []byte
	switch x := x.(type) {
	case J:
		for _, c := range x {
			bs = append(bs, byte(c.(int)))
		}
	case []int:
		for _, c := range x {
			bs = append(bs, byte(c))
		}
	}
	return bs
}

// pcoreRegexps tells what strings and regular expressions of a text are valid regular expressions
func pcoreRegexps(s string) J {
	r := regexps(s)
	seen := map[string]bool{}
	for _, e := range r {
		seen[string(fromCodes(e.(J)[0]))] = true
	}
	simple := map[byte]byte{'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, '\\': '\\'}
	for i := 0; i < len(s); i++ {
		q := s[i]
		if q != '"' && q != '\'' {
			continue
		}
		var sb []byte
		for j := i + 1; j < len(s) && s[j] != q; j++ {
			if s[j] != '\\' || j+1 == len(s) {
				sb = append(sb, s[j])
				continue
			}
			j++
			hex := func(n int) (uint64, bool) {
				if j+1+n > len(s) {
					return 0, false
				}
				v, err := strconv.ParseUint(s[j+1:j+1+n], 16, 32)
				return v, err == nil
			}
			if c, ok := simple[s[j]]; ok {
				sb = append(sb, c)
			} else if s[j] == q {
				sb = append(sb, q)
			} else if n := map[byte]int{'x': 2, 'u': 4, 'U': 8}[s[j]]; n > 0 {
				if v, ok := hex(n); ok {
					if n == 2 {
						sb = append(sb, byte(v))
					} else {
						sb = append(sb, string(rune(v))...)
					}
					j += n
				}
			}
		}
		if x := string(sb); !seen[x] {
			seen[x] = true
			_, err := regexp.Compile(x)
			r = append(r, J{codes(x), err == nil})
		}
	}
	return r
}

func pcoreEvent(s string, g *tgen) (ev M, ok bool) {
	ev = M{"op": "pcore", "s": codes(s), "text": s}
	ok = encodable(func() { ev["nums"], ev["fl"], ev["round"] = pcoreNumbers(s) })
	if !ok {
		return
	}
	ev["rx"] = pcoreRegexps(s)
	for i, w := 0, 0; i < len(s); i += w {
		var r rune
		if r, w = utf8.DecodeRuneInString(s[i:]); r == utf8.RuneError && w == 1 {
			ev["bad"] = i + 1
			break
		}
	}
	file := ""
	if g.chance(4) {
		file = "x.pp"
	}
	v, err := pcorePrivate(s, file)
	ev["ok"] = err == nil
	if err != nil {
		ev["err"] = describeErr(err)
		return
	}
	ok = encodable(func() { ev["val"] = describe(v) })
	return
}

func recPcore(c *cfg) {
	rec := newRecorder(c.out)
	interned = map[string]int{}
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1117 + int64(c.shard))), noNative: true}
	put := func(s string) {
		rec.guarded(func() {
			if ev, ok := pcoreEvent(s, g); ok {
				switch {
				case ev["ok"] == true:
					rec.count("accepted")
				case ev["bad"] != nil:
					rec.count("refused, not UTF-8")
				default:
					rec.count("refused")
				}
				rec.emit(ev)
			}
		})
	}
	if c.mode != "" {
		enumTokens(c, pcAlphabets, put)
	} else {
		for rec.n < c.n {
			put(g.anyPcore())
		}
	}
	rec.close()
}

var (
	pcBare   = []string{"Any", "Boolean", "False", "Timestamp", "True", "Undef", "Array", "Binary", "Callable", "Float", "Enum", "Hash", "Integer", "Number", "NotUndef", "Optional", "Pattern", "Regexp", "Sensitive", "String", "Struct", "Tuple", "Type", "Variant"}
	pcAlias  = []string{"Foo", "Bar", "Foo::Bar", "My_Type", "B2", "FOO", "Data"}
	pcWords  = []string{"a", "b", "foo", "true", "false", "undef", "type", "default", "a::b", "x_y", "a::_b", "integer"}
	pcStrs   = []string{`'a'`, `"a"`, `"b c"`, `'it\'s'`, `"say \"x\""`, `''`, `"\n\t\\"`, `'\x41'`, `"\u00e9\U0001F600"`, `"é"`, `'"'`, `"'"`, `"#"`, `'a.*'`, `"("`, `'[a-z]'`, `'=>'`, `"default"`}
	pcBadStr = []string{`'a`, `"a'`, "'a\nb'", `'\"'`, `"\'"`, `"\q"`, `"\x4"`, `'\ud800'`, `'\`, "'\x00'"}
	pcBadNam = []string{"A:B", "a:b", "Foo:", "foo::", "Foo::bar", "foo::Bar", "A::", "A:::B", "a::1", "_a", "$a", "Ä", "A::_b"}
	pcPuncts = []string{"{", "}", "[", "]", "(", ")", ",", "=>", "=", ":", "|", ".", "..", ";", "#", "-", "+", "'", "\"", "/", "*", "@", "%", "é", "\x01", "\x02", "\x03", "\x04", "\x05", "\x06", "\x07", "\r", "\x08", "\\", "\x7f", "\u2028", "~", "?", ">", "`"}
	pcSpaces = []string{"", "", "", "", " ", "  ", "\n", "\t", " # c\n", "#\n", " \n ", "# ] => \r'\" é # , \n", "#\\\n"}
)

func (g *tgen) psp() string { return g.of(pcSpaces) }

type ptexts struct {
	g        *tgen
	declared []string
}

func (x *ptexts) list(es ...string) string {
	g := x.g
	for i := range es {
		es[i] = g.psp() + es[i] + g.psp()
	}
	s := strings.Join(es, ",")
	if len(es) > 0 && g.chance(8) {
		s += "," + g.psp()
	}
	return s
}

func (x *ptexts) some(n int, f func() string) (es []string) {
	for ; n > 0; n-- {
		es = append(es, f())
	}
	return
}

// size is a bound of a size or a range
func (x *ptexts) size() string {
	g := x.g
	switch g.pick(12) {
	case 0, 1:
		return "default"
	case 2:
		return g.of([]string{"0x2", "-1", "+3", "9223372036854775807"})
	case 3:
		if g.chance(3) {
			return g.of([]string{"1.5", "'a'", "a", "undef", "Integer", "08", "[1]", "true"})
		}
	}
	return strconv.Itoa(g.pick(4))
}

func (x *ptexts) sizes(max int) []string { return x.some(x.g.pick(max+1), x.size) }

func (x *ptexts) number() string {
	g := x.g
	if g.chance(6) {
		return "default"
	}
	if g.chance(2) {
		return g.of(gFloats)
	}
	if g.chance(12) {
		return g.of([]string{"'a'", "a", "1e999", "Float"})
	}
	return g.of(gInts)
}

func (x *ptexts) rx() string {
	g := x.g
	switch g.pick(4) {
	case 0:
		return g.of(pcStrs)
	case 1:
		return g.of(pcWords)
	}
	return g.of(gRxs)
}

func (x *ptexts) key(d int) string {
	g := x.g
	switch g.pick(6) {
	case 0:
		return g.of(pcStrs)
	case 1:
		return g.of(gInts)
	case 2:
		return "Optional[" + g.of(append(append([]string{}, pcWords...), pcStrs...)) + "]"
	case 3:
		if g.chance(3) {
			return x.element(d)
		}
	}
	return g.of(pcWords)
}

func (x *ptexts) entries(d int) []string {
	return x.some(x.g.pick(4), func() string {
		return x.key(d-1) + x.g.psp() + "=>" + x.g.psp() + x.element(d-1)
	})
}

func (x *ptexts) types(n, d int) []string {
	return x.some(n, func() string { return x.typ(d) })
}

// typ is a type
func (x *ptexts) typ(d int) string {
	g := x.g
	if d <= 0 || g.chance(6) {
		if len(x.declared) > 0 && g.chance(2) {
			return x.declared[g.pick(len(x.declared))]
		}
		if g.chance(25) {
			return g.of(pcAlias)
		}
		return g.of(pcBare)
	}
	d--
	var as []string
	n := g.of(pcBare[6:])
	switch n {
	case "Array":
		if g.chance(2) {
			as = append(x.types(1, d), x.sizes(2)...)
		} else {
			as = x.sizes(2)
		}
	case "Hash":
		if g.chance(2) {
			as = append(x.types(2, d), x.sizes(2)...)
		} else {
			as = x.sizes(2)
		}
	case "Binary", "String":
		as = x.sizes(2)
		if n == "String" && g.chance(3) {
			as = []string{g.of(pcStrs)}
		}
	case "Float", "Number":
		as = x.some(1+g.pick(2), x.number)
	case "Integer":
		as = x.some(1+g.pick(2), func() string {
			if g.chance(5) {
				return "default"
			}
			return g.of(gInts)
		})
	case "Enum":
		as = x.some(1+g.pick(3), func() string { return g.of(append(append([]string{}, "a", "b", "foo", "B"), pcStrs...)) })
		if g.chance(4) {
			as = append(as, g.of([]string{"true", "false"}))
		}
	case "Pattern":
		as = x.some(1+g.pick(2), x.rx)
	case "Regexp":
		as = x.some(1, x.rx)
	case "Sensitive", "Type", "NotUndef":
		as = x.types(1, d)
	case "Optional":
		if as = x.types(1, d); g.chance(3) {
			as = []string{g.of(pcStrs)}
		}
	case "Struct":
		if as = x.entries(d + 1); g.chance(2) || len(as) == 0 {
			as = []string{"{" + x.list(as...) + "}"}
		}
	case "Tuple":
		as = append(x.types(g.pick(4), d), x.sizes(2)...)
	case "Variant":
		as = x.types(g.pick(4), d)
	case "Callable":
		as = append(x.types(g.pick(3), d), x.sizes(2)...)
		if g.chance(2) {
			as = append(as, g.of([]string{"Callable", "Callable[String]", "Callable[[],Integer]"}))
		}
		if g.chance(2) {
			as = []string{"[" + x.list(as...) + "]", x.typ(d)}
		}
	}
	if g.chance(20) {
		// some other arguments
		as = x.some(g.pick(4), func() string { return x.element(d) })
	}
	return n + g.of([]string{"", "", "", "", " "}) + "[" + x.list(as...) + "]"
}

func (x *ptexts) element(d int) string {
	g := x.g
	switch g.pick(14) {
	case 0:
		return g.of(gInts)
	case 1:
		return g.of(gFloats)
	case 2:
		return g.of(pcStrs)
	case 3:
		return g.of(pcWords)
	case 4:
		return g.of(gRxs)
	case 5:
		if d > 0 {
			return "{" + x.list(x.entries(d)...) + "}"
		}
	case 6, 7:
		if d > 0 {
			es := x.some(g.pick(4), func() string {
				if g.chance(3) {
					return x.key(d-1) + g.psp() + "=>" + g.psp() + x.element(d-1)
				}
				return x.element(d - 1)
			})
			return "[" + x.list(es...) + "]"
		}
	case 8:
		if d > 0 {
			n := g.of(pcAlias[:6])
			for _, p := range x.declared {
				if n == p && !g.chance(8) {
					return n
				}
			}
			x.declared = append(x.declared, n)
			return "type " + n + g.psp() + "=" + g.psp() + x.typ(d-1)
		}
	case 9:
		if d > 0 {
			t := g.of([]string{"Integer", "String", "Boolean", "Float", "Any", "Integer[1,3]", "Array", "Hash", "Type", "Sensitive"})
			return t + "(" + x.list(x.some(g.pick(8)/7*g.pick(3)+1-g.pick(8)/7, func() string { return x.element(d - 1) })...) + ")"
		}
	}
	return x.typ(d)
}

func (g *tgen) validPcore(d int) string {
	x := &ptexts{g: g}
	s := x.element(d)
	if g.chance(8) {
		s += g.psp() + "=>" + g.psp() + x.element(d)
	}
	if g.chance(3) {
		s = g.psp() + s + g.psp()
	}
	return s
}

func (g *tgen) pcToken() string {
	switch g.pick(14) {
	case 0:
		return g.of(gInts)
	case 1:
		return g.of(gFloats)
	case 2:
		return g.of(pcStrs)
	case 3:
		return g.of(gRxs)
	case 4:
		if g.chance(2) {
			return g.of([][]string{gBadInts, gBadNum, pcBadStr, gBadRxs, pcBadNam}[g.pick(5)])
		}
		return g.of(pcAlias)
	case 5, 6:
		return g.of(pcBare)
	case 7, 8:
		return g.of(pcWords)
	case 9:
		return "type " + g.of(pcAlias) + "="
	}
	if g.chance(6) {
		return g.of(pcPuncts)
	}
	return g.of(pcPuncts[:9])
}

func (g *tgen) anyPcore() string {
	switch g.pick(8) {
	case 0, 1, 2:
		return g.validPcore(g.pick(4))
	case 3: // tokens
		s := ""
		for n := 1 + g.pick(7); n > 0; n-- {
			s += g.pcToken() + g.of([]string{" ", "", " ", "\n"})
		}
		return s
	case 4: // characters
		s := ""
		for n := g.pick(8); n > 0; n-- {
			if g.chance(2) {
				s += g.of(pcPuncts)
			} else {
				s += g.of([]string{"0", "1", "9", ".", "e", "x", "a", "f", "A", "B", ":", "::", "_", "-", "+", "\"", "'", "/", "\\", "\n", " ", "\x00", "\xff", "\ufffd", "u", "#"})
			}
		}
		return s
	}
	// a valid one with some damage
	s := g.validPcore(1 + g.pick(3))
	for n := 1 + g.pick(2); n > 0; n-- {
		if s == "" {
			break
		}
		i := g.pick(len(s) + 1)
		switch g.pick(6) {
		case 0:
			s = s[:i] + g.pcToken() + s[i:]
		case 1:
			s = s[:i] + g.of(pcPuncts) + s[i:]
		case 2:
			s = s[:i]
		case 3:
			j := i + 1 + g.pick(4)
			if j > len(s) {
				j = len(s)
			}
			s = s[:i] + s[j:]
		case 4:
			if i < len(s) {
				j := i + 1 + g.pick(6)
				if j > len(s) {
					j = len(s)
				}
				s = s[:j] + s[i:j] + s[j:]
			}
		case 5:
			s = s[:i] + string([]byte{"\"'/\\\n\x00\xff\xc3.0e#:"[g.pick(13)]}) + s[i:]
		}
	}
	return s
}

var pcAlphabets = [][]string{
	{"[", "]", "{", "}", "a", "1", ",", "=>", "Integer"},
	{"Tuple[", "Callable[", "]", "1", "0", "default", "String", ",", "[", "Callable"},
	{"Array[", "Hash[", "]", "2", "default", "Integer", ",", "'a'", "True"},
	{"Struct[", "{", "}", "]", "a", "=>", "Optional[", "Integer", ","},
	{"type", "Foo", "=", "[", "]", "Bar", "Integer", ",", "Array["},
	{"Integer", "(", ")", "3", "'4'", ",", "[", "]", "=>"},
	{"Variant[", "NotUndef[", "Optional[", "]", "Undef", "String", ",", "undef", "Any"},
	{"Number[", "Integer[", "Float[", "]", "1.5", "-2.5", "3", ",", "default", "1e300"},
	{"Enum[", "Pattern[", "String[", "Regexp[", "]", "a", "'('", ",", "/b/", "true"},
}
