package main

import (
	"math"
	"math/rand"
)

// tgen makes random types and values
type tgen struct {
	r *rand.Rand
	// what is not to be generated
	noMeta, noNative, noDgo, noRich bool
	rough                           bool // strings and floats have any content
	refs                            []*ty
	defs                            map[string]*ty
}

var nums = []int64{0, 1, -1, 2, 3, 5, 7, 10, 127, 128, -128, 255, 256, 32767, 32768, 65535, 1 << 31, 1<<31 - 1, -(1 << 31), 1 << 32, 1<<32 - 1,
	1 << 53, 1<<53 + 1, 1<<53 - 1, -(1<<53 + 1), math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}

func (g *tgen) pick(n int) int    { return g.r.Intn(n) }
func (g *tgen) chance(n int) bool { return g.r.Intn(n) == 0 }

func (g *tgen) num() int64 {
	if g.chance(3) {
		return nums[g.pick(len(nums))]
	}
	return int64(g.pick(9) - 3)
}

// numNear is a number that is close to n
func (g *tgen) numNear(n int64) int64 {
	d := int64(g.pick(5) - 2)
	if d > 0 && n > math.MaxInt64-d || d < 0 && n < math.MinInt64-d {
		return n
	}
	return n + d
}

var flts = []float64{0, 1, -1, 0.5, 0.25, -0.25, 2, 3, 1.75, 1 << 31, 1<<32 + 0.5, 1 << 53, 1<<53 + 2, 1 << 63, -(1 << 63), 1e100,
	math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1)}

func (g *tgen) flt() float64 {
	if g.rough && g.chance(3) {
		return roughFloats[g.pick(len(roughFloats))]
	}
	if g.chance(3) {
		return flts[g.pick(len(flts))]
	}
	return float64(g.pick(20)-8) / 4
}

func (g *tgen) fltNear(f float64) float64 {
	if math.Abs(f) < 1e6 {
		return f + float64(g.pick(5)-2)/4
	}
	return f
}

var strs = []string{"", "a", "b", "ab", "ba", "abc", "A", "aB", "k", "K", "\u212a", "s", "S", "\u017f", "sk", "S\u212a", "int", "1..3", "true", "x y", "{", "ä",
	"aab", "bb", "[]int", "nil", "\"a\"", "string"}

func (g *tgen) str() string {
	if g.rough && g.chance(2) {
		return g.roughStr()
	}
	if g.chance(2) {
		return strs[g.pick(len(strs))]
	}
	n := g.pick(5)
	bs := make([]byte, n)
	for i := range bs {
		bs[i] = "abkS"[g.pick(4)]
	}
	return string(bs)
}

var roughFloats = []float64{0.1, 1e-300, 5e-324, math.Pi, -1.1, 1e21, 1e20, 123456789.125, 1e6, 1e7, 9007199254740994, 1e-5, 1e-4, 12345678, 2.5e17,
	math.Copysign(0, -1), 1 << 62, 4e15}

var roughBits = []string{"a", "b", "k", "0", " ", "\"", "\\", "`", "/", "'", "\n", "\t", "\r", "\x00", "\x01", "\x7f", "\xff", "\xc3", "\u00e9", "\u2028",
	"\ufffd", "\U0001f600", "\U000e0001", "\u00ad", "\a", "\b", "\f", "\v", "\x1b", ":", "?", "$", ".", "{", "}", "%", "&", "true", "nil", "int", "map"}

// roughStr is a string with any content
func (g *tgen) roughStr() string {
	s := ""
	for n := g.pick(5); n > 0; n-- {
		s += roughBits[g.pick(len(roughBits))]
	}
	return s
}

// safe type values
func (g *tgen) tval() *ty {
	ts := []*ty{{K: "int"}, {K: "string"}, {K: "float"}, {K: "bool"}, {K: "any"}, {K: "intr", Lo: 1, Hi: 5, Inc: true}, {K: "intr", Lo: 0, Hi: 9, Inc: true},
		{K: "strsz", Lo: 1, Hi: 3}, {K: "x", V: &va{K: "i", I: 3}}, {K: "x", V: &va{K: "s", S: "a"}}, {K: "arr"}, {K: "map"}, {K: "nil"},
		{K: "arrz", Ts: []*ty{{K: "int"}}, Hi: unbounded}, {K: "meta", Ts: []*ty{{K: "int"}}}, {K: "meta", Ts: []*ty{{K: "any"}}}, {K: "metameta"}}
	return ts[g.pick(len(ts))]
}

// scalar value
func (g *tgen) scalar() *va {
	for {
		switch k := g.pick(24); {
		case k < 2:
			return &va{K: "n"}
		case k < 4:
			return &va{K: "b", B: g.chance(2)}
		case k < 9:
			return &va{K: "i", I: g.num()}
		case k < 12:
			return &va{K: "f", F: g.flt()}
		case k < 18:
			return &va{K: "s", S: g.str()}
		case k == 18:
			return &va{K: "bin", S: g.str()}
		case k == 19 && !g.noRich:
			return &va{K: "rx", S: []string{"a", "b", "a.b", ""}[g.pick(4)]}
		case k == 20 && !g.noRich:
			return &va{K: "tm", I: int64(g.pick(4) * 1000)}
		case k == 21 && !g.noRich:
			return &va{K: "err", S: []string{"a", "b"}[g.pick(2)]}
		case k == 22 && !g.noMeta:
			return &va{K: "t", T: g.tval()}
		case k == 23 && !g.noNative:
			return &va{K: "nat", S: "chan", I: int64(g.pick(3))}
		}
	}
}

// val is any value of at most the given depth
func (g *tgen) val(d int) *va {
	if d > 0 {
		if g.chance(60) {
			return g.bigVal()
		}
		switch g.pick(6) {
		case 0:
			v := &va{K: "arr"}
			for n := g.pick(4); n > 0; n-- {
				v.Vs = append(v.Vs, g.val(d-1))
			}
			return v
		case 1:
			v := &va{K: "map"}
			for n := g.pick(4); n > 0; n-- {
				v.put(g.key(), g.val(d-1))
			}
			return v
		case 2:
			if g.chance(3) && !g.noRich {
				return &va{K: "sens", Vs: []*va{g.val(d - 1)}}
			}
		}
	}
	return g.scalar()
}

func (g *tgen) key() *va {
	switch g.pick(8) {
	case 0:
		return &va{K: "i", I: int64(g.pick(3))}
	case 1:
		return &va{K: "b", B: g.chance(2)}
	}
	if g.rough && g.chance(3) {
		return &va{K: "s", S: g.str()}
	}
	return &va{K: "s", S: []string{"a", "b", "c", "d", "ab"}[g.pick(5)]}
}

func (v *va) same(w *va) bool {
	if v.K != w.K || v.B != w.B || v.I != w.I || v.F != w.F || v.S != w.S || len(v.Vs) != len(w.Vs) || len(v.Es) != len(w.Es) {
		return false
	}
	for i := range v.Vs {
		if !v.Vs[i].same(w.Vs[i]) {
			return false
		}
	}
	for i := range v.Es {
		found := false
		for j := range w.Es {
			found = found || v.Es[i][0].same(w.Es[j][0]) && v.Es[i][1].same(w.Es[j][1])
		}
		if !found {
			return false
		}
	}
	if v.T != nil || w.T != nil {
		return v.T != nil && w.T != nil && text(v.T.enc()) == text(w.T.enc())
	}
	return true
}

func (v *va) put(k, x *va) {
	for i := range v.Es {
		if v.Es[i][0].same(k) {
			v.Es[i][1] = x
			return
		}
	}
	v.Es = append(v.Es, [2]*va{k, x})
}

// mutate is a value that is close to v
func (g *tgen) mutate(v *va) *va {
	switch v.K {
	case "b":
		return &va{K: "b", B: !v.B}
	case "i":
		if g.chance(4) {
			return &va{K: "f", F: float64(v.I)}
		}
		return &va{K: "i", I: g.numNear(v.I)}
	case "f":
		if g.chance(4) && v.F == math.Trunc(v.F) && math.Abs(v.F) < 1e9 {
			return &va{K: "i", I: int64(v.F)}
		}
		return &va{K: "f", F: g.fltNear(v.F)}
	case "s":
		switch g.pick(6) {
		case 0:
			return &va{K: "s", S: v.S + "a"}
		case 1:
			return &va{K: "s", S: "b" + v.S}
		case 2:
			if len(v.S) > 0 && v.S[0] < 128 {
				return &va{K: "s", S: v.S[1:]}
			}
		case 3:
			return &va{K: "bin", S: v.S}
		case 4:
			s := []byte(v.S)
			for i := range s {
				if s[i] >= 'a' && s[i] <= 'z' {
					s[i] -= 32
				} else if s[i] >= 'A' && s[i] <= 'Z' {
					s[i] += 32
				}
			}
			return &va{K: "s", S: string(s)}
		}
		return &va{K: "s", S: v.S + "k"}
	case "bin":
		return &va{K: "bin", S: v.S + "a"}
	case "arr":
		r := &va{K: "arr", Vs: append([]*va{}, v.Vs...)}
		n := len(r.Vs)
		switch k := g.pick(5); {
		case k == 0 || n == 0:
			r.Vs = append(r.Vs, g.val(1))
		case k == 1:
			r.Vs = r.Vs[:n-1]
		case k == 2:
			r.Vs = append(r.Vs, r.Vs[n-1])
		case k == 3:
			i := g.pick(n)
			r.Vs[i], r.Vs[0] = r.Vs[0], r.Vs[i]
		default:
			i := g.pick(n)
			r.Vs[i] = g.mutate(r.Vs[i])
		}
		return r
	case "map":
		r := &va{K: "map", Es: append([][2]*va{}, v.Es...)}
		n := len(r.Es)
		switch k := g.pick(5); {
		case k == 0 || n == 0:
			r.put(g.key(), g.val(1))
		case k == 1:
			i := g.pick(n)
			r.Es = append(append([][2]*va{}, r.Es[:i]...), r.Es[i+1:]...)
		case k == 2:
			i := g.pick(n)
			r.Es[i], r.Es[0] = r.Es[0], r.Es[i]
		case k == 3:
			i := g.pick(n)
			nk := g.key()
			for _, e := range r.Es {
				if e[0].same(nk) {
					return r
				}
			}
			r.Es[i] = [2]*va{nk, r.Es[i][1]}
		default:
			i := g.pick(n)
			r.Es[i] = [2]*va{r.Es[i][0], g.mutate(r.Es[i][1])}
		}
		return r
	case "sens":
		if g.chance(2) {
			return v.Vs[0]
		}
		return &va{K: "sens", Vs: []*va{g.mutate(v.Vs[0])}}
	case "tm":
		return &va{K: "tm", I: v.I + 1}
	case "t":
		return &va{K: "t", T: g.tval()}
	}
	return g.val(1)
}

func (g *tgen) sizes() (lo, hi int64) {
	lo = int64(g.pick(4))
	if g.chance(3) {
		return lo, unbounded
	}
	return lo, int64(g.pick(5))
}

func (g *tgen) typs(n, d int) []*ty {
	ts := make([]*ty, n)
	for i := range ts {
		ts[i] = g.typ(d)
	}
	return ts
}

func (g *tgen) leaf() *ty {
	for {
		switch k := g.pick(26); {
		case k == 0:
			return &ty{K: "any"}
		case k == 1:
			return &ty{K: "nil"}
		case k == 2:
			return &ty{K: "bool"}
		case k == 3:
			return &ty{K: "int"}
		case k == 4:
			return &ty{K: "float"}
		case k == 5:
			return &ty{K: "string"}
		case k == 6 && !g.noDgo:
			return &ty{K: "dgo"}
		case k == 7 && !g.noRich:
			return &ty{K: []string{"regexp", "time", "error"}[g.pick(3)]}
		case k == 8:
			return &ty{K: "arr"}
		case k == 9:
			return &ty{K: "map"}
		case k < 14:
			return g.exact(g.val(g.pick(3)))
		case k < 17:
			t := &ty{K: "intr", Lo: g.num(), Inc: !g.chance(3)}
			if g.chance(2) {
				t.Hi = g.num()
			} else {
				t.Hi = g.numNear(t.Lo)
			}
			if t.Lo == t.Hi && !t.Inc {
				t.Inc = true
			}
			return t
		case k < 19:
			t := &ty{K: "floatr", FL: g.flt(), Inc: !g.chance(3)}
			if g.chance(2) {
				t.FH = g.flt()
			} else {
				t.FH = g.fltNear(t.FL)
			}
			if t.FL == t.FH && !t.Inc {
				t.Inc = true
			}
			return t
		case k < 21:
			lo, hi := g.sizes()
			return &ty{K: "strsz", Lo: lo, Hi: hi}
		case k == 21:
			lo, hi := g.sizes()
			return &ty{K: "bin", Lo: lo, Hi: hi}
		case k == 22:
			return &ty{K: "pat", Pk: []string{"has", "pre", "suf", "is"}[g.pick(4)], S: []string{"a", "b", "ab", "k", ".", "S", "aa", "\\"}[g.pick(8)]}
		case k == 23:
			return &ty{K: "ci", S: g.str()}
		case k == 24 && !g.noMeta:
			if g.chance(3) {
				return &ty{K: "metameta"}
			}
			return &ty{K: "meta", Ts: []*ty{g.tval()}}
		case k == 25 && !g.noNative:
			return &ty{K: "native"}
		}
	}
}

// exact is the exact type of a value
func (g *tgen) exact(v *va) *ty {
	switch v.K {
	case "t":
		if v.T.K == "meta" || v.T.K == "metameta" {
			return &ty{K: "metameta"}
		}
		return &ty{K: "meta", Ts: []*ty{v.T}}
	case "n":
		return &ty{K: "nil"}
	case "sens", "err", "nat":
		return &ty{K: "any"}
	case "bin":
		return &ty{K: "x", V: v}
	}
	if v.hasKind("sens") || v.hasKind("nat") || v.hasKind("err") {
		return &ty{K: "any"}
	}
	return &ty{K: "x", V: v}
}

func (v *va) hasKind(k string) bool {
	if v.K == k {
		return true
	}
	for _, c := range v.Vs {
		if c.hasKind(k) {
			return true
		}
	}
	for _, e := range v.Es {
		if e[0].hasKind(k) || e[1].hasKind(k) {
			return true
		}
	}
	return false
}

// has tells if t, or something inside, is of one of the kinds
func (t *ty) has(ks ...string) bool {
	for _, k := range ks {
		if t.K == k {
			return true
		}
		if t.V != nil && t.V.hasKind(k) {
			return true
		}
	}
	for _, c := range t.Ts {
		if c.has(ks...) {
			return true
		}
	}
	for _, e := range t.Es {
		if e.T.has(ks...) {
			return true
		}
	}
	return false
}

// typ is any type of at most the given depth
func (g *tgen) typ(d int) *ty {
	if d <= 0 || g.chance(4) {
		return g.leaf()
	}
	if g.chance(60) {
		return g.bigTyp()
	}
	switch k := g.pick(14); {
	case k < 2:
		lo, hi := g.sizes()
		if g.chance(3) {
			lo, hi = 0, unbounded
		}
		return &ty{K: "arrz", Ts: g.typs(1, d-1), Lo: lo, Hi: hi}
	case k < 4:
		t := &ty{K: "tup", Ts: g.typs(g.pick(4), d-1)}
		t.B = len(t.Ts) > 0 && g.chance(2)
		return t
	case k < 6:
		lo, hi := g.sizes()
		if g.chance(3) {
			lo, hi = 0, unbounded
		}
		t := &ty{K: "mapz", Ts: g.typs(2, d-1), Lo: lo, Hi: hi}
		if g.chance(2) {
			t.Ts[0] = &ty{K: "string"}
		}
		return t
	case k < 8:
		t := &ty{K: "struct", B: g.chance(3)}
		for n := g.pick(4); n > 0; n-- {
			t.putEnt(g.key(), g.typ(d-1), g.chance(2))
		}
		return t
	case k == 8:
		o := g.typ(d - 1)
		if o.K == "not" {
			return o
		}
		return &ty{K: "not", Ts: []*ty{o}}
	case k == 9:
		return &ty{K: "all", Ts: g.typs(2+g.pick(2), d-1)}
	case k == 10:
		return &ty{K: "anyof", Ts: g.typs(2+g.pick(2), d-1)}
	case k == 11:
		return &ty{K: "one", Ts: g.typs(2+g.pick(2), d-1)}
	case k == 12:
		return &ty{K: "anyof", Ts: []*ty{g.leaf(), g.leaf(), g.leaf()}}
	case k == 13 && !g.noRich:
		return &ty{K: "sens", Ts: g.typs(1, d-1)}
	}
	return g.leaf()
}

// bigTyp has many operands, elements, or entries
func (g *tgen) bigTyp() *ty {
	n := 8 + g.pick(8)
	switch g.pick(3) {
	case 0:
		return &ty{K: "anyof", Ts: g.typs(n, 0)}
	case 1:
		t := &ty{K: "tup", Ts: g.typs(n, 0)}
		t.B = g.chance(2)
		return t
	}
	t := &ty{K: "struct", B: g.chance(3)}
	for i := 0; i < n; i++ {
		t.putEnt(g.bigKey(i), g.leaf(), g.chance(2))
	}
	return t
}

// bigKey is one of many keys
func (g *tgen) bigKey(i int) *va {
	if g.chance(3) {
		return &va{K: "i", I: int64(i * (1 + g.pick(3)*31))}
	}
	return &va{K: "s", S: string([]rune{'a' + rune(g.pick(20)), 'a' + rune(i)})}
}

// bigVal has many elements or entries
func (g *tgen) bigVal() *va {
	n := 8 + g.pick(10)
	if g.chance(4) {
		n *= 2
	}
	if g.chance(3) {
		v := &va{K: "arr"}
		for ; n > 0; n-- {
			v.Vs = append(v.Vs, g.scalar())
		}
		return v
	}
	v := &va{K: "map"}
	for ; n > 0; n-- {
		v.put(g.bigKey(n), g.scalar())
	}
	return v
}

func (t *ty) putEnt(k *va, x *ty, req bool) {
	for i := range t.Es {
		if t.Es[i].K.same(k) {
			t.Es[i] = ent{k, x, req}
			return
		}
	}
	t.Es = append(t.Es, ent{k, x, req})
}

func (g *tgen) intIn(lo, hi int64, inc bool) int64 {
	if lo > hi {
		lo, hi = hi, lo
	}
	if !inc && hi > lo {
		hi--
	}
	switch g.pick(4) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		if lo < hi {
			return hi - 1
		}
	}
	if lo < 0 && hi > 0 {
		return 0
	}
	return lo
}

// inst tries to make an instance of a type
func (g *tgen) inst(t *ty, d int) *va {
	switch t.K {
	case "ref":
		if d < 0 {
			return g.scalar()
		}
		return g.inst(g.defs[t.S], d-1)
	case "any":
		return g.val(1)
	case "nil":
		return &va{K: "n"}
	case "bool":
		return &va{K: "b", B: g.chance(2)}
	case "int":
		return &va{K: "i", I: g.num()}
	case "float":
		return &va{K: "f", F: g.flt()}
	case "string":
		return &va{K: "s", S: g.str()}
	case "dgo":
		return &va{K: "s", S: []string{"int", "1..3", "nil", "[]int", "true"}[g.pick(5)]}
	case "regexp":
		return &va{K: "rx", S: "a"}
	case "time":
		return &va{K: "tm", I: 1000}
	case "error":
		return &va{K: "err", S: "a"}
	case "native":
		return &va{K: "nat", S: "chan", I: int64(g.pick(3))}
	case "x":
		return t.V
	case "intr":
		return &va{K: "i", I: g.intIn(t.Lo, t.Hi, t.Inc)}
	case "floatr":
		if g.chance(2) {
			return &va{K: "f", F: t.FH}
		}
		return &va{K: "f", F: t.FL}
	case "strsz", "bin":
		k := "s"
		if t.K == "bin" {
			k = "bin"
		}
		n := g.intIn(t.Lo, t.Hi, true)
		if n > 8 {
			n = t.Lo
			if n > t.Hi {
				n = t.Hi
			}
		}
		s := ""
		for int64(len(s)) < n {
			s += string("abkS"[g.pick(4)])
		}
		return &va{K: k, S: s}
	case "pat":
		s := t.S
		if t.Pk == "pre" || t.Pk == "has" {
			s += g.str()
		}
		if t.Pk == "suf" || t.Pk == "has" {
			s = g.str() + s
		}
		return &va{K: "s", S: s}
	case "ci":
		s := ""
		for _, c := range t.S {
			switch {
			case (c == 'k' || c == 'K') && g.chance(3):
				s += "\u212a"
			case (c == 's' || c == 'S') && g.chance(3):
				s += "\u017f"
			case c == 0x212a:
				s += "k"
			case c == 0x17f:
				s += "S"
			case c >= 'a' && c <= 'z' && g.chance(2):
				s += string(c - 32)
			default:
				s += string(c)
			}
		}
		return &va{K: "s", S: s}
	case "arr":
		v := &va{K: "arr"}
		for n := g.pick(3); n > 0; n-- {
			v.Vs = append(v.Vs, g.val(1))
		}
		return v
	case "arrz":
		v := &va{K: "arr"}
		for n := g.sizeIn(t.Lo, t.Hi); n > 0; n-- {
			v.Vs = append(v.Vs, g.inst(t.Ts[0], d-1))
		}
		return v
	case "tup":
		v := &va{K: "arr"}
		n := len(t.Ts)
		if t.B {
			n += g.pick(3) - 1
		}
		for i := 0; i < n; i++ {
			j := i
			if j >= len(t.Ts) {
				j = len(t.Ts) - 1
			}
			v.Vs = append(v.Vs, g.inst(t.Ts[j], d-1))
		}
		return v
	case "map":
		v := &va{K: "map"}
		for n := g.pick(3); n > 0; n-- {
			v.put(g.key(), g.val(1))
		}
		return v
	case "mapz":
		v := &va{K: "map"}
		n := g.sizeIn(t.Lo, t.Hi)
		for i := 0; i < 3*int(n) && len(v.Es) < int(n); i++ {
			k := g.inst(t.Ts[0], d-1)
			if k.hasKind("nat") || k.hasKind("err") || k.hasKind("sens") {
				continue
			}
			v.put(k, g.inst(t.Ts[1], d-1))
		}
		return v
	case "struct":
		v := &va{K: "map"}
		for _, i := range g.r.Perm(len(t.Es)) {
			e := t.Es[i]
			if e.Req || g.chance(2) {
				v.put(e.K, g.inst(e.T, d-1))
			}
		}
		if t.B && g.chance(2) {
			v.put(&va{K: "s", S: "zz"}, g.val(1))
		}
		return v
	case "not":
		return g.mutate(g.inst(t.Ts[0], d-1))
	case "all", "anyof", "one":
		return g.inst(t.Ts[g.pick(len(t.Ts))], d-1)
	case "sens":
		return &va{K: "sens", Vs: []*va{g.inst(t.Ts[0], d-1)}}
	case "meta":
		if g.chance(2) {
			return &va{K: "t", T: t.Ts[0]}
		}
		return &va{K: "t", T: g.tval()}
	case "metameta":
		return &va{K: "t", T: &ty{K: "meta", Ts: []*ty{{K: "int"}}}}
	}
	return g.val(1)
}

func (g *tgen) sizeIn(lo, hi int64) int64 {
	if lo > hi {
		lo, hi = hi, lo
	}
	if hi > lo+2 {
		hi = lo + 2
	}
	return lo + int64(g.pick(int(hi-lo+1)))
}

// candidate is a value that is of interest for a type
func (g *tgen) candidate(t *ty) *va {
	switch g.pick(5) {
	case 0, 1:
		return g.inst(t, 3)
	case 2, 3:
		return g.mutate(g.inst(t, 3))
	}
	return g.val(2)
}

// near is a type that is close to t
func (g *tgen) near(t *ty) *ty {
	r := *t
	switch g.pick(12) {
	case 0:
		return &ty{K: "anyof", Ts: []*ty{t, g.leaf()}}
	case 1:
		return &ty{K: "all", Ts: []*ty{t, g.leaf()}}
	case 2:
		if t.K != "not" {
			return &ty{K: "not", Ts: []*ty{t}}
		}
		return t.Ts[0]
	case 3:
		return &ty{K: "one", Ts: []*ty{g.leaf(), t}}
	}
	switch t.K {
	case "intr":
		r.Lo, r.Hi = g.numNear(t.Lo), g.numNear(t.Hi)
		if g.chance(4) {
			r.Inc = !r.Inc
		}
		if r.Lo == r.Hi {
			r.Inc = true
		}
		return &r
	case "floatr":
		r.FL, r.FH = g.fltNear(t.FL), g.fltNear(t.FH)
		if g.chance(4) {
			r.Inc = !r.Inc
		}
		if r.FL == r.FH {
			r.Inc = true
		}
		return &r
	case "int":
		return &ty{K: "intr", Lo: g.num(), Hi: g.num(), Inc: true}
	case "string":
		lo, hi := g.sizes()
		return []*ty{{K: "strsz", Lo: lo, Hi: hi}, {K: "pat", Pk: "has", S: "a"}, {K: "ci", S: "k"}, {K: "dgo"}}[g.pick(4)]
	case "strsz", "bin":
		r.Lo, r.Hi = g.sizes()
		if g.chance(3) {
			r.Lo = t.Lo
		}
		if t.K == "strsz" && g.chance(3) {
			return []*ty{{K: "ci", S: g.str()}, {K: "dgo"}, {K: "string"}}[g.pick(3)]
		}
		return &r
	case "ci":
		if g.chance(3) {
			return &ty{K: "strsz", Lo: int64(len(t.S)), Hi: int64(len(t.S))}
		}
		return &ty{K: "ci", S: g.mutate(&va{K: "s", S: t.S}).S}
	case "x":
		if g.chance(2) {
			return g.exact(g.mutate(t.V))
		}
		return g.widen(t.V, 2)
	case "arr":
		return g.typ(2)
	case "arrz", "mapz":
		r.Ts = append([]*ty{}, t.Ts...)
		if t.K == "arrz" && g.chance(4) {
			n := t.Lo
			if n > 3 {
				n = 3
			}
			u := &ty{K: "tup", Ts: []*ty{}, B: g.chance(2)}
			for i := int64(0); i <= n; i++ {
				u.Ts = append(u.Ts, t.Ts[0])
			}
			return u
		}
		if g.chance(2) {
			r.Lo, r.Hi = g.sizes()
		} else {
			i := g.pick(len(r.Ts))
			r.Ts[i] = g.near(r.Ts[i])
		}
		return &r
	case "tup":
		r.Ts = append([]*ty{}, t.Ts...)
		switch k := g.pick(6); {
		case k == 0 && len(r.Ts) > 0:
			r.B = !r.B
		case k == 1 && len(r.Ts) > 1:
			r.Ts = r.Ts[:len(r.Ts)-1]
		case k == 2:
			r.Ts = append(r.Ts, g.leaf())
		case k == 3 && len(r.Ts) > 0:
			r.Ts = append(r.Ts, r.Ts[len(r.Ts)-1])
		case k == 4 && len(r.Ts) > 0:
			return &ty{K: "arrz", Ts: []*ty{r.Ts[g.pick(len(r.Ts))]}, Lo: int64(len(r.Ts)), Hi: int64(len(r.Ts))}
		case len(r.Ts) > 0:
			i := g.pick(len(r.Ts))
			r.Ts[i] = g.near(r.Ts[i])
		}
		return &r
	case "struct":
		r.Es = append([]ent{}, t.Es...)
		switch k := g.pick(7); {
		case k == 0:
			r.B = !r.B
		case k == 1 && len(r.Es) > 0:
			r.Es = r.Es[1:]
		case k == 2:
			r.putEnt(g.key(), g.leaf(), g.chance(2))
		case k == 3 && len(r.Es) > 0:
			i := g.pick(len(r.Es))
			r.Es[i].Req = !r.Es[i].Req
		case k == 4 && len(r.Es) > 1:
			r.Es[0], r.Es[1] = r.Es[1], r.Es[0]
		case k == 5 && len(r.Es) > 0:
			return &ty{K: "mapz", Ts: []*ty{{K: "string"}, r.Es[0].T}, Lo: int64(g.pick(3)), Hi: unbounded}
		case len(r.Es) > 0:
			i := g.pick(len(r.Es))
			r.Es[i].T = g.near(r.Es[i].T)
		}
		return &r
	case "not", "sens":
		o := g.near(t.Ts[0])
		if t.K == "not" && o.K == "not" {
			return o.Ts[0]
		}
		r.Ts = []*ty{o}
		return &r
	case "all", "anyof", "one":
		r.Ts = append([]*ty{}, t.Ts...)
		switch k := g.pick(5); {
		case k == 0:
			r.Ts[0], r.Ts[1] = r.Ts[1], r.Ts[0]
		case k == 1:
			r.Ts = append(r.Ts, g.leaf())
		case k == 2:
			return r.Ts[g.pick(len(r.Ts))]
		case k == 3:
			r.K = []string{"all", "anyof", "one"}[g.pick(3)]
		default:
			i := g.pick(len(r.Ts))
			r.Ts[i] = g.near(r.Ts[i])
		}
		return &r
	}
	if g.chance(2) {
		return t
	}
	return g.leaf()
}

// widen is a type that v is an instance of
func (g *tgen) widen(v *va, d int) *ty {
	if d > 0 && !g.chance(5) {
		switch v.K {
		case "i":
			return &ty{K: "intr", Lo: v.I, Hi: g.numNear(v.I), Inc: true}
		case "f":
			return &ty{K: "floatr", FL: v.F, FH: g.fltNear(v.F), Inc: true}
		case "s":
			n := int64(len(v.S))
			return []*ty{{K: "strsz", Lo: n, Hi: n + int64(g.pick(2))}, {K: "string"}, {K: "ci", S: v.S}}[g.pick(3)]
		case "arr":
			if g.chance(2) || len(v.Vs) == 0 {
				t := &ty{K: "tup", Ts: []*ty{}}
				for _, e := range v.Vs {
					t.Ts = append(t.Ts, g.widen(e, d-1))
				}
				return t
			}
			t := &ty{K: "arrz", Lo: int64(len(v.Vs)), Hi: unbounded}
			if len(v.Vs) == 1 {
				t.Ts = []*ty{g.widen(v.Vs[0], d-1)}
			} else {
				u := &ty{K: []string{"anyof", "anyof", "all", "one"}[g.pick(4)]}
				for _, e := range v.Vs {
					u.Ts = append(u.Ts, g.widen(e, d-1))
				}
				t.Ts = []*ty{u}
			}
			return t
		case "map":
			for _, e := range v.Es {
				if e[0].K != "s" && e[0].K != "i" && e[0].K != "b" {
					return &ty{K: "mapz", Ts: []*ty{{K: "any"}, {K: "any"}}, Lo: int64(len(v.Es)), Hi: unbounded}
				}
			}
			t := &ty{K: "struct", B: g.chance(3), Es: []ent{}}
			for _, e := range v.Es {
				if t.B && g.chance(3) {
					continue
				}
				t.Es = append(t.Es, ent{e[0], g.widen(e[1], d-1), g.chance(2)})
			}
			if g.chance(3) {
				t.putEnt(g.key(), g.leaf(), false)
			}
			if g.chance(3) && len(v.Es) > 0 {
				return &ty{K: "mapz", Ts: []*ty{{K: "any"}, g.widen(v.Es[g.pick(len(v.Es))][1], d-1)}, Hi: unbounded}
			}
			return t
		}
	}
	return g.exact(v)
}
