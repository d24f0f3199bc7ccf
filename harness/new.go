package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"runtime"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

// Recordings of New

func init() { commands["new"] = recNew }

// digitsOf is <<is negative, digits>>
func digitsOf(n *big.Int, radix int) J {
	ds := J{}
	for _, c := range new(big.Int).Abs(n).Text(radix) {
		d := int(c - '0')
		if c >= 'a' {
			d = int(c-'a') + 10
		}
		ds = append(ds, d)
	}
	return J{n.Sign() < 0, ds}
}

func (g *tgen) damageText(s string) string {
	if s == "" || g.chance(3) {
		i := g.pick(len(s) + 1)
		return s[:i] + []string{" ", "x", "_", "0", "-", ".", "=", "é"}[g.pick(8)] + s[i:]
	}
	i := g.pick(len(s))
	if g.chance(2) {
		return s[:i] + s[i+1:]
	}
	return s[:i] + string("0123456789+-.:TZtz eExX_=A/"[g.pick(27)]) + s[i+1:]
}

func (g *tgen) numeral(radix int) string {
	n := big.NewInt(g.num())
	if g.chance(3) {
		n = big.NewInt([]int64{math.MaxInt64, math.MinInt64, 0}[g.pick(3)])
		n.Add(n, big.NewInt(int64(g.pick(5)-2)))
	}
	s := n.Text(radix)
	if g.chance(4) {
		s = strings.ToUpper(s)
	}
	if n.Sign() >= 0 && g.chance(4) {
		s = []string{"+", "00", "+0", "-0"}[g.pick(4)] + s
	}
	return s
}

func (g *tgen) timeText() string {
	d2 := func(n int) string { return fmt.Sprintf("%02d", n) }
	s := fmt.Sprintf("%04d-%s-%sT%s:%s:%s", 1968+g.pick(72), d2(1+g.pick(12)), d2(1+g.pick(31)), d2(g.pick(24)), d2(g.pick(60)), d2(g.pick(60)))
	if g.chance(6) {
		s = []string{"2000-02-29T00:00:00", "2001-02-29T00:00:00", "1972-02-29T23:59:59", "2004-12-31T23:59:60", "2037-12-31T24:00:00",
			"2020-00-10T00:00:00", "2020-04-31T00:00:00"}[g.pick(7)]
	}
	if g.chance(2) {
		s += "." + []string{"5", "25", "000000001", "999999999", "1234567891", "0", ""}[g.pick(7)]
	}
	return s + []string{"Z", "+00:00", "-05:30", "+23:59", "-00:00", "+14:00", "", "z"}[g.pick(8)]
}

// textFor is a text that may be converted to a type
func (g *tgen) textFor(t *ty) string {
	var s string
	k := t.K
	if k == "x" {
		k = t.V.K
	}
	switch k {
	case "int", "intr", "i":
		s = g.numeral(10)
		if t.K == "intr" && g.chance(2) {
			s = big.NewInt(g.numNear([]int64{t.Lo, t.Hi}[g.pick(2)])).String()
		} else if t.K == "x" && g.chance(2) {
			s = big.NewInt(t.V.I).String()
		}
	case "float", "floatr", "f":
		s = []string{"1.5", "-0.25", "1e3", "0x1p3", "inf", "NaN", ".5", "5.", "1e400", "-1E-2", "0", "9007199254740993", "1_0", "2.50", "+3"}[g.pick(15)]
		if g.chance(2) {
			s = fmt.Sprint(g.flt())
		}
	case "bool", "b":
		s = []string{"true", "TRUE", "yes", "Y", "no", "N", "false", "False", "t", "on", "1", "", "YeS", "nO"}[g.pick(14)]
	case "time", "tm":
		s = g.timeText()
		if k == "tm" && g.chance(2) {
			s = fmt.Sprintf("1970-01-01T%02d:%02d:%02dZ", t.V.I/3600, t.V.I/60%60, t.V.I%60)
		}
	case "bin":
		s = []string{"", "AQID", "AQI=", "AQJ=", "AQ==", "AR==", "+/+/", "-_-_", "A", "AQ\nID", "YWJj", "AAAA", "YWI=", "YQ=="}[g.pick(14)]
	case "meta", "metameta":
		s = []string{"string", "int", "3", "[]int", "{", "type[int]", "type", "0..5", "any", "foo"}[g.pick(10)]
	default:
		return g.str()
	}
	if g.chance(5) {
		s = g.damageText(s)
	}
	return s
}

// newArg is an argument for New of a type
func (g *tgen) newArg(t *ty) *va {
	switch g.pick(8) {
	case 0, 1:
		return g.candidate(t)
	case 2, 3, 4:
		return &va{K: "s", S: g.textFor(t)}
	case 5:
		if v := g.inst(t, 3); v.K == "map" {
			a := &va{K: "arr"}
			for _, e := range v.Es {
				if g.chance(5) {
					a.Vs = append(a.Vs, e[0], g.scalar())
				}
				a.Vs = append(a.Vs, e[0], e[1])
			}
			if g.chance(8) {
				a.Vs = append(a.Vs, g.scalar())
			}
			return a
		} else if v.K == "bin" {
			a := &va{K: "arr"}
			for i := range v.S {
				a.Vs = append(a.Vs, &va{K: "i", I: int64(v.S[i])})
			}
			if g.chance(3) {
				a.Vs = append(a.Vs, []*va{{K: "i", I: 256}, {K: "i", I: -1}, {K: "f", F: 1}, {K: "i", I: 255}}[g.pick(4)])
			}
			return a
		} else if v.K == "sens" {
			return v.Vs[0]
		}
	}
	return g.scalar()
}

func ctorTyp(g *tgen) *ty {
	if g.chance(2) {
		return g.typ(1 + g.pick(3))
	}
	switch g.pick(12) {
	case 6, 7, 8, 9:
		return &ty{K: "int"}
	case 0:
		return &ty{K: "time"}
	case 1:
		return &ty{K: "sens", Ts: []*ty{g.typ(1)}}
	case 2:
		return g.exact(g.scalar())
	case 3:
		return &ty{K: "bin", Lo: 0, Hi: int64(g.pick(5))}
	case 4:
		return &ty{K: "bool"}
	case 5:
		return &ty{K: "float"}
	}
	return g.leaf()
}

// bigInts and bigFloats call f for each number in vs
func numsOf(vs []*va, fi func(int64), ff func(float64)) {
	for _, v := range vs {
		v.walk(func(v *va) {
			if v.K == "i" {
				fi(v.I)
			} else if v.K == "f" {
				ff(v.F)
			}
		})
	}
}

func recNew(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1061 + int64(c.shard)))}
	for rec.n < c.n {
		t := ctorTyp(g)
		args := []*va{}
		n := 1
		if g.chance(4) {
			n = []int{0, 2, 2, 2, 2, 3}[g.pick(6)]
		}
		for i := 0; i < n; i++ {
			args = append(args, g.newArg(t))
		}
		if n == 2 && !g.chance(5) {
			switch t.K {
			case "int", "intr":
				r := []int{2, 8, 10, 16}[g.pick(4)]
				args[1] = &va{K: "i", I: int64(r)}
				if g.chance(2) {
					args[0] = &va{K: "s", S: g.numeral(r)}
					if g.chance(5) {
						args[0].S = g.damageText(args[0].S)
					}
				}
			case "bin":
				args[1] = &va{K: "s", S: []string{"%b", "%B", "%u", "%s", "%r", "%x"}[g.pick(6)]}
				if g.chance(3) {
					args[0] = &va{K: "s", S: []string{"\xc3\xa9", "\xff", "a"}[g.pick(3)]}
				}
			default:
				args[1] = &va{K: "s", S: []string{"%d", "%v", "%s", "%5d", "%", "d", "%q", "", "%d%d", "%05.2f", "%d ", "%1"}[g.pick(12)]}
			}
		}
		nat := false
		for _, a := range args {
			nat = nat || a.hasKind("nat")
		}
		if nat && n != 1 {
			continue // natives can't be frozen
		}
		ev := M{"op": "new"}
		nums, reals, round, trunc, texts := J{}, J{}, J{}, J{}, J{}
		if !encodable(func() {
			ev["t"], ev["args"] = t.enc(), encVs(args)
			for _, v := range args {
				if v.K == "s" {
					for _, r := range []int{2, 8, 10, 16} {
						if i, ok := new(big.Int).SetString(v.S, r); ok && i.IsInt64() && !strings.Contains(v.S, "_") {
							nums = append(nums, J{J{r, digitsOf(i, r)}, J{"i", encInt(i.Int64())}})
						}
					}
					if q, ok := new(big.Rat).SetString(v.S); ok && !strings.ContainsAny(v.S, "/xXpP_bBoO") {
						if f, _ := q.Float64(); !math.IsInf(f, 0) {
							reals = append(reals, J{codes(v.S), J{"f", encFloat(f)}})
						}
					}
				}
			}
			numsOf(args, func(i int64) {
				f, _ := new(big.Rat).SetInt64(i).Float64()
				round = append(round, J{encInt(i), encFloat(f)})
				texts = append(texts, J{encInt(i), codes(big.NewInt(i).String())})
			}, func(f float64) {
				if !math.IsInf(f, 0) && f == f {
					if i, _ := big.NewFloat(f).Int(nil); i.IsInt64() {
						trunc = append(trunc, J{encFloat(f), encInt(i.Int64())})
					}
				}
			})
		}) {
			continue
		}
		ev["nums"], ev["reals"], ev["round"], ev["trunc"], ev["texts"] = nums, reals, round, trunc, texts
		rec.guarded(func() {
			rt := t.realOr(g)
			var arg dgo.Value
			as := make([]interface{}, n)
			for i := range args {
				as[i] = args[i].real()
				if f, ok := as[i].(dgo.Freezable); ok && f.Frozen() && !args[i].hasKind("nat") && g.chance(2) {
					as[i] = f.ThawedCopy()
				}
			}
			if n == 1 && (nat || g.chance(2)) {
				arg = as[0].(dgo.Value)
			} else {
				arg = vf.Arguments(as...)
				if n == 1 {
					as[0] = arg.(dgo.Array).Get(0)
				}
			}
			var res dgo.Value
			var ok, crash bool
			what := ""
			func() {
				defer func() {
					if x := recover(); x != nil {
						_, isErr := x.(error)
						if _, rte := x.(runtime.Error); rte {
							isErr = false
						}
						crash, what = !isErr, fmt.Sprint(x)
					}
				}()
				if f, isFactory := rt.(dgo.Factory); isFactory && g.chance(2) {
					res = f.New(arg)
				} else {
					res = vf.New(rt, arg)
				}
				ok = true
			}()
			ev["ok"], ev["crash"], ev["what"], ev["src"] = ok, crash, what, rt.String()
			vs := args
			if ok {
				r := fromReal(res)
				if !encodable(func() { ev["res"] = r.enc() }) {
					return
				}
				if tm, isTime := res.(dgo.Time); isTime {
					if r.I > 2147000000 || r.I < -2147000000 {
						return
					}
					if ns := tm.GoTime().Nanosecond(); ns != 0 {
						ev["res"] = J{"tm", r.I, ns}
					}
				}
				vs = append(vs[:len(vs):len(vs)], r)
				ev["inst"] = rt.Instance(res)
				ev["apart"] = true
				if n == 1 && t.K != "?" {
					// what was made from a mutable collection is a copy of it
					switch a := as[0].(type) {
					case dgo.Array:
						if _, isArr := res.(dgo.Array); isArr && !a.Frozen() && isFactory(rt) {
							a.Add(vf.String("more"))
							ev["apart"] = reflect.DeepEqual(text(fromReal(res).enc()), text(r.enc()))
						}
					case dgo.Map:
						if _, isMap := res.(dgo.Map); isMap && !a.Frozen() && isFactory(rt) {
							a.Put(vf.String("more"), 1)
							ev["apart"] = reflect.DeepEqual(text(fromReal(res).enc()), text(r.enc()))
						}
					}
				}
				rec.count("made " + r.K)
			} else {
				rec.count("refused")
			}
			env([]*ty{t, {K: "dgo"}}, vs, ev)
			rec.emit(ev)
		})
	}
	rec.close()
}

func isFactory(t dgo.Type) bool {
	_, ok := t.(dgo.Factory)
	return ok
}
