package main

import (
	"fmt"
	"math/rand"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
)

// Indenters and string readers. See Indent.tla

func init() {
	commands["indent"] = recIndent
}

// text makes bytes. Few different ones so that blanks and newlines often meet.
func (g *tgen) text(max int) string {
	parts := []string{"a", "b", " ", "\t", "\n", "\n", "é", "€", "\xff", "x y", "  ", "\n\n"}
	s := ""
	for n := g.pick(max + 1); n > 0; n-- {
		s += parts[g.pick(len(parts))]
	}
	return s
}

// graph makes some values of which the collections can contain each other. They contain themselves if cyclic is true.
func (g *tgen) graph(cyclic bool) (enc J, self J, vs []dgo.Value) {
	n := 1 + g.pick(6)
	vs = make([]dgo.Value, n)
	enc, self = make(J, n), make(J, n)
	kinds := make([]int, n)
	name := ""
	for i := range vs {
		kinds[i] = g.pick(7)
		name = ""
		switch kinds[i] {
		case 0:
			vs[i] = []dgo.Value{vf.Integer(int64(g.pick(200) - 100)), vf.Boolean(g.chance(2)), typ.String, vf.Float(1.5)}[g.pick(4)]
			enc[i] = J{"i", ints([]byte(vs[i].String()))}
		case 1:
			s := []string{"", "a", "b c", "  ", "x"}[g.pick(5)]
			vs[i] = vf.String(s)
			enc[i] = J{"s", ints([]byte(s))}
		case 2:
			vs[i] = vf.Nil
			enc[i] = J{"nil"}
		case 3, 4:
			vs[i], name = vf.MutableValues(), "slice"
		default:
			vs[i], name = vf.MutableMap(), "map"
		}
		self[i] = ints([]byte(name))
	}
	for i := n - 1; i >= 0; i-- {
		some := func() int {
			if cyclic {
				return g.pick(n)
			}
			if i == n-1 {
				return -1
			}
			return i + 1 + g.pick(n-1-i)
		}
		switch kinds[i] {
		case 3, 4:
			es := J{}
			for k := g.pick(4); k > 0; k-- {
				if m := some(); m >= 0 {
					vs[i].(dgo.Array).Add(vs[m])
					es = append(es, m+1)
				}
			}
			enc[i] = J{"arr", es}
		case 5, 6:
			es := J{}
			for k := g.pick(4); k > 0; k-- {
				key, m := -1, some()
				for j := range kinds {
					if kinds[j] < 3 && g.chance(2) {
						key = j
					}
				}
				if m >= 0 && key >= 0 && !vs[i].(dgo.Map).ContainsKey(vs[key]) {
					vs[i].(dgo.Map).Put(vs[key], vs[m])
					es = append(es, J{key + 1, m + 1})
				}
			}
			enc[i] = J{"map", es}
		}
	}
	return
}

func (g *tgen) reads() M {
	parts := []string{"a", "b", " ", "\n", "\n", "é", "€", "\U0001F600"}
	if g.chance(3) {
		parts = append(parts, "\xff", "\xc3", "\x00")
	}
	s := ""
	for n := g.pick(8); n > 0; n-- {
		s += parts[g.pick(len(parts))]
	}
	t := J{}
	rs := []rune{}
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		t = append(t, J{int(r), n, r != 0 && !(r == utf8.RuneError && n == 1)})
		rs = append(rs, r)
		i += n
	}
	rd := util.NewStringReader(s)
	calls := J{}
	p := 0
	for n := 3 + g.pick(14); n > 0; n-- {
		what := []string{"next", "next", "next", "peek", "peek2", "rewind"}[g.pick(6)]
		if what == "rewind" && !g.chance(4) {
			what = "next"
		}
		if what == "peek2" && (p < len(rs) && rs[p] == 0 || p+1 < len(rs) && rs[p+1] == 0) {
			// that a NUL is the next but one isn't told
			continue
		}
		res := J{}
		if bad, _ := try(func() {
			switch what {
			case "next":
				res = append(res, int(rd.Next()))
				p++
			case "peek":
				res = append(res, int(rd.Peek()))
			case "peek2":
				res = append(res, int(rd.Peek2()))
			default:
				rd.Rewind()
				p = 0
			}
		}); bad {
			res = J{-1}
		}
		calls = append(calls, J{what, res, rd.Pos(), rd.Line(), rd.Column()})
	}
	return M{"op": "read", "t": t, "calls": calls, "src": fmt.Sprintf("%q", s)}
}

func recIndent(c *cfg) {
	rec := newRecorder(c.out)
	g := &tgen{r: rand.New(rand.NewSource(c.seed*1069 + int64(c.shard)))}
	for rec.n < c.n {
		ind := []string{"", "  ", "\t", " ", "--"}[g.pick(5)]
		erp := g.chance(2)
		rec.emit(M{"op": "reset", "ind": ints([]byte(ind)), "erp": erp})
		var is []dgo.Indenter
		if erp {
			is = append(is, util.NewERPIndenter(ind))
		} else {
			is = append(is, util.NewIndenter(ind))
		}
		for k := 0; k < 14; k++ {
			if g.chance(8) {
				rec.guarded(func() { rec.count("read"); rec.emit(g.reads()) })
				continue
			}
			if g.chance(10) {
				rec.guarded(func() {
					cyclic := g.chance(2)
					enc, self, vs := g.graph(cyclic)
					for n := range vs {
						if ia, ok := vs[n].(dgo.Indentable); ok {
							var a, b string
							if cyclic || g.chance(2) {
								a, b = util.ToStringERP(ia), util.ToIndentedStringERP(ia)
							} else {
								a, b = util.ToString(ia), util.ToIndentedString(ia)
							}
							rec.count("whole")
							rec.emit(M{"op": "whole", "g": enc, "self": self, "n": n + 1, "r": J{ints([]byte(a)), ints([]byte(b))}})
							break
						}
					}
				})
				continue
			}
			at := g.pick(len(is))
			ix := is[at]
			ev := M{"at": at + 1, "written": -1}
			op := []string{"append", "append", "indented", "indented", "newline", "newline", "value", "indent", "empty"}[g.pick(9)]
			if op == "indent" && len(is) > 4 || op == "empty" && !g.chance(3) {
				op = "append"
			}
			ev["op"] = op
			rec.guarded(func() {
				s := ""
				switch op {
				case "append":
					s = g.text(4)
					switch g.pick(8) {
					case 0:
						n, err := ix.Write([]byte(s))
						ev["written"] = n
						if err != nil {
							panic(err)
						}
					case 1:
						n, err := ix.WriteString(s)
						ev["written"] = n
						if err != nil {
							panic(err)
						}
					case 2:
						b := g.chance(2)
						s = fmt.Sprint(b)
						ix.AppendBool(b)
					case 3:
						n := g.pick(2000) - 1000
						s = fmt.Sprint(n)
						ix.AppendInt(n)
					case 4:
						r := []rune("a \t\né€")[g.pick(6)]
						s = string(r)
						ix.AppendRune(r)
					case 5:
						n := g.pick(10)
						ix.Printf("%s|%d ", s, n)
						s = fmt.Sprintf("%s|%d ", s, n)
					case 6:
						// what is neither indentable nor has a string form
						v := []interface{}{1, "s", []int{1, 2}, 1.5, nil}[g.pick(5)]
						s = fmt.Sprintf("%#v", v)
						ix.AppendValue(v)
					default:
						ix.Append(s)
					}
				case "indented":
					s = g.text(6)
					ix.AppendIndented(s)
				case "newline":
					ix.NewLine()
				case "value":
					enc, self, vs := g.graph(erp && g.chance(2))
					n := g.pick(len(vs))
					ix.AppendValue(vs[n])
					ev["g"], ev["self"], ev["n"] = enc, self, n+1
				case "indent":
					is = append(is, ix.Indent())
				case "empty":
					ix.Reset()
				}
				ev["s"] = ints([]byte(s))
				ls, ig := make(J, len(is)), make(J, len(is))
				for i := range is {
					ls[i], ig[i] = is[i].Level(), is[i].Indenting()
				}
				ev["levels"], ev["indenting"] = ls, ig
				any := is[g.pick(len(is))]
				ev["len"] = any.Len()
				ev["text"] = ints([]byte(any.String()))
				ev["again"] = ints([]byte(ix.String()))
				rec.count(op)
				rec.emit(ev)
			})
		}
	}
	rec.close()
}
