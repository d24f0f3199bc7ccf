package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
)

// Recordings of how much memory operations allocate (P24)

func init() { commands["cost"] = recCost }

// allocated is the number of bytes that f allocates
func allocated(f func()) int {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int(b.TotalAlloc - a.TotalAlloc)
}

func costLen(x interface{}) int {
	switch x := x.(type) {
	case dgo.Array:
		return x.Len()
	case dgo.Map:
		return x.Len()
	}
	return x.(*costAliases).n
}

type costAliases struct {
	am    dgo.AliasMap
	names map[int]bool
	n     int
}

// costSome are values for a new collection
func costSome(r *rand.Rand, many bool) []interface{} {
	n := 2
	if many {
		n = 2 * r.Intn(20)
	}
	vs := []interface{}{}
	for i := 0; i < n; i++ {
		vs = append(vs, i)
	}
	return vs
}

func recCost(c *cfg) {
	rec := newRecorder(c.out)
	r := rand.New(rand.NewSource(c.seed*1117 + int64(c.shard)))
	debug.SetGCPercent(-1) // what pools hold must not be allocated again
	debug.SetMemoryLimit(1 << 30)
	_ = tf.ParseType("map[string](1|2|3)").String()
	for rec.n < c.n {
		rec.emit(M{"op": "reset", "lens": J{}})
		live := []interface{}{}
		excessive := false // is reported, and would soon exhaust the memory
		const max = 5
		lens := func() J {
			ls := J{}
			for _, x := range live {
				ls = append(ls, costLen(x))
			}
			return ls
		}
		// do performs f, which uses the live collections of and possibly makes one that takes slot at
		do := func(op string, of []int, at int, f func() interface{}) {
			rec.guarded(func() {
				var x interface{}
				bytes := allocated(func() { x = f() })
				if at >= 0 {
					if at < len(live) {
						live[at] = x
					} else {
						live = append(live, x)
					}
				}
				us := J{}
				for _, u := range of {
					us = append(us, u+1)
				}
				rec.count(op)
				if bytes > 1<<24 {
					excessive = true
				}
				rec.emit(M{"op": op, "of": us, "at": at + 1, "bytes": bytes, "lens": lens()})
			})
		}
		key := func() interface{} {
			if r.Intn(2) == 0 {
				return r.Intn(40)
			}
			return fmt.Sprintf("k%d", r.Intn(30))
		}
		// few of the operations are used in a history, so that they follow upon each other
		few := []int{r.Intn(24), r.Intn(24), r.Intn(24), r.Intn(24)}
		// or only two that undo each other, on collections that are not small
		churn := r.Intn(3) == 0
		if churn {
			a, b := [][2]int{{1, 5}, {8, 10}, {3, 22}, {0, 4}, {6, 21}, {11, 17}}[r.Intn(6)], r.Intn(2)
			few = []int{a[0], a[1], a[b], a[1-b]}
		}
		for steps := 40 + r.Intn(60); steps > 0 && !excessive; steps-- {
			if len(live) < 3 {
				switch r.Intn(5) {
				case 0, 1:
					do("new", nil, len(live), func() interface{} { return vf.MutableValues(costSome(r, churn)...) })
				case 2, 3:
					do("new", nil, len(live), func() interface{} { return vf.MutableMap(costSome(r, churn)...) })
				default:
					do("new", nil, len(live), func() interface{} { return &costAliases{am: tf.BuiltInAliases(), names: map[int]bool{}} })
				}
				continue
			}
			i, j := r.Intn(len(live)), r.Intn(len(live))
			at := i
			if churn && steps > 10 {
				i, at = 0, 0
			} else if r.Intn(3) == 0 && len(live) < max {
				at = len(live)
			}
			op := few[r.Intn(4)]
			if r.Intn(8) == 0 && !churn {
				op = r.Intn(24)
			}
			k, v := key(), key()
			switch x := live[i].(type) {
			case dgo.Array:
				y, _ := live[j].(dgo.Array)
				switch op {
				case 0, 1:
					if !x.Frozen() && x.Len() < 500 {
						do("a.Add", []int{i}, -1, func() interface{} { x.Add(v); return nil })
					}
				case 2:
					if !x.Frozen() && y != nil && x.Len()+y.Len() < 500 {
						do("a.AddAll", []int{i, j}, -1, func() interface{} { x.AddAll(y); return nil })
					}
				case 3:
					if !x.Frozen() && x.Len() < 500 {
						do("a.Insert", []int{i}, -1, func() interface{} { x.Insert(0, v); return nil })
					}
				case 4, 5:
					if !x.Frozen() && x.Len() > 0 {
						do("a.Remove", []int{i}, -1, func() interface{} { x.Remove(r.Intn(x.Len())); return nil })
					}
				case 6, 7, 8:
					if x.Len() < 500 {
						do("a.With", []int{i}, at, func() interface{} { return x.With(v) })
					}
				case 9, 10:
					if y != nil && x.Len()+y.Len() < 500 {
						do("a.WithAll", []int{i, j}, at, func() interface{} { return x.WithAll(y) })
					}
				case 11:
					if x.Len() < 500 {
						do("a.WithValues", []int{i}, at, func() interface{} { return x.WithValues(v, k) })
					}
				case 12, 13:
					do("a.Copy", []int{i}, at, func() interface{} { return x.Copy(r.Intn(2) == 0) })
				case 14:
					do("a.FrozenCopy", []int{i}, at, func() interface{} { return x.FrozenCopy() })
				case 15, 16:
					do("a.ThawedCopy", []int{i}, at, func() interface{} { return x.ThawedCopy() })
				case 17:
					if x.Len() > 2 {
						do("a.Slice", []int{i}, at, func() interface{} { return x.Slice(1, x.Len()) })
					}
				case 18:
					do("a.Select", []int{i}, at, func() interface{} { return x.Select(func(e dgo.Value) bool { return !e.Equals(v) }) })
				case 19:
					do("a.Unique", []int{i}, at, func() interface{} { return x.Unique() })
				case 20:
					if !x.Frozen() && x.Len() > 0 {
						do("a.Set", []int{i}, -1, func() interface{} { x.Set(0, v); return nil })
					}
				case 21:
					if x.Len() > 0 {
						do("a.Pop", []int{i}, at, func() interface{} {
							if x.Frozen() {
								return x.Slice(0, x.Len()-1)
							}
							x.Pop()
							return x
						})
					}
				case 22:
					if x.Len() > 0 {
						do("a.Flatten", []int{i}, at, func() interface{} { return x.Flatten() })
					}
				default:
					do("a.Freeze", []int{i}, -1, func() interface{} { x.Freeze(); return nil })
				}
			case dgo.Map:
				y, _ := live[j].(dgo.Map)
				switch op {
				case 0, 1, 2:
					if !x.Frozen() {
						do("m.Put", []int{i}, -1, func() interface{} { x.Put(k, v); return nil })
					}
				case 3, 4:
					if !x.Frozen() && y != nil {
						do("m.PutAll", []int{i, j}, -1, func() interface{} { x.PutAll(y); return nil })
					}
				case 5, 6:
					if !x.Frozen() {
						do("m.Remove", []int{i}, -1, func() interface{} { x.Remove(k); return nil })
					}
				case 7, 8, 9:
					do("m.With", []int{i}, at, func() interface{} { return x.With(k, v) })
				case 10, 11:
					do("m.Without", []int{i}, at, func() interface{} { return x.Without(k) })
				case 12, 13, 14:
					if y != nil {
						do("m.Merge", []int{i, j}, at, func() interface{} { return x.Merge(y) })
					}
				case 15:
					do("m.WithoutAll", []int{i}, at, func() interface{} { return x.WithoutAll(vf.Values(k, v)) })
				case 16:
					do("m.Copy", []int{i}, at, func() interface{} { return x.Copy(r.Intn(2) == 0) })
				case 17:
					do("m.FrozenCopy", []int{i}, at, func() interface{} { return x.FrozenCopy() })
				case 18, 19:
					do("m.ThawedCopy", []int{i}, at, func() interface{} { return x.ThawedCopy() })
				case 20:
					do("m.Map", []int{i}, at, func() interface{} { return x.Map(func(e dgo.MapEntry) interface{} { return v }) })
				case 21:
					do("m.Keys", []int{i}, at, func() interface{} { return x.Keys() })
				case 22:
					if !x.Frozen() && y != nil {
						do("m.RemoveAll", []int{i, j}, -1, func() interface{} { x.RemoveAll(y.Keys()); return nil })
					}
				default:
					do("m.Freeze", []int{i}, -1, func() interface{} { x.Freeze(); return nil })
				}
			case *costAliases:
				k := r.Intn(20)
				if op%2 == 0 {
					do("Collect", []int{i}, at, func() interface{} {
						am := x.am.Collect(func(aa dgo.AliasAdder) {
							aa.Add(vf.String(fmt.Sprint("value ", k)).Type(), vf.String(fmt.Sprint("costAlias", k)))
						})
						ns := map[int]bool{k: true}
						for n := range x.names {
							ns[n] = true
						}
						return &costAliases{am, ns, len(ns)}
					})
				} else {
					do("names", []int{i}, -1, func() interface{} {
						_ = tf.ParseType("map[string](1|2|3)").String()
						x.am.GetType(vf.String(fmt.Sprint("costAlias", k)))
						return nil
					})
				}
			}
		}
	}
	rec.close()
}
