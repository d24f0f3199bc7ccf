package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"sync/atomic"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

// J is the JSON form of a tagged tuple
type J = []interface{}

// heap is the registry of live collections that the machine in Heap.tla talks about. The ids start at 1.
type heap struct {
	objs []dgo.Value
}

func codes(s string) []int {
	r := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int(s[i])
	}
	return r
}

// scalar encodes a scalar
func scalar(v dgo.Value) J {
	switch v := v.(type) {
	case nil:
		return J{"none"}
	case dgo.Nil:
		return J{"n"}
	case dgo.Boolean:
		return J{"b", v.GoBool()}
	case dgo.Integer:
		if i := v.GoInt(); i > -1<<30 && i < 1<<30 {
			return J{"i", i}
		}
		return J{"big", v.String()}
	case dgo.Float:
		if f := v.GoFloat() * 4; f == math.Trunc(f) && math.Abs(f) < 1<<30 {
			return J{"f", int(f)}
		}
		return J{"big", v.String()}
	case dgo.String:
		return J{"s", codes(v.GoString())}
	}
	return J{"other", fmt.Sprintf("%T", v)}
}

func isColl(v dgo.Value) bool {
	switch v.(type) {
	case dgo.Array, dgo.Map:
		return true
	}
	return false
}

func frozen(v dgo.Value) bool {
	return v.(dgo.Freezable).Frozen()
}

func (h *heap) idOf(v dgo.Value) int {
	for i := range h.objs {
		if h.objs[i] == v {
			return i + 1
		}
	}
	return 0
}

// enc encodes a value. Mutable collections become references and are registered in pre-order when they are new.
// Frozen collections are encoded by value.
func (h *heap) enc(v dgo.Value) J {
	return h.encd(v, 0)
}

func (h *heap) encd(v dgo.Value, depth int) J {
	if depth > 40 {
		return J{"deep"}
	}
	if v == nil || !isColl(v) {
		return scalar(v)
	}
	if !frozen(v) {
		id := h.idOf(v)
		if id == 0 {
			h.objs = append(h.objs, v)
			id = len(h.objs)
			h.scan(v, depth)
		}
		return J{"r", id}
	}
	switch v := v.(type) {
	case dgo.Map:
		es := make(J, 0)
		v.EachEntry(func(e dgo.MapEntry) { es = append(es, J{h.encd(e.Key(), depth+1), h.encd(e.Value(), depth+1)}) })
		return J{"fm", es}
	case dgo.Array:
		es := make(J, 0)
		v.Each(func(e dgo.Value) { es = append(es, h.encd(e, depth+1)) })
		return J{"fa", es}
	}
	return J{"other"}
}

// scan registers new collections found in v, in pre-order
func (h *heap) scan(v dgo.Value, depth int) {
	switch v := v.(type) {
	case dgo.Map:
		v.EachEntry(func(e dgo.MapEntry) { h.encd(e.Key(), depth+1); h.encd(e.Value(), depth+1) })
	case dgo.Array:
		v.Each(func(e dgo.Value) { h.encd(e, depth+1) })
	}
}

// arg encodes an argument. Registered objects are references even when they are frozen
func (h *heap) arg(v dgo.Value) J {
	if isColl(v) {
		if id := h.idOf(v); id > 0 {
			return J{"r", id}
		}
	}
	return h.enc(v)
}

// coll registers a collection result
func (h *heap) coll(v dgo.Value) J {
	if v == nil || reflect.ValueOf(v).Kind() == reflect.Ptr && reflect.ValueOf(v).IsNil() {
		return J{"none"}
	}
	if frozen(v) {
		h.objs = append(h.objs, v)
		id := len(h.objs)
		h.scan(v, 0)
		return J{"new", id}
	}
	return J{"new", h.enc(v)[1]}
}

// project returns the whole heap
func (h *heap) project() []map[string]interface{} {
	// objects that are found during projection are appended
	r := make([]map[string]interface{}, 0, len(h.objs))
	for i := 0; i < len(h.objs); i++ {
		o := map[string]interface{}{"f": frozen(h.objs[i])}
		es := make(J, 0)
		switch v := h.objs[i].(type) {
		case dgo.Map:
			o["k"] = "m"
			n := 0
			v.EachEntry(func(e dgo.MapEntry) { es = append(es, J{h.enc(e.Key()), h.enc(e.Value())}); n++ })
			if n != v.Len() {
				o["badlen"] = v.Len()
			}
		case dgo.Array:
			o["k"] = "a"
			n := 0
			v.Each(func(e dgo.Value) { es = append(es, h.enc(e)); n++ })
			if n != v.Len() {
				o["badlen"] = v.Len()
			}
		}
		o["e"] = es
		r = append(r, o)
	}
	return r
}

// ev is an event
type ev = map[string]interface{}

// native turns a scalar into its native go counterpart at random
func native(r *rand.Rand, v dgo.Value) interface{} {
	if r == nil || r.Intn(2) == 0 {
		return v
	}
	switch v := v.(type) {
	case dgo.Nil:
		return nil
	case dgo.Boolean:
		return v.GoBool()
	case dgo.Integer:
		switch r.Intn(4) {
		case 0:
			return int(v.GoInt())
		case 1:
			return v.GoInt()
		case 2:
			if i := v.GoInt(); i == int64(int16(i)) {
				return int16(i)
			}
			return v
		default:
			return v
		}
	case dgo.Float:
		return v.GoFloat()
	case dgo.String:
		return v.GoString()
	}
	return v
}

func natives(r *rand.Rand, vs []dgo.Value) []interface{} {
	ns := make([]interface{}, len(vs))
	for i := range vs {
		ns[i] = native(r, vs[i])
	}
	return ns
}

// hop is one operation with its decoded arguments
type hop struct {
	op   string
	a    int
	src  int
	n, m int
	fz   bool
	on   string
	k, v dgo.Value
	vs   []dgo.Value
	es   [][2]dgo.Value
	p    []interface{} // name, dgo.Value
}

func (h *heap) encp(p []interface{}) J {
	if len(p) == 1 {
		return J{p[0]}
	}
	return J{p[0], h.arg(p[1].(dgo.Value))}
}

// event creates the event for an operation before it's executed
func (h *heap) event(o *hop) ev {
	e := ev{"op": o.op}
	if o.a > 0 {
		e["a"] = o.a
	}
	if o.src > 0 {
		e["src"] = o.src
	}
	switch o.op {
	case "Insert", "Set", "Remove", "AGet", "Slice", "GoSliceSet":
		e["n"] = o.n
		e["m"] = o.m
	}
	switch o.op {
	case "ACopy", "MCopy", "NewArr", "NewMap", "NewMapFrom", "NewMapGo", "EntriesToMap":
		e["fz"] = o.fz
	}
	if o.on != "" {
		e["on"] = o.on
	}
	if o.k != nil {
		e["k"] = h.arg(o.k)
	}
	if o.v != nil {
		e["v"] = h.arg(o.v)
	}
	if o.vs != nil {
		vs := make(J, len(o.vs))
		for i := range o.vs {
			vs[i] = h.arg(o.vs[i])
		}
		e["vs"] = vs
	}
	if o.es != nil {
		es := make(J, len(o.es))
		for i := range o.es {
			es[i] = J{h.arg(o.es[i][0]), h.arg(o.es[i][1])}
		}
		e["es"] = es
	}
	if o.p != nil {
		e["p"] = h.encp(o.p)
	}
	return e
}

func pred(p []interface{}) func(dgo.Value) bool {
	switch p[0] {
	case "T":
		return func(dgo.Value) bool { return true }
	case "F":
		return func(dgo.Value) bool { return false }
	case "isI":
		return func(v dgo.Value) bool { _, ok := v.(dgo.Integer); return ok }
	case "isS":
		return func(v dgo.Value) bool { _, ok := v.(dgo.String); return ok }
	case "isC":
		return func(v dgo.Value) bool { return isColl(v) }
	case "eq":
		return func(v dgo.Value) bool { return v.Equals(p[1]) }
	case "ne":
		return func(v dgo.Value) bool { return !v.Equals(p[1]) }
	}
	panic("no such predicate")
}

func mapper(p []interface{}) func(dgo.Value) interface{} {
	switch p[0] {
	case "id":
		return func(v dgo.Value) interface{} { return v }
	case "nil":
		return func(v dgo.Value) interface{} { return nil }
	case "c":
		return func(v dgo.Value) interface{} { return p[1] }
	case "wrap":
		return func(v dgo.Value) interface{} { return vf.MutableValues(v) }
	}
	panic("no such mapper")
}

func (h *heap) list(vs []dgo.Value) J {
	l := make(J, len(vs))
	for i := range vs {
		l[i] = h.enc(vs[i])
	}
	return J{"l", l}
}

func (h *heap) entry(e dgo.MapEntry) J {
	if e == nil || reflect.ValueOf(e).IsNil() {
		return J{"none"}
	}
	return J{"l", J{h.enc(e.Key()), h.enc(e.Value())}}
}

var void = J{"void"}

func bl(b bool) J { return J{"b", b} }

func num(i int) J { return J{"i", i} }

// exec performs the operation on the real collections and returns the encoded result
func (h *heap) exec(r *rand.Rand, o *hop) (res J) {
	defer func() {
		if x := recover(); x != nil {
			res = J{"panic"}
		}
	}()
	var a dgo.Array
	var m dgo.Map
	if o.a > 0 {
		a, _ = h.objs[o.a-1].(dgo.Array)
		m, _ = h.objs[o.a-1].(dgo.Map)
	}
	var srcA dgo.Array
	var srcM dgo.Map
	if o.src > 0 {
		srcA, _ = h.objs[o.src-1].(dgo.Array)
		srcM, _ = h.objs[o.src-1].(dgo.Map)
	}
	ep := func(e dgo.MapEntry) bool {
		if o.on == "k" {
			return pred(o.p)(e.Key())
		}
		return pred(o.p)(e.Value())
	}
	switch o.op {
	// arrays
	case "Add":
		a.Add(native(r, o.v))
		return void
	case "AddAll":
		a.AddAll(srcA)
		return void
	case "AddValues":
		a.AddValues(natives(r, o.vs)...)
		return void
	case "Insert":
		a.Insert(o.n, native(r, o.v))
		return void
	case "Set":
		return h.enc(a.Set(o.n, native(r, o.v)))
	case "Remove":
		return h.enc(a.Remove(o.n))
	case "RemoveValue":
		return bl(a.RemoveValue(native(r, o.v)))
	case "Pop":
		v, ok := a.Pop()
		if ok != (v != nil) {
			return J{"inconsistent"}
		}
		return h.enc(v)
	case "With":
		return h.coll(a.With(native(r, o.v)))
	case "WithValues":
		return h.coll(a.WithValues(natives(r, o.vs)...))
	case "WithAll":
		return h.coll(a.WithAll(srcA))
	case "Slice":
		return h.coll(a.Slice(o.n, o.m))
	case "Select":
		return h.coll(a.Select(pred(o.p)))
	case "Reject":
		return h.coll(a.Reject(pred(o.p)))
	case "AMap":
		return h.coll(a.Map(mapper(o.p)))
	case "Flatten":
		return h.coll(a.Flatten())
	case "Unique":
		return h.coll(a.Unique())
	case "Sort":
		return h.coll(a.Sort())
	case "ACopy":
		if r != nil && r.Intn(2) == 0 {
			if o.fz {
				return h.coll(a.FrozenCopy())
			}
			return h.coll(a.ThawedCopy())
		}
		return h.coll(a.Copy(o.fz))
	case "ToMap":
		return h.coll(a.ToMap())
	case "FromPairs":
		mm, ok := a.ToMapFromEntries()
		if !ok {
			return J{"none"}
		}
		return h.coll(mm)
	case "AGet":
		return h.enc(a.Get(o.n))
	case "ALen":
		return num(a.Len())
	case "IndexOf":
		return num(a.IndexOf(native(r, o.v)))
	case "ContainsAll":
		return bl(a.ContainsAll(srcA))
	case "SameValues":
		return bl(a.SameValues(srcA))
	case "AAll":
		return bl(a.All(pred(o.p)))
	case "AAny":
		return bl(a.Any(pred(o.p)))
	case "AOne":
		return bl(a.One(pred(o.p)))
	case "AFind":
		f := a.Find(func(v dgo.Value) interface{} {
			if pred(o.p)(v) {
				return v
			}
			return nil
		})
		if f == nil {
			return J{"none"}
		}
		return h.enc(f.(dgo.Value))
	case "Reduce":
		var got []dgo.Value
		lst := o.v
		bad := false
		res := a.Reduce(native(r, o.v), func(memo, elem dgo.Value) interface{} {
			if got == nil {
				got = []dgo.Value{memo}
			} else if !memo.Equals(lst) {
				bad = true
			}
			got = append(got, elem)
			lst = vf.Integer(int64(len(got)))
			return lst
		})
		if bad || !res.Equals(lst) {
			return J{"inconsistent"}
		}
		if got == nil {
			got = []dgo.Value{res}
		}
		return h.list(got)
	case "AEach":
		var got []dgo.Value
		a.Each(func(v dgo.Value) { got = append(got, v) })
		return h.list(got)
	case "AppendToSlice":
		return h.list(a.AppendToSlice(make([]dgo.Value, 0, 3)))
	case "GoSlice":
		return h.list(a.GoSlice())
	case "InterfaceSlice":
		is := a.InterfaceSlice()
		vs := make([]dgo.Value, len(is))
		for i := range is {
			vs[i] = is[i].(dgo.Value)
			is[i] = nil // must not affect the array
		}
		return h.list(vs)
	case "EachWithIndex":
		l := J{}
		a.EachWithIndex(func(v dgo.Value, i int) { l = append(l, J{"l", J{num(i), h.enc(v)}}) })
		return J{"l", l}
	case "GoSliceSet":
		a.GoSlice()[o.n] = o.v
		return void

	// maps
	case "Put":
		return h.enc(m.Put(native(r, o.k), native(r, o.v)))
	case "PutAll":
		m.PutAll(srcM)
		return void
	case "MRemove":
		return h.enc(m.Remove(native(r, o.k)))
	case "RemoveAll":
		m.RemoveAll(srcA)
		return void
	case "MWith":
		return h.coll(m.With(native(r, o.k), native(r, o.v)))
	case "Without":
		return h.coll(m.Without(native(r, o.k)))
	case "WithoutAll":
		return h.coll(m.WithoutAll(srcA))
	case "Merge":
		return h.coll(m.Merge(srcM))
	case "MMap":
		f := mapper(o.p)
		return h.coll(m.Map(func(e dgo.MapEntry) interface{} { return f(e.Value()) }))
	case "MCopy":
		if r != nil && r.Intn(2) == 0 {
			if o.fz {
				return h.coll(m.FrozenCopy())
			}
			return h.coll(m.ThawedCopy())
		}
		return h.coll(m.Copy(o.fz))
	case "Keys":
		return h.coll(m.Keys())
	case "Values":
		return h.coll(m.Values())
	case "MGet":
		return h.enc(m.Get(native(r, o.k)))
	case "ContainsKey":
		return bl(m.ContainsKey(native(r, o.k)))
	case "MLen":
		return num(m.Len())
	case "MAll":
		return bl(m.All(ep))
	case "MAllKeys":
		return bl(m.AllKeys(pred(o.p)))
	case "MAllValues":
		return bl(m.AllValues(pred(o.p)))
	case "MAny":
		return bl(m.Any(ep))
	case "MAnyKey":
		return bl(m.AnyKey(pred(o.p)))
	case "MAnyValue":
		return bl(m.AnyValue(pred(o.p)))
	case "MFind":
		return h.entry(m.Find(ep))
	case "MEach":
		l := J{}
		m.Each(func(v dgo.Value) { l = append(l, h.entry(v.(dgo.MapEntry))) })
		return J{"l", l}
	case "EachEntry":
		l := J{}
		m.EachEntry(func(e dgo.MapEntry) { l = append(l, h.entry(e)) })
		return J{"l", l}
	case "EachKey":
		var got []dgo.Value
		m.EachKey(func(v dgo.Value) { got = append(got, v) })
		return h.list(got)
	case "EachValue":
		var got []dgo.Value
		m.EachValue(func(v dgo.Value) { got = append(got, v) })
		return h.list(got)
	case "StringKeys":
		return bl(m.StringKeys())
	case "EntriesToMap":
		var es []interface{}
		m.EachEntry(func(e dgo.MapEntry) { es = append(es, e) })
		var ea dgo.Array
		if o.fz {
			ea = vf.Values(es...)
		} else {
			ea = vf.MutableValues(es...)
		}
		mm, ok := ea.ToMapFromEntries()
		if !ok {
			return J{"none"}
		}
		return h.coll(mm)
	case "EntryFrozenCopy", "EntryThawedCopy", "EntryFreeze":
		e := m.Find(func(e dgo.MapEntry) bool { return e.Key().Equals(o.k) })
		if e == nil || reflect.ValueOf(e).IsNil() {
			return J{"none"}
		}
		switch o.op {
		case "EntryFrozenCopy":
			return h.entry(e.FrozenCopy().(dgo.MapEntry))
		case "EntryThawedCopy":
			return h.entry(e.ThawedCopy().(dgo.MapEntry))
		default:
			e.Freeze()
			return void
		}

	// common
	case "Freeze":
		h.objs[o.a-1].(dgo.Freezable).Freeze()
		return void
	case "Frozen":
		return bl(frozen(h.objs[o.a-1]))
	case "Equals":
		return bl(h.objs[o.a-1].Equals(o.v))
	case "NewArr":
		if o.fz {
			return h.coll(vf.Values(natives(r, o.vs)...))
		}
		if r != nil && r.Intn(4) == 0 {
			c := vf.ArrayWithCapacity(r.Intn(6))
			c.AddValues(natives(r, o.vs)...)
			return h.coll(c)
		}
		return h.coll(vf.MutableValues(natives(r, o.vs)...))
	case "NewMap":
		if o.fz {
			return h.coll(vf.Map(natives(r, o.vs)...))
		}
		if r != nil && len(o.vs) == 0 && r.Intn(2) == 0 {
			return h.coll(vf.MapWithCapacity(r.Intn(20)))
		}
		return h.coll(vf.MutableMap(natives(r, o.vs)...))
	case "NewMapFrom":
		if o.fz {
			return h.coll(vf.Map(a))
		}
		return h.coll(vf.MutableMap(a))
	case "NewMapGo":
		// keys are all strings or all integers
		var gm interface{}
		if _, ok := o.es[0][0].(dgo.String); ok {
			sm := map[string]interface{}{}
			for _, e := range o.es {
				sm[e[0].(dgo.String).GoString()] = native(r, e[1])
			}
			gm = sm
		} else {
			sm := map[int]dgo.Value{}
			for _, e := range o.es {
				sm[int(e[0].(dgo.Integer).GoInt())] = e[1]
			}
			gm = sm
		}
		if o.fz {
			return h.coll(vf.Map(gm))
		}
		return h.coll(vf.MutableMap(gm))
	case "ArrFrom":
		if r != nil && r.Intn(2) == 0 {
			return h.coll(vf.Array(a))
		}
		return h.coll(vf.Array(a.AppendToSlice(nil)))
	}
	panic("no such op " + o.op)
}

func reaches(v dgo.Value, target dgo.Value, depth int) bool {
	if v == nil || !isColl(v) || depth > 40 {
		return depth > 40
	}
	if v == target {
		return true
	}
	f := false
	switch v := v.(type) {
	case dgo.Map:
		v.EachEntry(func(e dgo.MapEntry) { f = f || reaches(e.Value(), target, depth+1) })
	case dgo.Array:
		v.Each(func(e dgo.Value) { f = f || reaches(e, target, depth+1) })
	}
	return f
}

func size(v dgo.Value, lim int) int {
	if v == nil || !isColl(v) || lim <= 0 {
		return 1
	}
	n := 1
	switch v := v.(type) {
	case dgo.Map:
		v.EachEntry(func(e dgo.MapEntry) {
			if n < lim {
				n += size(e.Key(), lim-n) + size(e.Value(), lim-n)
			}
		})
	case dgo.Array:
		v.Each(func(e dgo.Value) {
			if n < lim {
				n += size(e, lim-n)
			}
		})
	}
	return n
}

// generation ------------------------------------------------------------

// strings that have the same hash code, and strings that collide in small tables
var collide = findCollisions()

func findCollisions() []string {
	// "Aa" and "BB" collide under a 31-based hash. Verify using the real thing, fall back on search.
	cands := []string{"AaAaAa", "AaAaBB", "AaBBAa", "AaBBBB", "BBAaAa", "BBAaBB", "BBBBAa", "BBBBBB"}
	h := vf.String(cands[0]).HashCode()
	ok := true
	for _, c := range cands {
		if vf.String(c).HashCode() != h {
			ok = false
		}
	}
	if ok {
		return cands
	}
	seen := map[int]string{}
	for i := 0; i < 3000000; i++ {
		s := fmt.Sprintf("%x", i)
		hc := vf.String(s).HashCode()
		if o, ok := seen[hc]; ok {
			return []string{o, s}
		}
		seen[hc] = s
	}
	return cands
}

type heapGen struct {
	r    *rand.Rand
	mode string
	h    *heap
	keys []dgo.Value
}

func (g *heapGen) newKeys() {
	r := g.r
	g.keys = nil
	n := 3 + r.Intn(5)
	if g.mode == "P01" && r.Intn(3) == 0 {
		n = 12 + r.Intn(40)
	}
	same := r.Intn(3) == 0 // only keys that share their bucket with other keys
	for i := 0; i < n; i++ {
		var k dgo.Value
		x := r.Intn(12)
		if same {
			x = []int{0, 1, 6}[r.Intn(3)]
		}
		switch x {
		case 0, 1, 2:
			k = vf.String(collide[r.Intn(len(collide))])
		case 3:
			k = vf.String(string([]byte{byte('a' + r.Intn(4)), byte('a' + r.Intn(6))}))
		case 4, 5:
			k = vf.Integer(int64(r.Intn(40) - 4))
		case 6:
			k = vf.Integer(int64(r.Intn(6)) * 65536 * 16)
		case 7:
			k = vf.Float(float64(r.Intn(8)) / 2)
		case 8:
			k = vf.Boolean(r.Intn(2) == 0)
		case 9:
			k = vf.Nil
		case 10:
			k = vf.Values(r.Intn(3), "k")
		default:
			k = vf.Map("a", r.Intn(3), "b", 2)
			if r.Intn(2) == 0 {
				k = vf.Map("b", 2, "a", r.Intn(3))
			}
		}
		g.keys = append(g.keys, k)
	}
}

func (g *heapGen) key() dgo.Value {
	if g.r.Intn(16) == 0 {
		if v := g.ref(""); v != nil && size(v, 12) < 12 {
			return v // a collection, possibly mutable, as key
		}
	}
	return g.keys[g.r.Intn(len(g.keys))]
}

func (g *heapGen) ref(kind string) dgo.Value {
	var c []dgo.Value
	for _, o := range g.h.objs {
		switch o.(type) {
		case dgo.Map:
			if kind != "a" {
				c = append(c, o)
			}
		default:
			if kind != "m" {
				c = append(c, o)
			}
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[g.r.Intn(len(c))]
}

func (g *heapGen) atom() dgo.Value {
	r := g.r
	switch r.Intn(8) {
	case 0:
		return vf.String([]string{"x", "y", "xy", ""}[r.Intn(4)])
	case 1:
		return vf.Nil
	case 2:
		return vf.Boolean(r.Intn(2) == 0)
	case 3:
		return vf.Float(float64(r.Intn(4)) / 2)
	default:
		return vf.Integer(int64(r.Intn(5)))
	}
}

func (g *heapGen) value() dgo.Value {
	p := 6
	if g.mode == "P03" || g.mode == "P04" {
		p = 3
	}
	if g.r.Intn(p) == 0 {
		if v := g.ref(""); v != nil && size(v, 25) < 25 {
			return v
		}
	}
	if g.r.Intn(10) == 0 {
		if g.r.Intn(2) == 0 {
			return vf.Values(g.r.Intn(2), vf.Values(g.r.Intn(2)))
		}
		return vf.Map("a", g.r.Intn(2))
	}
	return g.atom()
}

func (g *heapGen) pred() []interface{} {
	switch g.r.Intn(7) {
	case 0:
		return []interface{}{"T"}
	case 1:
		return []interface{}{"F"}
	case 2:
		return []interface{}{"isI"}
	case 3:
		return []interface{}{"isS"}
	case 4:
		return []interface{}{"isC"}
	case 5:
		return []interface{}{"eq", g.value()}
	default:
		return []interface{}{"ne", g.value()}
	}
}

func (g *heapGen) kpred() []interface{} {
	if g.r.Intn(2) == 0 {
		return []interface{}{[]string{"eq", "ne"}[g.r.Intn(2)], g.keys[g.r.Intn(len(g.keys))]}
	}
	return g.pred()
}

func (g *heapGen) mapper() []interface{} {
	switch g.r.Intn(5) {
	case 0:
		return []interface{}{"id"}
	case 1:
		return []interface{}{"nil"}
	case 2:
		return []interface{}{"c", g.value()}
	default:
		return []interface{}{"wrap"}
	}
}

func (g *heapGen) values(n int) []dgo.Value {
	vs := make([]dgo.Value, n)
	for i := range vs {
		vs[i] = g.value()
	}
	return vs
}

func (g *heapGen) newOp() *hop {
	r := g.r
	arr := r.Intn(2) == 0
	if g.mode == "P01" {
		arr = r.Intn(4) == 0
	}
	if g.mode == "P02" {
		arr = r.Intn(8) != 0
	}
	fz := r.Intn(3) == 0
	if arr {
		switch {
		case r.Intn(8) == 0 && g.ref("a") != nil:
			return &hop{op: "ArrFrom", a: g.h.idOf(g.ref("a"))}
		case r.Intn(6) == 0: // pairs
			o := &hop{op: "NewArr", fz: fz, vs: []dgo.Value{}}
			for i := r.Intn(4); i >= 0; i-- {
				o.vs = append(o.vs, vf.Values(g.key(), g.value()))
			}
			return o
		case r.Intn(3) == 0: // keys
			o := &hop{op: "NewArr", fz: fz, vs: []dgo.Value{}}
			for i := r.Intn(5); i > 0; i-- {
				o.vs = append(o.vs, g.key())
			}
			return o
		case r.Intn(6) == 0: // sortable
			o := &hop{op: "NewArr", fz: fz, vs: []dgo.Value{}}
			str := r.Intn(2) == 0
			n := r.Intn(20)
			few := r.Intn(2) == 0
			if few {
				n = r.Intn(60)
			}
			for i := n; i > 0; i-- {
				if !str && few {
					// many equals
					if r.Intn(2) == 0 {
						o.vs = append(o.vs, vf.Integer(int64(r.Intn(4))))
					} else {
						o.vs = append(o.vs, vf.Float(float64(r.Intn(4))))
					}
				} else if str {
					o.vs = append(o.vs, vf.String(string([]byte{byte('a' + r.Intn(3)), byte('a' + r.Intn(3))}[:r.Intn(3)])))
				} else {
					o.vs = append(o.vs, vf.Integer(int64(r.Intn(20)-10)))
				}
			}
			return o
		}
		return &hop{op: "NewArr", fz: fz, vs: g.values(r.Intn(7))}
	}
	switch r.Intn(6) {
	case 0:
		if a := g.ref("a"); a != nil {
			return &hop{op: "NewMapFrom", fz: fz, a: g.h.idOf(a)}
		}
	case 1:
		o := &hop{op: "NewMapGo", fz: fz}
		str := r.Intn(2) == 0
		seen := map[string]bool{}
		for i := r.Intn(12); i >= 0; i-- {
			var k dgo.Value
			if str {
				k = vf.String(string([]byte{byte('a' + r.Intn(3)), byte('a' + r.Intn(26))}[:1+r.Intn(2)]))
			} else {
				k = vf.Integer(int64(r.Intn(30) - 15))
			}
			if seen[k.String()] {
				continue
			}
			seen[k.String()] = true
			o.es = append(o.es, [2]dgo.Value{k, g.value()})
		}
		return o
	}
	o := &hop{op: "NewMap", fz: fz, vs: []dgo.Value{}}
	n := r.Intn(5)
	if g.mode == "P01" && r.Intn(3) == 0 {
		n = r.Intn(20)
	}
	for ; n > 0; n-- {
		o.vs = append(o.vs, g.key(), g.value())
	}
	if len(o.vs) == 0 {
		o.vs = []dgo.Value{}
	}
	return o
}

var aMut = []string{"Add", "Add", "AddAll", "AddValues", "Insert", "Insert", "Set", "Set", "Remove", "RemoveValue", "Pop", "GoSliceSet"}
var aNew = []string{"With", "With", "WithAll", "WithValues", "WithValues", "Slice", "Select", "Reject", "AMap", "Flatten", "Unique", "Sort", "ACopy", "ACopy", "ToMap", "FromPairs"}
var aQry = []string{"AGet", "ALen", "IndexOf", "ContainsAll", "SameValues", "AAll", "AAny", "AOne", "AFind", "Reduce", "AEach", "EachWithIndex", "AppendToSlice", "GoSlice", "InterfaceSlice", "Frozen", "Equals"}
var mMut = []string{"Put", "Put", "Put", "Put", "PutAll", "MRemove", "MRemove", "RemoveAll", "RemoveAll"}
var mNew = []string{"MWith", "Without", "WithoutAll", "Merge", "MMap", "MCopy", "Keys", "Values", "EntriesToMap", "EntryFrozenCopy", "EntryThawedCopy"}
var mQry = []string{"MGet", "MGet", "ContainsKey", "MLen", "MAll", "MAllKeys", "MAllValues", "MAny", "MAnyKey", "MAnyValue", "MFind", "MEach", "EachEntry", "EachKey", "EachValue", "StringKeys", "Frozen", "Equals"}

func pick(r *rand.Rand, s []string) string { return s[r.Intn(len(s))] }

// sortable returns true when the elements are all integers or all strings
func sortable(a dgo.Array) bool {
	ints, strs := 0, 0
	a.Each(func(v dgo.Value) {
		switch v.(type) {
		case dgo.Integer, dgo.Float:
			ints++
		case dgo.String:
			strs++
		}
	})
	return ints == a.Len() || strs == a.Len()
}

// next produces the next operation or nil when the one that was produced isn't possible
func (g *heapGen) next() *hop {
	r := g.r
	h := g.h
	if len(h.objs) < 2 || len(h.objs) < 4 && r.Intn(4) == 0 || r.Intn(25) == 0 {
		return g.newOp()
	}
	kind := ""
	if g.mode == "P01" && r.Intn(8) != 0 {
		kind = "m"
	}
	if g.mode == "P02" && r.Intn(8) != 0 {
		kind = "a"
	}
	obj := g.ref(kind)
	if obj == nil {
		return nil
	}
	id := h.idOf(obj)
	// weights of mutators, producers, and queries
	x := r.Intn(100)
	pm, pn := 50, 25
	switch g.mode {
	case "P03":
		pm, pn = 40, 45
	case "P04":
		pm, pn = 50, 30
		if r.Intn(12) == 0 {
			return &hop{op: "Freeze", a: id}
		}
	default:
		if r.Intn(60) == 0 {
			return &hop{op: "Freeze", a: id}
		}
	}
	o := &hop{a: id}
	if a, ok := obj.(dgo.Array); ok {
		switch {
		case x < pm:
			o.op = pick(r, aMut)
		case x < pm+pn:
			o.op = pick(r, aNew)
		default:
			o.op = pick(r, aQry)
		}
		switch o.op {
		case "Add", "With", "RemoveValue", "IndexOf", "Insert", "Set", "GoSliceSet", "Reduce":
			o.v = g.value()
			if (o.op == "RemoveValue" || o.op == "IndexOf") && a.Len() > 0 && r.Intn(2) == 0 {
				o.v = a.Get(r.Intn(a.Len()))
			}
			if o.op == "Reduce" {
				o.v = g.atom()
			}
		case "Equals":
			o.v = g.value()
			if r.Intn(3) == 0 {
				o.v = a.FrozenCopy()
			}
		case "AddAll", "WithAll", "ContainsAll", "SameValues":
			o.src = h.idOf(g.ref("a"))
			if (o.op == "ContainsAll" || o.op == "SameValues") && r.Intn(2) == 0 {
				// register a permutation or subset first
				if len(h.objs) < 9 {
					vs := a.AppendToSlice(nil)
					r.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
					if len(vs) > 0 && r.Intn(2) == 0 {
						vs = vs[:r.Intn(len(vs)+1)]
					}
					if len(vs) > 1 && r.Intn(3) == 0 {
						vs[0] = vs[1]
					}
					return &hop{op: "NewArr", vs: append([]dgo.Value{}, vs...)}
				}
			}
		case "AddValues", "WithValues":
			o.vs = g.values(r.Intn(4))
		case "Select", "Reject", "AAll", "AAny", "AOne", "AFind":
			o.p = g.pred()
		case "AMap":
			o.p = g.mapper()
		case "ACopy":
			o.fz = r.Intn(2) == 0
		case "Sort":
			if !sortable(a) {
				return nil
			}
		}
		switch o.op {
		case "Insert", "Set", "Remove", "AGet", "GoSliceSet":
			o.n = r.Intn(a.Len()+1) - r.Intn(8)/7
			if o.op == "Insert" && o.n > a.Len() {
				o.n = a.Len()
			}
		case "Slice":
			o.n = r.Intn(a.Len() + 1)
			o.m = o.n + r.Intn(a.Len()-o.n+1)
			if r.Intn(10) == 0 {
				o.n, o.m = o.m, o.n-1
			}
			// slicing beyond the length but within capacity isn't detectable by the caller, so avoid it
		}
		// cyclic structures are not for this machine
		switch o.op {
		case "Add", "Insert", "Set", "GoSliceSet":
			if reaches(o.v, obj, 0) {
				return nil
			}
		case "AddValues":
			for _, v := range o.vs {
				if reaches(v, obj, 0) {
					return nil
				}
			}
		case "AddAll":
			s := h.objs[o.src-1].(dgo.Array)
			if s.Any(func(v dgo.Value) bool { return reaches(v, obj, 0) }) || s.Len()+a.Len() > 30 {
				return nil
			}
		}
		return o
	}
	m := obj.(dgo.Map)
	switch {
	case x < pm:
		o.op = pick(r, mMut)
	case x < pm+pn:
		o.op = pick(r, mNew)
	default:
		o.op = pick(r, mQry)
	}
	if g.mode == "P04" && r.Intn(20) == 0 {
		o.op = "EntryFreeze"
	}
	switch o.op {
	case "Put", "MWith":
		o.k = g.key()
		o.v = g.value()
		if r.Intn(6) == 0 {
			if ov := m.Get(o.k); ov != nil {
				o.v = ov
			}
		}
	case "MRemove", "Without", "MGet", "ContainsKey", "EntryFrozenCopy", "EntryThawedCopy", "EntryFreeze":
		o.k = g.key()
		if m.Len() > 0 && r.Intn(2) == 0 {
			o.k = m.Keys().Get(r.Intn(m.Len()))
		}
	case "PutAll", "Merge":
		src := g.ref("m")
		o.src = h.idOf(src)
		if o.op == "PutAll" && src == obj {
			return nil // self iteration while modifying
		}
	case "RemoveAll", "WithoutAll":
		src := g.ref("a")
		if src == nil {
			return nil
		}
		o.src = h.idOf(src)
	case "MAll", "MAny", "MFind":
		o.on = []string{"k", "v"}[r.Intn(2)]
		if o.on == "k" {
			o.p = g.kpred()
		} else {
			o.p = g.pred()
		}
	case "MAllKeys", "MAnyKey":
		o.on = "k"
		o.p = g.kpred()
	case "MAllValues", "MAnyValue":
		o.on = "v"
		o.p = g.pred()
	case "MMap":
		o.p = g.mapper()
	case "MCopy", "EntriesToMap":
		o.fz = r.Intn(2) == 0
	case "Equals":
		o.v = g.value()
		if r.Intn(3) == 0 {
			o.v = m.FrozenCopy()
		}
	}
	switch o.op {
	case "Put":
		if reaches(o.v, obj, 0) || reaches(o.k, obj, 0) {
			return nil
		}
	case "PutAll":
		if h.objs[o.src-1].(dgo.Map).AnyValue(func(v dgo.Value) bool { return reaches(v, obj, 0) }) {
			return nil
		}
	}
	return o
}

func recordHeap(c *cfg) {
	r := rand.New(rand.NewSource(c.seed*1000 + int64(c.shard)))
	rec := newRecorder(c.out)
	for rec.n < c.n {
		g := &heapGen{r: r, mode: c.prop, h: &heap{}}
		g.newKeys()
		steps := 20 + r.Intn(60)
		if g.mode == "P01" && r.Intn(4) == 0 {
			steps = 200
		}
		max := 9
		rec.guarded(func() {
			for i := 0; i < steps && rec.n < c.n; i++ {
				o := g.next()
				if o == nil {
					continue
				}
				if len(g.h.objs) > max {
					break
				}
				e := g.h.event(o)
				if len(g.h.objs) > max+3 {
					break
				}
				e["r"] = g.h.exec(r, o)
				e["h"] = g.h.project()
				tot := 0
				for _, x := range g.h.objs {
					tot += size(x, 400)
				}
				rec.emit(e)
				rec.count(o.op)
				if tot > 400 || len(g.h.objs) > max+20 {
					break
				}
			}
		})
		rec.emit(ev{"op": "reset"})
	}
	rec.close()
}

// replay ------------------------------------------------------------------

// dec decodes a value that TLC has produced
func (h *heap) dec(j interface{}) dgo.Value {
	t := j.([]interface{})
	switch t[0].(string) {
	case "n":
		return vf.Nil
	case "b":
		return vf.Boolean(t[1].(bool))
	case "i":
		return vf.Integer(int64(t[1].(float64)))
	case "f":
		return vf.Float(t[1].(float64) / 4)
	case "s":
		bs := []byte{}
		for _, c := range t[1].([]interface{}) {
			bs = append(bs, byte(c.(float64)))
		}
		return vf.String(string(bs))
	case "r":
		return h.objs[int(t[1].(float64))-1]
	case "fa":
		a := vf.MutableValues()
		for _, e := range t[1].([]interface{}) {
			a.Add(h.dec(e))
		}
		return a.FrozenCopy()
	case "fm":
		m := vf.MutableMap()
		for _, e := range t[1].([]interface{}) {
			m.Put(h.dec(e.([]interface{})[0]), h.dec(e.([]interface{})[1]))
		}
		return m.FrozenCopy()
	}
	panic(fmt.Sprintf("cannot decode %v", j))
}

func (h *heap) decOp(e map[string]interface{}) *hop {
	o := &hop{op: e["op"].(string)}
	for k, v := range e {
		switch k {
		case "a":
			o.a = int(v.(float64))
		case "src":
			o.src = int(v.(float64))
		case "n":
			o.n = int(v.(float64))
		case "m":
			o.m = int(v.(float64))
		case "fz":
			o.fz = v.(bool)
		case "on":
			o.on = v.(string)
		case "k":
			o.k = h.dec(v)
		case "v":
			o.v = h.dec(v)
		case "vs":
			o.vs = []dgo.Value{}
			for _, x := range v.([]interface{}) {
				o.vs = append(o.vs, h.dec(x))
			}
		case "p":
			p := v.([]interface{})
			o.p = []interface{}{p[0]}
			if len(p) > 1 {
				o.p = append(o.p, h.dec(p[1]))
			}
		}
	}
	return o
}

func canon(v interface{}) string {
	bs, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var x interface{}
	if err = json.Unmarshal(bs, &x); err != nil {
		panic(err)
	}
	bs, _ = json.Marshal(x)
	return string(bs)
}

// replayHeap reads lines {"path":[op...],"r":result,"h":heap}. It performs the path on real collections and compares the
// result of the last operation and the heap it leaves with what the specification says.
func replayHeap(c *cfg) {
	f, err := os.Open(c.in)
	if err != nil {
		panic(err)
	}
	rd := bufio.NewScanner(f)
	rd.Buffer(make([]byte, 1<<20), 1<<26)
	n, bad := 0, 0
	stats := map[string]int{}
	for rd.Scan() {
		var t struct {
			Path []map[string]interface{} `json:"path"`
			R    interface{}              `json:"r"`
			H    interface{}              `json:"h"`
		}
		if err = json.Unmarshal(rd.Bytes(), &t); err != nil {
			panic(err)
		}
		h := &heap{}
		var res J
		var proj interface{}
		func() {
			defer func() {
				if x := recover(); x != nil {
					res = J{"panic", fmt.Sprint(x)}
				}
			}()
			for _, e := range t.Path {
				res = h.exec(nil, h.decOp(e))
				proj = h.project()
			}
		}()
		atomic.AddInt64(&progress, 1)
		stats[t.Path[len(t.Path)-1]["op"].(string)]++
		n++
		if canon(res) != canon(t.R) || canon(proj) != canon(t.H) {
			bad++
			if bad <= 20 {
				fmt.Printf("MISMATCH %s\n", canon(map[string]interface{}{"path": t.Path, "expected": ev{"r": t.R, "h": t.H},
					"actual": ev{"r": res, "h": proj}}))
			}
		}
	}
	if err = rd.Err(); err != nil {
		panic(err)
	}
	fmt.Printf("REPLAYED %d mismatches %d\n", n, bad)
	printStats(stats, n)
}

func init() {
	commands["heap"] = recordHeap
	commands["replayheap"] = replayHeap
}
