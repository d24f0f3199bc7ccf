package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sync/atomic"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// Binaries and the go slices that they may share memory with. See Binary.tla

type binState struct {
	s [][]byte
	b []dgo.Binary
	g *rand.Rand
}

type binOp struct {
	Op  string `json:"op"`
	A   int    `json:"a"`
	B   int    `json:"b"`
	C   int    `json:"c"`
	I   int    `json:"i"`
	V   int    `json:"v"`
	Fz  bool   `json:"fz"`
	X   []int  `json:"x"`
	Enc string `json:"enc"`
}

func (o *binOp) enc() M {
	m := M{"op": o.Op}
	switch o.Op {
	case "slice", "data", "numbers":
		m["x"] = o.X
	case "decode":
		m["x"], m["enc"] = o.X, o.Enc
	case "write":
		m["a"], m["i"], m["v"] = o.A, o.I, o.V
	case "new":
		m["a"], m["fz"] = o.A, o.Fz
	case "value":
		m["a"] = o.A
	case "bytes", "freeze", "key", "encode", "string":
		m["b"] = o.B
	case "copy", "held":
		m["b"], m["fz"] = o.B, o.Fz
	case "equalsGo", "compareGo":
		m["a"], m["b"] = o.A, o.B
	default:
		m["b"], m["c"] = o.B, o.C
	}
	return m
}

func ints(bs []byte) []int {
	r := make([]int, len(bs))
	for i := range bs {
		r[i] = int(bs[i])
	}
	return r
}

func (h *binState) project() M {
	s, b := J{}, J{}
	for _, x := range h.s {
		s = append(s, ints(x))
	}
	for _, x := range h.b {
		b = append(b, J{ints(x.GoBytes()), x.Frozen()})
	}
	return M{"s": s, "b": b}
}

func (h *binState) one(n int) int {
	if h.g == nil {
		return 0
	}
	return h.g.Intn(n)
}

func (h *binState) bin(v dgo.Value) J {
	b := v.(dgo.Binary)
	for i := range h.b {
		if h.b[i] == b {
			return J{"bin", i + 1}
		}
	}
	h.b = append(h.b, b)
	return J{"bin", len(h.b)}
}

// exec performs an operation in one of the ways that there are
func (h *binState) exec(o *binOp) (r J) {
	defer func() {
		if x := recover(); x != nil {
			r = J{"panic"}
		}
	}()
	bs := make([]byte, len(o.X))
	for i := range o.X {
		bs[i] = byte(o.X[i])
	}
	slice := func(s []byte) J {
		h.s = append(h.s, s)
		return J{"slice", len(h.s)}
	}
	switch o.Op {
	case "slice":
		// a slice may have room
		return slice(append(make([]byte, 0, len(bs)+h.one(4)), bs...))
	case "write":
		h.s[o.A-1][o.I-1] = byte(o.V)
		return J{"ok"}
	case "new":
		return h.bin(vf.Binary(h.s[o.A-1], o.Fz))
	case "value":
		s := h.s[o.A-1]
		switch h.one(5) {
		case 0:
			return h.bin(vf.Value(s))
		case 1:
			return h.bin(vf.Values(s).Get(0))
		case 2:
			return h.bin(vf.Map("a", s).Get("a"))
		case 3:
			return h.bin(vf.Value(reflect.ValueOf(s)))
		}
		return h.bin(vf.MutableValues(s).Get(0))
	case "data":
		return h.bin(vf.BinaryFromData(bytes.NewReader(bs)))
	case "decode":
		switch h.one(3) {
		case 0:
			if o.Enc == "%B" {
				return h.bin(vf.New(typ.Binary, vf.String(string(bs))))
			}
			fallthrough
		case 1:
			return h.bin(vf.New(typ.Binary, vf.Arguments(string(bs), o.Enc)))
		}
		if o.Enc == "%B" && h.one(2) == 0 {
			return h.bin(vf.BinaryFromString(string(bs)))
		}
		return h.bin(vf.BinaryFromEncoded(string(bs), o.Enc))
	case "numbers":
		if h.one(2) == 0 {
			return h.bin(vf.New(typ.Binary, vf.Integers(o.X...)))
		}
		return h.bin(vf.New(tf.Binary(0, 100), vf.Arguments(vf.Integers(o.X...))))
	case "bytes":
		b := h.b[o.B-1]
		var s []byte
		switch h.one(4) {
		case 0:
			vf.FromValue(b, &s)
		case 1:
			var x interface{}
			vf.FromValue(b, &x)
			s = x.([]byte)
		case 2:
			var x *[]byte
			vf.FromValue(b, &x)
			s = *x
		default:
			s = b.GoBytes()
		}
		return slice(s)
	case "freeze":
		h.b[o.B-1].Freeze()
		return J{"ok"}
	case "copy":
		b := h.b[o.B-1]
		switch {
		case h.one(2) == 0:
			return h.bin(b.Copy(o.Fz))
		case o.Fz:
			return h.bin(b.FrozenCopy())
		}
		return h.bin(b.ThawedCopy())
	case "held":
		b := h.b[o.B-1]
		if o.Fz {
			switch h.one(5) {
			case 0:
				return h.bin(vf.Values(b).Get(0))
			case 1:
				return h.bin(vf.Map("a", b).Get("a"))
			case 2:
				return h.bin(vf.MutableValues(b).FrozenCopy().(dgo.Array).Get(0))
			case 3:
				return h.bin(vf.MutableMap(1, b).FrozenCopy().(dgo.Map).Get(1))
			}
			return h.bin(vf.Sensitive(b).FrozenCopy().(dgo.Sensitive).Unwrap())
		}
		switch h.one(4) {
		case 0:
			return h.bin(vf.MutableValues(b).Get(0))
		case 1:
			return h.bin(vf.MutableMap("a", b).Get("a"))
		case 2:
			return h.bin(vf.Sensitive(b).Unwrap())
		}
		return h.bin(vf.MutableValues().With(b).Get(0))
	case "key":
		var k dgo.Value
		m := vf.MutableMap(h.b[o.B-1], 1)
		m.EachKey(func(x dgo.Value) { k = x })
		return h.bin(k)
	case "equals":
		return J{"v", h.b[o.B-1].Equals(h.b[o.C-1])}
	case "equalsGo":
		return J{"v", h.b[o.B-1].Equals(h.s[o.A-1])}
	case "hash":
		return J{"v", h.b[o.B-1].HashCode() == h.b[o.C-1].HashCode()}
	case "compare":
		c, ok := h.b[o.B-1].CompareTo(h.b[o.C-1])
		if !ok {
			return J{"no order"}
		}
		return J{"v", c}
	case "compareGo":
		c, ok := h.b[o.B-1].CompareTo(h.s[o.A-1])
		if !ok {
			return J{"no order"}
		}
		return J{"v", c}
	case "encode":
		return J{"v", codes(h.b[o.B-1].Encode())}
	case "string":
		return J{"v", codes(h.b[o.B-1].String())}
	case "type":
		t := h.b[o.B-1].Type().(dgo.BinaryType)
		if t.Instance(h.b[o.C-1]) != t.IsInstance(h.b[o.C-1].GoBytes()) {
			return J{"instances disagree"}
		}
		return J{"v", t.Min(), t.Max(), t.Instance(h.b[o.C-1])}
	}
	panic("no such operation " + o.Op)
}

func randBytes(r *rand.Rand) []byte {
	n := r.Intn(5)
	if r.Intn(8) == 0 {
		n = r.Intn(40)
	}
	bs := make([]byte, n)
	for i := range bs {
		switch r.Intn(3) {
		case 0:
			bs[i] = byte(r.Intn(256))
		case 1:
			bs[i] = byte([]int{0, 1, 127, 128, 255, 10, 13, 0xc3, 0xa5, 0xed, 0xa0, 0xf4, 0x8f, 0xe0, 0x80}[r.Intn(15)])
		default:
			bs[i] = byte('a' + r.Intn(3))
		}
	}
	return bs
}

// randText is something like an encoded binary
func randText(r *rand.Rand) []byte {
	bs := randBytes(r)
	e := []*base64.Encoding{base64.StdEncoding, base64.URLEncoding, base64.RawStdEncoding}[[]int{0, 0, 0, 1, 1, 2}[r.Intn(6)]]
	t := []byte(e.EncodeToString(bs))
	for n := r.Intn(3); n > 0 && len(t) > 0; n-- {
		i := r.Intn(len(t))
		switch r.Intn(5) {
		case 0:
			t = append(t[:i:i], append([]byte{"\n\r=+-/_ A"[r.Intn(9)]}, t[i:]...)...)
		case 1:
			t = append(t[:i:i], t[i+1:]...)
		case 2:
			t[i] = "=ABQgw+/-_"[r.Intn(10)]
		case 3:
			t = append(t, "=\nA"[r.Intn(3)])
		}
	}
	if r.Intn(4) == 0 {
		return bs
	}
	return t
}

func (h *binState) next(r *rand.Rand) *binOp {
	o := &binOp{}
	if len(h.s) > 0 {
		o.A = 1 + r.Intn(len(h.s))
	}
	if len(h.b) > 0 {
		o.B, o.C = 1+r.Intn(len(h.b)), 1+r.Intn(len(h.b))
	}
	o.Fz = r.Intn(2) == 0
	o.X = ints(randBytes(r))
	k := r.Intn(26)
	switch {
	case o.A == 0 || k == 0:
		o.Op = "slice"
		if len(h.b) > 0 && r.Intn(2) == 0 {
			o.X = ints(h.b[r.Intn(len(h.b))].GoBytes())
		}
	case k < 3 || o.B == 0:
		o.Op = "new"
	case k < 9:
		o.Op = "write"
		n := len(h.s[o.A-1])
		if n == 0 {
			o.Op = "slice"
			break
		}
		o.I, o.V = 1+r.Intn(n), r.Intn(256)
		if r.Intn(2) == 0 {
			if s := h.s[r.Intn(len(h.s))]; len(s) > 0 {
				o.V = int(s[0])
			}
		}
	case k == 9:
		o.Op = "value"
	case k == 10:
		o.Op = "data"
	case k == 11 || k == 12:
		o.Op = "decode"
		o.Enc = []string{"%b", "%B", "%u", "%s", "%r", "%x"}[[]int{0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5}[r.Intn(11)]]
		o.X = ints(randText(r))
	case k == 13:
		o.Op = "numbers"
		if len(o.X) > 0 && r.Intn(3) == 0 {
			o.X[r.Intn(len(o.X))] = []int{-1, 256, 255, 0, 1000}[r.Intn(5)]
		}
	case k < 16:
		o.Op = "bytes"
	case k == 16:
		o.Op = "freeze"
	case k == 17:
		o.Op = "copy"
	case k == 18:
		o.Op = "held"
	case k == 19:
		o.Op = "key"
	default:
		o.Op = []string{"equals", "equalsGo", "hash", "compare", "compareGo", "encode", "string", "type"}[r.Intn(8)]
	}
	return o
}

// P22
func recBinary(c *cfg) {
	rec := newRecorder(c.out)
	r := rand.New(rand.NewSource(c.seed*1039 + int64(c.shard)))
	for rec.n < c.n {
		h := &binState{g: r}
		for i := 0; i < 40 && len(h.s)+len(h.b) < 12; i++ {
			o := h.next(r)
			rec.guarded(func() {
				ev := o.enc()
				ev["r"] = h.exec(o)
				ev["h"] = h.project()
				rec.count(o.Op)
				rec.emit(ev)
			})
		}
		rec.emit(M{"op": "reset"})
	}
	rec.close()
}

func replayBinary(c *cfg) {
	f, err := os.Open(c.in)
	if err != nil {
		panic(err)
	}
	rd := bufio.NewScanner(f)
	rd.Buffer(make([]byte, 1<<20), 1<<26)
	n, bad := 0, 0
	stats := map[string]int{}
	r := rand.New(rand.NewSource(c.seed))
	for rd.Scan() {
		var t struct {
			Path []*binOp    `json:"path"`
			R    interface{} `json:"r"`
			H    interface{} `json:"h"`
		}
		if err = json.Unmarshal(rd.Bytes(), &t); err != nil {
			panic(err)
		}
		h := &binState{g: r}
		var res J
		for _, o := range t.Path {
			res = h.exec(o)
		}
		atomic.AddInt64(&progress, 1)
		stats[t.Path[len(t.Path)-1].Op]++
		n++
		if canon(t.R) == `["any"]` {
			t.R = res
		}
		if proj := h.project(); canon(res) != canon(t.R) || canon(proj) != canon(t.H) {
			if bad++; bad <= 20 {
				fmt.Printf("MISMATCH %s\n", canon(M{"path": t.Path, "expected": M{"r": t.R, "h": t.H}, "actual": M{"r": res, "h": proj}}))
			}
		}
	}
	if err = rd.Err(); err != nil {
		panic(err)
	}
	fmt.Printf("REPLAYED %d mismatches %d\n", n, bad)
	printStats(stats, n)
}

func init() {
	commands["binary"] = recBinary
	commands["replaybinary"] = replayBinary
}
