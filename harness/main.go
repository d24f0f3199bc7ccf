// Command drv drives the real lyraproj/dgo code on behalf of the checks in /verif. It records what the code does as
// JSON, one event per line, for TLC to judge, and it replays behaviours that TLC has generated from the specification.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync/atomic"
	"time"
)

type cfg struct {
	prop  string
	seed  int64
	n     int
	shard int
	out   string
	in    string
	mode  string
}

// recorder writes events
type recorder struct {
	f     *os.File
	w     *bufio.Writer
	n     int
	stats map[string]int
}

func newRecorder(path string) *recorder {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	return &recorder{f: f, w: bufio.NewWriterSize(f, 1<<20), stats: map[string]int{}}
}

func (r *recorder) emit(ev interface{}) {
	bs, err := json.Marshal(ev)
	if err != nil {
		panic(err)
	}
	r.w.Write(bs)
	r.w.WriteByte('\n')
	r.w.Flush()
	r.n++
	atomic.AddInt64(&progress, 1)
}

// progress is what the watchdog looks at
var progress int64

// watchdog ends the process when nothing has happened for a while
func watchdog() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(time.Second)
		if p := atomic.LoadInt64(&progress); p != last {
			last, since = p, time.Now()
		} else if time.Since(since) > 40*time.Second {
			buf := make([]byte, 1<<20)
			fmt.Fprintf(os.Stderr, "HANG\n%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(3)
		}
	}
}

// guarded performs f and emits an event that no specification accepts if f panics
func (r *recorder) guarded(f func()) {
	defer func() {
		if x := recover(); x != nil {
			r.emit(map[string]interface{}{"op": "panic", "text": fmt.Sprint(x), "stack": string(debug.Stack())})
		}
	}()
	f()
}

func (r *recorder) count(k string) { r.stats[k]++ }

func (r *recorder) close() {
	if err := r.w.Flush(); err != nil {
		panic(err)
	}
	if err := r.f.Close(); err != nil {
		panic(err)
	}
	printStats(r.stats, r.n)
}

func printStats(stats map[string]int, n int) {
	ks := make([]string, 0, len(stats))
	for k := range stats {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	bs, _ := json.Marshal(stats)
	fmt.Printf("STATS %d %s\n", n, bs)
}

type command func(c *cfg)

var commands = map[string]command{}

func main() {
	c := &cfg{}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: drv COMMAND flags")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("drv", flag.ExitOnError)
	fs.StringVar(&c.prop, "prop", "", "property")
	fs.Int64Var(&c.seed, "seed", 1, "seed")
	fs.IntVar(&c.n, "n", 1000, "number of events")
	fs.IntVar(&c.shard, "shard", 0, "shard")
	fs.StringVar(&c.out, "out", "", "output file")
	fs.StringVar(&c.in, "in", "", "input file")
	fs.StringVar(&c.mode, "mode", "", "mode")
	fs.Parse(os.Args[2:])
	f, ok := commands[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such command", os.Args[1])
		os.Exit(2)
	}
	debug.SetMaxStack(64 << 20)
	go watchdog()
	f(c)
}
