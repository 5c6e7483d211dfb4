// Command driver executes scripts (operation histories) against the lpg
// package through its exported API only, and records what it observed as
// NDJSON traces. It contains no oracle: the TLA+ trace specification judges.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"syscall"
	"time"

	lpg "github.com/cloudprivacylabs/lpg/v2"
)

type obj = map[string]any

// ---------------------------------------------------------------- values

// Wrapped is a property value with a native value
type Wrapped struct{ v any }

func (w Wrapped) GetNativeValue() interface{} { return w.v }

const bigBase = 2000000

func decInt(c int) int {
	if c > bigBase/2 {
		return math.MaxInt - (bigBase - c)
	}
	if c < -bigBase/2 {
		return math.MinInt + (c + bigBase)
	}
	return c
}

func encInt(v int) int {
	if v > math.MaxInt-bigBase/2 {
		return bigBase - (math.MaxInt - v)
	}
	if v < math.MinInt+bigBase/2 {
		return (v - math.MinInt) - bigBase
	}
	if v > bigBase/2 || v < -bigBase/2 {
		panic(fmt.Sprintf("driver: integer %d has no code", v))
	}
	return v
}

func num(x any) int {
	switch k := x.(type) {
	case float64:
		return int(k)
	case int:
		return k
	case json.Number:
		n, _ := k.Int64()
		return int(n)
	}
	panic(fmt.Sprintf("driver: not a number: %v (%T)", x, x))
}

func bytesOf(x any) string {
	b := make([]byte, 0)
	for _, c := range x.([]any) {
		b = append(b, byte(num(c)))
	}
	return string(b)
}

func encBytes(s string) []any {
	r := make([]any, 0, len(s))
	for i := 0; i < len(s); i++ {
		r = append(r, int(s[i]))
	}
	return r
}

// byteStrings: strings are encoded as byte sequences ("cs")
var byteStrings = false

// Unjson is a value that cannot be written as JSON
type Unjson struct{}

func (Unjson) MarshalJSON() ([]byte, error) { return nil, errors.New("not for JSON") }

func decVal(x any) any {
	a := x.([]any)
	switch a[0].(string) {
	case "i":
		return decInt(num(a[1]))
	case "s":
		return a[1].(string)
	case "cs":
		return bytesOf(a[1])
	case "ls":
		r := make([]string, 0)
		for _, e := range a[1].([]any) {
			r = append(r, e.(string))
		}
		return r
	case "lcs":
		r := make([]string, 0)
		for _, e := range a[1].([]any) {
			r = append(r, bytesOf(e))
		}
		return r
	case "li":
		r := make([]int, 0)
		for _, e := range a[1].([]any) {
			r = append(r, decInt(num(e)))
		}
		return r
	case "la":
		r := make([]interface{}, 0)
		for _, e := range a[1].([]any) {
			r = append(r, decVal(e))
		}
		return r
	case "n":
		return Wrapped{decVal(a[1])}
	case "x":
		switch a[1].(string) {
		case "nan":
			return math.NaN()
		case "unjson":
			return Unjson{}
		case "true":
			return true
		case "float":
			return 1.5
		case "nil":
			return nil
		case "map":
			return map[string]any{"a": 1}
		case "mapslice":
			return []map[string]any{{"a": 1}}
		case "struct":
			return struct{ A int }{1}
		case "bytes":
			return []byte{1}
		case "int64":
			return int64(1)
		case "func":
			return func() {}
		case "chan":
			return make(chan int)
		}
	case "j":
		return untree(a[1])
	}
	panic(fmt.Sprintf("driver: bad value %v", x))
}

func encVal(v any) any {
	switch k := v.(type) {
	case int:
		return []any{"i", encInt(k)}
	case string:
		if byteStrings {
			return []any{"cs", encBytes(k)}
		}
		return []any{"s", k}
	case []string:
		r := make([]any, 0)
		for _, e := range k {
			if byteStrings {
				r = append(r, encBytes(e))
			} else {
				r = append(r, e)
			}
		}
		if byteStrings {
			return []any{"lcs", r}
		}
		return []any{"ls", r}
	case []int:
		r := make([]any, 0)
		for _, e := range k {
			r = append(r, encInt(e))
		}
		return []any{"li", r}
	case []interface{}:
		r := make([]any, 0)
		for _, e := range k {
			r = append(r, encVal(e))
		}
		return []any{"la", r}
	case Wrapped:
		return []any{"n", encVal(k.v)}
	}
	kind := fmt.Sprintf("%T", v)
	switch v.(type) {
	case bool:
		kind = "true"
	case float64:
		kind = "float"
		if math.IsNaN(v.(float64)) {
			kind = "nan"
		}
	case nil:
		kind = "nil"
	case map[string]any:
		kind = "map"
	case []map[string]any:
		kind = "mapslice"
	case struct{ A int }:
		kind = "struct"
	case []byte:
		kind = "bytes"
	case int64:
		kind = "int64"
	case func():
		kind = "func"
	case Unjson:
		kind = "unjson"
	case chan int:
		kind = "chan"
	}
	return []any{"x", kind}
}

func decProps(x any) map[string]any {
	if x == nil {
		return nil
	}
	m := x.(obj)
	r := make(map[string]any, len(m))
	for k, v := range m {
		r[k] = decVal(v)
	}
	return r
}

func encProps(m map[string]any) obj {
	r := make(obj, len(m))
	for k, v := range m {
		r[k] = encVal(v)
	}
	return r
}

func strs(x any) []string {
	r := make([]string, 0)
	if x == nil {
		return r
	}
	for _, e := range x.([]any) {
		r = append(r, e.(string))
	}
	return r
}

func sortedStrs(s []string) []any {
	c := append([]string{}, s...)
	sort.Strings(c)
	r := make([]any, 0, len(c))
	for _, x := range c {
		r = append(r, x)
	}
	return r
}

// ---------------------------------------------------------------- world

type World struct {
	graphs map[int]*lpg.Graph
	nodes  map[int]*lpg.Node
	edges  map[int]*lpg.Edge
	nodeH  map[*lpg.Node]int
	edgeH  map[*lpg.Edge]int
	slots  map[int][]lpg.PathElement
	step   func()
	paths  map[int]*lpg.Path
	curs   map[int]*lpg.Cursor
	ssets  map[int]*lpg.StringSet
	nsets  map[int]*lpg.NodeSet
	esets  map[int]*lpg.EdgeSet
	nmaps  map[int]*lpg.NodeMap
	cmaps  map[int]map[*lpg.Node]*lpg.Node
	slices map[int]*[]lpg.PathElement
	nextH  int
}

func newWorld() *World {
	return &World{
		graphs: map[int]*lpg.Graph{}, nodes: map[int]*lpg.Node{}, edges: map[int]*lpg.Edge{},
		nodeH: map[*lpg.Node]int{}, edgeH: map[*lpg.Edge]int{}, paths: map[int]*lpg.Path{},
		curs: map[int]*lpg.Cursor{}, ssets: map[int]*lpg.StringSet{}, nsets: map[int]*lpg.NodeSet{},
		esets: map[int]*lpg.EdgeSet{}, nmaps: map[int]*lpg.NodeMap{}, cmaps: map[int]map[*lpg.Node]*lpg.Node{},
		slices: map[int]*[]lpg.PathElement{},
		nextH:  100000,
	}
}

func (w *World) limit() int { return 20*(len(w.nodes)+len(w.edges)) + 100 }

func (w *World) hn(n *lpg.Node) int {
	if n == nil {
		return 0
	}
	if h, ok := w.nodeH[n]; ok {
		return h
	}
	return -1
}

func (w *World) he(e *lpg.Edge) int {
	if e == nil {
		return 0
	}
	if h, ok := w.edgeH[e]; ok {
		return h
	}
	return -1
}

func (w *World) regNode(h int, n *lpg.Node) {
	w.nodes[h] = n
	w.nodeH[n] = h
}

func (w *World) regEdge(h int, e *lpg.Edge) {
	w.edges[h] = e
	w.edgeH[e] = h
}

func (w *World) g(o obj) *lpg.Graph { return w.graph(o["g"]) }
func (w *World) graph(x any) *lpg.Graph {
	g := w.graphs[num(x)]
	if g == nil {
		panic(driverError(fmt.Sprintf("no graph handle %d", num(x))))
	}
	return g
}
func (w *World) node(x any) *lpg.Node {
	h := num(x)
	if h == 0 {
		return nil
	}
	n := w.nodes[h]
	if n == nil {
		panic(driverError(fmt.Sprintf("no node handle %d", h)))
	}
	return n
}
func (w *World) edge(x any) *lpg.Edge {
	e := w.edges[num(x)]
	if e == nil {
		panic(driverError(fmt.Sprintf("no edge handle %d", num(x))))
	}
	return e
}

type driverError string

// ---------------------------------------------------------------- execution

func copyObj(o obj) obj {
	r := make(obj, len(o)+3)
	for k, v := range o {
		r[k] = v
	}
	return r
}

// guard runs f; a panic of the code under test is recorded, a driver error aborts
func guard(out obj, key string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if d, ok := r.(driverError); ok {
				panic(d)
			}
			out[key] = "panic"
			out["msg"] = fmt.Sprint(r)
		}
	}()
	out[key] = "ok"
	f()
}

func (w *World) runOp(o obj) obj {
	out := copyObj(o)
	guard(out, "out", func() { w.doOp(o, out) })
	return out
}

func (w *World) runQuery(o obj) obj {
	out := copyObj(o)
	guard(out, "st", func() { w.doQuery(o, out) })
	return out
}

func list(x any) []any {
	if x == nil {
		return nil
	}
	return x.([]any)
}

func runScript(s obj) obj {
	w := newWorld()
	byteStrings = s["bytes"] == true
	evs := make([]any, 0)
	res := obj{"id": s["id"]}
	// an operation on a handle that an earlier, failed operation should have
	// created ends the script; the trace up to there is judged
	func() {
		ops, obs := make([]any, 0), make([]any, 0)
		open := false
		defer func() {
			if r := recover(); r != nil {
				d, ok := r.(driverError)
				if !ok {
					panic(r)
				}
				res["aborted"] = string(d)
				if open {
					evs = append(evs, obj{"ops": ops, "obs": obs})
				}
			}
		}()
		for _, e := range list(s["ev"]) {
			ev := e.(obj)
			ops, obs = make([]any, 0), make([]any, 0)
			open = true
			for _, o := range list(ev["ops"]) {
				ops = append(ops, w.runOp(o.(obj)))
			}
			for _, q := range list(ev["obs"]) {
				obs = append(obs, w.runQuery(q.(obj)))
			}
			open = false
			evs = append(evs, obj{"ops": ops, "obs": obs})
		}
	}()
	res["ev"] = evs
	return res
}

// cpuTime is the processor time this process has used
func cpuTime() time.Duration {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func main() {
	in := flag.String("in", "", "script file (NDJSON)")
	outF := flag.String("out", "", "trace file (NDJSON)")
	cur := flag.String("cur", "", "file that names the script being executed")
	only := flag.Int("only", -1, "execute only the script on this line (0-based)")
	from := flag.Int("from", 0, "skip the scripts before this line")
	timeout := flag.Duration("timeout", 20*time.Second, "per script")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(2 << 30)
	f, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	of, err := os.OpenFile(*outF, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	wr := bufio.NewWriterSize(of, 1<<20)
	enc := json.NewEncoder(wr)
	enc.SetEscapeHTML(false)
	rd := bufio.NewReaderSize(f, 1<<20)
	ln := -1
	// results of the code under test must not reach our stdout
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = devnull
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			ln++
			if (*only < 0 || ln == *only) && ln >= *from {
				if *cur != "" {
					// flush first: whatever happens next, the finished traces are on disk
					if ln%64 == 0 {
						wr.Flush()
					}
					os.WriteFile(*cur, []byte(fmt.Sprint(ln)), 0o644)
				}
				var s obj
				if err := json.Unmarshal(line, &s); err != nil {
					fmt.Fprintln(os.Stderr, "script", ln, err)
					os.Exit(2)
				}
				done := make(chan any, 1)
				go func() {
					defer func() {
						if r := recover(); r != nil {
							done <- fmt.Errorf("driver: script %d: %v\n%s", ln, r, debug.Stack())
						}
					}()
					done <- runScript(s)
				}()
				// a script hangs when it has used that much processor time (the
				// machine may be busy with other things)
				var r any
				cpu, wall := cpuTime(), time.Now()
				tick := time.NewTicker(200 * time.Millisecond)
			waiting:
				for {
					select {
					case r = <-done:
						break waiting
					case <-tick.C:
						if cpuTime()-cpu > *timeout || time.Since(wall) > 3**timeout {
							wr.Flush()
							fmt.Fprintf(os.Stderr, "HANG script %d\n", ln)
							os.Exit(3)
						}
					}
				}
				tick.Stop()
				{
					if e, ok := r.(error); ok {
						wr.Flush()
						fmt.Fprintln(os.Stderr, e)
						os.Exit(2)
					}
					if err := enc.Encode(r); err != nil {
						fmt.Fprintln(os.Stderr, err)
						os.Exit(2)
					}
				}
			}
		}
		if err != nil {
			break
		}
	}
	wr.Flush()
	if err := of.Close(); err != nil {
		os.Exit(2)
	}
	if *cur != "" {
		os.WriteFile(*cur, []byte("done"), 0o644)
	}
}
