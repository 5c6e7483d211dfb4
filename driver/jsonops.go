package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	lpg "github.com/cloudprivacylabs/lpg/v2"
)

// ------------------------------------------------------------ JSON trees
// ["o",{..}] ["a",[..]] ["s",".."] ["d","12"] ["b",true] ["z"]

var dupKey bool

func parseTree(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	return parseTreeTok(d, t)
}

func parseTreeTok(d *json.Decoder, t json.Token) (any, error) {
	switch k := t.(type) {
	case json.Delim:
		if k == '{' {
			m := obj{}
			for d.More() {
				kt, err := d.Token()
				if err != nil {
					return nil, err
				}
				key := kt.(string)
				v, err := parseTree(d)
				if err != nil {
					return nil, err
				}
				if _, dup := m[key]; dup {
					dupKey = true
				}
				m[key] = v
			}
			_, err := d.Token()
			return []any{"o", m}, err
		}
		a := make([]any, 0)
		for d.More() {
			v, err := parseTree(d)
			if err != nil {
				return nil, err
			}
			a = append(a, v)
		}
		_, err := d.Token()
		return []any{"a", a}, err
	case string:
		return []any{"s", k}, nil
	case json.Number:
		return []any{"d", k.String()}, nil
	case bool:
		return []any{"b", k}, nil
	case nil:
		return []any{"z"}, nil
	}
	return nil, fmt.Errorf("token %v", t)
}

// parseDoc parses one complete JSON document
func parseDoc(b []byte) (tree any, err error) {
	if !json.Valid(b) {
		return nil, errors.New("invalid JSON")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	dupKey = false
	tree, err = parseTree(d)
	if err == nil && dupKey {
		err = errors.New("duplicate key")
	}
	return
}

func untree(t any) any {
	a := t.([]any)
	switch a[0].(string) {
	case "o":
		r := map[string]any{}
		for k, v := range a[1].(obj) {
			r[k] = untree(v)
		}
		return r
	case "a":
		r := []any{}
		for _, v := range list(a[1]) {
			r = append(r, untree(v))
		}
		return r
	case "s":
		return a[1].(string)
	case "d":
		if i, err := strconv.Atoi(a[1].(string)); err == nil && (i > 1<<53 || i < -1<<53) {
			return i
		}
		var f float64
		json.Unmarshal([]byte(a[1].(string)), &f)
		return f
	case "b":
		return a[1].(bool)
	}
	return nil
}

// treeOf gives the JSON image of a Go value
func treeOf(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return []any{"?", err.Error()}
	}
	t, err := parseDoc(b)
	if err != nil {
		return []any{"?", err.Error()}
	}
	return t
}

// discover registers the nodes and edges of g that have no handle yet
func (w *World) discover(g *lpg.Graph, out obj, enc func(any) any) {
	newn, newe := make([]any, 0), make([]any, 0)
	lim := w.limit() + 10000
	i := 0
	for it := g.GetNodes(); it.Next() && i < lim; i++ {
		n := it.Node()
		if w.hn(n) < 0 {
			w.nextH++
			w.regNode(w.nextH, n)
			p := obj{}
			n.ForEachProperty(func(k string, v interface{}) bool { p[k] = enc(v); return true })
			newn = append(newn, []any{w.nextH, sortedStrs(n.GetLabels().Slice()), p})
		}
	}
	i = 0
	for it := g.GetEdges(); it.Next() && i < lim; i++ {
		e := it.Edge()
		if w.he(e) < 0 {
			w.nextH++
			w.regEdge(w.nextH, e)
			p := obj{}
			e.ForEachProperty(func(k string, v interface{}) bool { p[k] = enc(v); return true })
			newe = append(newe, []any{w.nextH, w.hn(e.GetFrom()), w.hn(e.GetTo()), e.GetLabel(), p})
		}
	}
	out["newn"], out["newe"] = newn, newe
}

// ------------------------------------------------------------ copies

func deepVal(v any) any {
	switch k := v.(type) {
	case []string:
		return append([]string{}, k...)
	case []int:
		return append([]int{}, k...)
	case []interface{}:
		r := make([]interface{}, 0, len(k))
		for _, x := range k {
			r = append(r, deepVal(x))
		}
		return r
	}
	return v
}

func cloneFn(kind string) func(string, interface{}) interface{} {
	switch kind {
	case "id":
		return func(_ string, v interface{}) interface{} { return v }
	case "deep":
		return func(_ string, v interface{}) interface{} { return deepVal(v) }
	case "tag":
		// depends on both the key and the value
		return func(k string, v interface{}) interface{} {
			return []interface{}{k, deepVal(v)}
		}
	}
	return func(k string, v interface{}) interface{} { return "const" }
}

func (w *World) doCopyOp(o, out obj) bool {
	op := o["op"].(string)
	switch op {
	case "copyg", "copyf":
		src, dst := w.graph(o["g"]), w.graph(o["d"])
		cf := cloneFn(o["cf"].(string))
		var m map[*lpg.Node]*lpg.Node
		if op == "copyg" {
			m = lpg.CopyGraph(src, dst, cf)
		} else {
			skipN, skipE := map[int]bool{}, map[int]bool{}
			for _, x := range list(o["skipn"]) {
				skipN[num(x)] = true
			}
			for _, x := range list(o["skipe"]) {
				skipE[num(x)] = true
			}
			// nodes that stand for nodes of the source, instead of a copy
			onto := map[int]*lpg.Node{}
			for _, x := range list(o["onto"]) {
				onto[num(x.([]any)[0])] = w.node(x.([]any)[1])
			}
			offered := make([]any, 0)
			m = lpg.CopyGraphf(src, func(n *lpg.Node, nm map[*lpg.Node]*lpg.Node) *lpg.Node {
				if x := onto[w.hn(n)]; x != nil {
					return x
				}
				if skipN[w.hn(n)] {
					return nil
				}
				return lpg.CopyNode(n, dst, cf)
			}, func(e *lpg.Edge, nm map[*lpg.Node]*lpg.Node) *lpg.Edge {
				offered = append(offered, w.he(e))
				if skipE[w.he(e)] {
					return nil
				}
				return lpg.CopyEdge(e, dst, cf, nm)
			})
			out["offered"] = offered
		}
		w.discover(dst, out, encVal)
		nm := make([]any, 0)
		for a, b := range m {
			nm = append(nm, []any{w.hn(a), w.hn(b)})
		}
		out["nm"] = nm
		if o["cm"] != nil {
			w.cmaps[num(o["cm"])] = m
		}
	case "copysub":
		dst := w.graph(o["d"])
		cm := w.cmaps[num(o["cm"])]
		if cm == nil {
			cm = map[*lpg.Node]*lpg.Node{}
			w.cmaps[num(o["cm"])] = cm
		}
		lpg.CopySubgraph(w.node(o["n"]), dst, cloneFn(o["cf"].(string)), cm)
		w.discover(dst, out, encVal)
		nm := make([]any, 0)
		for a, b := range cm {
			nm = append(nm, []any{w.hn(a), w.hn(b)})
		}
		out["nm"] = nm
	case "copyn":
		n := lpg.CopyNode(w.node(o["n"]), w.graph(o["d"]), cloneFn(o["cf"].(string)))
		w.regNode(num(o["h"]), n)
	case "copye":
		e := lpg.CopyEdge(w.edge(o["e"]), w.graph(o["d"]), cloneFn(o["cf"].(string)), w.cmaps[num(o["cm"])])
		w.regEdge(num(o["h"]), e)
	case "clonee":
		e := lpg.CloneEdge(w.node(o["f"]), w.node(o["t"]), w.edge(o["e"]), w.graph(o["d"]), cloneFn(o["cf"].(string)))
		w.regEdge(num(o["h"]), e)
	default:
		return false
	}
	return true
}

// ------------------------------------------------------------ JSON

var errHook = errors.New("hook failed")

type hooks struct {
	pre   string
	swap  map[string]string
	drop  map[string]bool
	fail  map[string]bool
	bad   map[string]bool
	wrap  bool
	// the name a property gets, and whether it is kept, may depend on its value
	kinds bool
	dropk map[string]bool
	calls []any
}

func decHooks(x any) *hooks {
	if x == nil {
		return nil
	}
	o := x.(obj)
	h := &hooks{pre: o["pre"].(string), wrap: o["wrap"] == true, drop: map[string]bool{}, fail: map[string]bool{}, bad: map[string]bool{}, calls: []any{}}
	for _, k := range strs(o["drop"]) {
		h.drop[k] = true
	}
	for _, k := range strs(o["fail"]) {
		h.fail[k] = true
	}
	h.swap = map[string]string{}
	if o["swap"] != nil {
		for k, v := range o["swap"].(obj) {
			h.swap[k] = v.(string)
		}
	}
	if o["bad"] != nil {
		for _, k := range strs(o["bad"]) {
			h.bad[k] = true
		}
	}
	h.kinds = o["kinds"] == true
	h.dropk = map[string]bool{}
	if o["dropk"] != nil {
		for _, k := range strs(o["dropk"]) {
			h.dropk[k] = true
		}
	}
	return h
}

func (h *hooks) name(key, kind string) string {
	if s, ok := h.swap[key]; ok {
		key = s
	}
	if h.kinds {
		key = kind + key
	}
	return h.pre + key
}

func (h *hooks) marshal(key string, value interface{}) (string, json.RawMessage, error) {
	t := treeOf(value)
	kind := kindOf(t)
	h.calls = append(h.calls, []any{key, t})
	if h.fail[key] {
		return "", nil, errHook
	}
	if h.drop[key] || h.dropk[kind] {
		return "", nil, nil
	}
	if h.bad[key] {
		return h.name(key, kind), json.RawMessage(`{"not":json`), nil
	}
	if h.wrap {
		value = []any{"w", key, value}
	}
	b, err := json.Marshal(value)
	return h.name(key, kind), b, err
}

func kindOf(t any) string {
	if l, ok := t.([]any); ok && len(l) > 0 {
		if s, ok := l[0].(string); ok {
			return s
		}
	}
	return "?"
}

func (h *hooks) unmarshal(key string, value json.RawMessage) (string, interface{}, error) {
	t, err := parseDoc(value)
	if err != nil {
		t = []any{"?"}
	}
	h.calls = append(h.calls, []any{key, t})
	if h.fail[key] {
		return "", nil, errHook
	}
	if h.drop[key] || h.dropk[kindOf(t)] {
		return "", nil, nil
	}
	var v any
	if err := json.Unmarshal(value, &v); err != nil {
		return "", nil, err
	}
	if h.wrap {
		v = []any{"w", key, v}
	}
	return h.name(key, kindOf(t)), v, nil
}

type logInterner struct {
	seen map[string]bool
}

func (l *logInterner) Intern(s string) string {
	l.seen[s] = true
	return s
}

func (w *World) jsonFor(o obj) (lpg.JSON, *hooks, *logInterner) {
	j := lpg.JSON{MarshalEdgesSeparately: o["sep"] == true}
	h := decHooks(o["hook"])
	if h != nil {
		j.PropertyMarshaler = h.marshal
		j.PropertyUnmarshaler = h.unmarshal
	}
	var li *logInterner
	switch o["intern"] {
	case "log":
		li = &logInterner{seen: map[string]bool{}}
		j.Interner = li
	case "map":
		j.Interner = lpg.MapInterner{}
	}
	return j, h, li
}

type limitWriter struct {
	left int
	err  error
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if len(p) <= l.left {
		l.left -= len(p)
		return len(p), nil
	}
	n := l.left
	l.left = 0
	return n, l.err
}

type countWriter struct {
	buf    bytes.Buffer
	writes int
}

func (c *countWriter) Write(p []byte) (int, error) {
	c.writes++
	return c.buf.Write(p)
}

// nthWriter fails on the n-th call only, and accepts every other one
type nthWriter struct {
	n   int
	err error
}

func (l *nthWriter) Write(p []byte) (int, error) {
	l.n--
	if l.n == 0 {
		return 0, l.err
	}
	return len(p), nil
}

var errSink = errors.New("sink failed")

func outcome(f func() error, want error) (r string) {
	defer func() {
		if x := recover(); x != nil {
			r = "panic"
		}
	}()
	err := f()
	switch {
	case err == nil:
		return "nil"
	case want == nil || errors.Is(err, want):
		return "err"
	}
	return "other"
}

// failures runs emit against every failing writer and tallies the outcomes
func failures(emit func(io.Writer) error) obj {
	cw := &countWriter{}
	if err := emit(cw); err != nil {
		return obj{"err": 0, "nil": 0, "other": 1, "panic": 0, "bytes": 0, "writes": 0}
	}
	total := obj{"err": 0, "nil": 0, "other": 0, "panic": 0, "bytes": cw.buf.Len(), "writes": cw.writes}
	step := 1
	if cw.buf.Len() > 4000 {
		step = cw.buf.Len() / 4000
	}
	runs := 0
	for k := 0; k < cw.buf.Len(); k += step {
		r := outcome(func() error { return emit(&limitWriter{left: k, err: errSink}) }, errSink)
		total[r] = total[r].(int) + 1
		runs++
	}
	for k := 1; k <= cw.writes; k++ {
		r := outcome(func() error { return emit(&nthWriter{n: k, err: errSink}) }, errSink)
		total[r] = total[r].(int) + 1
		runs++
	}
	total["runs"] = runs
	return total
}

type errReader struct {
	data []byte
	err  error
}

func (e *errReader) Read(p []byte) (int, error) {
	if len(e.data) == 0 {
		return 0, e.err
	}
	n := copy(p, e.data)
	e.data = e.data[n:]
	return n, nil
}

func (w *World) decodeInto(g *lpg.Graph, j lpg.JSON, text []byte, out obj) {
	w.decodeFrom(g, j, json.NewDecoder(bytes.NewReader(text)), out)
}

func (w *World) decodeFrom(g *lpg.Graph, j lpg.JSON, dec *json.Decoder, out obj) {
	out["derr"] = false
	func() {
		defer func() {
			if r := recover(); r != nil {
				out["dpanic"] = fmt.Sprint(r)
			}
		}()
		if err := j.Decode(g, dec); err != nil {
			out["derr"] = true
			out["dmsg"] = err.Error()
			out["dhook"] = errors.Is(err, errHook)
		}
	}()
}

func (w *World) doJSONOp(o, out obj) bool { return false }

func (w *World) doJSONQuery(o, out obj) bool {
	switch o["q"].(string) {
	case "enc", "rt":
		j, h, li := w.jsonFor(o)
		if o["q"] == "rt" {
			j.PropertyMarshaler, j.PropertyUnmarshaler = nil, nil
		}
		var buf bytes.Buffer
		err := j.Encode(w.g(o), &buf)
		out["err"] = err != nil
		out["hookerr"] = err != nil && errors.Is(err, errHook)
		out["calls"] = []any{}
		if h != nil {
			out["calls"] = h.calls
		}
		if err != nil {
			out["emsg"] = err.Error()
			return true
		}
		t, perr := parseDoc(buf.Bytes())
		out["valid"] = perr == nil
		if perr != nil {
			out["text"] = buf.String()
			return true
		}
		out["doc"] = t
		if o["q"] == "rt" {
			g := lpg.NewGraph()
			w.decodeInto(g, j, buf.Bytes(), out)
			w.discover(g, out, treeOf)
			out["nn"], out["ne"] = g.NumNodes(), g.NumEdges()
			if li != nil {
				out["interned"] = setOf(li.seen)
			}
		}
	case "dec":
		j, h, li := w.jsonFor(o)
		g := lpg.NewGraph()
		for _, ix := range list(o["ixs"]) {
			a := ix.([]any)
			g.AddNodePropertyIndex(a[0].(string), ixType(a[1]))
		}
		// the target need not be empty
		var before [3]*lpg.Node
		var edges [2]*lpg.Edge
		nn, ne := 0, 0
		if o["into"] == true {
			for i := range before {
				before[i] = g.NewNode([]string{"A", "old"}, map[string]any{"a": i})
				w.nextH++
				w.regNode(w.nextH, before[i])
			}
			for i := range edges {
				edges[i] = g.NewEdge(before[i], before[i+1], "L", map[string]any{"a": i})
				w.nextH++
				w.regEdge(w.nextH, edges[i])
			}
			nn, ne = 3, 2
		}
		text := o["text"].(string)
		if o["stream"] == true {
			text += ` {"nodes":[{"n":0,"labels":["next"]}]}`
		}
		dec := json.NewDecoder(strings.NewReader(text))
		w.decodeFrom(g, j, dec, out)
		if o["stream"] == true && out["derr"] == false && out["dpanic"] == nil {
			// the next document of the stream
			next, no := lpg.NewGraph(), obj{}
			w.decodeFrom(next, lpg.JSON{}, dec, no)
			out["next"] = no["derr"] == false && no["dpanic"] == nil && next.NumEdges() == 0 &&
				len(lpg.NodeSlice(next.GetNodesWithAllLabels(lpg.NewStringSet("next")))) == 1 && next.NumNodes() == 1
		}
		if o["into"] == true {
			kept := true
			for i, n := range before {
				p, ok := n.GetProperty("a")
				kept = kept && ok && p == i && n.GetLabels().IsEqual(lpg.NewStringSet("A", "old")) && n.GetGraph() == g &&
					len(lpg.EdgeSlice(n.GetEdges(lpg.AnyEdge))) == []int{1, 2, 1}[i]
			}
			for i, e := range edges {
				p, ok := e.GetProperty("a")
				kept = kept && ok && p == i && e.GetLabel() == "L" && e.GetFrom() == before[i] && e.GetTo() == before[i+1]
			}
			out["kept"] = kept
		}
		w.discover(g, out, treeOf)
		out["nn"], out["ne"] = g.NumNodes()-nn, g.NumEdges()-ne
		out["calls"] = []any{}
		if h != nil {
			out["calls"] = h.calls
		}
		out["interned"] = []any{}
		if li != nil {
			out["interned"] = setOf(li.seen)
		}
	case "encfail":
		j, _, _ := w.jsonFor(o)
		out["r"] = failures(func(wr io.Writer) error { return j.Encode(w.g(o), wr) })
	case "dotfail":
		d := lpg.DOTRenderer{}
		out["r"] = failures(func(wr io.Writer) error { return d.Render(w.g(o), "G", wr) })
	case "trunc":
		j, _, _ := w.jsonFor(o)
		text := []byte(strings.TrimSpace(o["text"].(string)))
		tot := obj{"err": 0, "nil": 0, "other": 0, "panic": 0}
		runs := 0
		for k := 0; k < len(text); k++ {
			r := outcome(func() error {
				return j.Decode(lpg.NewGraph(), json.NewDecoder(bytes.NewReader(text[:k])))
			}, nil)
			tot[r] = tot[r].(int) + 1
			r = outcome(func() error {
				return j.Decode(lpg.NewGraph(), json.NewDecoder(&errReader{data: text[:k], err: errSink}))
			}, nil)
			tot[r] = tot[r].(int) + 1
			runs += 2
		}
		tot["runs"] = runs
		// the untruncated document is accepted
		tot["full"] = outcome(func() error { return j.Decode(lpg.NewGraph(), json.NewDecoder(bytes.NewReader(text))) }, nil)
		out["r"] = tot
	case "dot":
		w.dotQuery(o, out)
	default:
		return false
	}
	return true
}

func setOf(m map[string]bool) []any {
	r := make([]string, 0)
	for k := range m {
		r = append(r, k)
	}
	return sortedStrs(r)
}

// ------------------------------------------------------------ DOT

func dotTokens(s string) ([]string, bool) {
	r := []string{}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '"':
			sb := strings.Builder{}
			i++
			closed := false
			for i < len(s) {
				if s[i] == '\\' && i+1 < len(s) {
					switch s[i+1] {
					case 'n':
						sb.WriteByte('\n')
					case 'r':
						sb.WriteByte('\r')
					default:
						// any other escaped character stands for itself
						sb.WriteByte(s[i+1])
					}
					i += 2
					continue
				}
				if s[i] == '"' {
					closed = true
					i++
					break
				}
				sb.WriteByte(s[i])
				i++
			}
			if !closed {
				return nil, false
			}
			r = append(r, "\""+sb.String())
		case c == '-' && i+1 < len(s) && s[i+1] == '>':
			r = append(r, "->")
			i += 2
		case strings.IndexByte("{}[]=;,", c) >= 0:
			r = append(r, string(c))
			i++
		case c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '.' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= 0x80) {
				j++
			}
			r = append(r, "I"+s[i:j])
			i = j
		default:
			return nil, false
		}
	}
	return r, true
}

func isID(t string) bool { return len(t) > 0 && (t[0] == 'I' || t[0] == '"') }

// dotParse reads one digraph statement: node and edge statements with
// optional attribute lists, and graph attributes
func dotParse(s string) (name string, nodes, edges []any, ok bool) {
	nodes, edges = []any{}, []any{}
	t, k := dotTokens(s)
	if k && len(t) > 1 && t[1] == "{" { // no name
		t = append([]string{t[0], "I"}, t[1:]...)
	}
	if !k || len(t) < 4 || t[0] != "Idigraph" || !isID(t[1]) || t[2] != "{" || t[len(t)-1] != "}" {
		return
	}
	name = t[1][1:]
	t = t[3 : len(t)-1]
	attrs := func() (obj, bool) {
		a := obj{}
		for len(t) > 0 && t[0] == "[" {
			t = t[1:]
			for len(t) > 0 && t[0] != "]" {
				if len(t) < 3 || !isID(t[0]) || t[1] != "=" || !isID(t[2]) {
					return nil, false
				}
				a[t[0][1:]] = t[2][1:]
				t = t[3:]
				if len(t) > 0 && (t[0] == "," || t[0] == ";") {
					t = t[1:]
				}
			}
			if len(t) == 0 {
				return nil, false
			}
			t = t[1:]
		}
		return a, true
	}
	for len(t) > 0 {
		if t[0] == ";" {
			t = t[1:]
			continue
		}
		if !isID(t[0]) {
			return
		}
		id := t[0][1:]
		t = t[1:]
		switch {
		case len(t) > 1 && t[0] == "=" && isID(t[1]):
			t = t[2:]
		case len(t) > 1 && t[0] == "->" && isID(t[1]):
			to := t[1][1:]
			t = t[2:]
			a, k := attrs()
			if !k {
				return
			}
			l, has := a["label"]
			if !has {
				l = ""
			}
			edges = append(edges, []any{id, to, has, l})
		default:
			if id == "graph" || id == "node" || id == "edge" {
				if _, k := attrs(); !k {
					return
				}
				continue
			}
			if _, k := attrs(); !k {
				return
			}
			nodes = append(nodes, id)
		}
	}
	ok = true
	return
}

var errRender = errors.New("renderer failed")

func (w *World) dotQuery(o, out obj) {
	d := lpg.DOTRenderer{}
	nlog, elog := make([]any, 0), make([]any, 0)
	in := func(x any, h int) bool {
		for _, y := range list(x) {
			if num(y) == h {
				return true
			}
		}
		return false
	}
	lim := w.limit()
	if o["mode"] != "default" {
		d.NodeRenderer = func(id string, n *lpg.Node, wr io.Writer) (bool, error) {
			h := w.hn(n)
			if len(nlog) > lim {
				return false, errRender
			}
			if in(o["failn"], h) {
				nlog = append(nlog, []any{id, h, "fail"})
				return false, errRender
			}
			if in(o["rejn"], h) {
				nlog = append(nlog, []any{id, h, "reject"})
				return false, nil
			}
			nlog = append(nlog, []any{id, h, "accept"})
			return true, lpg.DefaultDOTNodeRender(id, n, wr)
		}
		d.EdgeRenderer = func(f, t string, e *lpg.Edge, wr io.Writer) (bool, error) {
			h := w.he(e)
			if len(elog) > lim {
				return false, errRender
			}
			if in(o["faile"], h) {
				elog = append(elog, []any{f, t, h, "fail"})
				return false, errRender
			}
			if in(o["reje"], h) {
				elog = append(elog, []any{f, t, h, "reject"})
				return false, nil
			}
			elog = append(elog, []any{f, t, h, "accept"})
			return true, lpg.DefaultDOTEdgeRender(f, t, e, wr)
		}
	}
	var buf bytes.Buffer
	var err error
	if o["part"] == true {
		// the caller writes the frame
		fmt.Fprintf(&buf, "digraph %s {\n", o["name"])
		err = d.RenderNodesEdges(w.g(o), &buf)
		buf.WriteString("}\n")
	} else {
		err = d.Render(w.g(o), o["name"].(string), &buf)
	}
	out["err"] = err != nil
	out["right"] = err == nil || errors.Is(err, errRender)
	out["nlog"], out["elog"] = nlog, elog
	if err == nil {
		name, ns, es, ok := dotParse(buf.String())
		out["parse"] = ok
		out["pname"] = name
		out["nodes"], out["edges"] = ns, es
		if !ok {
			out["text"] = buf.String()
		}
	}
}
