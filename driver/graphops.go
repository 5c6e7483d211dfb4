package main

import (
	"fmt"

	lpg "github.com/cloudprivacylabs/lpg/v2"
)

func edir(x any) lpg.EdgeDir {
	switch x.(string) {
	case "in":
		return lpg.IncomingEdge
	case "out":
		return lpg.OutgoingEdge
	}
	return lpg.AnyEdge
}

func ixType(x any) lpg.IndexType {
	if x.(string) == "h" {
		return lpg.HashIndex
	}
	return lpg.BtreeIndex
}

// set builds a label set; "z" asks for the zero value when it is empty
var zeroSets = 0

func lset(x any) lpg.StringSet {
	if x == nil {
		return lpg.StringSet{}
	}
	if len(list(x)) == 0 {
		// the zero value and the empty set in turn
		zeroSets++
		if zeroSets%2 == 1 {
			return lpg.StringSet{}
		}
	}
	return lpg.NewStringSet(strs(x)...)
}

// scribble changes a label list, a property map and a set after they were
// handed to the code under test, through their own operations
func scribble(ls []string, m map[string]any, set *lpg.StringSet) {
	for i := range ls {
		ls[i] = "scribble"
	}
	if m != nil {
		for k := range m {
			delete(m, k)
			break
		}
		m["scribble"] = 99
	}
	if set != nil {
		set.Add("scribble")
		for _, x := range set.Slice() {
			if x != "scribble" {
				set.Remove(x)
				break
			}
		}
		set.AddSet(lpg.NewStringSet("scribble2"))
	}
}

// keep records that a call changed what it was given
func (w *World) keep(out obj, now any, before string) {
	if lit(now) != before {
		out["changed"] = true
	}
}

// lit is the value as text; equal texts before and after a call mean that
// the call did not change it
func lit(v any) string { return fmt.Sprintf("%#v", v) }

func (w *World) doOp(o, out obj) {
	mut := o["mut"] == true
	switch o["op"].(string) {
	case "ng":
		w.graphs[num(o["g"])] = lpg.NewGraph()
	case "nn":
		g := w.g(o)
		p := decProps(o["p"])
		var n *lpg.Node
		if o["fast"] == true {
			set := w.labelsOf(o)
			n = g.FastNewNode(set, p)
			if mut {
				scribble(nil, nil, &set)
			}
		} else {
			ls := strs(o["ls"])
			hadL, hadP := lit(ls), lit(p)
			n = g.NewNode(ls, p)
			w.keep(out, ls, hadL)
			w.keep(out, p, hadP)
			if mut {
				scribble(ls, p, nil)
			}
		}
		w.regNode(num(o["h"]), n)
	case "ne":
		g := w.g(o)
		p := decProps(o["p"])
		var e *lpg.Edge
		if o["fast"] == true {
			e = g.FastNewEdge(w.node(o["f"]), w.node(o["t"]), o["l"].(string), p)
		} else {
			had := lit(p)
			e = g.NewEdge(w.node(o["f"]), w.node(o["t"]), o["l"].(string), p)
			w.keep(out, p, had)
			if mut {
				scribble(nil, p, nil)
			}
		}
		w.regEdge(num(o["h"]), e)
	case "sl":
		set := w.labelsOf(o)
		had := lit(set.M)
		w.node(o["h"]).SetLabels(set)
		w.keep(out, set.M, had)
		if mut {
			scribble(nil, nil, &set)
		}
	case "snp":
		v := decVal(o["v"])
		had := lit(v)
		w.node(o["h"]).SetProperty(o["k"].(string), v)
		w.keep(out, v, had)
	case "rnp":
		w.node(o["h"]).RemoveProperty(o["k"].(string))
	case "sel":
		w.edge(o["h"]).SetLabel(o["l"].(string))
	case "sep":
		v := decVal(o["v"])
		had := lit(v)
		w.edge(o["h"]).SetProperty(o["k"].(string), v)
		w.keep(out, v, had)
	case "rep":
		w.edge(o["h"]).RemoveProperty(o["k"].(string))
	case "rme":
		w.edge(o["h"]).Remove()
	case "det":
		w.node(o["h"]).Detach()
	case "dr":
		w.node(o["h"]).DetachAndRemove()
	case "ixn":
		w.g(o).AddNodePropertyIndex(o["k"].(string), ixType(o["t"]))
	case "ixe":
		w.g(o).AddEdgePropertyIndex(o["k"].(string), ixType(o["t"]))
	case "burst":
		// items that come and go
		g, n := w.g(o), w.node(o["n"])
		for i := num(o["k"]); i > 0; i-- {
			if o["t"] == "n" {
				g.NewNode(nil, nil).DetachAndRemove()
			} else {
				g.NewEdge(n, n, "burst", nil).Remove()
			}
		}
	case "mutl":
		// change the label set obtained from the node
		s := w.node(o["h"]).GetLabels()
		scribble(nil, nil, &s)
	default:
		if !w.doPathOp(o, out) && !w.doCopyOp(o, out) && !w.doSetOp(o, out) && !w.doJSONOp(o, out) {
			panic(driverError(fmt.Sprintf("unknown op %v", o["op"])))
		}
	}
}

// drainN reads an iterator to its end. A second one from the same call is
// read between its steps: iterators do not disturb one another
func (w *World) drainN(open func() lpg.NodeIterator, out obj) []*lpg.Node {
	it, tw := open(), open()
	tr := map[*lpg.Node]int{}
	ts := 0
	r := make([]any, 0)
	ret := make([]*lpg.Node, 0)
	max := it.MaxSize()
	out["max"] = max
	mid := make([]any, 0)
	lim := w.limit()
	agree := true
	for it.Next() {
		if w.step != nil {
			w.step()
		}
		n := it.Node()
		if v, ok := it.Value().(*lpg.Node); !ok || v != n {
			agree = false
		}
		r = append(r, w.hn(n))
		ret = append(ret, n)
		tr[n]++
		if len(r) > lim {
			out["over"] = true
			break
		}
		// the size may be asked for at any time
		if sz := it.MaxSize(); sz != max && len(mid) < 50 {
			mid = append(mid, []any{len(r), sz})
		}
		if len(r)%2 == 1 && tw.Next() {
			tr[tw.Node()]--
			ts++
		}
	}
	if out["over"] != true {
		for ; ts <= lim && tw.Next(); ts++ {
			tr[tw.Node()]--
		}
		for _, k := range tr {
			if k != 0 {
				agree = false
			}
		}
	}
	out["r"] = r
	out["agree"] = agree
	more := 0
	if out["over"] != true {
		for i := 0; i < 3; i++ {
			if it.Next() {
				more++
			}
		}
	}
	out["more"] = more
	out["mid"] = mid
	return ret
}

func (w *World) drainE(open func() lpg.EdgeIterator, out obj) {
	it, tw := open(), open()
	tr := map[*lpg.Edge]int{}
	ts := 0
	r := make([]any, 0)
	max := it.MaxSize()
	out["max"] = max
	mid := make([]any, 0)
	lim := w.limit()
	agree := true
	for it.Next() {
		if w.step != nil {
			w.step()
		}
		e := it.Edge()
		if v, ok := it.Value().(*lpg.Edge); !ok || v != e {
			agree = false
		}
		r = append(r, w.he(e))
		tr[e]++
		if len(r) > lim {
			out["over"] = true
			break
		}
		// the size may be asked for at any time
		if sz := it.MaxSize(); sz != max && len(mid) < 50 {
			mid = append(mid, []any{len(r), sz})
		}
		if len(r)%2 == 1 && tw.Next() {
			tr[tw.Edge()]--
			ts++
		}
	}
	if out["over"] != true {
		for ; ts <= lim && tw.Next(); ts++ {
			tr[tw.Edge()]--
		}
		for _, k := range tr {
			if k != 0 {
				agree = false
			}
		}
	}
	out["r"] = r
	out["agree"] = agree
	more := 0
	if out["over"] != true {
		for i := 0; i < 3; i++ {
			if it.Next() {
				more++
			}
		}
	}
	out["more"] = more
	out["mid"] = mid
}

func (w *World) hns(ns []*lpg.Node) []any {
	r := make([]any, 0)
	for _, n := range ns {
		r = append(r, w.hn(n))
	}
	return r
}

// labelsOf returns the labels an operation gives, or those of another node
func (w *World) labelsOf(o obj) lpg.StringSet {
	if o["src"] != nil {
		return w.node(o["src"]).GetLabels()
	}
	return lset(o["ls"])
}

// nodeResult records the result of f, overwrites it, and asks again
func (w *World) nodeResult(out obj, f func() []*lpg.Node) {
	ns := f()
	out["r"] = w.hns(ns)
	for i := range ns {
		ns[i] = nil
	}
	out["r2"] = w.hns(f())
}

func (w *World) hes(es []*lpg.Edge) []any {
	r := make([]any, 0)
	for _, e := range es {
		r = append(r, w.he(e))
	}
	return r
}

func nodeProps(n *lpg.Node) obj {
	r := obj{}
	n.ForEachProperty(func(k string, v interface{}) bool {
		r[k] = encVal(v)
		return true
	})
	return r
}

func edgeProps(e *lpg.Edge) obj {
	r := obj{}
	e.ForEachProperty(func(k string, v interface{}) bool {
		r[k] = encVal(v)
		return true
	})
	return r
}

// snap enumerates a whole graph
func (w *World) snap(g *lpg.Graph) obj {
	lim := w.limit()
	ns := make([]any, 0)
	for it := g.GetNodes(); it.Next(); {
		n := it.Node()
		ns = append(ns, []any{w.hn(n), sortedStrs(n.GetLabels().Slice()), nodeProps(n)})
		if len(ns) > lim {
			break
		}
	}
	es := make([]any, 0)
	for it := g.GetEdges(); it.Next(); {
		e := it.Edge()
		es = append(es, []any{w.he(e), w.hn(e.GetFrom()), w.hn(e.GetTo()), e.GetLabel(), edgeProps(e)})
		if len(es) > lim {
			break
		}
	}
	return obj{"nodes": ns, "edges": es, "nn": g.NumNodes(), "ne": g.NumEdges()}
}

// args records the arguments after the call, to see whether it changed them
func argsAfter(out obj, ls *lpg.StringSet, p map[string]any) {
	a := obj{}
	if ls != nil {
		a["ls"] = sortedStrs(ls.Slice())
	} else {
		a["ls"] = []any{}
	}
	if p != nil {
		a["p"] = encProps(p)
	} else {
		a["p"] = obj{}
	}
	out["after"] = a
}

func (w *World) doQuery(o, out obj) {
	switch o["q"].(string) {
	case "snap":
		out["r"] = w.snap(w.g(o))
	case "nodes":
		w.drainN(func() lpg.NodeIterator { return w.g(o).GetNodes() }, out)
	case "edges":
		w.drainE(func() lpg.EdgeIterator { return w.g(o).GetEdges() }, out)
	case "nal":
		ls := lset(o["ls"])
		w.drainN(func() lpg.NodeIterator { return w.g(o).GetNodesWithAllLabels(ls) }, out)
		argsAfter(out, &ls, nil)
	case "eal":
		ls := lset(o["ls"])
		w.drainE(func() lpg.EdgeIterator { return w.g(o).GetEdgesWithAnyLabel(ls) }, out)
		argsAfter(out, &ls, nil)
	case "nwp":
		w.drainN(func() lpg.NodeIterator { return w.g(o).GetNodesWithProperty(o["k"].(string)) }, out)
	case "ewp":
		w.drainE(func() lpg.EdgeIterator { return w.g(o).GetEdgesWithProperty(o["k"].(string)) }, out)
	case "fn":
		ls, p := lset(o["ls"]), decProps(o["p"])
		w.drainN(func() lpg.NodeIterator { return w.g(o).FindNodes(ls, p) }, out)
		argsAfter(out, &ls, p)
	case "fe":
		ls, p := lset(o["ls"]), decProps(o["p"])
		w.drainE(func() lpg.EdgeIterator { return w.g(o).FindEdges(ls, p) }, out)
		argsAfter(out, &ls, p)
	case "nff":
		ls, p := lset(o["ls"]), decProps(o["p"])
		f := lpg.GetNodeFilterFunc(ls, p)
		r := make([]any, 0)
		for _, h := range list(o["hs"]) {
			if f(w.node(h)) {
				r = append(r, h)
			}
		}
		out["r"] = r
		argsAfter(out, &ls, p)
	case "eff":
		ls, p := lset(o["ls"]), decProps(o["p"])
		f := lpg.GetEdgeFilterFunc(ls, p)
		r := make([]any, 0)
		for _, h := range list(o["hs"]) {
			if f(w.edge(h)) {
				r = append(r, h)
			}
		}
		out["r"] = r
		argsAfter(out, &ls, p)
	case "ged":
		w.drainE(func() lpg.EdgeIterator { return w.node(o["h"]).GetEdges(edir(o["d"])) }, out)
	case "gel":
		w.drainE(func() lpg.EdgeIterator { return w.node(o["h"]).GetEdgesWithLabel(edir(o["d"]), o["l"].(string)) }, out)
	case "gea":
		ls := lset(o["ls"])
		w.drainE(func() lpg.EdgeIterator { return w.node(o["h"]).GetEdgesWithAnyLabel(edir(o["d"]), ls) }, out)
		argsAfter(out, &ls, nil)
	case "srci":
		w.drainN(func() lpg.NodeIterator { return lpg.SourcesItr(w.g(o)) }, out)
	case "snki":
		w.drainN(func() lpg.NodeIterator { return lpg.SinksItr(w.g(o)) }, out)
	case "src":
		w.nodeResult(out, func() []*lpg.Node { return lpg.Sources(w.g(o)) })
	case "snk":
		w.nodeResult(out, func() []*lpg.Node { return lpg.Sinks(w.g(o)) })
	case "ebn":
		f := func() []*lpg.Edge { return lpg.EdgesBetweenNodes(w.node(o["a"]), w.node(o["b"])) }
		es := f()
		out["r"] = w.hes(es)
		for i := range es {
			es[i] = nil
		}
		out["r2"] = w.hes(f())
	case "nnw":
		w.nodeResult(out, func() []*lpg.Node { return lpg.NextNodesWith(w.node(o["h"]), o["l"].(string)) })
	case "pnw":
		w.nodeResult(out, func() []*lpg.Node { return lpg.PrevNodesWith(w.node(o["h"]), o["l"].(string)) })
	case "tgt":
		w.nodeResult(out, func() []*lpg.Node { return lpg.TargetNodes(w.node(o["h"]).GetEdges(edir(o["d"]))) })
	case "sno":
		w.nodeResult(out, func() []*lpg.Node { return lpg.SourceNodes(w.node(o["h"]).GetEdges(edir(o["d"]))) })
	case "fen":
		// visit until the k-th call declines; k=0: never
		r := make([]any, 0)
		k, lim := num(o["k"]), w.limit()
		out["ret"] = lpg.ForEachNode(w.g(o), func(n *lpg.Node) bool {
			r = append(r, w.hn(n))
			return len(r) != k && len(r) < lim
		})
		out["r"] = r
	case "nattr":
		// everything a node says about itself
		n := w.node(o["h"])
		hl := make([]any, 0)
		for _, l := range strs(o["ls"]) {
			if n.HasLabel(l) {
				hl = append(hl, l)
			}
		}
		gp := obj{}
		for _, k := range strs(o["ks"]) {
			if v, ok := n.GetProperty(k); ok {
				gp[k] = encVal(v)
			}
		}
		cnt := 0
		stopped := n.ForEachProperty(func(string, interface{}) bool { cnt++; return false })
		gi := -1
		for i, g := range w.graphs {
			if g == n.GetGraph() {
				gi = i
			}
		}
		out["r"] = obj{"hl": hl, "gl": sortedStrs(n.GetLabels().Slice()), "gp": gp, "fp": nodeProps(n), "cnt": cnt, "stop": stopped, "g": gi}
	case "eattr":
		e := w.edge(o["h"])
		gp := obj{}
		for _, k := range strs(o["ks"]) {
			if v, ok := e.GetProperty(k); ok {
				gp[k] = encVal(v)
			}
		}
		cnt := 0
		stopped := e.ForEachProperty(func(string, interface{}) bool { cnt++; return false })
		gi := -1
		for i, g := range w.graphs {
			if g == e.GetGraph() {
				gi = i
			}
		}
		out["r"] = obj{"l": e.GetLabel(), "f": w.hn(e.GetFrom()), "t": w.hn(e.GetTo()), "gp": gp, "fp": edgeProps(e), "cnt": cnt, "stop": stopped, "g": gi}
	case "ids":
		// identifiers of the given nodes and edges
		r := make([]any, 0)
		for _, h := range list(o["ns"]) {
			r = append(r, []any{"n", num(h), w.node(h).GetID()})
		}
		for _, h := range list(o["es"]) {
			r = append(r, []any{"e", num(h), w.edge(h).GetID()})
		}
		out["r"] = r
	default:
		if !w.doPathQuery(o, out) && !w.doPatQuery(o, out) && !w.doSetQuery(o, out) && !w.doJSONQuery(o, out) && !w.doMiscQuery(o, out) {
			panic(driverError(fmt.Sprintf("unknown query %v", o["q"])))
		}
	}
}
