package main

import (
	"sort"

	lpg "github.com/cloudprivacylabs/lpg/v2"
)

// elements decodes [[edge, reversed], ...]
func (w *World) elements(x any) []lpg.PathElement {
	r := make([]lpg.PathElement, 0)
	for _, e := range list(x) {
		p := e.([]any)
		r = append(r, lpg.PathElement{Edge: w.edge(p[0]), Reverse: p[1].(bool)})
	}
	return r
}

func (w *World) keepElements(out obj, now, before []lpg.PathElement) {
	for i := range now {
		if now[i] != before[i] {
			out["changed"] = true
		}
	}
}

// encPath reports a path through its public accessors
func (w *World) encPath(p *lpg.Path) obj {
	if p == nil {
		return obj{"nil": true, "n": []any{}, "e": []any{}, "nn": 0, "ne": 0, "empty": true, "first": 0, "last": 0}
	}
	n, e := make([]any, 0), make([]any, 0)
	for i := 0; i < p.NumNodes(); i++ {
		n = append(n, w.hn(p.GetNode(i)))
	}
	for i := 0; i < p.NumEdges(); i++ {
		e = append(e, w.he(p.GetEdge(i)))
	}
	over := p.GetEdge(p.NumEdges()) == nil
	return obj{"n": n, "e": e, "nn": p.NumNodes(), "ne": p.NumEdges(), "empty": p.IsEmpty(), "first": w.hn(p.First()), "last": w.hn(p.Last()), "over": over}
}

func (w *World) path(x any) *lpg.Path {
	p := w.paths[num(x)]
	if p == nil {
		panic(driverError("no path"))
	}
	return p
}

func (w *World) doPathOp(o, out obj) bool {
	switch o["op"].(string) {
	case "pnode":
		w.paths[num(o["h"])] = lpg.PathFromNode(w.node(o["n"]))
	case "pels":
		els := w.elements(o["els"])
		if sl, ok := o["sl"]; ok {
			// a slice of the caller, with room to grow, used again
			if w.slots == nil {
				w.slots = map[int][]lpg.PathElement{}
			}
			if _, ok := w.slots[num(sl)]; !ok {
				w.slots[num(sl)] = append(make([]lpg.PathElement, 0, len(els)+2), els...)
			}
			els = w.slots[num(sl)]
		}
		before := append([]lpg.PathElement(nil), els...)
		w.paths[num(o["h"])] = lpg.NewPathFromElements(els...)
		w.keepElements(out, els, before)
	case "pedges":
		es := make([]*lpg.Edge, 0)
		for _, e := range list(o["es"]) {
			es = append(es, w.edge(e))
		}
		w.paths[num(o["h"])] = lpg.NewPathFromElements(lpg.NewPathElementsFromEdges(es)...)
	case "pempty":
		w.paths[num(o["h"])] = &lpg.Path{}
	case "pclone":
		w.paths[num(o["h"])] = w.path(o["s"]).Clone()
	case "pslice":
		w.paths[num(o["h"])] = w.path(o["s"]).Slice(num(o["a"]), num(o["b"]))
	case "ponly":
		w.path(o["h"]).SetOnlyNode(w.node(o["n"]))
	case "pclear":
		w.path(o["h"]).Clear()
	case "pappend":
		els := w.elements(o["els"])
		before := append([]lpg.PathElement(nil), els...)
		func() {
			defer w.keepElements(out, els, before)
			w.path(o["h"]).Append(els...)
		}()
		if o["mut"] == true {
			// the caller's slice belongs to the caller
			for i := range els {
				els[i] = els[0]
			}
		}
	case "pappendp":
		w.path(o["h"]).AppendPath(w.path(o["s"]))
	case "prml":
		w.path(o["h"]).RemoveLast()
	case "prmf":
		w.path(o["h"]).RemoveFirst()
	case "cnew":
		w.curs[num(o["h"])] = &lpg.Cursor{}
	case "cset":
		w.curs[num(o["h"])].Set(w.node(o["n"]))
	case "cstart":
		w.curs[num(o["h"])].StartPath()
	case "cpush":
		w.curs[num(o["h"])].PushToPath(w.edge(o["e"]))
	case "capp": // the path of a cursor is a path like any other
		w.curs[num(o["h"])].GetPath().Append(w.elements(o["els"])...)
	case "cpop":
		w.curs[num(o["h"])].PopFromPath()
	default:
		return false
	}
	return true
}

// wander sets the cursor to one node after the other
func (w *World) wander(c *lpg.Cursor) func() {
	hs := make([]int, 0, len(w.nodes))
	for h := range w.nodes {
		hs = append(hs, h)
	}
	sort.Ints(hs)
	k := 0
	return func() {
		if len(hs) > 0 {
			c.Set(w.nodes[hs[k%len(hs)]])
			k++
		}
	}
}

func (w *World) doPathQuery(o, out obj) bool {
	defer func() { w.step = nil }()
	switch o["q"].(string) {
	case "path":
		out["r"] = w.encPath(w.path(o["h"]))
	case "pprefix":
		els := w.elements(o["els"])
		out["r"] = w.path(o["h"]).HasPrefix(els)
		ends := make([]any, 0)
		for _, e := range els {
			ends = append(ends, []any{w.hn(e.GetSourceNode()), w.hn(e.GetTargetNode())})
		}
		out["ends"] = ends
	case "pprefixp":
		out["r"] = w.path(o["h"]).HasPrefixPath(w.path(o["s"]))
	case "cpath":
		out["r"] = w.encPath(w.curs[num(o["h"])].GetPath())
	case "cedges":
		// a cursor at the same place, which goes on while the edges are read
		cc := *w.curs[num(o["h"])]
		c := &cc
		w.step = w.wander(c)
		w.drainE(func() lpg.EdgeIterator {
			switch o["m"].(string) {
			case "edges":
				return c.Edges(edir(o["d"]))
			case "with":
				return c.EdgesWith(edir(o["d"]), o["l"].(string))
			case "fwd":
				return c.Forward()
			case "bwd":
				return c.Backward()
			case "fwdw":
				return c.ForwardWith(o["l"].(string))
			case "bwdw":
				return c.BackwardWith(o["l"].(string))
			}
			return nil
		}, out)
	case "cnodes":
		cc := *w.curs[num(o["h"])]
		c := &cc
		w.step = w.wander(c)
		w.drainN(func() lpg.NodeIterator {
			switch o["m"].(string) {
			case "nodes":
				return c.Nodes(edir(o["d"]))
			case "with":
				return c.NodesWith(edir(o["d"]), o["l"].(string))
			case "next":
				return c.NextNodes()
			case "prev":
				return c.PrevNodes()
			case "nextw":
				return c.NextNodesWith(o["l"].(string))
			case "prevw":
				return c.PrevNodesWith(o["l"].(string))
			}
			return nil
		}, out)
	default:
		return false
	}
	return true
}
