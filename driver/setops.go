package main

import (
	"bytes"
	"encoding/json"
	"sort"
	"strings"

	lpg "github.com/cloudprivacylabs/lpg/v2"
)

func sameJSON(a, b any) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

func (w *World) ss(x any) *lpg.StringSet {
	s := w.ssets[num(x)]
	if s == nil {
		panic(driverError("no string set"))
	}
	return s
}

func anyStrs(s []string) []any {
	r := make([]any, 0, len(s))
	for _, x := range s {
		r = append(r, x)
	}
	return r
}

func (w *World) doSetOp(o, out obj) bool {
	switch o["op"].(string) {
	case "ssnew":
		src := strs(o["ls"])
		had := lit(src)
		s := lpg.NewStringSet(src...)
		w.keep(out, src, had)
		for i := range src {
			src[i] = "scribble"
		}
		w.ssets[num(o["h"])] = &s
	case "sszero":
		w.ssets[num(o["h"])] = &lpg.StringSet{}
	case "sscopy":
		c := *w.ss(o["s"])
		w.ssets[num(o["h"])] = &c
	case "ssclone":
		c := w.ss(o["s"]).Clone()
		w.ssets[num(o["h"])] = &c
	case "ssadd":
		ls := strs(o["ls"])
		had := lit(ls)
		w.ss(o["h"]).Add(ls...)
		w.keep(out, ls, had)
	case "ssaddset":
		w.ss(o["h"]).AddSet(*w.ss(o["s"]))
	case "ssrm":
		ls := strs(o["ls"])
		had := lit(ls)
		w.ss(o["h"]).Remove(ls...)
		w.keep(out, ls, had)
	case "ssunm":
		d, _ := json.Marshal(strs(o["ls"]))
		if err := w.ss(o["h"]).UnmarshalJSON(d); err != nil {
			panic(err)
		}
	case "ssbadunm":
		if err := json.Unmarshal([]byte(o["txt"].(string)), w.ss(o["h"])); err == nil {
			out["noerr"] = true
		}
	case "ssjson":
		// through the JSON text of another set
		d, err := json.Marshal(*w.ss(o["s"]))
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(d, w.ss(o["h"])); err != nil {
			panic(err)
		}
	case "ssnode":
		// the label set of a node
		c := w.node(o["n"]).GetLabels()
		w.ssets[num(o["h"])] = &c
	case "sssetl":
		w.node(o["n"]).SetLabels(*w.ss(o["s"]))
	case "nsnew":
		w.nsets[num(o["h"])] = lpg.NewNodeSet()
	case "nsadd":
		w.nsets[num(o["h"])].Add(w.node(o["n"]))
	case "nsrm":
		w.nsets[num(o["h"])].Remove(w.node(o["n"]))
	case "esnew":
		w.esets[num(o["h"])] = lpg.NewEdgeSet()
	case "esadd":
		w.esets[num(o["h"])].Add(w.edge(o["e"]))
	case "esrm":
		w.esets[num(o["h"])].Remove(w.edge(o["e"]))
	case "nmnew":
		w.nmaps[num(o["h"])] = lpg.NewNodeMap()
	case "nmadd":
		w.nmaps[num(o["h"])].Add(w.node(o["n"]))
	case "nmrm":
		w.nmaps[num(o["h"])].Remove(w.node(o["n"]))
	case "nmrelabel":
		// change the labels of a registered node and tell the map
		n := w.node(o["n"])
		old := n.GetLabels()
		nw := lset(o["ls"])
		if o["first"] == true {
			n.SetLabels(nw)
			w.nmaps[num(o["h"])].Replace(n, old, nw)
		} else {
			w.nmaps[num(o["h"])].Replace(n, old, nw)
			n.SetLabels(nw)
		}
	default:
		return false
	}
	return true
}

// inSomeOrder finds the order in which all the strings, joined, are the text;
// strings that hold the separator leave more than one way to read it
func inSomeOrder(text string, ss []string) []string {
	used, out := make([]bool, len(ss)), make([]string, 0)
	var from func(rest string) bool
	from = func(rest string) bool {
		if len(out) == len(ss) {
			return rest == ""
		}
		if len(out) > 0 {
			if !strings.HasPrefix(rest, ", ") {
				return false
			}
			rest = rest[2:]
		}
		for i, s := range ss {
			if !used[i] && strings.HasPrefix(rest, s) {
				used[i] = true
				out = append(out, s)
				if from(rest[len(s):]) {
					return true
				}
				out = out[:len(out)-1]
				used[i] = false
			}
		}
		return false
	}
	if !from(text) {
		return []string{text}
	}
	return out
}

func (w *World) doSetQuery(o, out obj) bool {
	switch o["q"].(string) {
	case "ss":
		s := *w.ss(o["h"])
		has := make([]any, 0)
		for _, x := range strs(o["u"]) {
			if s.Has(x) {
				has = append(has, x)
			}
		}
		sl := s.Slice()
		slice := anyStrs(sl)
		for i := range sl {
			sl[i] = "scribble"
		}
		so := s.SortedSlice()
		ordered := sort.StringsAreSorted(so)
		sorted := anyStrs(so)
		for i := range so {
			so[i] = "scribble"
		}
		var js []string
		d, err := json.Marshal(s)
		jerr := err != nil || json.Unmarshal(d, &js) != nil || !bytes.HasPrefix(bytes.TrimSpace(d), []byte("["))
		str := s.String()
		split := []string{}
		if strings.ContainsAny(strings.Join(s.Slice(), ""), ", ") {
			split = inSomeOrder(str, s.Slice())
		} else if str != "" || s.Len() == 1 {
			split = strings.Split(str, ", ")
		}
		out["r"] = obj{"has": has, "len": s.Len(), "slice": slice, "sorted": sorted, "ordered": ordered, "json": anyStrs(js), "jerr": jerr, "str": anyStrs(split)}
	case "sscmp":
		a, b := *w.ss(o["a"]), *w.ss(o["b"])
		out["r"] = obj{"eq": a.IsEqual(b), "all": a.HasAllSet(b), "any": a.HasAnySet(b)}
	case "sshas":
		a := *w.ss(o["h"])
		ls := strs(o["ls"])
		out["r"] = obj{"all": a.HasAll(ls...), "any": a.HasAny(ls...)}
	case "ns":
		s := w.nsets[num(o["h"])]
		w.drainN(func() lpg.NodeIterator { return s.Iterator() }, out)
		has := make([]any, 0)
		for _, n := range list(o["u"]) {
			if s.Has(w.node(n)) {
				has = append(has, n)
			}
		}
		sl := s.Slice()
		out["slice"] = w.hns(sl)
		for i := range sl {
			sl[i] = nil
		}
		out["has"] = has
		out["len"] = s.Len()
	case "es":
		s := w.esets[num(o["h"])]
		w.drainE(func() lpg.EdgeIterator { return s.Iterator() }, out)
		sl := s.Slice()
		out["slice"] = w.hes(sl)
		for i := range sl {
			sl[i] = nil
		}
		out["len"] = s.Len()
	case "nmall":
		ls := lset(o["ls"])
		w.drainN(func() lpg.NodeIterator { return w.nmaps[num(o["h"])].IteratorAllLabels(ls) }, out)
	case "nmit":
		w.drainN(func() lpg.NodeIterator { return w.nmaps[num(o["h"])].Iterator() }, out)
	case "nmempty":
		out["r"] = w.nmaps[num(o["h"])].IsEmpty()
	case "multi":
		// concatenation of node iterators
		t := []any{"m"}
		for _, ls := range list(o["lss"]) {
			t = append(t, []any{"l", ls})
		}
		w.drainN(func() lpg.NodeIterator { return asNodes{w.itTree(w.g(o), t)} }, out)
	case "mtree":
		w.drainN(func() lpg.NodeIterator { return asNodes{w.itTree(w.g(o), list(o["t"]))} }, out)
	default:
		return false
	}
	return true
}

// asNodes is an iterator over nodes
type asNodes struct{ lpg.Iterator }

func (a asNodes) Node() *lpg.Node { return a.Value().(*lpg.Node) }

// itTree builds a tree of concatenations over the iterators of a graph
func (w *World) itTree(g *lpg.Graph, t []any) lpg.Iterator {
	switch t[0].(string) {
	case "m":
		its := make([]lpg.Iterator, 0)
		for _, c := range t[1:] {
			its = append(its, w.itTree(g, list(c)))
		}
		return lpg.MultiIterator(its...)
	case "l":
		return g.GetNodesWithAllLabels(lset(t[1]))
	case "f":
		return g.FindNodes(lset(t[1]), decProps(t[2]))
	case "k":
		return g.GetNodesWithProperty(t[1].(string))
	}
	panic(driverError("unknown iterator tree"))
}
