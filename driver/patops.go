package main

import (
	"context"
	"errors"

	lpg "github.com/cloudprivacylabs/lpg/v2"
)

func decPattern(x any) lpg.Pattern {
	r := lpg.Pattern{}
	for _, e := range list(x) {
		it := e.(obj)
		p := lpg.PatternItem{
			Labels:     lset(it["ls"]),
			Properties: decProps(it["p"]),
			Min:        num(it["min"]),
			Max:        num(it["max"]),
			ToLeft:     it["left"] == true,
			Undirected: it["und"] == true,
			Name:       it["name"].(string),
		}
		r = append(r, p)
	}
	return r
}

func encPattern(p lpg.Pattern) []any {
	r := make([]any, 0)
	for _, it := range p {
		r = append(r, obj{"ls": sortedStrs(it.Labels.Slice()), "p": encProps(it.Properties), "min": it.Min, "max": it.Max,
			"left": it.ToLeft, "und": it.Undirected, "name": it.Name})
	}
	return r
}

// pattern items in the form encPattern gives back
func normPattern(x any) []any { return encPattern(decPattern(x)) }

func (w *World) decSyms(x any) map[string]*lpg.PatternSymbol {
	if x == nil {
		return nil
	}
	r := make(map[string]*lpg.PatternSymbol)
	for k, v := range x.(obj) {
		a := v.([]any)
		s := &lpg.PatternSymbol{}
		switch a[0].(string) {
		case "n":
			s.Nodes = lpg.NewNodeSet()
			for _, h := range list(a[1]) {
				if num(h)%2 == 0 {
					s.AddNode(w.node(h))
				} else {
					s.Add(w.node(h))
				}
			}
		case "e":
			s.Edges = lpg.NewEdgeSet()
			w.bindEdges(s, list(a[1]))
		}
		r[k] = s
	}
	return r
}

// bindEdges adds edges one at a time, and those that follow one another as a path
func (w *World) bindEdges(s *lpg.PatternSymbol, hs []any) {
	for len(hs) > 0 {
		run := []lpg.PathElement{{Edge: w.edge(hs[0])}}
		for _, h := range hs[1:] {
			e, at := w.edge(h), run[len(run)-1].GetTargetNode()
			if e.GetFrom() == at {
				run = append(run, lpg.PathElement{Edge: e})
			} else if e.GetTo() == at {
				run = append(run, lpg.PathElement{Edge: e, Reverse: true})
			} else {
				break
			}
		}
		if len(run) == 1 && num(hs[0])%2 == 0 {
			s.Add(run[0].Edge)
		} else if len(run)%2 == 0 {
			s.AddPath(lpg.NewPathFromElements(run...))
		} else {
			s.Add(lpg.NewPathFromElements(run...))
		}
		hs = hs[len(run):]
	}
}

func (w *World) encSyms(m map[string]*lpg.PatternSymbol) obj {
	r := obj{}
	for k, s := range m {
		if s == nil {
			r[k] = []any{"nil", []any{}}
			continue
		}
		switch {
		case s.Nodes != nil && s.Edges != nil:
			r[k] = []any{"both", []any{}}
		case s.Nodes != nil:
			r[k] = []any{"n", w.hns(s.NodeSlice())}
		case s.Edges != nil:
			es := make([]any, 0)
			p := s.EdgeSlice()
			for i := 0; i < p.NumEdges(); i++ {
				es = append(es, w.he(p.GetEdge(i)))
			}
			r[k] = []any{"e", es}
		default:
			r[k] = []any{"none", []any{}}
		}
	}
	return r
}

const maxMatches = 3000

type tooMany struct{}

// acc records every stored result immediately, as the caller sees it
type recorder struct {
	w   *World
	res []any
	def lpg.DefaultMatchAccumulator
	// another search while this one is at a match
	inner func()
}

func (w *World) encMatch(path *lpg.Path, symbols map[string]interface{}) []any {
	syms := obj{}
	for k, v := range symbols {
		switch s := v.(type) {
		case *lpg.Node:
			syms[k] = []any{"n", w.hn(s)}
		case *lpg.Path:
			p := w.encPath(s)
			syms[k] = []any{"p", p["n"], p["e"]}
		default:
			syms[k] = []any{"?"}
		}
	}
	p := w.encPath(path)
	return []any{p["n"], p["e"], syms}
}

func (r *recorder) StoreResult(ctx *lpg.MatchContext, path *lpg.Path, symbols map[string]interface{}) {
	r.res = append(r.res, r.w.encMatch(path, symbols))
	r.def.StoreResult(ctx, path, symbols)
	if r.inner != nil && len(r.res)%2 == 1 && len(r.res) < 6 {
		r.inner()
	}
	if len(r.res) > maxMatches {
		panic(tooMany{})
	}
}

func (w *World) runPattern(g *lpg.Graph, pat lpg.Pattern, syms map[string]*lpg.PatternSymbol, api string) (out obj) {
	out = obj{"st": "ok"}
	var err error
	defer func() {
		if r := recover(); r != nil {
			if d, ok := r.(driverError); ok {
				panic(d)
			}
			if _, ok := r.(tooMany); ok {
				out = obj{"st": "toomany"}
				return
			}
			out = obj{"st": "panic"}
		}
	}()
	switch api {
	case "nodes":
		var ns []*lpg.Node
		ns, err = pat.FindNodes(g, syms)
		out["heads"] = w.hns(ns)
	case "paths":
		var acc lpg.DefaultMatchAccumulator
		acc, err = pat.FindPaths(g, syms)
		res := make([]any, 0)
		for i := range acc.Paths {
			res = append(res, w.encMatch(acc.Paths[i], acc.Symbols[i]))
		}
		out["res"] = res
		out["heads"] = w.hns(acc.GetHeadNodes())
		out["tails"] = w.hns(acc.GetTailNodes())
	case "run", "plan", "nest":
		rec := &recorder{w: w, res: make([]any, 0)}
		if api == "nest" {
			rec.inner = func() {
				if _, e := pat.FindPaths(g, syms); e != nil && err == nil {
					err = e
				}
			}
		}
		if api != "plan" {
			err = pat.Run(g, syms, rec)
		} else {
			var plan lpg.MatchPlan
			plan, err = pat.GetPlan(g, syms)
			if err == nil {
				err = plan.Run(g, syms, rec)
			}
		}
		out["res"] = rec.res
		out["heads"] = w.hns(rec.def.GetHeadNodes())
		out["tails"] = w.hns(rec.def.GetTailNodes())
	}
	if err != nil {
		out["st"] = "err"
		out["msg"] = err.Error()
	}
	return out
}

func (w *World) doPatQuery(o, out obj) bool {
	switch o["q"].(string) {
	case "pat":
		pat := decPattern(o["pat"])
		syms := w.decSyms(o["sym"])
		out["run"] = w.runPattern(w.g(o), pat, syms, o["api"].(string))
		out["names"] = sortedStrs(pat.GetSymbolNames().Slice())
		out["symafter"] = w.encSyms(syms)
		out["patbefore"] = normPattern(o["pat"])
		out["patafter"] = encPattern(pat)
	case "trails":
		var first lpg.EdgeIterator
		if o["first"] == nil {
			first = w.node(o["h"]).GetEdges(edir(o["d"]))
		} else {
			es := lpg.NewEdgeSet()
			for _, e := range list(o["first"]) {
				es.Add(w.edge(e))
			}
			first = es.Iterator()
		}
		filt := lpg.GetEdgeFilterFunc(lset(o["ls"]), decProps(o["p"]))
		res := make([]any, 0)
		stop := num(o["stop"])
		held := make([]*lpg.Path, 0)
		lpg.CollectAllPaths(w.g(o), w.node(o["h"]), first, filt, edir(o["d"]), num(o["min"]), num(o["max"]), func(p *lpg.Path) bool {
			held = append(held, p)
			e := w.encPath(p)
			res = append(res, []any{e["n"], e["e"]})
			if len(res) > maxMatches {
				panic(tooMany{})
			}
			if o["nest"] == true && len(res)%2 == 1 && len(res) < 8 {
				k := 0
				lpg.CollectAllPaths(w.g(o), w.node(o["h"]), w.node(o["h"]).GetEdges(edir(o["d"])), lpg.GetEdgeFilterFunc(lset(o["ls"]), decProps(o["p"])), edir(o["d"]), num(o["min"]), num(o["max"]), func(*lpg.Path) bool { k++; return k < 50 })
			}
			return len(res) != stop
		})
		// the paths handed out must not change later
		late := make([]any, 0)
		for _, p := range held {
			e := w.encPath(p)
			late = append(late, []any{e["n"], e["e"]})
		}
		out["r"] = res
		out["late"] = late
	default:
		return false
	}
	return true
}

// flakyCtx fails from the k-th call of Err on
type flakyCtx struct {
	context.Context
	left int
	seen int
}

var errCtx = errors.New("context gave up")

func (c *flakyCtx) Err() error {
	c.seen++
	if c.left == 0 {
		return errCtx
	}
	c.left--
	return nil
}

func nodeEq(kind string) func(a, b *lpg.Node) bool {
	switch kind {
	case "true":
		return func(a, b *lpg.Node) bool { return true }
	case "labels":
		return func(a, b *lpg.Node) bool { return a.GetLabels().IsEqual(b.GetLabels()) }
	}
	return func(a, b *lpg.Node) bool {
		return a.GetLabels().IsEqual(b.GetLabels()) && sameJSON(nodeProps(a), nodeProps(b))
	}
}

func edgeEq(kind string) func(a, b *lpg.Edge) bool {
	switch kind {
	case "true":
		return func(a, b *lpg.Edge) bool { return true }
	case "labels":
		return func(a, b *lpg.Edge) bool { return a.GetLabel() == b.GetLabel() }
	}
	return func(a, b *lpg.Edge) bool {
		return a.GetLabel() == b.GetLabel() && sameJSON(edgeProps(a), edgeProps(b))
	}
}

// classes reads [[handle, class]...]
func classes(x any) map[int]int {
	m := map[int]int{}
	for _, p := range list(x) {
		y := list(p)
		m[num(y[0])] = num(y[1])
	}
	return m
}

func (w *World) doMiscQuery(o, out obj) bool {
	switch o["q"].(string) {
	case "iso":
		var ctx context.Context = context.Background()
		fl := &flakyCtx{Context: ctx, left: -1}
		if c, ok := o["cancel"]; ok && num(c) >= 0 {
			fl.left = num(c)
			ctx = fl
		} else if o["cancelled"] == true {
			c, cancel := context.WithCancel(ctx)
			cancel()
			ctx = c
		}
		ne, ee := nodeEq(o["ne"].(string)), edgeEq(o["ee"].(string))
		if o["ne"] == "cls" {
			c := classes(o["nc"])
			ne = func(a, b *lpg.Node) bool { return c[w.hn(a)] == c[w.hn(b)] }
		}
		if o["ee"] == "cls" {
			c := classes(o["ec"])
			ee = func(a, b *lpg.Edge) bool { return c[w.he(a)] == c[w.he(b)] }
		}
		r, err := lpg.CheckIsomorphism(ctx, w.graph(o["a"]), w.graph(o["b"]), ne, ee)
		out["r"] = r
		out["err"] = err != nil
		out["right"] = err == nil || errors.Is(err, errCtx) || errors.Is(err, context.Canceled)
		out["seen"] = fl.seen
	case "cmp":
		a, b := decVal(o["a"]), decVal(o["b"])
		out["r"] = 99
		func() {
			defer func() { recover() }()
			out["r"] = lpg.ComparePropertyValue(a, b)
		}()
	case "cmps":
		// all ordered pairs of a pool: a matrix of verdicts
		vals := make([]any, 0)
		for _, v := range list(o["vs"]) {
			vals = append(vals, decVal(v))
		}
		if o["share"] == true {
			shareArrays(vals)
		}
		m := make([]any, 0)
		for _, a := range vals {
			row := make([]any, 0)
			for _, b := range vals {
				r := 99
				func() {
					defer func() { recover() }()
					r = lpg.ComparePropertyValue(a, b)
				}()
				row = append(row, r)
			}
			m = append(m, row)
		}
		out["r"] = m
		after := make([]any, 0)
		for _, v := range vals {
			after = append(after, encVal(v))
		}
		out["after"] = after
	default:
		return false
	}
	return true
}

// shareArrays makes lists that begin alike parts of one array
func shareArrays(vals []any) {
	for i := range vals {
		for j := range vals {
			if i == j {
				continue
			}
			switch a := vals[i].(type) {
			case []any:
				if b, ok := vals[j].([]any); ok && len(b) <= len(a) && sameJSON(encVal(b), encVal(a[:len(b)])) {
					vals[j] = a[:len(b)]
				}
			case []string:
				if b, ok := vals[j].([]string); ok && len(b) <= len(a) && sameJSON(encVal(b), encVal(a[:len(b)])) {
					vals[j] = a[:len(b)]
				}
			case []int:
				if b, ok := vals[j].([]int); ok && len(b) <= len(a) && sameJSON(encVal(b), encVal(a[:len(b)])) {
					vals[j] = a[:len(b)]
				}
			}
		}
	}
}
