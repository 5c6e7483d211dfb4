-------------------------------- MODULE Graph --------------------------------
(* The abstract labeled property graph.                                      *)
(*                                                                           *)
(* A graph is [N, E, nix, eix]:                                              *)
(*   N : node handle -> [l : set of labels, p : key -> value]                *)
(*   E : edge handle -> [f, t : node handle, l : label, p : key -> value]    *)
(*   nix, eix : sets of indexed property keys (no influence on any result)   *)
(* Every mutation of the API is a named operator from graph to graph, every  *)
(* query an operator from graph to a set.                                    *)
EXTENDS Values

EmptyGraph == [N |-> EmptyFn, E |-> EmptyFn, nix |-> {}, eix |-> {}]

------------------------------------------------------------------------------
(* Mutations *)
AddNode(g, h, ls, p)       == [g EXCEPT !.N = Put(@, h, [l |-> ls, p |-> p])]
AddEdge(g, h, f, t, l, p)  == [g EXCEPT !.E = Put(@, h, [f |-> f, t |-> t, l |-> l, p |-> p])]
SetLabels(g, h, ls)        == [g EXCEPT !.N[h].l = ls]
SetNodeProp(g, h, k, v)    == [g EXCEPT !.N[h].p = Put(@, k, v)]
RmNodeProp(g, h, k)        == [g EXCEPT !.N[h].p = Without(@, k)]
SetEdgeLabel(g, h, l)      == [g EXCEPT !.E[h].l = l]
SetEdgeProp(g, h, k, v)    == [g EXCEPT !.E[h].p = Put(@, k, v)]
RmEdgeProp(g, h, k)        == [g EXCEPT !.E[h].p = Without(@, k)]
RmEdge(g, h)               == [g EXCEPT !.E = Without(@, h)]
Incident(g, n)             == { e \in DOMAIN g.E : g.E[e].f = n \/ g.E[e].t = n }
Detach(g, n)               == [g EXCEPT !.E = WithoutAll(@, Incident(g, n))]
DetachRemove(g, n)         == [Detach(g, n) EXCEPT !.N = Without(@, n)]
IndexNode(g, k)            == [g EXCEPT !.nix = @ \cup {k}]
IndexEdge(g, k)            == [g EXCEPT !.eix = @ \cup {k}]

------------------------------------------------------------------------------
(* Queries *)
Nodes(g) == DOMAIN g.N
Edges(g) == DOMAIN g.E

HasProps(p, want) == \A k \in DOMAIN want : Has(p, k) /\ EqVal(want[k], p[k])

NodesAllLabels(g, ls) == { n \in Nodes(g) : ls \subseteq g.N[n].l }
EdgesAnyLabel(g, ls)  == { e \in Edges(g) : g.E[e].l \in ls }
NodesWithProp(g, k)   == { n \in Nodes(g) : Has(g.N[n].p, k) }
EdgesWithProp(g, k)   == { e \in Edges(g) : Has(g.E[e].p, k) }

NodeOK(g, n, ls, p)   == ls \subseteq g.N[n].l /\ HasProps(g.N[n].p, p)
EdgeOK(g, e, ls, p)   == (ls = {} \/ g.E[e].l \in ls) /\ HasProps(g.E[e].p, p)
FindNodes(g, ls, p)   == { n \in Nodes(g) : NodeOK(g, n, ls, p) }
FindEdges(g, ls, p)   == { e \in Edges(g) : EdgeOK(g, e, ls, p) }

InEdges(g, n)         == { e \in Edges(g) : g.E[e].t = n }
OutEdges(g, n)        == { e \in Edges(g) : g.E[e].f = n }
LblFilter(g, S, ls)   == { e \in S : g.E[e].l \in ls }

EdgesBetween(g, a, b) == { e \in Edges(g) : g.E[e].f = a /\ g.E[e].t = b }
Sources(g)            == { n \in Nodes(g) : InEdges(g, n) = {} }
Sinks(g)              == { n \in Nodes(g) : OutEdges(g, n) = {} }
Targets(g, S)         == { g.E[e].t : e \in S }
Origins(g, S)         == { g.E[e].f : e \in S }
\* the node at the other end of e, seen from n
Other(g, e, n)        == IF g.E[e].f = n THEN g.E[e].t ELSE g.E[e].f

\* well-formedness: the ends of every edge are nodes of the same graph
WF(g) == \A e \in Edges(g) : g.E[e].f \in Nodes(g) /\ g.E[e].t \in Nodes(g)
=============================================================================
