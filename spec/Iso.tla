--------------------------------- MODULE Iso ---------------------------------
(* Graph isomorphism under equivalence relations given by class functions    *)
(* (alg.go: CheckIsomorphism)                                                *)
EXTENDS Graph

NodeClass(kind, r) == CASE kind = "true" -> 0
                        [] kind = "cls" -> r.c
                        [] kind = "labels" -> r.l
                        [] OTHER -> <<r.l, r.p>>
EdgeClass(kind, r) == CASE kind = "true" -> 0
                        [] kind = "cls" -> r.c
                        [] kind = "labels" -> r.l
                        [] OTHER -> <<r.l, r.p>>

(* A relation of the caller's own making, which need not look at what the    *)
(* elements hold: the class of every node and of every edge, as pairs.       *)
Classed(g, nc, ec) ==
  [g EXCEPT !.N = TLCEval([ n \in DOMAIN g.N |-> [l |-> g.N[n].l, p |-> g.N[n].p, c |-> (CHOOSE x \in Range(nc) : x[1] = n)[2]] ]),
            !.E = TLCEval([ e \in DOMAIN g.E |-> [f |-> g.E[e].f, t |-> g.E[e].t, l |-> g.E[e].l, p |-> g.E[e].p,
                                                  c |-> (CHOOSE x \in Range(ec) : x[1] = e)[2]] ])]

(* The search: nodes and edges are first replaced by the number of their     *)
(* class (a representative in g1), and nodes are told apart by the classes   *)
(* of the edges around them before any assignment is tried.                  *)
Bag(S, f) == [ c \in { f[e] : e \in S } |-> Cardinality({ e \in S : f[e] = c }) ]
Around(g, nc, ec) ==
  LET pairs == { <<g.E[e].f, g.E[e].t>> : e \in Edges(g) }
      at    == TLCEval([ x \in pairs |-> { e \in Edges(g) : g.E[e].f = x[1] /\ g.E[e].t = x[2] } ])
      P     == TLCEval([ x \in pairs |-> TLCEval(Bag(at[x], ec)) ])
  IN [P |-> P,
      near |-> TLCEval([ n \in Nodes(g) |-> { x[1] : x \in { y \in pairs : y[2] = n } } \cup { x[2] : x \in { y \in pairs : y[1] = n } } ]),
      sig |-> TLCEval([ n \in Nodes(g) |->
                 << nc[n],
                    TLCEval(Bag({ e \in Edges(g) : g.E[e].f = n }, ec)),
                    TLCEval(Bag({ e \in Edges(g) : g.E[e].t = n }, ec)),
                    IF <<n, n>> \in pairs THEN P[<<n, n>>] ELSE EmptyFn >> ])]
Bundle(A, u, v) == IF <<u, v>> \in DOMAIN A.P THEN A.P[<<u, v>>] ELSE EmptyFn

RECURSIVE IsoFrom(_, _, _, _, _)
\* todo: nodes of g1 not mapped yet; f: partial one-to-one node map
IsoFrom(A1, A2, cand, todo, f) ==
  IF todo = {} THEN TRUE
  ELSE LET near == { x \in todo : A1.near[x] \cap DOMAIN f # {} }
           S == IF near = {} THEN todo ELSE near
           u == CHOOSE x \in S : \A y \in S : Cardinality(cand[x]) <= Cardinality(cand[y])
       IN \E v \in cand[u] \ Range(f) :
            LET f2 == Put(f, u, v)
            IN /\ \A x \in DOMAIN f2 : /\ Bundle(A1, u, x) = Bundle(A2, v, f2[x])
                                       /\ Bundle(A1, x, u) = Bundle(A2, f2[x], v)
               /\ IsoFrom(A1, A2, cand, todo \ {u}, f2)

Isomorphic(h1, h2, nk, ek) ==
  LET g1 == TLCEval(h1)
      g2 == TLCEval(h2)
      NRep(r) == CHOOSE x \in Nodes(g1) : NodeClass(nk, g1.N[x]) = NodeClass(nk, r)
      ERep(r) == CHOOSE x \in Edges(g1) : EdgeClass(ek, g1.E[x]) = EdgeClass(ek, r)
  IN /\ Cardinality(Nodes(g1)) = Cardinality(Nodes(g2))
     /\ Cardinality(Edges(g1)) = Cardinality(Edges(g2))
     /\ \A y \in Nodes(g2) : \E x \in Nodes(g1) : NodeClass(nk, g1.N[x]) = NodeClass(nk, g2.N[y])
     /\ \A y \in Edges(g2) : \E x \in Edges(g1) : EdgeClass(ek, g1.E[x]) = EdgeClass(ek, g2.E[y])
     /\ LET A1 == TLCEval(Around(g1, TLCEval([ n \in Nodes(g1) |-> NRep(g1.N[n]) ]), TLCEval([ e \in Edges(g1) |-> ERep(g1.E[e]) ])))
            A2 == TLCEval(Around(g2, TLCEval([ n \in Nodes(g2) |-> NRep(g2.N[n]) ]), TLCEval([ e \in Edges(g2) |-> ERep(g2.E[e]) ])))
            cand == TLCEval([ u \in Nodes(g1) |-> { v \in Nodes(g2) : A1.sig[u] = A2.sig[v] } ])
            \* nodes joined to no other node: their signature says it all
            Lone(A, S) == { n \in S : A.near[n] \subseteq {n} }
            lone1 == TLCEval(Lone(A1, Nodes(g1)))
            lone2 == TLCEval(Lone(A2, Nodes(g2)))
            sigs  == { A1.sig[u] : u \in lone1 }
        IN /\ \A u \in Nodes(g1) : cand[u] # {}
           /\ \A s \in sigs : Cardinality({ u \in lone1 : A1.sig[u] = s }) = Cardinality({ v \in lone2 : A2.sig[v] = s })
           /\ IsoFrom(A1, A2, cand, Nodes(g1) \ lone1, EmptyFn)

(* The definition, literally: a bijection of nodes and a bijection of edges  *)
Bij(S, T) == { f \in [S -> T] : \A x, y \in S : f[x] = f[y] => x = y }
IsoDef(g1, g2, nk, ek) ==
  /\ Cardinality(Nodes(g1)) = Cardinality(Nodes(g2))
  /\ Cardinality(Edges(g1)) = Cardinality(Edges(g2))
  /\ \E f \in Bij(Nodes(g1), Nodes(g2)) : \E h \in Bij(Edges(g1), Edges(g2)) :
       /\ \A n \in Nodes(g1) : NodeClass(nk, g1.N[n]) = NodeClass(nk, g2.N[f[n]])
       /\ \A e \in Edges(g1) : /\ EdgeClass(ek, g1.E[e]) = EdgeClass(ek, g2.E[h[e]])
                               /\ g2.E[h[e]].f = f[g1.E[e].f]
                               /\ g2.E[h[e]].t = f[g1.E[e].t]
=============================================================================
