------------------------------- MODULE Patterns ------------------------------
(* What a pattern search must report (pattern.go, planprocessors.go,         *)
(* vpathitr.go), stated declaratively and independently of any plan.         *)
(*                                                                           *)
(* A pattern is a sequence of items [ls, p, min, max, left, und, name]; odd  *)
(* positions (1, 3, ...) are nodes, even positions edges.                    *)
EXTENDS Paths

ItemLabels(it) == Range(it.ls)
IsFixed(it)    == it.min = 1 /\ it.max = 1
ItemDir(it)    == IF it.left THEN "in" ELSE IF it.und THEN "any" ELSE "out"

CandEdges(g, u, d) == CASE d = "out" -> OutEdges(g, u)
                        [] d = "in"  -> InEdges(g, u)
                        [] OTHER     -> OutEdges(g, u) \cup InEdges(g, u)
FarEnd(g, u, e, d) == CASE d = "out" -> g.E[e].t
                        [] d = "in"  -> g.E[e].f
                        [] OTHER     -> Other(g, e, u)

(* Trails: edge-distinct walks <<edges, nodes after the start>> from u, of    *)
(* at most k edges, over the accepted edges acc                              *)
RECURSIVE TrailsFrom(_, _, _, _, _, _)
TrailsFrom(g, u, d, acc, used, k) ==
  IF k = 0 THEN {}
  ELSE UNION { LET v == FarEnd(g, u, e, d)
               IN { << <<e>>, <<v>> >> }
                  \cup { << <<e>> \o t[1], <<v>> \o t[2] >> :
                           t \in TrailsFrom(g, v, d, acc, used \cup {e}, k - 1) }
             : e \in (CandEdges(g, u, d) \cap acc) \ used }

MaxLen(g, max) == IF max = -1 THEN Cardinality(Edges(g)) ELSE max
Trails(g, u, d, acc, min, max) ==
  { t \in TrailsFrom(g, u, d, acc, {}, MaxLen(g, max)) : Len(t[1]) >= min }

\* the ways an edge item can be crossed from node u
Steps(g, u, it) ==
  LET d   == ItemDir(it)
      acc == { e \in Edges(g) : EdgeOK(g, e, ItemLabels(it), it.p) }
  IN IF IsFixed(it)
     THEN { << <<e>>, <<FarEnd(g, u, e, d)>> >> : e \in CandEdges(g, u, d) \cap acc }
     ELSE Trails(g, u, d, TLCEval(acc), it.min, it.max)

\* symbols bound before the search: name -> <<"n" or "e", list of handles>>
NodeAllowed(sym, it, x) ==
  (it.name # "" /\ it.name \in DOMAIN sym) =>
     (sym[it.name][1] = "n" /\ x \in Range(sym[it.name][2]))
EdgesAllowed(sym, it, es) ==
  (it.name # "" /\ it.name \in DOMAIN sym) =>
     (sym[it.name][1] = "e" /\ Range(es) \subseteq Range(sym[it.name][2]))

(* A partial match: [n, e : node and edge sequence of the path,              *)
(*                   cut : number of edges before each node item,            *)
(*                   b : name -> entity bound so far]                        *)
NodeEnt(x)        == <<"n", x>>
EdgeEnt(ns, es)   == <<"p", ns, es>>
SameEnt(a, b)     == a[1] = b[1] /\ (IF a[1] = "n" THEN a[2] = b[2] ELSE a[3] = b[3])
BindOK(b, name, ent) == name = "" \/ name \notin DOMAIN b \/ SameEnt(b[name], ent)
Bind(b, name, ent)   == IF name = "" \/ name \in DOMAIN b THEN b ELSE Put(b, name, ent)

NodeFits(g, sym, it, x) == NodeOK(g, x, ItemLabels(it), it.p) /\ NodeAllowed(sym, it, x)

StartMatches(g, pat, sym) ==
  { [n |-> <<x>>, e |-> <<>>, cut |-> <<0>>, b |-> Bind(EmptyFn, pat[1].name, NodeEnt(x))] :
      x \in { y \in Nodes(g) : NodeFits(g, sym, pat[1], y) } }

ExtendMatch(g, steps, ei, ni, sym, m) ==
  LET u == m.n[Len(m.n)]
      Ok(s) == LET v == s[2][Len(s[2])]
                   ent == EdgeEnt(<<u>> \o s[2], s[1])
               IN /\ NodeFits(g, sym, ni, v)
                  /\ EdgesAllowed(sym, ei, s[1])
                  /\ BindOK(m.b, ei.name, ent)
                  /\ BindOK(Bind(m.b, ei.name, ent), ni.name, NodeEnt(v))
      Ext(s) == LET v == s[2][Len(s[2])]
                    ent == EdgeEnt(<<u>> \o s[2], s[1])
                IN [n |-> m.n \o s[2], e |-> m.e \o s[1],
                    cut |-> m.cut \o <<Len(m.e) + Len(s[1])>>,
                    b |-> Bind(Bind(m.b, ei.name, ent), ni.name, NodeEnt(v))]
  IN { Ext(s) : s \in { t \in steps : Ok(t) } }

RECURSIVE MatchRest(_, _, _, _, _)
MatchRest(g, pat, sym, i, M) ==
  IF i > Len(pat) \/ M = {} THEN M
  ELSE LET ends == { m.n[Len(m.n)] : m \in M }
           st   == TLCEval([ u \in ends |-> Steps(g, u, pat[i]) ])
       IN MatchRest(g, pat, sym, i + 2,
            TLCEval(UNION { ExtendMatch(g, st[m.n[Len(m.n)]], pat[i], pat[i + 1], sym, m) : m \in M }))

\* every way to match the pattern
Matches(g, pat, sym) == MatchRest(g, pat, sym, 2, StartMatches(g, pat, sym))

\* what is reported for a match: <<nodes, edges, symbol values>>
ResultOf(m) == <<m.n, m.e, m.b>>

(* The number of matches a projection sends to r equals the number of        *)
(* reported results sent to r, for every r                                   *)
BagAgrees(res, M, PR(_), PM(_)) ==
  LET rs == TLCEval([ i \in 1..Len(res) |-> PR(res[i]) ])
      rr == TLCEval(Range(rs))
      mm == TLCEval({ PM(m) : m \in M })
  IN /\ Len(res) = Cardinality(M)
     /\ rr = mm
     /\ \/ Cardinality(mm) = Cardinality(M)            \* nothing is merged
        \/ LET ms == TLCEval({ <<m, PM(m)>> : m \in M })
           IN \A x \in rr : Count(rs, x) = Cardinality({ y \in ms : y[2] = x })

\* symbol values without order or orientation of edge chains
ProjSym(b) == [ k \in DOMAIN b |-> IF b[k][1] = "p" THEN <<"p", Range(b[k][3])>> ELSE b[k] ]

------------------------------------------------------------------------------
(* Alignment of one reported result with the pattern, ignoring the items'    *)
(* label and property conditions                                             *)
EdgeDirOK(g, e, u, v, d) == \/ d # "in"  /\ g.E[e].f = u /\ g.E[e].t = v
                            \/ d # "out" /\ g.E[e].t = u /\ g.E[e].f = v

RECURSIVE Cuts(_, _, _, _, _, _)
\* all ways to cut the edges after position pos among the edge items i, i+2, ..
Cuts(g, pat, ns, es, i, pos) ==
  IF i > Len(pat) THEN (IF pos = Len(es) THEN { <<pos>> } ELSE {})
  ELSE LET it == pat[i]
           lo == IF IsFixed(it) THEN 1 ELSE Max2(1, it.min)
           hi == IF IsFixed(it) THEN 1 ELSE IF it.max = -1 THEN Len(es) - pos ELSE it.max
           Good(k) == /\ pos + k <= Len(es)
                      /\ \A j \in (pos + 1)..(pos + k) :
                            EdgeDirOK(g, es[j], ns[j], ns[j + 1], ItemDir(it))
                      /\ Cardinality({ es[j] : j \in (pos + 1)..(pos + k) }) = k
       IN UNION { { <<pos>> \o c : c \in Cuts(g, pat, ns, es, i + 2, pos + k) } :
                    k \in { j \in lo..Min2(hi, Len(es) - pos) : Good(j) } }

AlignedSym(pat, ns, es, cut, name, v) ==
  \E i \in 1..Len(pat) :
    /\ pat[i].name = name
    /\ IF i % 2 = 1
       THEN v = NodeEnt(ns[cut[(i + 1) \div 2] + 1])
       ELSE LET a == cut[i \div 2]
                b == cut[i \div 2 + 1]
            IN v = EdgeEnt(SubSeq(ns, a + 1, b + 1), SubSeq(es, a + 1, b))

Aligned(g, pat, r) ==
  LET ns == r[1]
      es == r[2]
  IN /\ Len(ns) = Len(es) + 1
     /\ Range(ns) \subseteq Nodes(g)
     /\ Range(es) \subseteq Edges(g)
     /\ DOMAIN r[3] = { pat[i].name : i \in 1..Len(pat) } \ {""}
     /\ \E cut \in Cuts(g, pat, ns, es, 2, 0) :
          \A name \in DOMAIN r[3] : AlignedSym(pat, ns, es, cut, name, r[3][name])
=============================================================================
