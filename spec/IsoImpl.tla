------------------------------- MODULE IsoImpl -------------------------------
(* CheckIsomorphism (alg.go) as a machine: candidate lists per node, an      *)
(* odometer over them, and a greedy matching of outgoing edges; the verdict  *)
(* is compared with the definition (IsoDef), and so is the search that       *)
(* judges recorded verdicts (Isomorphic).                                    *)
EXTENDS Iso, TLC, Json

CONSTANTS NN, NE, NodeLabels, EdgeLabels, NRels, ERels   \* equivalence relations
VARIABLES g1, g2, rel, odo, verdict
vars == <<g1, g2, rel, odo, verdict>>

EdgeDescr == (1..NN) \X (1..NN) \X EdgeLabels
Num(x) == LET lbl == CHOOSE f \in [EdgeLabels -> 1..Cardinality(EdgeLabels)] : \A a, b \in EdgeLabels : f[a] = f[b] => a = b
          IN ((x[1] * 10) + x[2]) * 10 + lbl[x[3]]
GraphOf(nl, es) == [N |-> [ n \in 1..NN |-> [l |-> IF nl[n] = "" THEN {} ELSE {nl[n]}, p |-> EmptyFn] ],
                    E |-> [ i \in 1..Len(es) |-> [f |-> es[i][1], t |-> es[i][2], l |-> es[i][3], p |-> EmptyFn] ],
                    nix |-> {}, eix |-> {}]
EdgeLists(k) == { s \in [1..k -> EdgeDescr] : \A i \in 1..(k - 1) : Num(s[i]) <= Num(s[i + 1]) }
\* a different number of edges is refused at once: one such pair is enough
Init == /\ \E nl1, nl2 \in [1..NN -> NodeLabels] : \E k \in 0..NE : \E e1, e2 \in EdgeLists(k) :
             /\ (NN < 3 \/ \A i \in 1..(NN - 1) : nl1[i] = "" => nl1[i + 1] = "")
             /\ g1 = GraphOf(nl1, e1) /\ g2 = GraphOf(nl2, e2)
        /\ rel \in NRels \X ERels
        /\ odo = [ i \in 1..NN |-> 1 ]
        /\ verdict = "?"

Equiv(u, v) == NodeClass(rel[1], g1.N[u]) = NodeClass(rel[1], g2.N[v])
RECURSIVE AnySeq(_)
AnySeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o AnySeq(S \ {x})
Cand(u) == AnySeq({ v \in 1..NN : Equiv(u, v) })
Mapping == [ u \in 1..NN |-> Cand(u)[odo[u]] ]
OneToOne(m) == \A u, v \in 1..NN : m[u] = m[v] => u = v

RECURSIVE Greedy(_, _, _)
\* every edge of es takes the first free edge of pool that fits
Greedy(m, es, pool) ==
  IF es = <<>> THEN TRUE
  ELSE LET fits == { e \in pool : g2.E[e].t = m[g1.E[Head(es)].t]
                                  /\ EdgeClass(rel[2], g1.E[Head(es)]) = EdgeClass(rel[2], g2.E[e]) }
       IN IF fits = {} THEN FALSE
          ELSE Greedy(m, Tail(es), pool \ { CHOOSE e \in fits : \A x \in fits : e <= x })
NodesFit(m) == \A u \in 1..NN : /\ Cardinality(OutEdges(g1, u)) = Cardinality(OutEdges(g2, m[u]))
                                /\ Greedy(m, AnySeq(OutEdges(g1, u)), OutEdges(g2, m[u]))

Refuse == /\ verdict = "?" /\ \E u \in 1..NN : Cand(u) = <<>>
          /\ verdict' = "no" /\ UNCHANGED <<g1, g2, rel, odo>>
Test == /\ verdict = "?" /\ \A u \in 1..NN : Cand(u) # <<>>
        /\ IF OneToOne(Mapping) /\ NodesFit(Mapping) THEN verdict' = "yes" /\ odo' = odo
           ELSE LET wrap(i) == odo[i] = Len(Cand(i))
                    \* the first wheel that does not wrap around is advanced
                    free == { i \in 1..NN : ~wrap(i) }
                    k == CHOOSE i \in free : \A j \in free : i <= j
                IN IF free = {} THEN verdict' = "no" /\ odo' = odo
                   ELSE /\ verdict' = "?"
                        /\ odo' = [ i \in 1..NN |-> IF i < k THEN 1 ELSE IF i = k THEN odo[i] + 1 ELSE odo[i] ]
        /\ UNCHANGED <<g1, g2, rel>>
Next == Refuse \/ Test
Spec == Init /\ [][Next]_vars

Done == verdict # "?"
InvIso == Done => /\ (verdict = "yes") = IsoDef(g1, g2, rel[1], rel[2])
                  /\ (verdict = "yes") = Isomorphic(g1, g2, rel[1], rel[2])
PrintScript == Done => PrintT("SCRIPT " \o ToJson([
   n |-> [ i \in 1..2 |-> [ u \in 1..NN |-> IF i = 1 THEN g1.N[u].l ELSE g2.N[u].l ] ],
   e |-> [ i \in 1..2 |-> LET g == IF i = 1 THEN g1 ELSE g2 IN [ k \in 1..Cardinality(Edges(g)) |-> <<g.E[k].f, g.E[k].t, g.E[k].l>> ] ],
   rel |-> rel]))
=============================================================================
