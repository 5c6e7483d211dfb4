------------------------------ MODULE TrailsImpl -----------------------------
(* CollectAllPaths (vpathitr.go) as a machine: a stack of frames, each with  *)
(* the path so far and the edges its iterator has not returned yet. The      *)
(* inputs are the initial states: every graph with NE edges over NN nodes,   *)
(* start node, direction, set of accepted edges, first edges, bounds, and    *)
(* the number of paths after which the consumer stops.                       *)
EXTENDS Patterns, Json

CONSTANTS NN, NE, Dirs, Bnds, Stops,
          Ring     \* 0: all graphs; k: a cycle of 3..k nodes and at most one more edge
VARIABLES g, u, d, acc, first, min, max, stop, stack, out, stopped

vars == <<g, u, d, acc, first, min, max, stop, stack, out, stopped>>

RECURSIVE AnySeq(_)
AnySeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AnySeq(S \ {x})

GraphOf(es) == [N |-> [ n \in 1..NN |-> [l |-> {}, p |-> EmptyFn] ],
                E |-> [ i \in 1..Len(es) |-> [f |-> es[i][1], t |-> es[i][2], l |-> "L", p |-> EmptyFn] ],
                nix |-> {}, eix |-> {}]
\* edge lists in order: the same graph once
Leq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
AllGraphs == { GraphOf(es) : es \in { s \in UNION { [1..k -> (1..NN) \X (1..NN)] : k \in 1..NE } :
                                     \A i \in 1..(Len(s) - 1) : Leq(s[i], s[i + 1]) } }
Cycle(k) == [ i \in 1..k |-> <<i, (i % k) + 1>> ]
Rings == UNION { { GraphOf(Cycle(k)) } \cup { GraphOf(Append(Cycle(k), x)) : x \in {1, 2} \X (1..k) } : k \in 3..Ring }
Graphs == IF Ring = 0 THEN AllGraphs ELSE Rings

\* the iterator of a node: incoming ones, then outgoing ones; duplicates of
\* loops are skipped
Frame(p, es) == [p |-> p, todo |-> es]
Exts(x) == AnySeq(CandEdges(g, x, d) \cap acc)

Init == /\ g \in Graphs /\ u \in (IF Ring = 0 THEN Nodes(g) ELSE {1}) /\ d \in Dirs
        /\ acc \in { Edges(g), Edges(g) \ {1} }
        /\ first \in { CandEdges(g, u, d), CandEdges(g, u, d) \ {1, 2} }
        /\ \E b \in Bnds : min = (IF b \div 10 = 9 THEN -1 ELSE b \div 10) /\ max = (IF b % 10 = 9 THEN -1 ELSE b % 10)
        /\ stop \in Stops
        /\ stack = << Frame([n |-> <<u>>, e |-> <<>>], AnySeq(first)) >>
        /\ out = <<>> /\ stopped = FALSE

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
InBounds(k) == (min = -1 \/ k >= min) /\ (max = -1 \/ k <= max)

\* the next edge of the iterator on top
Step ==
  /\ stack # <<>> /\ ~stopped /\ Top.todo # <<>>
  /\ LET e == Head(Top.todo)
         rest == Append(Pop, [Top EXCEPT !.todo = Tail(@)])
         x == Top.p.n[Len(Top.p.n)]
         v == IF g.E[e].f # g.E[e].t /\ g.E[e].t = x THEN g.E[e].f ELSE g.E[e].t
         p == [n |-> Append(Top.p.n, v), e |-> Append(Top.p.e, e)]
         k == Len(p.e)
     IN IF e \notin acc \/ e \in Range(Top.p.e)
        THEN stack' = rest /\ UNCHANGED <<out, stopped>>
        ELSE /\ out' = IF InBounds(k) THEN Append(out, p) ELSE out
             /\ stopped' = (InBounds(k) /\ stop > 0 /\ Len(out') >= stop)
             /\ stack' = IF max # -1 /\ k >= max THEN rest ELSE Append(rest, Frame(p, Exts(v)))
  /\ UNCHANGED <<g, u, d, acc, first, min, max, stop>>

Return == /\ stack # <<>> /\ ~stopped /\ Top.todo = <<>>
          /\ stack' = Pop
          /\ UNCHANGED <<g, u, d, acc, first, min, max, stop, out, stopped>>

Next == Step \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == stack = <<>> \/ stopped
Want == { t \in Trails(g, u, d, acc, min, max) : t[1][1] \in first }
Got == { <<out[i].e, Tail(out[i].n)>> : i \in 1..Len(out) }
\* each trail once; all of them, unless the consumer stopped
InvTrails == Done => /\ Cardinality(Got) = Len(out) /\ Got \subseteq Want
                     /\ IF stopped THEN Len(out) = stop
                        ELSE Got = Want /\ (stop = 0 \/ Len(out) < stop)
\* the depth of the recursion is bounded by the number of edges
InvBounded == Len(stack) <= Cardinality(Edges(g)) + 1
Terminates == <>(Done)
PrintScript == (Done /\ (stack = <<>> \/ stopped)) =>
   PrintT("SCRIPT " \o ToJson([ n |-> NN, e |-> [ i \in 1..Cardinality(Edges(g)) |-> <<g.E[i].f, g.E[i].t>> ], u |-> u, d |-> d,
                                acc |-> acc, first |-> first, all |-> (first = CandEdges(g, u, d)), min |-> min, max |-> max, stop |-> stop ]))
=============================================================================
