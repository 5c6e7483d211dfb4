------------------------------- MODULE CopyImpl ------------------------------
(* Copies as the code makes them (clone.go, cloneNode, cloneEdge): the       *)
(* recursion of CopySubgraph over its node map, the two loops of CopyGraphf, *)
(* property maps that are copied and label sets that are shared until one    *)
(* side replaces its own. Afterwards one side is changed. The invariants say *)
(* what a copy must contain (as CopyOK in World does) and that a change on   *)
(* one side never shows on the other.                                        *)
EXTENDS Graph, Json

CONSTANTS NN, NE
VARIABLES E0, S,     \* source: [E : edge -> [f, t], lab, prp : node -> address, dead]
          T,         \* target: nodes and edges, in the order they were made
          mem,       \* address -> contents
          call,      \* what is done: <<"sub", s, s2>>, <<"g">>, <<"f", skipped nodes, skipped edges>>
          stack, m,  \* frames of CopySubgraph; the node map
          phase, mark, hist

vars == <<E0, S, T, mem, call, stack, m, phase, mark, hist>>

RECURSIVE AnySeq(_)
AnySeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : \A z \in X : y <= z IN <<x>> \o AnySeq(X \ {x})
Leq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
EdgeLists == { s \in UNION { [1..k -> (1..NN) \X (1..NN)] : k \in 0..NE } : \A i \in 1..(Len(s) - 1) : Leq(s[i], s[i + 1]) }
SN == 1..NN
SE == DOMAIN S.E
Out(n) == { e \in SE : S.E[e].f = n }

Init ==
  /\ \E es \in EdgeLists : S = [E |-> [ i \in 1..Len(es) |-> [f |-> es[i][1], t |-> es[i][2]] ], lab |-> [ n \in SN |-> n ], prp |-> [ n \in SN |-> NN + n ]]
  /\ E0 = S.E
  /\ mem = [ a \in 1..(2 * NN) |-> IF a <= NN THEN {a} ELSE a ]     \* labels, then the value of the one property
  /\ T = [N |-> <<>>, E |-> <<>>]
  /\ call \in { <<"sub", s, s2>> : s \in SN, s2 \in {0} \cup SN } \cup { <<"g">> }
              \cup { <<"f", sn, se>> : sn \in SUBSET SN, se \in { {}, {1} } }
  /\ stack = IF call[1] = "sub" THEN << [n |-> call[2], todo |-> <<>>, st |-> "new", e |-> 0] >> ELSE <<>>
  /\ m = EmptyFn /\ phase = "copy" /\ mark = <<>> /\ hist = <<>>

\* a copied node shares the label set and has its own property map
CloneNode(TT, n) == [TT EXCEPT !.N = Append(@, [src |-> n, lab |-> S.lab[n], prp |-> Len(mem) + 1])]
MemAfter(n) == Append(mem, mem[S.prp[n]])

Top == stack[Len(stack)]
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]
\* CopySubgraph: enter
Enter == /\ phase = "copy" /\ stack # <<>> /\ Top.st = "new"
         /\ IF Top.n \in DOMAIN m
            THEN stack' = SetTop([Top EXCEPT !.st = "leave"]) /\ UNCHANGED <<m, T, mem>>
            ELSE /\ m' = Put(m, Top.n, Len(T.N) + 1)
                 /\ T' = CloneNode(T, Top.n) /\ mem' = MemAfter(Top.n)
                 /\ stack' = SetTop([Top EXCEPT !.st = "loop", !.todo = AnySeq(Out(Top.n))])
         /\ UNCHANGED <<E0, S, call, phase, mark, hist>>
\* next outgoing edge: first its target, then the edge itself
Descend == /\ phase = "copy" /\ stack # <<>> /\ Top.st = "loop" /\ Top.e = 0 /\ Top.todo # <<>>
           /\ LET e == Head(Top.todo)
              IN stack' = Append(SetTop([Top EXCEPT !.e = e, !.todo = Tail(@)]), [n |-> S.E[e].t, todo |-> <<>>, st |-> "new", e |-> 0])
           /\ UNCHANGED <<E0, S, T, mem, call, m, phase, mark, hist>>
Return == /\ phase = "copy" /\ stack # <<>> /\ (Top.st = "leave" \/ (Top.st = "loop" /\ Top.e = 0 /\ Top.todo = <<>>))
          /\ LET below == SubSeq(stack, 1, Len(stack) - 1)
             IN IF below = <<>>
                THEN \* the second call with the same node map
                     IF call[3] # 0 /\ phase = "copy" /\ mark = <<>>
                     THEN /\ stack' = << [n |-> call[3], todo |-> <<>>, st |-> "new", e |-> 0] >>
                          /\ mark' = <<Len(T.N), Len(T.E)>> /\ phase' = phase /\ T' = T
                     ELSE stack' = <<>> /\ phase' = "copied" /\ UNCHANGED <<mark, T>>
                ELSE LET f == below[Len(below)]
                         e == f.e
                     IN /\ T' = [T EXCEPT !.E = Append(@, [src |-> e, f |-> m[S.E[e].f], t |-> m[S.E[e].t]])]
                        /\ stack' = [below EXCEPT ![Len(below)].e = 0]
                        /\ UNCHANGED <<phase, mark>>
          /\ UNCHANGED <<E0, S, mem, call, m, hist>>
\* CopyGraphf: one node or edge at a time
SkipN == IF call[1] = "f" THEN call[2] ELSE {}
SkipE == IF call[1] = "f" THEN call[3] ELSE {}
LoopN == /\ phase = "copy" /\ call[1] # "sub" /\ Len(T.N) < Cardinality(SN \ SkipN)
         /\ LET n == CHOOSE x \in (SN \ SkipN) \ DOMAIN m : \A y \in (SN \ SkipN) \ DOMAIN m : x <= y
            IN m' = Put(m, n, Len(T.N) + 1) /\ T' = CloneNode(T, n) /\ mem' = MemAfter(n)
         /\ UNCHANGED <<E0, S, call, stack, phase, mark, hist>>
LoopE == /\ phase = "copy" /\ call[1] # "sub" /\ Len(T.N) = Cardinality(SN \ SkipN)
         /\ LET es == AnySeq({ e \in SE : S.E[e].f \in DOMAIN m /\ S.E[e].t \in DOMAIN m /\ e \notin SkipE })
            IN T' = [T EXCEPT !.E = [ i \in 1..Len(es) |-> [src |-> es[i], f |-> m[S.E[es[i]].f], t |-> m[S.E[es[i]].t]] ]]
         /\ phase' = "copied"
         /\ UNCHANGED <<E0, S, mem, call, stack, m, mark, hist>>

\* afterwards one side is changed
Mutate ==
  /\ phase = "copied" /\ phase' = "done"
  /\ \E side \in {"s", "t"} :
       LET Ns == IF side = "s" THEN SN ELSE 1..Len(T.N)
           lab(n) == IF side = "s" THEN S.lab[n] ELSE T.N[n].lab
           prp(n) == IF side = "s" THEN S.prp[n] ELSE T.N[n].prp
       IN \E n \in Ns :
            \/ /\ mem' = [mem EXCEPT ![prp(n)] = 0] /\ UNCHANGED <<S, T>> /\ hist' = <<side, "snp", n>>
            \/ \* a new label set takes the place of the old one
               /\ mem' = Append(mem, {0})
               /\ IF side = "s" THEN S' = [S EXCEPT !.lab[n] = Len(mem) + 1] /\ T' = T
                  ELSE T' = [T EXCEPT !.N[n].lab = Len(mem) + 1] /\ S' = S
               /\ hist' = <<side, "sl", n>>
            \/ /\ hist' = <<side, "det", n>> /\ mem' = mem
               /\ IF side = "s" THEN S' = [S EXCEPT !.E = Restrict(@, { e \in SE : n \notin {@[e].f, @[e].t} })] /\ T' = T
                  ELSE T' = [T EXCEPT !.E = SelectSeq(@, LAMBDA x : n \notin {x.f, x.t})] /\ S' = S
  /\ UNCHANGED <<E0, call, stack, m, mark>>
Skip == /\ phase = "copied" /\ phase' = "done" /\ Len(T.N) = 0 /\ UNCHANGED <<E0, S, T, mem, call, stack, m, mark, hist>>
Next == Enter \/ Descend \/ Return \/ LoopN \/ LoopE \/ Mutate \/ Skip
Spec == Init /\ [][Next]_vars

ViewS == <<S.E, [ n \in SN |-> <<mem[S.lab[n]], mem[S.prp[n]]>> ]>>
ViewT == <<T.E, [ n \in DOMAIN T.N |-> <<mem[T.N[n].lab], mem[T.N[n].prp]>> ]>>

RECURSIVE Reach(_, _)
Reach(R, stop) == LET R2 == R \cup ({ S.E[e].t : e \in { x \in SE : S.E[x].f \in R } } \ stop) IN IF R2 = R THEN R ELSE Reach(R2, stop)
Sub1 == Reach({call[2]}, {})
Sub2 == IF call[3] = 0 \/ call[3] \in Sub1 THEN {} ELSE Reach({call[3]}, Sub1)
WantN == IF call[1] = "sub" THEN Sub1 \cup Sub2 ELSE SN \ SkipN
WantE == IF call[1] = "sub" THEN { e \in SE : S.E[e].f \in WantN }
         ELSE { e \in SE : S.E[e].f \in WantN /\ S.E[e].t \in WantN } \ SkipE
\* C13: one counterpart for each node and edge in scope, with the contents of the source
InvCopy == phase = "copied" =>
  /\ DOMAIN m = WantN /\ Len(T.N) = Cardinality(WantN) /\ { m[n] : n \in WantN } = DOMAIN T.N
  /\ \A n \in WantN : mem[T.N[m[n]].lab] = mem[S.lab[n]] /\ mem[T.N[m[n]].prp] = mem[S.prp[n]]
  /\ Len(T.E) = Cardinality(WantE) /\ { T.E[i].src : i \in DOMAIN T.E } = WantE
  /\ \A i \in DOMAIN T.E : T.E[i].f = m[S.E[T.E[i].src].f] /\ T.E[i].t = m[S.E[T.E[i].src].t]
\* C13, C19: the source does not change during a copy, and later changes stay on their side
Isolated == [][ /\ phase = "copy" => ViewS' = ViewS
                /\ phase = "copied" /\ hist' # <<>> => IF hist'[1] = "s" THEN ViewT' = ViewT ELSE ViewS' = ViewS ]_vars
PrintScript == phase = "done" => PrintT("SCRIPT " \o ToJson([n |-> NN, e |-> [ i \in 1..Cardinality(DOMAIN E0) |-> <<E0[i].f, E0[i].t>> ], call |-> call, mut |-> hist,
                 m |-> [ i \in 1..NN |-> IF i \in DOMAIN m THEN m[i] ELSE 0 ]]))
=============================================================================
