------------------------------- MODULE PathImpl ------------------------------
(* Paths as the code stores them (path.go): a path is a single node or a Go  *)
(* slice of path elements, i.e. a window (offset, length, capacity) into an  *)
(* array that other slices may share. The invariant: every path stands for   *)
(* the abstract path of Paths.tla, whatever operations were applied to the   *)
(* other paths, and whatever the slice the caller built it from is used for. *)
EXTENDS Paths, Json

CONSTANTS NP,        \* number of paths
          MaxOps,
          MaxEls,    \* elements given to a constructor
          MaxApp,    \* elements given to one append
          Ops,       \* operations considered
          Build      \* so many paths are built first (0: constructors anywhere)

VARIABLES heap,      \* array number -> sequence of elements (its length is the capacity)
          P,         \* concrete paths: [only, arr, o, l, c]; arr = 0: nil slice
          slot,      \* a slice owned by the caller
          A,         \* abstract paths; "unset" if not there
          live,      \* edges not removed
          hist

vars == <<heap, P, slot, A, live, hist>>
Unset == [n |-> <<0>>, e |-> <<0>>]
ee  == << [f |-> 1, t |-> 2], [f |-> 2, t |-> 1], [f |-> 1, t |-> 1] >>
NN  == 2
StepSet == { s \in { <<1, FALSE>>, <<1, TRUE>>, <<2, FALSE>>, <<3, FALSE>> } : s[1] \in live }
SeqsUpTo(m) == UNION { [1..k -> StepSet] : k \in 1..m }
Seqs == SeqsUpTo(MaxEls)
Chains == { s \in Seqs : Chained(ee, s) }
Zero == [only |-> 0, arr |-> 0, o |-> 0, l |-> 0, c |-> 0]
Slots == 1..NP

\* ------------------------------------------------------- Go slices
Els(q) == [ i \in 1..q.l |-> heap[q.arr][q.o + i] ]
Fill == <<0, FALSE>>
NewArr(hp, els, c) == Append(hp, [ i \in 1..c |-> IF i <= Len(els) THEN els[i] ELSE Fill ])
\* append(q, els...)
GoAppend(hp, q, els) ==
  LET need == q.l + Len(els)
  IN IF q.arr # 0 /\ need <= q.c
     THEN [hp |-> [hp EXCEPT ![q.arr] = [ i \in DOMAIN @ |-> IF i > q.o + q.l /\ i <= q.o + need THEN els[i - q.o - q.l] ELSE @[i] ]],
           q |-> [q EXCEPT !.l = need]]
     ELSE LET c == IF need > 2 * q.c THEN need ELSE 2 * q.c
          IN [hp |-> NewArr(hp, Els(q) \o els, c),
              q |-> [q EXCEPT !.arr = Len(hp) + 1, !.o = 0, !.l = need, !.c = c]]
Fresh(els) == IF els = <<>> THEN [hp |-> heap, q |-> Zero]
              ELSE [hp |-> NewArr(heap, els, Len(els)), q |-> [Zero EXCEPT !.arr = Len(heap) + 1, !.l = Len(els), !.c = Len(els)]]

\* ------------------------------------------------------- accessors
CFirst(q) == IF q.only # 0 THEN q.only ELSE IF q.l > 0 THEN Src(ee, Els(q)[1]) ELSE 0
CLast(q)  == IF q.only # 0 THEN q.only ELSE IF q.l > 0 THEN Tgt(ee, Els(q)[q.l]) ELSE 0
CNum(q)   == IF q.only # 0 THEN 1 ELSE IF q.l = 0 THEN 0 ELSE q.l + 1
CNode(q, i) == IF i = 0 THEN CFirst(q) ELSE Tgt(ee, Els(q)[i])
Abs(q) == [n |-> [ i \in 1..CNum(q) |-> CNode(q, i - 1) ],
           e |-> [ i \in 1..q.l |-> Els(q)[i][1] ]]
CHasPrefix(q, s) == IF CNum(q) < 2 THEN FALSE ELSE IF Len(s) > q.l THEN FALSE ELSE \A i \in DOMAIN s : s[i] = Els(q)[i]
CHasPrefixPath(q, r) ==
  CASE CNum(q) = 0 -> CNum(r) = 0
    [] CNum(q) = 1 -> CNum(r) = 0 \/ (CNum(r) = 1 /\ q.only = r.only)
    [] OTHER -> CNum(r) = 0 \/ (CNum(r) = 1 /\ CFirst(q) = CFirst(r)) \/ (CNum(r) > 1 /\ (r.l = 0 \/ CHasPrefix(q, Els(r))))

\* ------------------------------------------------------- operations
Is(p) == A[p] # Unset
Do(op) == /\ Len(hist) < MaxOps /\ op[1] \in Ops /\ hist' = Append(hist, op)
          /\ Build # 0 => /\ (Len(hist) < Build) = (op[1] = "pels")
                          /\ Len(hist) < Build => op[2] = Len(hist) + 1
Set(p, r, a) == /\ heap' = r.hp /\ P' = [P EXCEPT ![p] = r.q] /\ A' = [A EXCEPT ![p] = a]
Same == heap' = heap

PNode(p, x) == /\ Do(<<"pnode", p, x>>)
               /\ Set(p, [hp |-> heap, q |-> [Zero EXCEPT !.only = x]], NodePath(x))
               /\ UNCHANGED <<slot, live>>
\* elements of the call itself; the constructor takes a copy
PEls(p, s) == /\ Do(<<"pels", p, s>>)
              /\ Set(p, Fresh(s), Append2(ee, EmptyPath, s))
              /\ UNCHANGED <<slot, live>>
\* elements of a slice of the caller with room to grow
PSlot(p, s) ==
  /\ slot.arr = 0 \/ Els(slot) = s
  /\ Do(<<"pslot", p, s>>)
  /\ LET hp == IF slot.arr = 0 THEN NewArr(heap, s, Len(s) + 2) ELSE heap
         a  == IF slot.arr = 0 THEN Len(heap) + 1 ELSE slot.arr
     IN /\ heap' = NewArr(hp, s, Len(s))
        /\ P' = [P EXCEPT ![p] = [Zero EXCEPT !.arr = Len(hp) + 1, !.l = Len(s), !.c = Len(s)]]
        /\ slot' = [Zero EXCEPT !.arr = a, !.l = Len(s), !.c = Len(s) + 2]
        /\ A' = [A EXCEPT ![p] = Append2(ee, EmptyPath, s)]
  /\ UNCHANGED live
\* Clone makes a new array even for an empty path
PClone(p, q) ==
  /\ Is(q) /\ p # q /\ Do(<<"pclone", p, q>>)
  /\ Set(p, LET r == Fresh(Els(P[q])) IN [r EXCEPT !.q.only = P[q].only], A[q])
  /\ UNCHANGED <<slot, live>>
PSlice(p, q, a, b) ==
  /\ Is(q) /\ p # q /\ SliceDefined(A[q], a, b) /\ Do(<<"pslice", p, q, a, b>>)
  /\ LET e == IF b > CNum(P[q]) \/ b = -1 THEN CNum(P[q]) ELSE b
         r == IF a = 0 /\ b = 0 THEN [hp |-> heap, q |-> [Zero EXCEPT !.only = CFirst(P[q])]]
              ELSE IF a = e THEN [hp |-> heap, q |-> [Zero EXCEPT !.only = Src(ee, Els(P[q])[a + 1])]]
              ELSE IF a = CNum(P[q]) - 1 THEN [hp |-> heap, q |-> [Zero EXCEPT !.only = CLast(P[q])]]
              ELSE Fresh([ i \in 1..(e - a - 1) |-> Els(P[q])[a + i] ])
     IN Set(p, r, Slice(A[q], a, b))
  /\ UNCHANGED <<slot, live>>
POnly(p, x) == /\ Is(p) /\ Do(<<"ponly", p, x>>)
               /\ Set(p, [hp |-> heap, q |-> [Zero EXCEPT !.only = x]], NodePath(x))
               /\ UNCHANGED <<slot, live>>
PClear(p) == /\ Is(p) /\ Do(<<"pclear", p>>) /\ Set(p, [hp |-> heap, q |-> Zero], EmptyPath) /\ UNCHANGED <<slot, live>>

CanAppendC(q, s) == s = <<>> \/ (Chained(ee, s) /\ (CLast(q) = 0 \/ CLast(q) = Src(ee, s[1])))
AppendC(q, s) == IF s = <<>> THEN [hp |-> heap, q |-> q]
                 ELSE LET r == GoAppend(heap, q, s) IN [r EXCEPT !.q.only = 0]
PAppend(p, s) ==
  /\ Is(p) /\ Do(<<"pappend", p, s>>)
  /\ IF CanAppendC(P[p], s) THEN Set(p, AppendC(P[p], s), IF CanAppend(ee, A[p], s) THEN Append2(ee, A[p], s) ELSE Unset)
     ELSE UNCHANGED <<heap, P>> /\ A' = IF CanAppend(ee, A[p], s) THEN [A EXCEPT ![p] = Unset] ELSE A
  /\ UNCHANGED <<slot, live>>
PAppendP(p, q) ==
  /\ Is(p) /\ Is(q)
  \* a single node that does not continue the path: not specified
  /\ ~(Len(A[q].n) = 1 /\ A[p].n # <<>> /\ PLast(A[p]) # A[q].n[1])
  /\ Do(<<"pappendp", p, q>>)
  /\ LET p0 == IF CNum(P[p]) = 0 THEN [P[p] EXCEPT !.only = P[q].only] ELSE P[p]
     IN IF CanAppendC(p0, Els(P[q])) THEN Set(p, AppendC(p0, Els(P[q])), AppendPath(A[p], A[q]))
        ELSE /\ UNCHANGED heap /\ P' = [P EXCEPT ![p] = p0]
             /\ A' = IF CanAppendPath(A[p], A[q]) THEN [A EXCEPT ![p] = Unset] ELSE A
  /\ UNCHANGED <<slot, live>>
PRml(p) ==
  /\ Is(p) /\ Do(<<"prml", p>>)
  /\ Set(p, [hp |-> heap, q |-> IF P[p].only # 0 THEN [P[p] EXCEPT !.only = 0]
                                ELSE IF P[p].l = 1 THEN [Zero EXCEPT !.only = CFirst(P[p])]
                                ELSE IF P[p].l > 0 THEN [P[p] EXCEPT !.l = @ - 1] ELSE P[p]], RemoveLast(A[p]))
  /\ UNCHANGED <<slot, live>>
\* a path without edges becomes empty
PRmf0(p) ==
  /\ Is(p) /\ P[p].l = 0 /\ Do(<<"prmf", p, 0>>)
  /\ Set(p, [hp |-> heap, q |-> [P[p] EXCEPT !.only = 0]], RemoveFirst(A[p]))
  /\ UNCHANGED <<slot, live>>
\* removes the edge from the graph as well; paths over that edge are gone
PRmf(p) ==
  /\ Is(p) /\ P[p].only = 0 /\ P[p].l >= 2
  /\ LET e == Els(P[p])[1][1]
     IN /\ e \in live /\ \A i \in 2..P[p].l : Els(P[p])[i][1] # e
        /\ Do(<<"prmf", p, e>>)
        /\ heap' = heap
        /\ P' = [P EXCEPT ![p].o = @ + 1, ![p].l = @ - 1, ![p].c = @ - 1]
        /\ A' = [ q \in Slots |-> IF q = p THEN RemoveFirst(A[p]) ELSE IF Is(q) /\ e \in Range(A[q].e) THEN Unset ELSE A[q] ]
        /\ live' = live \ {e}
        /\ slot' = IF slot.arr # 0 /\ \E i \in 1..slot.l : Els(slot)[i][1] = e THEN Zero ELSE slot

Init == /\ heap = <<>> /\ P = [ p \in Slots |-> Zero ] /\ slot = Zero
        /\ A = [ p \in Slots |-> Unset ] /\ live = {1, 2, 3} /\ hist = <<>>

Step == \E p \in Slots :
          \/ \E x \in 1..NN : PNode(p, x) \/ POnly(p, x)
          \/ \E s \in Chains \cup {<<>>} : PEls(p, s)
          \/ \E s \in Chains : PSlot(p, s)
          \/ PClear(p) \/ PRml(p) \/ PRmf(p) \/ PRmf0(p)
          \/ \E s \in SeqsUpTo(MaxApp) : PAppend(p, s)
          \/ \E q \in Slots : \/ PAppendP(p, q) \/ PClone(p, q)
                              \/ \E a \in 0..3 : \E b \in {-1} \cup 0..4 : PSlice(p, q, a, b)
Next == Step /\ PrintT("SCRIPT " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

\* array numbers do not matter, only which windows share an array
Objs == Slots \cup {0}
Win(x) == IF x = 0 THEN slot ELSE P[x]
Root(x) == IF Win(x).arr = 0 THEN x ELSE CHOOSE y \in Objs : Win(y).arr = Win(x).arr /\ \A z \in Objs : Win(z).arr = Win(x).arr => y <= z
View == <<A, [ x \in Objs |-> <<Win(x).only, Win(x).o, Win(x).l, Win(x).c, Root(x), IF x = 0 THEN Els(slot) ELSE <<>> >> ], live>>

\* C11: every path is the abstract one, and a path of the graph
InvC11 == \A p \in Slots : Is(p) => Abs(P[p]) = A[p] /\ RealPath(ee, A[p])
InvPrefix == \A p, q \in Slots : Is(p) /\ Is(q) =>
                CHasPrefixPath(P[p], P[q]) = HasPrefixPath(A[p], A[q])
\* no two paths can reach the same array, none the caller's slice
InvOwn == \A x, y \in Objs : x # y /\ Win(x).arr # 0 /\ (x = 0 \/ Is(x)) /\ (y = 0 \/ Is(y)) => Win(x).arr # Win(y).arr
=============================================================================
