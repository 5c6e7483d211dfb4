------------------------------ MODULE CursorImpl -----------------------------
(* A cursor as the code keeps it (cursor.go): a node pointer and a path of   *)
(* the concrete kind (single node or edge slice), while edges are added to   *)
(* and removed from the graph around it. Checked against Paths.tla's cursor. *)
EXTENDS Paths, Json

CONSTANTS NN, NE, MaxOps
VARIABLES E,         \* edge -> [f, t, l]; the edges of the graph
          next,      \* number of the next edge
          node, has, only, els,   \* the concrete cursor
          C,         \* the abstract cursor
          ends, hist

vars == <<E, next, node, has, only, els, C, ends, hist>>
Labels == {"L", "M"}
Gr == [N |-> [ n \in 1..NN |-> [l |-> {}, p |-> EmptyFn] ], E |-> [ e \in DOMAIN E |-> [f |-> E[e].f, t |-> E[e].t, l |-> E[e].l, p |-> EmptyFn] ],
       nix |-> {}, eix |-> {}]
Do(op) == Len(hist) < MaxOps /\ hist' = Append(hist, op)

SetNode(x) == /\ Do(<<"cset", x>>)
              \* a path that was started elsewhere is not continued from here
              /\ has' = FALSE /\ only' = 0 /\ els' = <<>> /\ node' = x
              /\ C' = CursorSet(C, x)
              /\ UNCHANGED <<E, next, ends>>
Start == /\ node # 0 /\ Do(<<"cstart">>)
         /\ has' = TRUE /\ only' = node /\ els' = <<>>
         /\ C' = CursorStart(C)
         /\ UNCHANGED <<E, next, node, ends>>
CLast == IF only # 0 THEN only ELSE IF els = <<>> THEN 0 ELSE ends[els[Len(els)]].t
Push(e) == /\ has /\ Do(<<"cpush", e>>)
           /\ IF CLast = 0 \/ CLast = ends[e].f
              THEN only' = 0 /\ els' = Append(els, e) /\ node' = ends[e].t
              ELSE UNCHANGED <<only, els, node>>
           /\ C' = IF CanPush(ends, C, e) THEN CursorPush(ends, C, e) ELSE C
           /\ UNCHANGED <<E, next, has, ends>>
Pop == /\ has /\ els # <<>> /\ Do(<<"cpop">>)
       /\ LET o == IF Len(els) = 1 THEN ends[els[1]].f ELSE 0
              s == SubSeq(els, 1, Len(els) - 1)
          IN /\ only' = o /\ els' = s
             /\ node' = IF o # 0 THEN o ELSE ends[s[Len(s)]].t
       /\ C' = CursorPop(C)
       /\ UNCHANGED <<E, next, has, ends>>
AddE(f, t, l) == /\ next <= NE /\ Do(<<"ne", next, f, t, l>>)
                 /\ E' = Put(E, next, [f |-> f, t |-> t, l |-> l]) /\ next' = next + 1
                 /\ ends' = Put(ends, next, [f |-> f, t |-> t])
                 /\ UNCHANGED <<node, has, only, els, C>>
RmE(e) == /\ e \notin Range(els) /\ Do(<<"rme", e>>)
          /\ E' = Without(E, e)
          /\ UNCHANGED <<next, node, has, only, els, C, ends>>

Init == /\ E = EmptyFn /\ next = 1 /\ node = 0 /\ has = FALSE /\ only = 0 /\ els = <<>> /\ C = NewCursor
        /\ ends = EmptyFn /\ hist = <<>>
Step == \/ \E x \in 1..NN : SetNode(x)
        \/ Start \/ Pop
        \/ \E e \in DOMAIN E : Push(e) \/ RmE(e)
        \/ \E f, t \in 1..NN, l \in Labels : AddE(f, t, l)
Next == Step /\ PrintT("SCRIPT " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

View == <<E, next, node, has, only, els, C>>
CAbs == [n |-> IF only # 0 THEN <<only>> ELSE IF els = <<>> THEN <<>> ELSE <<ends[els[1]].f>> \o [ i \in 1..Len(els) |-> ends[els[i]].t ], e |-> els]
\* C12
InvCursor == C.node = node /\ C.has = has /\ (has => C.p = CAbs /\ RealPath(ends, C.p) /\ PLast(C.p) = node)
\* popping undoes the last push
InvUndo == [][\A e \in DOMAIN E : (has /\ CanPush(ends, C, e)) => CursorPop(CursorPush(ends, C, e)) = C]_vars
=============================================================================
