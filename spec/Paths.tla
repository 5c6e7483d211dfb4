-------------------------------- MODULE Paths --------------------------------
(* Paths and cursors (path.go, cursor.go).                                   *)
(*                                                                           *)
(* A path is [n, e]: the node sequence it visits and the edges between them. *)
(* The empty path has no node; a path with one node has no edge. A step      *)
(* <<edge, reversed>> goes from Src to Tgt. ee maps every edge ever created  *)
(* to its ends [f, t].                                                       *)
EXTENDS Graph

EmptyPath    == [n |-> <<>>, e |-> <<>>]
NodePath(x)  == [n |-> <<x>>, e |-> <<>>]
Src(ee, s)   == IF s[2] THEN ee[s[1]].t ELSE ee[s[1]].f
Tgt(ee, s)   == IF s[2] THEN ee[s[1]].f ELSE ee[s[1]].t

PLast(p)     == IF p.n = <<>> THEN 0 ELSE p.n[Len(p.n)]
PFirst(p)    == IF p.n = <<>> THEN 0 ELSE p.n[1]

\* the steps follow each other
Chained(ee, els) == \A i \in 1..(Len(els) - 1) : Tgt(ee, els[i]) = Src(ee, els[i + 1])

CanAppend(ee, p, els) ==
  \/ els = <<>>
  \/ Chained(ee, els) /\ (p.n = <<>> \/ PLast(p) = Src(ee, els[1]))

Append2(ee, p, els) ==
  IF els = <<>> THEN p
  ELSE [n |-> (IF p.n = <<>> THEN <<Src(ee, els[1])>> ELSE p.n)
                \o [ i \in 1..Len(els) |-> Tgt(ee, els[i]) ],
        e |-> p.e \o [ i \in 1..Len(els) |-> els[i][1] ]]

CanAppendPath(p, q) == p.n = <<>> \/ Len(q.n) < 2 \/ PLast(p) = PFirst(q)
AppendPath(p, q) ==
  IF p.n = <<>> THEN q
  ELSE IF Len(q.n) < 2 THEN p
  ELSE [n |-> p.n \o Tail(q.n), e |-> p.e \o q.e]

Front(s) == SubSeq(s, 1, Len(s) - 1)
RemoveLast(p) == IF p.n = <<>> THEN p ELSE [n |-> Front(p.n), e |-> IF p.e = <<>> THEN <<>> ELSE Front(p.e)]
RemoveFirst(p) == IF p.n = <<>> THEN p ELSE [n |-> Tail(p.n), e |-> IF p.e = <<>> THEN <<>> ELSE Tail(p.e)]

\* nodes a..b-1 (0-based), b = -1 or too large meaning "to the end".
\* Defined (SliceDefined) only where path.go and its tests are unambiguous: at
\* least one edge selected, a single node a = b, or the last node.
SliceEnd(p, b)  == IF b = -1 \/ b > Len(p.n) THEN Len(p.n) ELSE b
SliceDefined(p, a, b) ==
  /\ Len(p.n) > 0 /\ a >= 0
  /\ LET e == SliceEnd(p, b)
     IN \/ a = 0 /\ b = 0
        \/ a < Len(p.n) /\ e >= a + 2
        \/ a = Len(p.n) - 1 /\ e = Len(p.n)
        \/ a = b /\ a < Len(p.e)
Slice(p, a, b) ==
  LET e == SliceEnd(p, b)
  IN IF a = 0 /\ b = 0 THEN NodePath(p.n[1])
     ELSE IF a = b \/ a = Len(p.n) - 1 THEN NodePath(p.n[a + 1])
     ELSE [n |-> SubSeq(p.n, a + 1, e), e |-> SubSeq(p.e, a + 1, e - 1)]

\* els is a prefix of p: asked only with steps in the direction they have in p
\* or of other edges
IsPrefixEdges(ee, p, els) ==
  /\ Len(p.n) >= 2
  /\ Len(els) <= Len(p.e)
  /\ \A i \in 1..Len(els) : els[i][1] = p.e[i] /\ Src(ee, els[i]) = p.n[i]
HasPrefixPath(p, q) ==
  /\ Len(q.n) <= Len(p.n)
  /\ SubSeq(p.n, 1, Len(q.n)) = q.n
  /\ SubSeq(p.e, 1, Len(q.e)) = q.e

\* a path is real: consecutive nodes are the two ends of the edge between them
RealPath(ee, p) ==
  /\ \/ p.n = <<>> /\ p.e = <<>>
     \/ Len(p.n) = Len(p.e) + 1
  /\ \A i \in 1..Len(p.e) :
        /\ p.e[i] \in DOMAIN ee
        /\ \/ ee[p.e[i]].f = p.n[i] /\ ee[p.e[i]].t = p.n[i + 1]
           \/ ee[p.e[i]].t = p.n[i] /\ ee[p.e[i]].f = p.n[i + 1]

------------------------------------------------------------------------------
(* Cursors: [node : handle or 0, has : BOOLEAN, p : path] *)
NewCursor          == [node |-> 0, has |-> FALSE, p |-> EmptyPath]
CursorSet(c, x)    == [c EXCEPT !.node = x, !.has = FALSE, !.p = EmptyPath]   \* a path has to be started
CanStart(c)        == c.node # 0
CursorStart(c)     == [c EXCEPT !.has = TRUE, !.p = NodePath(c.node)]
CanPush(ee, c, e)  == c.has /\ CanAppend(ee, c.p, << <<e, FALSE>> >>)
CursorPush(ee, c, e) == [c EXCEPT !.p = Append2(ee, @, << <<e, FALSE>> >>), !.node = ee[e].t]
\* the path is extended by the user: the cursor stays where it is until the
\* next push or pop
CursorExtend(ee, c, els) == [c EXCEPT !.p = Append2(ee, @, els)]
\* popping undoes the last push
CursorPop(c)       == LET q == RemoveLast(c.p) IN [c EXCEPT !.p = q, !.node = PLast(q)]
=============================================================================
