------------------------------- MODULE DotImpl -------------------------------
(* DOTRenderer.Render as the code does it (dotrenderer.go), one write or one  *)
(* renderer call at a time, for every small graph, every verdict of the two   *)
(* renderers (accept, reject, fail) and a writer that fails at any write.     *)
EXTENDS Util, Json

CONSTANTS NN, NE, Faults   \* Faults: the writer may fail
VARIABLES E, vn, ve,       \* edges <<f, t>>; verdicts of nodes and of edges
          pc, i, todo,     \* program counter; next node; edges to go
          x, id,           \* counter; node -> identifier
          out, ncalls, ecalls, res, fault

vars == <<E, vn, ve, pc, i, todo, x, id, out, ncalls, ecalls, res, fault>>
SN == 1..NN
Leq(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
EdgeLists == { s \in UNION { [1..k -> SN \X SN] : k \in 0..NE } : \A j \in 1..(Len(s) - 1) : Leq(s[j], s[j + 1]) }
Verdicts == {"accept", "reject", "fail"}

Init == /\ E \in EdgeLists
        /\ vn \in [SN -> Verdicts] /\ ve \in [1..Len(E) -> Verdicts]
        /\ pc = "open" /\ i = 1 /\ todo = {} /\ x = 0 /\ id = EmptyFn
        /\ out = <<>> /\ ncalls = <<>> /\ ecalls = <<>> /\ res = "run" /\ fault = FALSE
Fixed == UNCHANGED <<E, vn, ve>>
\* Write(tok, next): the writer takes the token, or fails and the call returns that error
Stop(r) == res' = r /\ pc' = "done"
Write(tok, next) ==
  \/ out' = Append(out, tok) /\ pc' = next /\ UNCHANGED <<res, fault>>
  \/ Faults /\ fault' = TRUE /\ Stop("err") /\ UNCHANGED out

Open == pc = "open" /\ Write(<<"digraph">>, "dir") /\ Fixed /\ UNCHANGED <<i, todo, x, id, ncalls, ecalls>>
Dir  == pc = "dir" /\ Write(<<"rankdir">>, "node") /\ Fixed /\ UNCHANGED <<i, todo, x, id, ncalls, ecalls>>
Node ==
  /\ pc = "node" /\ i <= NN /\ Fixed /\ UNCHANGED <<todo, ecalls>>
  /\ ncalls' = Append(ncalls, <<x, i>>)
  /\ CASE vn[i] = "accept" -> \/ /\ out' = Append(out, <<"node", x>>) /\ id' = Put(id, i, x) /\ x' = x + 1 /\ i' = i + 1
                                 /\ UNCHANGED <<pc, res, fault>>
                              \/ /\ Faults /\ fault' = TRUE /\ Stop("err") /\ UNCHANGED <<out, id, x, i>>
       [] vn[i] = "reject" -> i' = i + 1 /\ UNCHANGED <<pc, res, fault, out, id, x>>
       [] OTHER            -> Stop("err") /\ UNCHANGED <<fault, out, id, x, i>>
NodesDone == /\ pc = "node" /\ i > NN /\ pc' = "edge" /\ todo' = DOMAIN E
             /\ Fixed /\ UNCHANGED <<i, x, id, out, ncalls, ecalls, res, fault>>
\* edges come in the order of the edge map, which may be any
Edge == \E e \in todo :
  /\ pc = "edge" /\ Fixed /\ UNCHANGED <<i, x, id, ncalls>>
  /\ todo' = todo \ {e}
  /\ IF E[e][1] \in DOMAIN id /\ E[e][2] \in DOMAIN id
     THEN LET f == id[E[e][1]] t == id[E[e][2]]
          IN /\ ecalls' = Append(ecalls, <<f, t, e>>)
             /\ CASE ve[e] = "accept" -> Write(<<"edge", f, t, e>>, pc)
                  [] ve[e] = "reject" -> UNCHANGED <<pc, res, fault, out>>
                  [] OTHER            -> Stop("err") /\ UNCHANGED <<fault, out>>
     ELSE UNCHANGED <<ecalls, pc, res, fault, out>>
EdgesDone == pc = "edge" /\ todo = {} /\ Write(<<"end">>, "ret") /\ Fixed /\ UNCHANGED <<i, todo, x, id, ncalls, ecalls>>
Return == pc = "ret" /\ Stop("ok") /\ Fixed /\ UNCHANGED <<i, todo, x, id, out, ncalls, ecalls, fault>>
Next == Open \/ Dir \/ Node \/ NodesDone \/ Edge \/ EdgesDone \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------ what must hold
Acc == { n \in SN : vn[n] = "accept" }
Offered == { e \in DOMAIN E : E[e][1] \in Acc /\ E[e][2] \in Acc }
Drawn == { e \in Offered : ve[e] = "accept" }
Toks(k) == SelectSeq(out, LAMBDA t : t[1] = k)
\* C22
InvDone ==
  res = "ok" =>
    /\ ~fault /\ \A n \in SN : vn[n] # "fail"
    /\ \A e \in Offered : ve[e] # "fail"
    /\ out[1] = <<"digraph">> /\ out[Len(out)] = <<"end">> /\ Len(Toks("digraph")) = 1 /\ Len(Toks("end")) = 1
    /\ DOMAIN id = Acc /\ Cardinality({ id[n] : n \in Acc }) = Cardinality(Acc)
    /\ Lists([ j \in DOMAIN Toks("node") |-> Toks("node")[j][2] ], { id[n] : n \in Acc })
    /\ Lists([ j \in DOMAIN ncalls |-> ncalls[j][2] ], SN)
    /\ Lists(ecalls, { <<id[E[e][1]], id[E[e][2]], e>> : e \in Offered })
    /\ Lists(Toks("edge"), { <<"edge", id[E[e][1]], id[E[e][2]], e>> : e \in Drawn })
\* C22, C26: an error of a renderer or of the writer is returned, and nothing follows it
InvErr ==
  /\ res = "err" => \/ fault
                    \/ \E n \in SN : vn[n] = "fail"
                    \/ \E e \in Offered : ve[e] = "fail"
  /\ fault => res = "err"
  /\ \A j \in DOMAIN ncalls : vn[ncalls[j][2]] = "fail" => j = Len(ncalls) /\ res = "err" /\ ecalls = <<>>
  /\ \A j \in DOMAIN ecalls : ve[ecalls[j][3]] = "fail" => j = Len(ecalls) /\ res = "err"
Terminates == <>(pc = "done")
PrintScript == pc = "open" => PrintT("SCRIPT " \o ToJson([n |-> NN, e |-> E, vn |-> vn, ve |-> ve]))
=============================================================================
