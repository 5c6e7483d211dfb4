------------------------------ MODULE EncodeImpl -----------------------------
(* JSON.Encode as the code does it (json.go), one Write at a time: nodes in   *)
(* any order (they come from a map), edges embedded or separate, a property   *)
(* hook that fails at one item, a writer that fails at any write. The tokens  *)
(* written are parsed back as JSON and compared with the graph.               *)
EXTENDS Util, Json

CONSTANTS MaxN, MaxE, Faults
VARIABLES n, E, sep, lab, prp, bad,   \* nodes; edges <<f, t>>; nodes with labels, with properties; the item whose hook fails
          pc, todoN, cur, todoE, first, firstE,
          out, calls, res, fault

gvars == <<n, E, sep, lab, prp, bad>>
vars == <<gvars, pc, todoN, cur, todoE, first, firstE, out, calls, res, fault>>
Leq(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
EdgeLists(k) == { s \in UNION { [1..m -> (1..k) \X (1..k)] : m \in 0..MaxE } : \A j \in 1..(Len(s) - 1) : Leq(s[j], s[j + 1]) }
NoItem == <<"none", 0>>

Init == /\ n \in 0..MaxN /\ E \in EdgeLists(n) /\ sep \in BOOLEAN
        /\ lab \in SUBSET (1..n) /\ prp \in SUBSET (1..n)
        /\ bad \in {NoItem} \cup { <<"n", i>> : i \in prp } \cup { <<"e", j>> : j \in DOMAIN E }
        /\ pc = "open" /\ todoN = 1..n /\ cur = 0 /\ todoE = {} /\ first = TRUE /\ firstE = TRUE
        /\ out = <<>> /\ calls = <<>> /\ res = "run" /\ fault = FALSE

K(k) == <<"k", k>>
V(x) == <<"v", x>>
Comma == <<",">>
\* the writer takes some tokens, or fails at one of them
Write(toks, next) ==
  \/ out' = out \o toks /\ pc' = next /\ UNCHANGED <<res, fault>>
  \/ Faults /\ fault' = TRUE /\ res' = "err" /\ pc' = "done" /\ \E j \in 0..(Len(toks) - 1) : out' = out \o SubSeq(toks, 1, j)
Fail == res' = "err" /\ pc' = "done" /\ UNCHANGED <<out, fault>>
Fixed == UNCHANGED gvars
If(c, s) == IF c THEN s ELSE <<>>

Open == /\ pc = "open" /\ Fixed /\ UNCHANGED <<todoN, cur, todoE, first, firstE, calls>>
        /\ Write(<<<<"{">>>> \o If(n > 0, <<K("nodes"), <<"[">>>>), IF n > 0 THEN "node" ELSE "seps")
\* one node, up to its properties
NodeOpen == \E i \in todoN :
  /\ pc = "node" /\ Fixed /\ UNCHANGED <<todoE, firstE, calls>>
  /\ todoN' = todoN \ {i} /\ cur' = i /\ first' = FALSE
  /\ Write(If(~first, <<Comma>>) \o <<<<"{">>, K("n"), V(<<"n", i>>)>> \o If(i \in lab, <<Comma, K("labels"), V(<<"l", i>>)>>)
           \o If(i \in prp, <<Comma, K("properties")>>), "props")
NodeProps ==
  /\ pc = "props" /\ Fixed /\ UNCHANGED <<todoN, cur, first>>
  /\ todoE' = (IF sep THEN {} ELSE { j \in DOMAIN E : E[j][1] = cur }) /\ firstE' = TRUE
  /\ IF cur \in prp
     THEN /\ calls' = Append(calls, <<"n", cur>>)
          /\ IF bad = <<"n", cur>> THEN Fail ELSE Write(<<V(<<"p", cur>>)>>, "edges")
     ELSE /\ UNCHANGED <<calls, out, res, fault>> /\ pc' = "edges"
\* an edge: the separator is written before its properties are marshaled
EdgeOne == \E j \in todoE :
  /\ pc \in {"edges", "sepedges"} /\ Fixed /\ UNCHANGED <<todoN, cur, first>>
  /\ todoE' = todoE \ {j} /\ firstE' = FALSE
  /\ LET pre == IF firstE THEN If(pc = "edges", <<Comma, K("edges"), <<"[">>>>) ELSE <<Comma>>
     IN IF bad = <<"e", j>>
        THEN /\ calls' = Append(calls, <<"e", j>>)
             /\ out' = out \o pre /\ res' = "err" /\ pc' = "done" /\ fault' = fault
        ELSE /\ Write(pre \o <<V(<<"e", E[j][1], E[j][2], j, pc = "sepedges">>)>>, pc)
             /\ calls' = Append(calls, <<"e", j>>)
NodeClose ==
  /\ pc = "edges" /\ todoE = {} /\ Fixed /\ UNCHANGED <<todoN, cur, todoE, first, firstE, calls>>
  /\ Write(If(~firstE, <<<<"]">>>>) \o <<<<"}">>>>, "node")
NodesDone ==
  /\ pc = "node" /\ todoN = {} /\ Fixed /\ UNCHANGED <<todoN, cur, todoE, first, firstE, calls>>
  /\ Write(<<<<"]">>>>, "seps")
SepOpen ==
  /\ pc = "seps" /\ Fixed /\ UNCHANGED <<todoN, cur, first, calls>>
  /\ todoE' = DOMAIN E /\ firstE' = TRUE
  /\ IF sep THEN Write(If(n > 0, <<Comma>>) \o <<K("edges"), <<"[">>>>, "sepedges")
     ELSE UNCHANGED <<out, res, fault>> /\ pc' = "close"
SepClose ==
  /\ pc = "sepedges" /\ todoE = {} /\ Fixed /\ UNCHANGED <<todoN, cur, todoE, first, firstE, calls>>
  /\ Write(<<<<"]">>>>, "close")
Close ==
  /\ pc = "close" /\ Fixed /\ UNCHANGED <<todoN, cur, todoE, first, firstE, calls>>
  /\ Write(<<<<"}">>>>, "ret")
Return == /\ pc = "ret" /\ res' = "ok" /\ pc' = "done" /\ Fixed /\ UNCHANGED <<todoN, cur, todoE, first, firstE, calls, out, fault>>
Next == Open \/ NodeOpen \/ NodeProps \/ EdgeOne \/ NodeClose \/ NodesDone \/ SepOpen \/ SepClose \/ Close \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------ reading it back
Bad == [ok |-> FALSE, t |-> <<"v", 0>>, r |-> <<>>]
Good(t, r) == [ok |-> TRUE, t |-> t, r |-> r]
RECURSIVE PV(_), PM(_, _), PA(_, _)
PV(s) == IF s = <<>> THEN Bad
         ELSE CASE Head(s)[1] = "{" -> IF Len(s) > 1 /\ s[2] = <<"}">> THEN Good(<<"o", <<>>>>, SubSeq(s, 3, Len(s))) ELSE PM(Tail(s), <<>>)
                [] Head(s)[1] = "[" -> IF Len(s) > 1 /\ s[2] = <<"]">> THEN Good(<<"a", <<>>>>, SubSeq(s, 3, Len(s))) ELSE PA(Tail(s), <<>>)
                [] Head(s)[1] = "v" -> Good(Head(s), Tail(s))
                [] OTHER -> Bad
PM(s, acc) == IF s = <<>> \/ s[1][1] # "k" THEN Bad
              ELSE LET v == PV(Tail(s))
                       a2 == Append(acc, <<s[1][2], v.t>>)
                   IN IF ~v.ok \/ v.r = <<>> THEN Bad
                      ELSE IF v.r[1] = <<",">> THEN PM(Tail(v.r), a2)
                      ELSE IF v.r[1] = <<"}">> THEN Good(<<"o", a2>>, Tail(v.r)) ELSE Bad
PA(s, acc) == LET v == PV(s)
                  a2 == Append(acc, v.t)
              IN IF ~v.ok \/ v.r = <<>> THEN Bad
                 ELSE IF v.r[1] = <<",">> THEN PA(Tail(v.r), a2)
                 ELSE IF v.r[1] = <<"]">> THEN Good(<<"a", a2>>, Tail(v.r)) ELSE Bad
Keys(o) == [ i \in DOMAIN o[2] |-> o[2][i][1] ]
Mem(o, k) == o[2][CHOOSE i \in DOMAIN o[2] : o[2][i][1] = k][2]
ArrOf(o, k) == IF k \in Range(Keys(o)) THEN Mem(o, k)[2] ELSE <<>>

\* C15: a successful encoding is one document that shows every node and edge once
InvDoc ==
  res = "ok" =>
    LET p == PV(out) t == p.t
    IN /\ p.ok /\ p.r = <<>> /\ t[1] = "o" /\ NoDup(Keys(t)) /\ Range(Keys(t)) \subseteq {"nodes", "edges"}
       /\ LET nds == ArrOf(t, "nodes") IN
          /\ Lists([ i \in DOMAIN nds |-> Mem(nds[i], "n")[2][2] ], 1..n)
          /\ \A i \in DOMAIN nds :
               LET d == nds[i] x == Mem(d, "n")[2][2] IN
               /\ NoDup(Keys(d))
               /\ ("labels" \in Range(Keys(d))) = (x \in lab) /\ (x \in lab => Mem(d, "labels") = <<"v", <<"l", x>>>>)
               /\ ("properties" \in Range(Keys(d))) = (x \in prp) /\ (x \in prp => Mem(d, "properties") = <<"v", <<"p", x>>>>)
               /\ Lists([ j \in DOMAIN ArrOf(d, "edges") |-> ArrOf(d, "edges")[j][2] ],
                        IF sep THEN {} ELSE { <<"e", E[j][1], E[j][2], j, FALSE>> : j \in { k \in DOMAIN E : E[k][1] = x } })
       /\ Lists([ j \in DOMAIN ArrOf(t, "edges") |-> ArrOf(t, "edges")[j][2] ],
                IF sep THEN { <<"e", E[j][1], E[j][2], j, TRUE>> : j \in DOMAIN E } ELSE {})
\* C25: every item with properties goes through the hook once
InvHook == res = "ok" => bad = NoItem /\ Lists(calls, { <<"n", i>> : i \in prp } \cup { <<"e", j>> : j \in DOMAIN E })
\* C25, C26: a failure is reported, and there is no other reason to fail
InvErr == /\ res = "err" => fault \/ (bad # NoItem /\ bad = calls[Len(calls)])
          /\ fault => res = "err"
          /\ pc = "done" => res # "run"
Terminates == <>(pc = "done")
PrintScript == pc = "open" => PrintT("SCRIPT " \o ToJson([n |-> n, e |-> E, sep |-> sep, lab |-> lab, prp |-> prp, bad |-> bad]))
=============================================================================
