------------------------------ MODULE DecodeImpl -----------------------------
(* JSON.Decode as the code does it (json.go), token by token: the depth       *)
(* counter that skips unknown members, nodes and edges taken as they come,    *)
(* edges whose ends are not there yet put off until the end, properties       *)
(* through the hook, errors at once. The document is any sequence of members  *)
(* of a bounded grammar; it may be cut short. What it describes (DocN, DocE)  *)
(* is defined on the members, without order.                                  *)
EXTENDS Util, Json

CONSTANTS MaxNodes, MaxEmb, MaxSep, Unknown,  \* Unknown: shapes of unknown members that may occur
          Hooks, Cuts                         \* whether a hook may fail, whether the input may end early
VARIABLES doc,        \* sequence of members
          bad, cut,   \* the item whose property hook fails; number of tokens the input has, or 0 for all
          ti, depth,  \* tokens read; depth counter
          work,       \* what the current member still has to add
          nmap, made, queue, calls, res

dvars == <<doc, bad, cut>>
vars == <<dvars, ti, depth, work, nmap, made, queue, calls, res>>

\* tokens of the shapes of unknown members
Shape(u) == CASE u = "scalar" -> <<"lit">>
              [] u = "name"   -> <<"nodes">>
              [] u = "empty"  -> <<"{", "}">>
              [] u = "array"  -> <<"[", "lit", "[", "]", "edges", "]">>
              [] u = "nested" -> <<"{", "nodes", "[", "{", "n", "lit", "}", "]", "edges", "[", "]", "}">>
              [] OTHER        -> <<"[", "{", "x", "{", "}", "}", "[", "[", "]", "]", "]">>

\* node documents: [ix, to]: index, ends of the embedded edges; edges: [f, t]
Idx == 0..(MaxNodes - 1)
Ends == Idx \cup {9}
NodeSeqs == { s \in UNION { [1..k -> [ix : Idx, to : UNION { [1..m -> Ends] : m \in 0..MaxEmb }]] : k \in 0..MaxNodes } :
                /\ \A i, j \in DOMAIN s : s[i].ix = s[j].ix => i = j
                /\ { s[i].ix : i \in DOMAIN s } = 0..(Len(s) - 1)
                /\ SumSeq([ i \in DOMAIN s |-> Len(s[i].to) ]) <= MaxEmb }
EdgeSeqs == UNION { [1..k -> [f : Ends, t : Ends]] : k \in 0..MaxSep }
Members(ns, es, un) == { <<"nodes", ns>>, <<"edges", es>> } \cup { <<"unk", u>> : u \in un }
Perms(S) == { f \in [1..Cardinality(S) -> S] : Range(f) = S }
\* any of the three kinds of members may be missing, in any order
Docs == UNION { UNION { Perms(m) : m \in { Members(ns, es, un), Members(ns, es, un) \ {<<"edges", es>>}, Members(ns, es, un) \ {<<"nodes", ns>>} } }
                : ns \in NodeSeqs, es \in EdgeSeqs, un \in { {} } \cup { {u} : u \in Unknown } }

\* the tokens of a document; a known member's value is one token, read at once
MTok(m) == IF m[1] = "unk" THEN <<"unknown">> \o Shape(m[2]) ELSE <<m[1], "value">>
Toks(d) == <<"{">> \o FlatSeq([ i \in DOMAIN d |-> MTok(d[i]) ]) \o <<"}">>
NDocs(d) == FlatSeq([ i \in DOMAIN d |-> IF d[i][1] = "nodes" THEN d[i][2] ELSE <<>> ])
EDocs(d) == FlatSeq([ i \in DOMAIN d |-> IF d[i][1] = "edges" THEN d[i][2] ELSE <<>> ])
\* items: <<"n", ix>>, <<"m", ix, j>> (embedded), <<"s", j>> (separate); their edges as <<from, to, item>>
Embedded(d) == FlatSeq([ i \in DOMAIN NDocs(d) |->
                  [ j \in DOMAIN NDocs(d)[i].to |-> <<NDocs(d)[i].ix, NDocs(d)[i].to[j], <<"m", NDocs(d)[i].ix, j>>>> ] ])
Separate(d) == [ j \in DOMAIN EDocs(d) |-> <<EDocs(d)[j].f, EDocs(d)[j].t, <<"s", j, 0>>>> ]
DocN(d) == { NDocs(d)[i].ix : i \in DOMAIN NDocs(d) }
DocE(d) == Range(Embedded(d) \o Separate(d))
Items(d) == { <<"n", x, 0>> : x \in DocN(d) } \cup { e[3] : e \in DocE(d) }
Valid(d) == \A e \in DocE(d) : e[1] \in DocN(d) /\ e[2] \in DocN(d)

Init == /\ doc \in Docs
        /\ bad \in { <<"none", 0, 0>> } \cup (IF Hooks THEN Items(doc) ELSE {})
        /\ cut \in {0} \cup (IF Cuts /\ bad[1] = "none" THEN 1..(Len(Toks(doc)) - 1) ELSE {})
        /\ ti = 0 /\ depth = -1 /\ work = <<>> /\ nmap = EmptyFn /\ made = <<>> /\ queue = <<>> /\ calls = <<>> /\ res = "run"

T == Toks(doc)
Limit == IF cut = 0 THEN Len(T) ELSE cut
Fixed == UNCHANGED dvars
Err == res' = "err" /\ UNCHANGED <<work, nmap, made, queue, calls>>
Same == UNCHANGED <<work, nmap, made, queue, calls, res>>
\* the member whose key is token i
MemberAt(i) == LET k == CHOOSE m \in DOMAIN doc : SumSeq([ j \in 1..(m - 1) |-> Len(MTok(doc[j])) ]) + 2 = i IN doc[k]

Token ==
  /\ res = "run" /\ work = <<>> /\ Fixed
  /\ IF ti >= Limit THEN Err /\ UNCHANGED <<ti, depth>>
     ELSE LET tok == T[ti + 1]
          IN CASE depth = -1 -> /\ ti' = ti + 1 /\ depth' = 0 /\ Same      \* the opening brace
               [] depth = 0 /\ tok \in {"nodes", "edges"} ->
                    \* the value is decoded at once, and then added item by item
                    IF ti + 2 > Limit THEN Err /\ UNCHANGED <<ti, depth>>
                    ELSE /\ ti' = ti + 2 /\ depth' = 0
                         /\ work' = (IF tok = "nodes" THEN [ i \in DOMAIN NDocs(doc) |-> <<"node", i>> ] ELSE [ j \in DOMAIN EDocs(doc) |-> <<"edge", j>> ])
                         /\ UNCHANGED <<nmap, made, queue, calls, res>>
               [] depth = 0 /\ tok = "}" -> /\ ti' = ti + 1 /\ depth' = -2 /\ Same
               [] depth = 0 -> ti' = ti + 1 /\ depth' = 1 /\ Same          \* an unknown key
               [] OTHER -> /\ ti' = ti + 1 /\ Same
                           /\ LET d == IF tok \in {"{", "["} THEN depth + 1 ELSE IF tok \in {"}", "]"} THEN depth - 1 ELSE depth
                              IN depth' = IF d = 1 THEN 0 ELSE d

Call(x) == calls' = Append(calls, x)
AddNode ==
  /\ res = "run" /\ work # <<>> /\ Head(work)[1] = "node" /\ Fixed /\ UNCHANGED <<ti, depth>>
  /\ LET nd == NDocs(doc)[Head(work)[2]] IN
     /\ Call(<<"n", nd.ix, 0>>)
     /\ IF bad = <<"n", nd.ix, 0>> THEN res' = "err" /\ UNCHANGED <<work, nmap, made, queue>>
        ELSE /\ nmap' = Put(nmap, nd.ix, nd.ix)
             /\ work' = [ j \in DOMAIN nd.to |-> <<"emb", Head(work)[2], j>> ] \o Tail(work)
             /\ UNCHANGED <<made, queue, res>>
\* an edge with both ends there is made now, others are put off
Place(f, t, item) ==
  IF f \in DOMAIN nmap /\ t \in DOMAIN nmap
  THEN /\ Call(item)
       /\ IF bad = item THEN res' = "err" /\ UNCHANGED <<work, made, queue, nmap>>
          ELSE made' = Append(made, <<f, t, item>>) /\ work' = Tail(work) /\ UNCHANGED <<queue, nmap, res>>
  ELSE queue' = Append(queue, <<f, t, item>>) /\ work' = Tail(work) /\ UNCHANGED <<made, nmap, calls, res>>
AddEmbedded ==
  /\ res = "run" /\ work # <<>> /\ Head(work)[1] = "emb" /\ Fixed /\ UNCHANGED <<ti, depth>>
  /\ LET nd == NDocs(doc)[Head(work)[2]] j == Head(work)[3] IN Place(nd.ix, nd.to[j], <<"m", nd.ix, j>>)
AddSeparate ==
  /\ res = "run" /\ work # <<>> /\ Head(work)[1] = "edge" /\ Fixed /\ UNCHANGED <<ti, depth>>
  /\ LET j == Head(work)[2] e == EDocs(doc)[j] IN Place(e.f, e.t, <<"s", j, 0>>)
\* at the end: the edges put off
Drain ==
  /\ res = "run" /\ depth = -2 /\ Fixed /\ UNCHANGED <<ti, depth, work, nmap>>
  /\ IF queue = <<>> THEN res' = "ok" /\ UNCHANGED <<made, queue, calls>>
     ELSE LET q == Head(queue) IN
          IF q[1] \notin DOMAIN nmap \/ q[2] \notin DOMAIN nmap THEN res' = "err" /\ UNCHANGED <<made, queue, calls>>
          ELSE /\ Call(q[3]) /\ queue' = Tail(queue)
               /\ IF bad = q[3] THEN res' = "err" /\ made' = made ELSE made' = Append(made, q) /\ res' = res
Next == (depth # -2 /\ Token) \/ AddNode \/ AddEmbedded \/ AddSeparate \/ Drain
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C16: a document is accepted exactly if it is whole and every edge has its ends, and gives what it describes
InvDecode == res = "ok" => /\ cut = 0 /\ Valid(doc)
                           /\ DOMAIN nmap = DocN(doc) /\ Lists(made, DocE(doc))
InvReject == res = "err" => cut # 0 \/ ~Valid(doc) \/ bad[1] # "none"
\* C25: every property goes through the hook once; its error ends the decoding
InvHook == /\ res = "ok" => bad[1] = "none" /\ Lists(calls, Items(doc))
           /\ NoDup(calls)
           /\ \A i \in DOMAIN calls : calls[i] = bad => i = Len(calls) /\ res = "err"
InvDepth == depth >= -2 /\ (res = "run" /\ depth > 0 => ti < Len(T))
\* C26: input that ends early is an error
InvCut == res = "ok" => ti = Len(T)
Terminates == <>(res # "run")
PrintScript == ti = 0 /\ cut = 0 => PrintT("SCRIPT " \o ToJson([d |-> doc, bad |-> bad]))
=============================================================================
