----------------------------- MODULE CompareImpl -----------------------------
(* ComparePropertyValue as the code computes it (properties.go), one step at  *)
(* a time: unwrapping of native values (left first), the type switch, the     *)
(* element loops, and the cases that call the opposite comparison and negate  *)
(* it. The result is compared with Compare of Values; the laws of C17 are     *)
(* checked on Compare for every pair and triple of a universe of values.      *)
EXTENDS Values, Json

CONSTANTS Mode,      \* "run": the machine on every pair; "laws": pairs and triples
          Big        \* more values
VARIABLES a, b, c,   \* the values; c only for the laws
          stack, res \* frames of the computation; res: "run" or the result

vars == <<a, b, c, stack, res>>

SeqsOf(X, n) == UNION { [1..k -> X] : k \in 0..n }
I(n) == <<"i", n>>
C(q) == <<"cs", q>>
Scal   == { I(0), I(1), C(<<>>), C(<<97>>) }
Ints   == { I(-1), I(0), I(1) }
Strs   == { C(<<>>), C(<<97>>), C(<<97, 98>>), C(<<98>>) }
LI     == { <<"li", q>> : q \in SeqsOf({0, 1}, IF Big THEN 3 ELSE 2) }
LCS    == { <<"lcs", q>> : q \in SeqsOf({ <<>>, <<97>> }, IF Big THEN 3 ELSE 2) }
LA     == { <<"la", q>> : q \in SeqsOf(Scal, 2) }
Inner  == { <<"li", <<0>>>>, <<"la", <<I(0)>>>>, <<"la", <<>>>>, <<"lcs", <<<<97>>>>>>, <<"la", <<C(<<97>>), I(1)>>>> }
Nested == { <<"la", q>> : q \in SeqsOf(Inner, IF Big THEN 2 ELSE 1) } \cup { <<"la", <<x, I(1)>>>> : x \in Inner }
Wrap   == { <<"n", x>> : x \in { I(0), I(1), C(<<97>>), <<"li", <<0, 1>>>>, <<"lcs", <<<<97>>>>>>, <<"la", <<I(0), I(1)>>>>, <<"n", I(1)>>, <<"x", "true">> } }
          \cup { <<"la", <<<<"n", I(0)>>, x>>>> : x \in { I(1), <<"n", I(1)>>, <<"n", <<"li", <<0>>>>>> } }
Other  == { <<"x", "true">>, <<"x", "nil">>, <<"x", "float">> }
V == Ints \cup Strs \cup LI \cup LCS \cup LA \cup Nested \cup Wrap \cup Other

None == <<"none">>
Frame(x, y, neg) == [k |-> "cmp", x |-> x, y |-> y, i |-> 0, neg |-> neg]

Init == /\ a \in V /\ b \in V
        /\ c = None
        /\ stack = IF Mode = "run" THEN << Frame(a, b, FALSE) >> ELSE <<>>
        /\ res = IF Mode = "run" THEN "run" ELSE "done"

Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
SetTop(f) == stack' = Append(Below, f)
Keep == UNCHANGED <<a, b, c>>
\* the value r is returned to the frame below; a frame that negates does so
RECURSIVE Return(_, _)
Return(st, r) ==
  LET f == st[Len(st)]
      v == IF f.neg THEN -r ELSE r
      rest == SubSeq(st, 1, Len(st) - 1)
  IN IF rest = <<>> THEN [st |-> <<>>, r |-> v]
     ELSE IF v # 0 THEN Return(rest, v)
     ELSE [st |-> [rest EXCEPT ![Len(rest)].i = @ + 1], r |-> "run"]
Ret(r) == LET q == Return(stack, r) IN stack' = q.st /\ res' = (IF q.st = <<>> THEN ToString(q.r) ELSE "run")
Panic == stack' = <<>> /\ res' = "panic"

Sgn(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
\* one step of the type switch
Switch ==
  /\ res = "run" /\ Top.k = "cmp" /\ Keep
  /\ LET x == Top.x y == Top.y IN
     CASE x[1] = "n" -> SetTop([Top EXCEPT !.x = x[2]]) /\ res' = res
       [] x[1] # "n" /\ y[1] = "n" -> SetTop([Top EXCEPT !.y = y[2]]) /\ res' = res
       [] x[1] = "i" /\ y[1] = "i" -> Ret(Sgn(x[2], y[2]))
       [] x[1] = "cs" /\ y[1] = "cs" -> Ret(SeqCmp(x[2], y[2]))
       [] x[1] \in {"lcs", "li"} /\ y[1] \in {x[1], "la"} -> SetTop([Top EXCEPT !.k = "loop", !.i = 1]) /\ res' = res
       [] x[1] = "la" /\ y[1] = "la" -> SetTop([Top EXCEPT !.k = "loop", !.i = 1]) /\ res' = res
       [] x[1] = "la" /\ y[1] \in {"lcs", "li"} -> SetTop([Top EXCEPT !.x = y, !.y = x, !.neg = ~@]) /\ res' = res
       [] OTHER -> Panic
\* one step of an element loop
Loop ==
  /\ res = "run" /\ Top.k = "loop" /\ Keep
  /\ LET p == Items(Top.x) q == Items(Top.y) i == Top.i IN
     IF i > Len(p) \/ i > Len(q) THEN Ret(Sgn(Len(p), Len(q)))
     ELSE stack' = Append(stack, Frame(p[i], q[i], FALSE)) /\ res' = res
Third == Mode = "laws" /\ c = None /\ c' \in V /\ UNCHANGED <<a, b, stack, res>>
Next == Switch \/ Loop \/ Third
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Code(r) == IF r = "panic" THEN Incomparable ELSE IF r = "-1" THEN -1 ELSE IF r = "0" THEN 0 ELSE 1
\* C17: the machine computes the order, and rejects only what is unrelated
InvResult == Mode = "run" /\ res # "run" => res \in {"-1", "0", "1", "panic"} /\ CmpOK(a, b, Code(res))
Terminates == <>(res # "run")
\* C17: the laws
Rel(x, y) == FullyComparable(x, y)
InvLaws ==
  Mode = "laws" =>
    /\ c = None => Compare(a, a) \in {0, Incomparable}
    /\ c = None => LET r == Compare(a, b) s == Compare(b, a) IN IF r = Incomparable THEN s = Incomparable ELSE s = -r
    /\ c = None => Rel(a, b) = Rel(b, a) /\ (Rel(a, b) => Compare(a, b) # Incomparable)
    /\ c # None /\ Rel(a, b) /\ Rel(b, c) /\ Rel(a, c) =>
         /\ Compare(a, b) <= 0 /\ Compare(b, c) <= 0 => Compare(a, c) <= 0
         \* equal values stand for one another
         /\ Compare(a, b) = 0 => Compare(a, c) = Compare(b, c)
    \* neither the Go slice type nor a wrapper matters
    /\ c = None => /\ a[1] \in {"li", "lcs"} => Compare(a, <<"la", Items(a)>>) = 0
                   /\ Compare(<<"n", a>>, b) = Compare(a, b) /\ Compare(a, <<"n", b>>) = Compare(a, b)
PrintScript == Mode = "run" /\ res = "run" /\ b = I(0) /\ Len(stack) = 1 /\ stack[1] = Frame(a, b, FALSE)
                 => PrintT("SCRIPT " \o ToJson([a |-> a, v |-> V]))
=============================================================================
