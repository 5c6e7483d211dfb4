-------------------------------- MODULE Util --------------------------------
(* Small operators shared by every module of the specification.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s)     == { s[i] : i \in DOMAIN s }
Count(s, x)  == Cardinality({ i \in DOMAIN s : s[i] = x })
NoDup(s)     == Cardinality(Range(s)) = Len(s)
\* s lists exactly the elements of S, each once, in any order
Lists(s, S)  == Len(s) = Cardinality(S) /\ Range(s) = S
\* two sequences are equal as bags
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Range(s) : Count(s, x) = Count(t, x)
SetToSeqAny(S) == CHOOSE f \in [1..Cardinality(S) -> S] : Range(f) = S

Restrict(f, S)  == [ x \in (DOMAIN f) \cap S |-> f[x] ]
Without(f, x)   == TLCEval([ y \in (DOMAIN f) \ {x} |-> f[y] ])
WithoutAll(f, S) == TLCEval([ y \in (DOMAIN f) \ S |-> f[y] ])
Put(f, x, v)    == TLCEval([ y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y] ])
Has(f, x)       == x \in DOMAIN f
EmptyFn         == [ x \in {} |-> 0 ]

Map(F(_), s)    == [ i \in 1..Len(s) |-> F(s[i]) ]
Rev(s)          == [ i \in 1..Len(s) |-> s[Len(s) + 1 - i] ]
Min2(a, b)      == IF a < b THEN a ELSE b
Max2(a, b)      == IF a > b THEN a ELSE b

RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
=============================================================================
