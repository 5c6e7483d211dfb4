------------------------------- MODULE Values -------------------------------
(* Property values and their order (properties.go: ComparePropertyValue).   *)
(*                                                                           *)
(* A value is a tagged pair:                                                 *)
(*   <<"i", n>>  int            <<"s", str>>  string (an opaque TLA+ string) *)
(*   <<"cs", sq>> string given as the sequence of its byte values, used      *)
(*                where the ORDER of strings matters (TLC cannot order       *)
(*                TLA+ strings)                                              *)
(*   <<"ls", sq>> []string of opaque strings, <<"lcs", sq>> []string of byte *)
(*                sequences, <<"li", sq>> []int, <<"la", sq>> []interface{}  *)
(*                of values                                                  *)
(*   <<"n", v>>  a wrapper (WithNativeValue) around v                        *)
(*   <<"x", t>>  any value of an unsupported type (bool, float, nil, ...)    *)
EXTENDS Util

RECURSIVE Native(_)
Native(v) == IF v[1] = "n" THEN Native(v[2]) ELSE v

IsList(v) == v[1] \in {"ls", "lcs", "li", "la"}

Items(v) == CASE v[1] = "ls"  -> [ i \in 1..Len(v[2]) |-> <<"s", v[2][i]>> ]
              [] v[1] = "lcs" -> [ i \in 1..Len(v[2]) |-> <<"cs", v[2][i]>> ]
              [] v[1] = "li"  -> [ i \in 1..Len(v[2]) |-> <<"i", v[2][i]>> ]
              [] v[1] = "la"  -> v[2]

\* the two Go slice types []string and []int are unrelated to each other;
\* []interface{} is related to every list
ListsRelated(a, b) == \/ a[1] = b[1]
                      \/ a[1] = "la"
                      \/ b[1] = "la"

Incomparable == 99

RECURSIVE SeqCmp(_, _)
SeqCmp(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
  ELSE IF b = <<>> THEN 1
  ELSE IF Head(a) < Head(b) THEN -1
  ELSE IF Head(a) > Head(b) THEN 1
  ELSE SeqCmp(Tail(a), Tail(b))

(* Compare: -1, 0, 1, or Incomparable (the documented panic). *)
RECURSIVE Compare(_, _), ListCmp(_, _)
Compare(x, y) ==
  LET a == Native(x)
      b == Native(y)
  IN CASE a[1] = "i"  /\ b[1] = "i"  -> IF a[2] < b[2] THEN -1 ELSE IF a[2] > b[2] THEN 1 ELSE 0
       [] a[1] = "cs" /\ b[1] = "cs" -> SeqCmp(a[2], b[2])
       [] a[1] = "s"  /\ b[1] = "s"  -> IF a[2] = b[2] THEN 0 ELSE 1   \* only equality is meaningful
       [] IsList(a) /\ IsList(b) /\ ListsRelated(a, b) -> ListCmp(Items(a), Items(b))
       [] OTHER -> Incomparable
ListCmp(s, t) ==
  IF s = <<>> THEN (IF t = <<>> THEN 0 ELSE -1)
  ELSE IF t = <<>> THEN 1
  ELSE LET c == Compare(Head(s), Head(t))
       IN IF c = 0 THEN ListCmp(Tail(s), Tail(t)) ELSE c

\* Every pair of corresponding elements is comparable (not only the prefix up
\* to the first difference)
RECURSIVE FullyComparable(_, _)
FullyComparable(x, y) ==
  LET a == Native(x)
      b == Native(y)
  IN \/ a[1] = b[1] /\ a[1] \in {"i", "s", "cs"}
     \/ /\ IsList(a) /\ IsList(b) /\ ListsRelated(a, b)
        /\ \A i \in 1..Min2(Len(Items(a)), Len(Items(b))) :
             FullyComparable(Items(a)[i], Items(b)[i])

\* The equality used by every lookup and search: comparable and equal
EqVal(a, b) == Compare(a, b) = 0

\* a verdict r of the real function ("p" = it panicked) is right for (a, b);
\* when some later element pair is unrelated the function may either decide on
\* the first difference or reject the pair
CmpOK(a, b, r) ==
  LET c == Compare(a, b)
  IN \/ r = c
     \/ r = Incomparable /\ ~FullyComparable(a, b)

------------------------------------------------------------------------------
(* Laws, checked exhaustively over bounded values by MCValues               *)
Reflexive(V)  == \A a \in V : Compare(a, a) \in {0, Incomparable}
AntiSym(V)    == \A a, b \in V : LET c == Compare(a, b) d == Compare(b, a)
                                 IN IF c = Incomparable THEN d = Incomparable ELSE c = -d
Transitive(V) == \A a, b, c \in V :
                   (FullyComparable(a, b) /\ FullyComparable(b, c) /\ FullyComparable(a, c))
                     => (Compare(a, b) <= 0 /\ Compare(b, c) <= 0 => Compare(a, c) <= 0)
=============================================================================
