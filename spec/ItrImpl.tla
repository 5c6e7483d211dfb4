-------------------------------- MODULE ItrImpl ------------------------------
(* The iterators of the code (itr.go, list.go, edgemap.go, maps.go) as they    *)
(* step: an iterator is a tree of combinators, Step is one call of Next on it, *)
(* Max its MaxSize. For every tree of bounded shape, driven past its end:      *)
(* what it yields is the sequence it denotes, in order, its size estimate is   *)
(* never too small, and its end is final.                                      *)
EXTENDS Util, Json

CONSTANTS Vals, Deep
VARIABLES tree, it,   \* as it was made, and now
          got, ends   \* what came out; how often the end was reported
vars == <<tree, it, got, ends>>

\* ------------------------------------------------------------ the trees
Empty      == [k |-> "empty"]
Single(v)  == [k |-> "single", v |-> v, done |-> FALSE]
\* listIterator and the like: the elements not yet visited
List(q)    == [k |-> "list", q |-> q, n |-> Len(q)]
\* allEdgesItr: the current list, the lists to come
Lists2(qs) == [k |-> "lists", cur |-> IF qs = <<>> THEN <<>> ELSE Head(qs), rest |-> IF qs = <<>> THEN <<>> ELSE Tail(qs), n |-> SumSeq([ i \in DOMAIN qs |-> Len(qs[i]) ])]
Filter(S, t) == [k |-> "filter", S |-> S, t |-> t]
Unique(t)  == [k |-> "unique", seen |-> {}, t |-> t]
Multi(ts)  == [k |-> "multi", has |-> FALSE, cur |-> Empty, rest |-> ts]
Sized(n, t) == [k |-> "sized", n |-> n, t |-> t]

RECURSIVE Max(_)
Max(t) == CASE t.k = "empty" -> 0
            [] t.k = "single" -> 1
            [] t.k \in {"list", "lists", "sized"} -> t.n
            [] t.k \in {"filter", "unique"} -> Max(t.t)
            [] t.k = "multi" -> -1
\* the concatenation for both directions of a node (addMaxSizes)
Both(a, b) == Sized(IF Max(a) = -1 \/ Max(b) = -1 THEN -1 ELSE Max(a) + Max(b), Multi(<<a, b>>))

R(t, ok, v) == [t |-> t, ok |-> ok, v |-> v]
RECURSIVE Step(_)
Step(t) ==
  CASE t.k = "empty"  -> R(t, FALSE, 0)
    [] t.k = "single" -> IF t.done THEN R(t, FALSE, 0) ELSE R([t EXCEPT !.done = TRUE], TRUE, t.v)
    [] t.k = "list"   -> IF t.q = <<>> THEN R(t, FALSE, 0) ELSE R([t EXCEPT !.q = Tail(@)], TRUE, Head(t.q))
    [] t.k = "lists"  -> IF t.cur # <<>> THEN R([t EXCEPT !.cur = Tail(@)], TRUE, Head(t.cur))
                         ELSE IF t.rest = <<>> THEN R(t, FALSE, 0)
                         ELSE Step([t EXCEPT !.cur = Head(t.rest), !.rest = Tail(@)])
    [] t.k = "sized"  -> LET r == Step(t.t) IN R([t EXCEPT !.t = r.t], r.ok, r.v)
    [] t.k = "filter" -> LET r == Step(t.t) u == [t EXCEPT !.t = r.t]
                         IN IF ~r.ok THEN R(u, FALSE, 0) ELSE IF r.v \in t.S THEN R(u, TRUE, r.v) ELSE Step(u)
    [] t.k = "unique" -> LET r == Step(t.t) u == [t EXCEPT !.t = r.t]
                         IN IF ~r.ok THEN R(u, FALSE, 0)
                            ELSE IF r.v \in t.seen THEN Step(u) ELSE R([u EXCEPT !.seen = @ \cup {r.v}], TRUE, r.v)
    [] t.k = "multi"  -> LET r == Step(t.cur)
                         IN IF t.has /\ r.ok THEN R([t EXCEPT !.cur = r.t], TRUE, r.v)
                            ELSE IF t.rest = <<>> THEN R([t EXCEPT !.has = FALSE, !.cur = Empty], FALSE, 0)
                            ELSE Step([t EXCEPT !.has = TRUE, !.cur = Head(t.rest), !.rest = Tail(@)])

\* ------------------------------------------------------------ what they denote
RECURSIVE Den(_), Uniq(_, _)
Uniq(q, seen) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in seen THEN Uniq(Tail(q), seen) ELSE <<Head(q)>> \o Uniq(Tail(q), seen \cup {Head(q)})
Den(t) == CASE t.k = "empty" -> <<>>
            [] t.k = "single" -> <<t.v>>
            [] t.k = "list" -> t.q
            [] t.k = "lists" -> t.cur \o FlatSeq(t.rest)
            [] t.k = "sized" -> Den(t.t)
            [] t.k = "filter" -> SelectSeq(Den(t.t), LAMBDA v : v \in t.S)
            [] t.k = "unique" -> Uniq(Den(t.t), {})
            [] t.k = "multi" -> FlatSeq([ i \in DOMAIN t.rest |-> Den(t.rest[i]) ])

\* ------------------------------------------------------------ all trees
Seqs(n) == { q \in UNION { [1..k -> Vals] : k \in 0..n } : NoDup(q) }
Base == {Empty} \cup { Single(v) : v \in Vals } \cup { List(q) : q \in Seqs(2) }
        \cup { Lists2(qs) : qs \in UNION { [1..k -> { q \in Seqs(1) : q # <<>> }] : k \in 0..2 } }
Sets == IF Deep THEN SUBSET Vals ELSE { {}, {1} }
Lvl1 == Base \cup { Filter(S, t) : S \in Sets, t \in { b \in Base : b.k \in {"list", "lists"} } }
        \cup { Unique(t) : t \in { b \in Base : b.k = "lists" } }
\* two iterators, together
Lvl2(a) == { Multi(<<>>), Multi(<<a>>) } \cup { Multi(<<a, b>>) : b \in Lvl1 } \cup { Both(a, b) : b \in Lvl1 }
Lvl3(t) == { t, Unique(t), Filter({1}, t) } \cup (IF Deep THEN { Multi(<<t, List(<<1>>), t>>), Multi(<<Multi(<<>>), t>>), Unique(Both(t, List(<<2, 1>>))) } ELSE {})

None == [k |-> "none"]
Init == tree \in Lvl1 /\ it = None /\ got = <<>> /\ ends = 0
Build == /\ it.k = "none" /\ UNCHANGED <<got, ends>>
         /\ \/ tree' = tree
            \/ \E t \in Lvl2(tree) : \E u \in Lvl3(t) : tree' = u
         /\ it' = tree'
Next1 == /\ it.k # "none" /\ ends < 3 /\ LET r == Step(it) IN /\ it' = r.t
                                             /\ got' = (IF r.ok THEN Append(got, r.v) ELSE got)
                                             /\ ends' = (IF r.ok THEN ends ELSE ends + 1)
         /\ UNCHANGED tree
Next == Build \/ Next1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
InvYield == it.k # "none" =>
            /\ Prefix(got, Den(tree))
            /\ ends > 0 => got = Den(tree)
\* C18
InvSize == it.k # "none" /\ got = <<>> /\ ends = 0 => Max(tree) = -1 \/ Max(tree) >= Len(Den(tree))
InvFinal == ends > 0 => ~Step(it).ok
Terminates == <>(ends = 3)
PrintScript == got = <<>> /\ ends = 0 /\ it = tree /\ tree.k = "multi" => PrintT("SCRIPT " \o ToJson(tree))
=============================================================================
