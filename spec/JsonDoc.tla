------------------------------- MODULE JsonDoc -------------------------------
(* The documented JSON format of a graph (json.go).                          *)
(*                                                                           *)
(* A JSON value is a tagged tree: <<"o", key -> tree>>, <<"a", seq of tree>>,*)
(* <<"s", string>>, <<"d", number literal>>, <<"b", bool>>, <<"z">> (null).  *)
EXTENDS Iso

IsObj(t)  == t[1] = "o"
IsArr(t)  == t[1] = "a"
IsStr(t)  == t[1] = "s"
\* an integer literal: TLC takes strings as sequences of characters
Digit     == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsInt(t)  == t[1] = "d" /\ LET n == Len(t[2])
                               s == IF SubSeq(t[2], 1, 1) = "-" THEN 2 ELSE 1
                           IN s <= n /\ \A i \in s..n : SubSeq(t[2], i, i) \in Digit
Fld(t, k, dflt) == IF k \in DOMAIN t[2] THEN t[2][k] ELSE dflt
Arr(t, k)  == Fld(t, k, <<"a", <<>>>>)
Obj(t, k)  == Fld(t, k, <<"o", EmptyFn>>)

OutEdgeDocOK(t) == /\ IsObj(t)
                   /\ IsInt(Fld(t, "to", <<"d", "0">>))
                   /\ IsStr(Fld(t, "label", <<"s", "">>))
                   /\ IsObj(Obj(t, "properties"))
EdgeDocOK(t)    == OutEdgeDocOK(t) /\ IsInt(Fld(t, "from", <<"d", "0">>))
NodeDocOK(t)    == /\ IsObj(t)
                   /\ IsInt(Fld(t, "n", <<"d", "0">>))
                   /\ IsArr(Arr(t, "labels"))
                   /\ \A i \in DOMAIN Arr(t, "labels")[2] : IsStr(Arr(t, "labels")[2][i])
                   /\ IsObj(Obj(t, "properties"))
                   /\ IsArr(Arr(t, "edges"))
                   /\ \A i \in DOMAIN Arr(t, "edges")[2] : OutEdgeDocOK(Arr(t, "edges")[2][i])

Index(t)   == Fld(t, "n", <<"d", "0">>)[2]

ShapeOK(t) == /\ IsObj(t)
              /\ IsArr(Arr(t, "nodes"))
              /\ \A i \in DOMAIN Arr(t, "nodes")[2] : NodeDocOK(Arr(t, "nodes")[2][i])
              /\ IsArr(Arr(t, "edges"))
              /\ \A i \in DOMAIN Arr(t, "edges")[2] : EdgeDocOK(Arr(t, "edges")[2][i])

\* every edge of a well-shaped document: <<from index, to index, tree>>
EmbeddedSeq(t) ==
  FlatSeq([ i \in 1..Len(Arr(t, "nodes")[2]) |->
     LET nd == Arr(t, "nodes")[2][i]
         es == Arr(nd, "edges")[2]
     IN [ j \in 1..Len(es) |-> <<Index(nd), Fld(es[j], "to", <<"d", "0">>)[2], es[j]>> ] ])
SeparateSeq(t) ==
  LET es == Arr(t, "edges")[2]
  IN [ j \in 1..Len(es) |-> <<Fld(es[j], "from", <<"d", "0">>)[2], Fld(es[j], "to", <<"d", "0">>)[2], es[j]>> ]
EdgeSeq(t) == EmbeddedSeq(t) \o SeparateSeq(t)

Indexes(t)    == { Index(Arr(t, "nodes")[2][i]) : i \in 1..Len(Arr(t, "nodes")[2]) }
UniqueIdx(t)  == Cardinality(Indexes(t)) = Len(Arr(t, "nodes")[2])
NoDangling(t) == LET es == TLCEval(EdgeSeq(t))
                     ix == TLCEval(Indexes(t))
                 IN \A i \in DOMAIN es : es[i][1] \in ix /\ es[i][2] \in ix
ValidDoc(t)   == ShapeOK(t) /\ NoDangling(t)

\* property hooks: [pre, drop, fail, wrap], maybe swap: names that are
\* exchanged for each other, kinds: the name begins with the kind of the
\* value, dropk: values of these kinds are left out; the identity hook
NoHook == [pre |-> "", drop |-> <<>>, fail |-> <<>>, wrap |-> FALSE]
Hooked(h, p) ==
  LET keep == { k \in DOMAIN p : /\ k \notin Range(h.drop)
                                 /\ "dropk" \in DOMAIN h => p[k][1] \notin Range(h.dropk) }
      New(k) == h.pre \o (IF "kinds" \in DOMAIN h THEN IF h.kinds THEN p[k][1] ELSE "" ELSE "") \o (IF "swap" \in DOMAIN h THEN IF k \in DOMAIN h.swap THEN h.swap[k] ELSE k ELSE k)
      Val(k) == IF h.wrap THEN <<"a", << <<"s", "w">>, <<"s", k>>, p[k] >> >> ELSE p[k]
  IN [ nk \in { New(k) : k \in keep } |-> Val(CHOOSE k \in keep : New(k) = nk) ]

\* the graph a valid document describes, its properties passed through h
DocGraph(t, h) ==
  LET nds == Arr(t, "nodes")[2]
      es  == TLCEval(EdgeSeq(t))
  IN [N |-> [ x \in Indexes(t) |->
               LET nd == nds[CHOOSE i \in 1..Len(nds) : Index(nds[i]) = x]
                   ls == Arr(nd, "labels")[2]
               IN [l |-> { ls[i][2] : i \in DOMAIN ls }, p |-> Hooked(h, Obj(nd, "properties")[2])] ],
      E |-> [ i \in 1..Len(es) |->
               [f |-> es[i][1], t |-> es[i][2], l |-> Fld(es[i][3], "label", <<"s", "">>)[2],
                p |-> Hooked(h, Obj(es[i][3], "properties")[2])] ],
      nix |-> {}, eix |-> {}]

\* the properties of a document as a sequence of <<key, value>>
RECURSIVE KVSeq(_, _)
KVSeq(p, S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : TRUE IN << <<k, p[k]>> >> \o KVSeq(p, S \ {k})
DocProps(t) ==
  LET nds == Arr(t, "nodes")[2]
      es  == TLCEval(EdgeSeq(t))
      PS(p) == KVSeq(p, DOMAIN p)
  IN FlatSeq([ i \in 1..Len(nds) |-> PS(Obj(nds[i], "properties")[2]) ])
     \o FlatSeq([ i \in 1..Len(es) |-> PS(Obj(es[i][3], "properties")[2]) ])

\* number literals no property value can hold (they exceed a float64)
TooBig == {"1e999", "-1e999", "1E+400", "12345e308"}
RECURSIVE Unreadable(_)
Unreadable(t) == CASE t[1] = "d" -> t[2] \in TooBig
                   [] t[1] = "a" -> \E i \in DOMAIN t[2] : Unreadable(t[2][i])
                   [] t[1] = "o" -> \E k \in DOMAIN t[2] : Unreadable(t[2][k])
                   [] OTHER -> FALSE
UnreadableProp(t) == LET ps == DocProps(t) IN \E i \in DOMAIN ps : Unreadable(ps[i][2])

------------------------------------------------------------------------------
(* The JSON image of a graph *)
RECURSIVE JImg(_)
JImg(v) == CASE v[1] = "i"  -> <<"d", ToString(v[2])>>
             [] v[1] = "s"  -> v
             [] v[1] = "ls" -> <<"a", [ i \in 1..Len(v[2]) |-> <<"s", v[2][i]>> ]>>
             [] v[1] = "li" -> <<"a", [ i \in 1..Len(v[2]) |-> <<"d", ToString(v[2][i])>> ]>>
             [] v[1] = "la" -> <<"a", [ i \in 1..Len(v[2]) |-> JImg(v[2][i]) ]>>
             [] v[1] = "j"  -> v[2]
JProps(p) == [ k \in DOMAIN p |-> JImg(p[k]) ]
JGraph(g, h) == [N |-> [ n \in Nodes(g) |-> [l |-> g.N[n].l, p |-> Hooked(h, JProps(g.N[n].p))] ],
                 E |-> [ e \in Edges(g) |-> [g.E[e] EXCEPT !.p = Hooked(h, JProps(g.E[e].p))] ],
                 nix |-> {}, eix |-> {}]
GraphProps(g) ==
  LET RECURSIVE All(_, _)
      All(f, S) == IF S = {} THEN <<>>
                   ELSE LET x == CHOOSE y \in S : TRUE
                            p == JProps(f[x].p)
                        IN KVSeq(p, DOMAIN p) \o All(f, S \ {x})
  IN All(g.N, Nodes(g)) \o All(g.E, Edges(g))

\* the encoding uses the documented members only
EncodedShape(t, sep) ==
  /\ ShapeOK(t) /\ UniqueIdx(t) /\ NoDangling(t)
  /\ DOMAIN t[2] \subseteq {"nodes", "edges"}
  /\ \A i \in DOMAIN Arr(t, "nodes")[2] :
       LET nd == Arr(t, "nodes")[2][i]
       IN /\ "n" \in DOMAIN nd[2]
          /\ DOMAIN nd[2] \subseteq {"n", "labels", "properties", "edges"}
          /\ NoDup(Arr(nd, "labels")[2])
          /\ \A j \in DOMAIN Arr(nd, "edges")[2] :
               LET e == Arr(nd, "edges")[2][j]
               IN "to" \in DOMAIN e[2] /\ DOMAIN e[2] \subseteq {"to", "label", "properties"}
  /\ \A j \in DOMAIN Arr(t, "edges")[2] :
       LET e == Arr(t, "edges")[2][j]
       IN {"from", "to"} \subseteq DOMAIN e[2] /\ DOMAIN e[2] \subseteq {"from", "to", "label", "properties"}
  /\ sep => EmbeddedSeq(t) = <<>>
  /\ ~sep => SeparateSeq(t) = <<>>
=============================================================================
