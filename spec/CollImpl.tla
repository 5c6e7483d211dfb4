------------------------------- MODULE CollImpl ------------------------------
(* Collections of nodes and edges as the code keeps them (sets.go, maps.go):  *)
(* fastSet is a map from identifiers to list elements plus the list; NodeMap  *)
(* has one fastSet per label and one for nodes without labels, moved about by *)
(* Add, Remove and Replace. Beside them run the abstract sets.                *)
EXTENDS Util, Json

CONSTANTS NN, Labels, MaxOps, Ops
VARIABLES ns,        \* node set: [m : id -> element, l : sequence of <<element, id>>, c: next element]
          nm, nolab, \* node map: sequence of <<label, nodes>>; nodes without labels
          lab,       \* labels of the nodes
          aset, amap,\* the abstract node set; the nodes in the node map
          hist
vars == <<ns, nm, nolab, lab, aset, amap, hist>>
View == <<[x \in DOMAIN ns.m |-> CHOOSE i \in DOMAIN ns.l : ns.l[i][1] = ns.m[x]], [ i \in DOMAIN ns.l |-> ns.l[i][2] ], nm, nolab, lab, aset, amap>>
Nodes == 1..NN

\* fastSet with elements
FAdd(f, x) == IF x \in DOMAIN f.m THEN f
              ELSE [m |-> Put(f.m, x, f.c), l |-> Append(f.l, <<f.c, x>>), c |-> f.c + 1]
FRemove(f, x) == IF x \notin DOMAIN f.m THEN f
                 ELSE [f EXCEPT !.m = Without(@, x), !.l = SelectSeq(@, LAMBDA y : y[1] # f.m[x])]
FEmpty == [m |-> EmptyFn, l |-> <<>>, c |-> 1]

\* fastSets inside the node map, as sequences
Drop(q, x)  == SelectSeq(q, LAMBDA y : y # x)
AddTo(q, x) == IF x \in Range(q) THEN q ELSE Append(q, x)
Ix(q, k)    == { i \in DOMAIN q : q[i][1] = k }
NMPut(m, l, n) == IF Ix(m, l) = {} THEN Append(m, <<l, <<n>> >>)
                  ELSE LET i == CHOOSE j \in Ix(m, l) : TRUE IN [m EXCEPT ![i] = <<l, AddTo(m[i][2], n)>>]
NMDel(m, l, n) == IF Ix(m, l) = {} THEN m
                  ELSE LET i == CHOOSE j \in Ix(m, l) : TRUE
                           q == Drop(m[i][2], n)
                       IN IF q = <<>> THEN SelectSeq(m, LAMBDA y : y[1] # l) ELSE [m EXCEPT ![i] = <<l, q>>]
RECURSIVE PutAll(_, _, _), DelAll(_, _, _)
PutAll(m, L, n) == IF L = {} THEN m ELSE LET l == CHOOSE x \in L : TRUE IN PutAll(NMPut(m, l, n), L \ {l}, n)
DelAll(m, L, n) == IF L = {} THEN m ELSE LET l == CHOOSE x \in L : TRUE IN DelAll(NMDel(m, l, n), L \ {l}, n)

Init == /\ ns = FEmpty /\ nm = <<>> /\ nolab = <<>>
        /\ lab = [ n \in Nodes |-> {} ]
        /\ aset = {} /\ amap = {} /\ hist = <<>>
Log(o) == hist' = Append(hist, o)

NsAdd == \E n \in Nodes : ns' = FAdd(ns, n) /\ aset' = aset \cup {n} /\ Log(<<"nsadd", n>>) /\ UNCHANGED <<nm, nolab, lab, amap>>
NsRm  == \E n \in Nodes : ns' = FRemove(ns, n) /\ aset' = aset \ {n} /\ Log(<<"nsrm", n>>) /\ UNCHANGED <<nm, nolab, lab, amap>>
\* a node outside the node map may change its labels
Relabel == \E n \in Nodes \ amap, L \in SUBSET Labels :
             L # lab[n] /\ lab' = [lab EXCEPT ![n] = L] /\ Log(<<"sl", n, L>>) /\ UNCHANGED <<ns, nm, nolab, aset, amap>>
NmAdd == \E n \in Nodes : /\ IF lab[n] = {} THEN nolab' = AddTo(nolab, n) /\ nm' = nm
                             ELSE nm' = PutAll(nm, lab[n], n) /\ nolab' = nolab
                          /\ amap' = amap \cup {n} /\ Log(<<"nmadd", n>>) /\ UNCHANGED <<ns, lab, aset>>
NmRm  == \E n \in Nodes : /\ IF lab[n] = {} THEN nolab' = Drop(nolab, n) /\ nm' = nm
                             ELSE nm' = DelAll(nm, lab[n], n) /\ nolab' = nolab
                          /\ amap' = amap \ {n} /\ Log(<<"nmrm", n>>) /\ UNCHANGED <<ns, lab, aset>>
NmReplace == \E n \in amap, New \in SUBSET Labels :
               LET Old == lab[n]
               IN /\ nolab' = IF Old = {} /\ New = {} THEN nolab
                              ELSE LET q == IF Old = {} THEN Drop(nolab, n) ELSE nolab IN IF New = {} THEN AddTo(q, n) ELSE q
                  /\ nm' = PutAll(DelAll(nm, Old \ New, n), New \ Old, n)
                  /\ lab' = [lab EXCEPT ![n] = New]
                  /\ Log(<<"nmrelabel", n, New>>) /\ UNCHANGED <<ns, aset, amap>>
PrintScript == PrintT("SCRIPT " \o ToJson(hist'))
Next == /\ Len(hist) < MaxOps
        /\ \/ "set" \in Ops /\ (NsAdd \/ NsRm)
           \/ "map" \in Ops /\ (Relabel \/ NmAdd \/ NmRm \/ NmReplace)
        /\ PrintScript
Spec == Init /\ [][Next]_vars

\* C23: the node set
InvSet == /\ DOMAIN ns.m = aset /\ Lists([ i \in DOMAIN ns.l |-> ns.l[i][2] ], aset)
          /\ \A x \in DOMAIN ns.m : \E i \in DOMAIN ns.l : ns.l[i] = <<ns.m[x], x>>
\* C23: the node map: iterating over everything, and over the nodes with some labels
IterAll == FlatSeq([ i \in DOMAIN nm |->
    SelectSeq(nm[i][2], LAMBDA n : Cardinality({ j \in 1..i : nm[j][1] \in lab[n] }) <= 1) ]) \o nolab
IterLabels(L) ==
  IF L = {} THEN [q |-> IterAll, max |-> -1]
  ELSE IF \E l \in L : Ix(nm, l) = {} THEN [q |-> <<>>, max |-> 0]
  ELSE LET Of(l) == nm[CHOOSE i \in Ix(nm, l) : TRUE][2]
           mn == CHOOSE l \in L : \A k \in L : Len(Of(l)) <= Len(Of(k))
       IN [q |-> SelectSeq(Of(mn), LAMBDA n : L \subseteq lab[n]), max |-> Len(Of(mn))]
InvMap == /\ Lists(IterAll, amap)
          /\ \A L \in SUBSET Labels : Lists(IterLabels(L).q, { n \in amap : L \subseteq lab[n] })
          /\ (nm = <<>> /\ nolab = <<>>) <=> amap = {}
\* C18
InvSize == \A L \in SUBSET Labels : LET r == IterLabels(L) IN r.max = -1 \/ r.max >= Len(r.q)
=============================================================================
