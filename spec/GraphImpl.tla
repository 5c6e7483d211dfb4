------------------------------ MODULE GraphImpl ------------------------------
(* The storage of a graph as the code does it (graph.go, list.go, edgemap.go,*)
(* maps.go, sets.go, indexes.go, hashindex.go, btreeindex.go), next to the   *)
(* abstract graph (a) it must implement. Pointers are handles, 0 is nil.     *)
(*                                                                           *)
(*  nl          head, tail, n of the node list; nnx, npv: its links          *)
(*  nm          label map: sequence of <<label, nodes>>, in the order of the *)
(*              linked hash map; nolab: the nodes without labels             *)
(*  em          edge maps: <<"all">>, <<"in", n>>, <<"out", n>> ->           *)
(*              [n, only, lists], lists = sequence of [l, head, tail, n]     *)
(*  lk          <<edge, 1..3>> -> [nx, pv]: listElements of the edge         *)
(*  nix, eix    property indexes: key -> [t, vals, els]; vals is a sequence  *)
(*              of <<value, items>> (the map of a hash index, the leaves of  *)
(*              a btree), els the list of all elements (hash index only)     *)
(*                                                                           *)
(* The invariants say that every reading algorithm returns, from this state, *)
(* what the abstract graph says.                                             *)
EXTENDS Graph, Json

CONSTANTS NodesInit,   \* number of nodes that exist initially
          MaxN, MaxE,  \* numbers of nodes and edges ever created
          NLabels,     \* node labels
          ELabels,     \* edge labels
          Keys, Ints,  \* property keys, the integers used as property values
          Ops          \* operations explored

VARIABLES s, hist

\* histories do not distinguish states
View == s

------------------------------------------------------------------------------
(* sequences as sets with order *)
Drop(q, x)  == SelectSeq(q, LAMBDA y : y # x)
\* fastSet.add: nothing if present
AddTo(q, x) == IF x \in Range(q) THEN q ELSE Append(q, x)
AssocIx(q, k) == { i \in DOMAIN q : q[i][1] = k }
Assoc(q, k) == q[CHOOSE i \in AssocIx(q, k) : TRUE][2]
AssocPut(q, k, v) == IF AssocIx(q, k) = {} THEN Append(q, <<k, v>>)
                     ELSE [ i \in DOMAIN q |-> IF q[i][1] = k THEN <<k, v>> ELSE q[i] ]
AssocDel(q, k) == SelectSeq(q, LAMBDA y : y[1] # k)

------------------------------------------------------------------------------
(* node list (list.go) *)
NLAdd(t, n) ==
  [t EXCEPT !.npv = Put(@, n, t.nl.tail),
            !.nnx = LET x == IF t.nl.tail # 0 THEN Put(@, t.nl.tail, n) ELSE @ IN Put(x, n, 0),
            !.nl  = [head |-> IF @.head = 0 THEN n ELSE @.head, tail |-> n, n |-> @.n + 1]]
NLRemove(t, n) ==
  LET pv == t.npv[n]
      nx == t.nnx[n]
  IN [t EXCEPT !.nnx = IF pv # 0 THEN Put(@, pv, nx) ELSE @,
               !.npv = IF nx # 0 THEN Put(@, nx, pv) ELSE @,
               !.nl  = [head |-> IF pv # 0 THEN @.head ELSE nx,
                        tail |-> IF nx # 0 THEN @.tail ELSE pv, n |-> @.n - 1]]
RECURSIVE NLFrom(_, _, _)
\* fuel: a cyclic list shows as a list that is too long
NLFrom(t, n, fuel) == IF n = 0 \/ fuel = 0 THEN <<>> ELSE <<n>> \o NLFrom(t, t.nnx[n], fuel - 1)
AllNodes(t) == NLFrom(t, t.nl.head, 2 * MaxN + 2)

------------------------------------------------------------------------------
(* label map (maps.go) *)
NMPut(m, l, n) == AssocPut(m, l, AddTo(IF AssocIx(m, l) = {} THEN <<>> ELSE Assoc(m, l), n))
NMDel(m, l, n) == IF AssocIx(m, l) = {} THEN m
                  ELSE LET q == Drop(Assoc(m, l), n)
                       IN IF q = <<>> THEN AssocDel(m, l) ELSE AssocPut(m, l, q)
RECURSIVE NMPutAll(_, _, _), NMDelAll(_, _, _)
NMPutAll(m, L, n) == IF L = {} THEN m ELSE LET l == CHOOSE x \in L : TRUE IN NMPutAll(NMPut(m, l, n), L \ {l}, n)
NMDelAll(m, L, n) == IF L = {} THEN m ELSE LET l == CHOOSE x \in L : TRUE IN NMDelAll(NMDel(m, l, n), L \ {l}, n)
NMAdd(t, n, L)    == IF L = {} THEN [t EXCEPT !.nolab = AddTo(@, n)] ELSE [t EXCEPT !.nm = NMPutAll(@, L, n)]
NMRemove(t, n, L) == IF L = {} THEN [t EXCEPT !.nolab = Drop(@, n)] ELSE [t EXCEPT !.nm = NMDelAll(@, L, n)]
NMReplace(t, n, Old, New) ==
  IF Old = {} /\ New = {} THEN t
  ELSE [t EXCEPT !.nolab = LET q == IF Old = {} THEN Drop(@, n) ELSE @ IN IF New = {} THEN AddTo(q, n) ELSE q,
                 !.nm = NMPutAll(NMDelAll(@, Old \ New, n), New \ Old, n)]
\* the iterator over everything: label by label, dropping a node that has
\* two of the labels seen so far; then the nodes without labels
NMIterAll(t) ==
  FlatSeq([ i \in DOMAIN t.nm |->
    SelectSeq(t.nm[i][2], LAMBDA n : Cardinality({ j \in 1..i : t.nm[j][1] \in t.a.N[n].l }) <= 1) ])
  \o t.nolab
\* candidates and size estimate of IteratorAllLabels
NMAll(t, L) ==
  IF L = {} THEN [q |-> NMIterAll(t), size |-> -1]
  ELSE IF \E l \in L : AssocIx(t.nm, l) = {} THEN [q |-> <<>>, size |-> 0]
  ELSE LET mn == CHOOSE l \in L : \A k \in L : Len(Assoc(t.nm, l)) <= Len(Assoc(t.nm, k))
       IN [q |-> SelectSeq(Assoc(t.nm, mn), LAMBDA n : L \subseteq t.a.N[n].l), size |-> Len(Assoc(t.nm, mn))]

------------------------------------------------------------------------------
(* edge lists and edge maps (list.go, edgemap.go); ix = 1 all, 2 out, 3 in   *)
EmptyEM == [n |-> 0, only |-> 0, lists |-> <<>>]
EmptyEL(l) == [l |-> l, head |-> 0, tail |-> 0, n |-> 0]
ELIx(m, l) == { i \in DOMAIN m.lists : m.lists[i].l = l }

\* both return [m, lk]
ELAdd(m, lk, e, l, ix) ==
  LET m1 == IF ELIx(m, l) = {} THEN [m EXCEPT !.lists = Append(@, EmptyEL(l))] ELSE m
      i  == CHOOSE j \in ELIx(m1, l) : TRUE
      q  == m1.lists[i]
      l1 == IF q.tail # 0 THEN Put(lk, <<q.tail, ix>>, [lk[<<q.tail, ix>>] EXCEPT !.nx = e]) ELSE lk
  IN [m  |-> [m1 EXCEPT !.lists[i] = [@ EXCEPT !.head = IF @ = 0 THEN e ELSE @, !.tail = e, !.n = @ + 1]],
      lk |-> Put(l1, <<e, ix>>, [nx |-> 0, pv |-> q.tail])]
ELRemove(m, lk, e, l, ix) ==
  LET i  == CHOOSE j \in ELIx(m, l) : TRUE
      q  == m.lists[i]
      el == lk[<<e, ix>>]
      l1 == IF el.pv # 0 THEN Put(lk, <<el.pv, ix>>, [lk[<<el.pv, ix>>] EXCEPT !.nx = el.nx]) ELSE lk
      l2 == IF el.nx # 0 THEN Put(l1, <<el.nx, ix>>, [l1[<<el.nx, ix>>] EXCEPT !.pv = el.pv]) ELSE l1
      q2 == [q EXCEPT !.head = IF el.pv # 0 THEN @ ELSE el.nx, !.tail = IF el.nx # 0 THEN @ ELSE el.pv, !.n = @ - 1]
  IN [m  |-> [m EXCEPT !.lists = IF q2.n = 0 THEN SelectSeq(@, LAMBDA y : y.l # l) ELSE [@ EXCEPT ![i] = q2]],
      lk |-> Put(l2, <<e, ix>>, [nx |-> 0, pv |-> 0])]

EMAdd(m, lk, e, Lab(_), ix) ==
  IF m.n = 0 THEN [m |-> [m EXCEPT !.only = e, !.n = 1], lk |-> lk]
  ELSE IF m.n = 1
  THEN LET r1 == ELAdd([m EXCEPT !.lists = <<>>], lk, m.only, Lab(m.only), ix)
           r2 == ELAdd(r1.m, r1.lk, e, Lab(e), ix)
       IN [m |-> [r2.m EXCEPT !.only = 0, !.n = 2], lk |-> r2.lk]
  ELSE LET r == ELAdd(m, lk, e, Lab(e), ix) IN [m |-> [r.m EXCEPT !.n = @ + 1], lk |-> r.lk]
EMRemove(m, lk, e, Lab(_), ix) ==
  IF m.n = 0 THEN [m |-> m, lk |-> lk]
  ELSE IF m.n = 1
  THEN [m |-> IF e = m.only THEN [m EXCEPT !.only = 0, !.n = 0] ELSE m, lk |-> lk]
  ELSE IF ELIx(m, Lab(e)) = {} THEN [m |-> m, lk |-> lk]
  ELSE LET r == ELRemove(m, lk, e, Lab(e), ix)
       IN IF m.n = 2 THEN [m |-> [n |-> 1, only |-> r.m.lists[1].head, lists |-> <<>>], lk |-> r.lk]
          ELSE [m |-> [r.m EXCEPT !.n = @ - 1], lk |-> r.lk]

RECURSIVE ELFrom(_, _, _, _)
ELFrom(lk, e, ix, fuel) == IF e = 0 \/ fuel = 0 THEN <<>> ELSE <<e>> \o ELFrom(lk, lk[<<e, ix>>].nx, ix, fuel - 1)
EMIter(t, m, ix) ==
  IF m.n = 0 THEN <<>> ELSE IF m.n = 1 THEN <<m.only>>
  ELSE FlatSeq([ i \in DOMAIN m.lists |-> ELFrom(t.lk, m.lists[i].head, ix, 2 * MaxE + 2) ])
EMIterLabel(t, m, l, ix) ==
  IF m.n = 0 THEN [q |-> <<>>, size |-> 0]
  ELSE IF m.n = 1 /\ l = t.a.E[m.only].l THEN [q |-> <<m.only>>, size |-> 1]
  ELSE IF ELIx(m, l) = {} THEN [q |-> <<>>, size |-> 0]
  ELSE LET x == m.lists[CHOOSE i \in ELIx(m, l) : TRUE]
       IN [q |-> ELFrom(t.lk, x.head, ix, 2 * MaxE + 2), size |-> x.n]
EMIterAny(t, m, L, ix) ==
  IF m.n = 0 THEN [q |-> <<>>, size |-> 0]
  ELSE IF m.n = 1 THEN (IF t.a.E[m.only].l \in L THEN [q |-> <<m.only>>, size |-> 1] ELSE [q |-> <<>>, size |-> 0])
  ELSE [q |-> FlatSeq([ i \in DOMAIN m.lists |->
                 IF m.lists[i].l \in L THEN EMIterLabel(t, m, m.lists[i].l, ix).q ELSE <<>> ]), size |-> -1]

EMKeys(t, e) == << <<<<"all", 0>>, 1>>, <<<<"out", t.a.E[e].f>>, 2>>, <<<<"in", t.a.E[e].t>>, 3>> >>
RECURSIVE EMDo(_, _, _, _)
EMDo(t, ks, e, add) ==
  IF ks = <<>> THEN t
  ELSE LET k == ks[1][1]
           Lab(x) == t.a.E[x].l
           m == IF k \in DOMAIN t.em THEN t.em[k] ELSE EmptyEM
           r == IF add THEN EMAdd(m, t.lk, e, Lab, ks[1][2]) ELSE EMRemove(m, t.lk, e, Lab, ks[1][2])
       IN EMDo([t EXCEPT !.em = Put(@, k, r.m), !.lk = r.lk], Tail(ks), e, add)
EMof(t, k) == IF k \in DOMAIN t.em THEN t.em[k] ELSE EmptyEM

------------------------------------------------------------------------------
(* property indexes (hashindex.go, btreeindex.go) *)
NewIx(ty) == [t |-> ty, vals |-> <<>>, els |-> <<>>]
IxAdd(x, v, id) ==
  LET q == IF AssocIx(x.vals, v) = {} THEN <<>> ELSE Assoc(x.vals, v)
  IN [x EXCEPT !.vals = AssocPut(@, v, AddTo(q, id)), !.els = IF x.t = "h" THEN Append(@, id) ELSE @]
IxRemove(x, v, id) ==
  IF AssocIx(x.vals, v) = {} THEN x
  ELSE LET q == Assoc(x.vals, v)
       IN IF id \notin Range(q) THEN x
          ELSE IF x.t = "h" THEN [x EXCEPT !.vals = AssocPut(@, v, Drop(q, id)), !.els = Drop(@, id)]
          ELSE [x EXCEPT !.vals = IF Len(q) = 1 THEN AssocDel(@, v) ELSE AssocPut(@, v, Drop(q, id))]
IxFind(x, v) == IF AssocIx(x.vals, v) = {} THEN <<>> ELSE Assoc(x.vals, v)
IxAll(x) == IF x.t = "h" THEN x.els ELSE FlatSeq([ i \in DOMAIN x.vals |-> x.vals[i][2] ])

RECURSIVE IxAddAll(_, _, _, _), IxRmAll(_, _, _, _)
\* ix: key -> index; every indexed property of p
IxAddAll(ix, p, id, K) ==
  IF K = {} THEN ix ELSE LET k == CHOOSE x \in K : TRUE IN IxAddAll([ix EXCEPT ![k] = IxAdd(@, p[k], id)], p, id, K \ {k})
IxRmAll(ix, p, id, K) ==
  IF K = {} THEN ix ELSE LET k == CHOOSE x \in K : TRUE IN IxRmAll([ix EXCEPT ![k] = IxRemove(@, p[k], id)], p, id, K \ {k})
RECURSIVE Reindex(_, _, _, _)
Reindex(x, q, P(_), k) == IF q = <<>> THEN x
  ELSE Reindex(IF k \in DOMAIN P(Head(q)) THEN IxAdd(x, P(Head(q))[k], Head(q)) ELSE x, Tail(q), P, k)

------------------------------------------------------------------------------
(* the mutations, step by step as in graph.go *)
NewNode(t, n, L, p) ==
  LET t1 == [t EXCEPT !.a = AddNode(@, n, L, p), !.cn = n]
      t2 == NLAdd(t1, n)
      t3 == NMAdd(t2, n, L)
  IN [t3 EXCEPT !.nix = IxAddAll(@, p, n, DOMAIN p \cap DOMAIN @)]
NewEdge(t, e, f, u, l, p) ==
  LET t1 == [t EXCEPT !.a = AddEdge(@, e, f, u, l, p), !.ce = e]
      t2 == EMDo(t1, << <<<<"all", 0>>, 1>>, <<<<"in", u>>, 3>>, <<<<"out", f>>, 2>> >>, e, TRUE)
  IN [t2 EXCEPT !.eix = IxAddAll(@, p, e, DOMAIN p \cap DOMAIN @)]
Unlink(t, e) == EMDo(t, << <<<<"in", t.a.E[e].t>>, 3>>, <<<<"out", t.a.E[e].f>>, 2>>, <<<<"all", 0>>, 1>> >>, e, FALSE)
RmE(t, e) ==
  LET t1 == Unlink(t, e)
      p  == t.a.E[e].p
  IN [t1 EXCEPT !.eix = IxRmAll(@, p, e, DOMAIN p \cap DOMAIN @), !.a = RmEdge(@, e),
                !.lk = [ x \in { y \in DOMAIN @ : y[1] # e } |-> @[x] ]]
SetELabel(t, e, l) ==
  LET t1 == Unlink(t, e)
      t2 == [t1 EXCEPT !.a = SetEdgeLabel(@, e, l)]
  IN EMDo(t2, << <<<<"all", 0>>, 1>>, <<<<"in", t.a.E[e].t>>, 3>>, <<<<"out", t.a.E[e].f>>, 2>> >>, e, TRUE)
RECURSIVE RmEs(_, _)
RmEs(t, q) == IF q = <<>> THEN t ELSE RmEs(RmE(t, Head(q)), Tail(q))
DetachN(t, n) ==
  LET t1 == RmEs(t, EMIter(t, EMof(t, <<"in", n>>), 3))
      t2 == [t1 EXCEPT !.em = Without(@, <<"in", n>>)]
      t3 == RmEs(t2, EMIter(t2, EMof(t2, <<"out", n>>), 2))
  IN [t3 EXCEPT !.em = Without(@, <<"out", n>>)]
RemoveN(t, n) ==
  LET t1 == DetachN(t, n)
      t2 == NLRemove(t1, n)
      t3 == NMRemove(t2, n, t.a.N[n].l)
      p  == t.a.N[n].p
  IN [t3 EXCEPT !.nix = IxRmAll(@, p, n, DOMAIN p \cap DOMAIN @), !.a = [@ EXCEPT !.N = Without(@, n)],
                !.nnx = Without(@, n), !.npv = Without(@, n)]
SetNLabels(t, n, L) == LET t1 == NMReplace(t, n, t.a.N[n].l, L) IN [t1 EXCEPT !.a = SetLabels(@, n, L)]
SetNP(t, n, k, v) ==
  LET ix == IF k \notin DOMAIN t.nix THEN t.nix
            ELSE LET x == IF k \in DOMAIN t.a.N[n].p THEN IxRemove(t.nix[k], t.a.N[n].p[k], n) ELSE t.nix[k]
                 IN Put(t.nix, k, IxAdd(x, v, n))
  IN [t EXCEPT !.nix = ix, !.a = SetNodeProp(@, n, k, v)]
RmNP(t, n, k) ==
  IF k \notin DOMAIN t.a.N[n].p THEN t
  ELSE [t EXCEPT !.nix = IF k \in DOMAIN @ THEN Put(@, k, IxRemove(@[k], t.a.N[n].p[k], n)) ELSE @,
                 !.a = RmNodeProp(@, n, k)]
SetEP(t, e, k, v) ==
  LET ix == IF k \notin DOMAIN t.eix THEN t.eix
            ELSE LET x == IF k \in DOMAIN t.a.E[e].p THEN IxRemove(t.eix[k], t.a.E[e].p[k], e) ELSE t.eix[k]
                 IN Put(t.eix, k, IxAdd(x, v, e))
  IN [t EXCEPT !.eix = ix, !.a = SetEdgeProp(@, e, k, v)]
RmEP(t, e, k) ==
  IF k \notin DOMAIN t.a.E[e].p THEN t
  ELSE [t EXCEPT !.eix = IF k \in DOMAIN @ THEN Put(@, k, IxRemove(@[k], t.a.E[e].p[k], e)) ELSE @,
                 !.a = RmEdgeProp(@, e, k)]
IxN(t, k, ty) == IF k \in DOMAIN t.nix THEN t
                 ELSE [t EXCEPT !.nix = Put(@, k, Reindex(NewIx(ty), AllNodes(t), LAMBDA n : t.a.N[n].p, k)),
                                !.a = IndexNode(@, k)]
IxE(t, k, ty) == IF k \in DOMAIN t.eix THEN t
                 ELSE [t EXCEPT !.eix = Put(@, k, Reindex(NewIx(ty), EMIter(t, EMof(t, <<"all", 0>>), 1), LAMBDA e : t.a.E[e].p, k)),
                                !.a = IndexEdge(@, k)]

------------------------------------------------------------------------------
(* reading: the plan of FindNodes and FindEdges *)
MinSizes(S) == CHOOSE x \in S : \A y \in S : x <= y
FindN(t, L, p) ==
  LET lab == NMAll(t, L)
      ps  == { Len(IxFind(t.nix[k], p[k])) : k \in DOMAIN p \cap DOMAIN t.nix }
      minp == IF ps = {} THEN -1 ELSE MinSizes(ps)
      k0  == CHOOSE k \in DOMAIN p \cap DOMAIN t.nix : Len(IxFind(t.nix[k], p[k])) = minp
      labsize == IF L = {} THEN -1 ELSE lab.size
      flt(q) == SelectSeq(q, LAMBDA n : NodeOK(t.a, n, L, p))
  IN IF L = {} /\ DOMAIN p = {} THEN AllNodes(t)
     ELSE IF labsize # -1 /\ (minp = -1 \/ minp > labsize) THEN flt(lab.q)
     ELSE IF minp # -1 THEN flt(IxFind(t.nix[k0], p[k0]))
     ELSE flt(AllNodes(t))
FindE(t, L, p) ==
  LET all == EMof(t, <<"all", 0>>)
      lab == EMIterAny(t, all, L, 1)
      ps  == { Len(IxFind(t.eix[k], p[k])) : k \in DOMAIN p \cap DOMAIN t.eix }
      minp == IF ps = {} THEN -1 ELSE MinSizes(ps)
      k0  == CHOOSE k \in DOMAIN p \cap DOMAIN t.eix : Len(IxFind(t.eix[k], p[k])) = minp
      labsize == IF L = {} THEN -1 ELSE lab.size
      flt(q) == SelectSeq(q, LAMBDA e : EdgeOK(t.a, e, L, p))
  IN IF L = {} /\ DOMAIN p = {} THEN EMIter(t, all, 1)
     ELSE IF labsize # -1 /\ (minp = -1 \/ minp > labsize) THEN flt(lab.q)
     ELSE IF minp # -1 THEN flt(IxFind(t.eix[k0], p[k0]))
     ELSE flt(EMIter(t, all, 1))

------------------------------------------------------------------------------
(* the state machine; every transition prints the history that leads to it   *)
Vals == { <<"i", x>> : x \in Ints }
Enabled(o) == o \in Ops
Live(o, t) == /\ s' = t
              /\ hist' = Append(hist, o)
              /\ PrintT("SCRIPT " \o ToJson(hist'))
PropMaps == UNION { [ K -> Vals ] : K \in SUBSET Keys }
Pairs(p) == { <<k, p[k][2]>> : k \in DOMAIN p }
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})

RECURSIVE Start(_, _)
Start(t, n) == IF n = 0 THEN t ELSE LET u == Start(t, n - 1) IN NewNode(u, n, {}, EmptyFn)
Blank == [nl |-> [head |-> 0, tail |-> 0, n |-> 0], nnx |-> EmptyFn, npv |-> EmptyFn, nm |-> <<>>, nolab |-> <<>>,
          em |-> EmptyFn, lk |-> EmptyFn, nix |-> EmptyFn, eix |-> EmptyFn, a |-> EmptyGraph, cn |-> 0, ce |-> 0]

Init == s = Start(Blank, NodesInit) /\ hist = <<>>

DoNN == /\ Enabled("nn") /\ s.cn < MaxN
        /\ \E L \in SUBSET NLabels, p \in PropMaps :
             Live(<<"nn", s.cn + 1, AsSeq(L), AsSeq(Pairs(p))>>, NewNode(s, s.cn + 1, L, p))
DoNE == /\ Enabled("ne") /\ s.ce < MaxE
        /\ \E f, u \in Nodes(s.a), l \in ELabels, p \in PropMaps :
             Live(<<"ne", s.ce + 1, f, u, l, AsSeq(Pairs(p))>>, NewEdge(s, s.ce + 1, f, u, l, p))
DoDR == Enabled("dr") /\ \E n \in Nodes(s.a) : Live(<<"dr", n>>, RemoveN(s, n))
DoDet == Enabled("det") /\ \E n \in Nodes(s.a) : Live(<<"det", n>>, DetachN(s, n))
DoSL == Enabled("sl") /\ \E n \in Nodes(s.a), L \in SUBSET NLabels : Live(<<"sl", n, AsSeq(L)>>, SetNLabels(s, n, L))
DoRME == Enabled("rme") /\ \E e \in Edges(s.a) : Live(<<"rme", e>>, RmE(s, e))
DoSEL == Enabled("sel") /\ \E e \in Edges(s.a), l \in ELabels : Live(<<"sel", e, l>>, SetELabel(s, e, l))
DoSNP == Enabled("snp") /\ \E n \in Nodes(s.a), k \in Keys, v \in Vals : Live(<<"snp", n, k, v[2]>>, SetNP(s, n, k, v))
DoRNP == Enabled("rnp") /\ \E n \in Nodes(s.a), k \in Keys : Live(<<"rnp", n, k>>, RmNP(s, n, k))
DoSEP == Enabled("sep") /\ \E e \in Edges(s.a), k \in Keys, v \in Vals : Live(<<"sep", e, k, v[2]>>, SetEP(s, e, k, v))
DoREP == Enabled("rep") /\ \E e \in Edges(s.a), k \in Keys : Live(<<"rep", e, k>>, RmEP(s, e, k))
DoIXN == Enabled("ixn") /\ \E k \in Keys, ty \in {"h", "b"} : Live(<<"ixn", k, ty>>, IxN(s, k, ty))
DoIXE == Enabled("ixe") /\ \E k \in Keys, ty \in {"h", "b"} : Live(<<"ixe", k, ty>>, IxE(s, k, ty))

Next == DoNN \/ DoNE \/ DoDR \/ DoDet \/ DoSL \/ DoRME \/ DoSEL \/ DoSNP \/ DoRNP \/ DoSEP \/ DoREP \/ DoIXN \/ DoIXE

Spec == Init /\ [][Next]_<<s, hist>>

------------------------------------------------------------------------------
(* Refinement: each reading of the structure agrees with the abstract graph  *)
InvC01 == /\ WF(s.a)
          /\ Lists(AllNodes(s), Nodes(s.a)) /\ s.nl.n = Cardinality(Nodes(s.a))
          /\ LET all == EMof(s, <<"all", 0>>)
             IN Lists(EMIter(s, all, 1), Edges(s.a)) /\ all.n = Cardinality(Edges(s.a))
InvC02 == \A n \in Nodes(s.a) :
            LET i == EMof(s, <<"in", n>>)
                o == EMof(s, <<"out", n>>)
            IN /\ Lists(EMIter(s, i, 3), InEdges(s.a, n)) /\ i.n = Cardinality(InEdges(s.a, n))
               /\ Lists(EMIter(s, o, 2), OutEdges(s.a, n)) /\ o.n = Cardinality(OutEdges(s.a, n))
               /\ \A l \in ELabels : /\ Lists(EMIterLabel(s, i, l, 3).q, LblFilter(s.a, InEdges(s.a, n), {l}))
                                     /\ Lists(EMIterLabel(s, o, l, 2).q, LblFilter(s.a, OutEdges(s.a, n), {l}))
               /\ \A L \in SUBSET ELabels : /\ Lists(EMIterAny(s, i, L, 3).q, LblFilter(s.a, InEdges(s.a, n), L))
                                            /\ Lists(EMIterAny(s, o, L, 2).q, LblFilter(s.a, OutEdges(s.a, n), L))
InvC03 == /\ \A L \in SUBSET NLabels : Lists(NMAll(s, L).q, NodesAllLabels(s.a, L))
          /\ \A L \in SUBSET ELabels : Lists(EMIterAny(s, EMof(s, <<"all", 0>>), L, 1).q, EdgesAnyLabel(s.a, L))
InvC04 == /\ \A k \in DOMAIN s.nix : /\ Lists(IxAll(s.nix[k]), NodesWithProp(s.a, k))
                                     /\ \A v \in Vals : Lists(IxFind(s.nix[k], v), FindNodes(s.a, {}, [x \in {k} |-> v]))
          /\ \A k \in DOMAIN s.eix : /\ Lists(IxAll(s.eix[k]), EdgesWithProp(s.a, k))
                                     /\ \A v \in Vals : Lists(IxFind(s.eix[k], v), FindEdges(s.a, {}, [x \in {k} |-> v]))
InvC05 == \A p \in PropMaps :
            /\ \A L \in SUBSET NLabels : Lists(FindN(s, L, p), FindNodes(s.a, L, p))
            /\ \A L \in SUBSET ELabels : Lists(FindE(s, L, p), FindEdges(s.a, L, p))
\* derived queries (alg.go, node.go, itr.go), read as the code reads them
SourcesOf(t) == SelectSeq(AllNodes(t), LAMBDA n : EMIter(t, EMof(t, <<"in", n>>), 3) = <<>>)
SinksOf(t)   == SelectSeq(AllNodes(t), LAMBDA n : EMIter(t, EMof(t, <<"out", n>>), 2) = <<>>)
Between(t, x, y) == SelectSeq(EMIter(t, EMof(t, <<"out", x>>), 2), LAMBDA e : t.a.E[e].t = y)
NextBy(t, n, l) == { t.a.E[e].t : e \in Range(EMIterLabel(t, EMof(t, <<"out", n>>), l, 2).q) }
PrevBy(t, n, l) == { t.a.E[e].f : e \in Range(EMIterLabel(t, EMof(t, <<"in", n>>), l, 3).q) }
InvC24 == /\ Lists(SourcesOf(s), Sources(s.a)) /\ Lists(SinksOf(s), Sinks(s.a))
          /\ \A x, y \in Nodes(s.a) : Lists(Between(s, x, y), EdgesBetween(s.a, x, y))
          /\ \A n \in Nodes(s.a), l \in ELabels :
               /\ NextBy(s, n, l) = Targets(s.a, LblFilter(s.a, OutEdges(s.a, n), {l}))
               /\ PrevBy(s, n, l) = Origins(s.a, LblFilter(s.a, InEdges(s.a, n), {l}))
\* size estimates
InvC18 == /\ \A L \in SUBSET NLabels : LET r == NMAll(s, L) IN r.size = -1 \/ r.size >= Len(r.q)
          /\ \A m \in Range(<<EMof(s, <<"all", 0>>)>>), L \in SUBSET ELabels :
               LET r == EMIterAny(s, m, L, 1) IN r.size = -1 \/ r.size >= Len(r.q)
          /\ \A l \in ELabels : LET r == EMIterLabel(s, EMof(s, <<"all", 0>>), l, 1) IN r.size >= Len(r.q)
=============================================================================
