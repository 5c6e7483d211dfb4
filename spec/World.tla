-------------------------------- MODULE World --------------------------------
(* The whole observable system: several graphs, paths, cursors, sets, copies.*)
(* Apply(w, o) performs one recorded operation o on the abstract world w and *)
(* says whether the recorded outcome is one the specification allows;        *)
(* ResultOK(w, q) says whether a recorded query result is the specified one. *)
EXTENDS Patterns, JsonDoc

EmptyWorld == [gr |-> EmptyFn,   \* graph handle -> graph
               no |-> EmptyFn,   \* node handle  -> graph handle (also of removed nodes)
               eo |-> EmptyFn,   \* edge handle  -> graph handle
               ee |-> EmptyFn,   \* edge handle  -> [f, t] (also of removed edges)
               pa |-> EmptyFn,   \* path handle  -> path
               cu |-> EmptyFn,   \* cursor handle-> cursor
               ss |-> EmptyFn,   \* string-set handle -> set of strings
               ns |-> EmptyFn,   \* node-set handle   -> set of nodes
               es |-> EmptyFn,   \* edge-set handle   -> set of edges
               nm |-> EmptyFn,   \* node-map handle   -> set of nodes
               cm |-> EmptyFn,   \* copy-map handle   -> source node -> copy
               ids |-> EmptyFn,  \* <<"n"|"e", handle>> -> identifier
               mem |-> EmptyFn]  \* query key -> remembered result

Ok(w)          == [ok |-> TRUE, w |-> w]
Bad(w)         == [ok |-> FALSE, w |-> w]
Expect(o, x)   == o.out = x
\* the operation must succeed and leads to w2
Does(o, w, w2) == [ok |-> o.out = "ok", w |-> w2]
\* the operation must be refused and change nothing
Refused(o, w)  == [ok |-> o.out = "panic", w |-> w]

G(w, h)        == w.gr[h]
NodeGraph(w, n) == w.gr[w.no[n]]
EdgeGraph(w, e) == w.gr[w.eo[e]]
OnNode(w, n, Op(_)) == [w EXCEPT !.gr[w.no[n]] = Op(@)]
OnEdge(w, e, Op(_)) == [w EXCEPT !.gr[w.eo[e]] = Op(@)]

------------------------------------------------------------------------------
(* Copies (clone.go) *)
CloneVal(cf, k, v)  == CASE cf = "tag" -> <<"la", << <<"s", k>>, v >> >>
                         [] cf = "const" -> <<"s", "const">>
                         [] OTHER -> v
CloneProps(cf, p)   == [ k \in DOMAIN p |-> CloneVal(cf, k, p[k]) ]
PairFn(ps)          == [ x \in { ps[i][1] : i \in DOMAIN ps } |->
                           ps[CHOOSE i \in DOMAIN ps : ps[i][1] = x][2] ]

RECURSIVE Reach(_, _, _)
Reach(g, R, stop) == LET R2 == R \cup ({ g.E[e].t : e \in { x \in Edges(g) : g.E[x].f \in R } } \ stop)
                     IN IF R2 = R THEN R ELSE Reach(g, R2, stop)

(* o reports nm (source, copy pairs), newn and newe (what is new in the      *)
(* target). NS, ES: the nodes and edges of sg that must have been copied;    *)
(* old: the node map before                                                  *)
CopyOK(sg, NS, ES, old, o) ==
  LET m    == PairFn(o.nm)
      newn == o.newn
      newh == { newn[i][1] : i \in DOMAIN newn }
      want == [ i \in DOMAIN o.newe |-> <<o.newe[i][2], o.newe[i][3], o.newe[i][4], o.newe[i][5]>> ]
      img(e) == <<m[sg.E[e].f], m[sg.E[e].t], sg.E[e].l, CloneProps(o.cf, sg.E[e].p)>>
  IN /\ Len(o.nm) = Cardinality(DOMAIN m)
     /\ DOMAIN m = NS \cup DOMAIN old
     /\ \A x \in DOMAIN old : m[x] = old[x]
     /\ Len(newn) = Cardinality(NS)
     /\ { m[x] : x \in NS } = newh
     /\ Cardinality(newh) = Cardinality(NS)
     /\ \A x \in NS : \E i \in DOMAIN newn :
          /\ newn[i][1] = m[x]
          /\ Range(newn[i][2]) = sg.N[x].l
          /\ newn[i][3] = CloneProps(o.cf, sg.N[x].p)
     /\ Len(o.newe) = Cardinality(ES)
     /\ \A e \in ES : Count(want, img(e)) = Cardinality({ x \in ES : img(x) = img(e) })

Absorb(w, d, o) ==
  LET nh == { o.newn[i][1] : i \in DOMAIN o.newn }
      eh == { o.newe[i][1] : i \in DOMAIN o.newe }
      nr(h) == LET r == o.newn[CHOOSE i \in DOMAIN o.newn : o.newn[i][1] = h]
               IN [l |-> Range(r[2]), p |-> r[3]]
      er(h) == LET r == o.newe[CHOOSE i \in DOMAIN o.newe : o.newe[i][1] = h]
               IN [f |-> r[2], t |-> r[3], l |-> r[4], p |-> r[5]]
  IN [w EXCEPT !.gr[d].N = [ h \in DOMAIN @ \cup nh |-> IF h \in nh THEN nr(h) ELSE @[h] ],
               !.gr[d].E = [ h \in DOMAIN @ \cup eh |-> IF h \in eh THEN er(h) ELSE @[h] ],
               !.no = [ h \in DOMAIN @ \cup nh |-> IF h \in nh THEN d ELSE @[h] ],
               !.eo = [ h \in DOMAIN @ \cup eh |-> IF h \in eh THEN d ELSE @[h] ],
               !.ee = [ h \in DOMAIN @ \cup eh |-> IF h \in eh THEN [f |-> er(h).f, t |-> er(h).t] ELSE @[h] ]]

ApplyCopy(w, o) ==
  CASE o.op = "copyg" ->
         LET sg == G(w, o.g)
         IN IF o.out = "ok" /\ CopyOK(sg, Nodes(sg), Edges(sg), EmptyFn, o)
            THEN Ok([Absorb(w, o.d, o) EXCEPT !.cm = IF "cm" \in DOMAIN o THEN Put(@, o.cm, PairFn(o.nm)) ELSE @])
            ELSE Bad(w)
    [] o.op = "copyf" ->
         LET sg == G(w, o.g)
             \* some nodes are represented by nodes that were there before
             onto == IF "onto" \in DOMAIN o THEN PairFn(o.onto) ELSE EmptyFn
             NS == Nodes(sg) \ (Range(o.skipn) \cup DOMAIN onto)
             ND == NS \cup DOMAIN onto
             EO == { e \in Edges(sg) : sg.E[e].f \in ND /\ sg.E[e].t \in ND }
         IN IF o.out = "ok" /\ Lists(o.offered, EO) /\ CopyOK(sg, NS, EO \ Range(o.skipe), onto, o)
            THEN Ok(Absorb(w, o.d, o)) ELSE Bad(w)
    [] o.op = "copysub" ->
         LET sg  == NodeGraph(w, o.n)
             old == IF o.cm \in DOMAIN w.cm THEN w.cm[o.cm] ELSE EmptyFn
             NS  == IF o.n \in DOMAIN old THEN {} ELSE Reach(sg, {o.n}, DOMAIN old)
             ES  == { e \in Edges(sg) : sg.E[e].f \in NS }
         IN IF o.out = "ok" /\ CopyOK(sg, NS, ES, old, o)
            THEN Ok([Absorb(w, o.d, o) EXCEPT !.cm = Put(@, o.cm, PairFn(o.nm))]) ELSE Bad(w)
    [] o.op = "copyn" ->
         LET r == NodeGraph(w, o.n).N[o.n]
         IN Does(o, w, [w EXCEPT !.gr[o.d] = AddNode(@, o.h, r.l, CloneProps(o.cf, r.p)),
                                 !.no = Put(@, o.h, o.d)])
    [] o.op \in {"copye", "clonee"} ->
         LET r == EdgeGraph(w, o.e).E[o.e]
             f == IF o.op = "copye" THEN w.cm[o.cm][r.f] ELSE o.f
             t == IF o.op = "copye" THEN w.cm[o.cm][r.t] ELSE o.t
         IN IF f \in Nodes(G(w, o.d)) /\ t \in Nodes(G(w, o.d))
            THEN Does(o, w, [w EXCEPT !.gr[o.d] = AddEdge(@, o.h, f, t, r.l, CloneProps(o.cf, r.p)),
                                      !.eo = Put(@, o.h, o.d),
                                      !.ee = Put(@, o.h, [f |-> f, t |-> t])])
            ELSE Refused(o, w)

------------------------------------------------------------------------------
(* Paths and cursors *)
ApplyPath(w, o) ==
  LET Set(p) == [w EXCEPT !.pa = Put(@, o.h, p)]
      cur    == w.cu[o.h]
      SetC(c) == [w EXCEPT !.cu = Put(@, o.h, c)]
  IN CASE o.op = "pnode"  -> Does(o, w, Set(NodePath(o.n)))
       [] o.op = "pels"   -> Does(o, w, Set(Append2(w.ee, EmptyPath, o.els)))
       [] o.op = "pedges" -> Does(o, w, Set(Append2(w.ee, EmptyPath, [ i \in 1..Len(o.es) |-> <<o.es[i], FALSE>> ])))
       [] o.op = "pempty" -> Does(o, w, Set(EmptyPath))
       [] o.op = "pclone" -> Does(o, w, Set(w.pa[o.s]))
       [] o.op = "pslice" -> Does(o, w, Set(Slice(w.pa[o.s], o.a, o.b)))
       [] o.op = "ponly"  -> Does(o, w, Set(NodePath(o.n)))
       [] o.op = "pclear" -> Does(o, w, Set(EmptyPath))
       [] o.op = "pappend" -> IF CanAppend(w.ee, w.pa[o.h], o.els)
                              THEN Does(o, w, Set(Append2(w.ee, w.pa[o.h], o.els)))
                              ELSE Refused(o, w)
       [] o.op = "pappendp" -> IF CanAppendPath(w.pa[o.h], w.pa[o.s])
                               THEN Does(o, w, Set(AppendPath(w.pa[o.h], w.pa[o.s])))
                               ELSE Refused(o, w)
       [] o.op = "prml"   -> Does(o, w, Set(RemoveLast(w.pa[o.h])))
       [] o.op = "prmf"   -> \* documented to remove the edge from the graph
            LET p  == w.pa[o.h]
                w2 == Set(RemoveFirst(p))
            IN Does(o, w, IF p.e = <<>> THEN w2
                          ELSE OnEdge(w2, p.e[1], LAMBDA g : RmEdge(g, p.e[1])))
       [] o.op = "cnew"   -> Does(o, w, SetC(NewCursor))
       [] o.op = "cset"   -> Does(o, w, SetC(CursorSet(cur, o.n)))
       [] o.op = "cstart" -> IF CanStart(cur) THEN Does(o, w, SetC(CursorStart(cur))) ELSE Refused(o, w)
       [] o.op = "cpush"  -> IF CanPush(w.ee, cur, o.e) THEN Does(o, w, SetC(CursorPush(w.ee, cur, o.e)))
                             ELSE Refused(o, w)
       [] o.op = "capp"   -> IF cur.has /\ CanAppend(w.ee, cur.p, o.els) THEN Does(o, w, SetC(CursorExtend(w.ee, cur, o.els)))
                             ELSE Refused(o, w)
       [] o.op = "cpop"   -> Does(o, w, SetC(CursorPop(cur)))

------------------------------------------------------------------------------
(* String sets, node and edge sets, node maps *)
ApplySet(w, o) ==
  LET SetS(x) == [w EXCEPT !.ss = Put(@, o.h, x)]
  IN CASE o.op = "ssnew"   -> Does(o, w, SetS(Range(o.ls)))
       [] o.op = "sszero"  -> Does(o, w, SetS({}))
       [] o.op \in {"sscopy", "ssclone", "ssjson"} -> Does(o, w, SetS(w.ss[o.s]))
       [] o.op = "ssadd"   -> Does(o, w, SetS(w.ss[o.h] \cup Range(o.ls)))
       [] o.op = "ssaddset" -> Does(o, w, SetS(w.ss[o.h] \cup w.ss[o.s]))
       [] o.op = "ssrm"    -> Does(o, w, SetS(w.ss[o.h] \ Range(o.ls)))
       [] o.op = "ssunm"   -> Does(o, w, SetS(Range(o.ls)))
       [] o.op = "ssbadunm" -> [ok |-> o.out = "ok" /\ "noerr" \notin DOMAIN o, w |-> w]
       [] o.op = "ssnode"  -> Does(o, w, SetS(NodeGraph(w, o.n).N[o.n].l))
       [] o.op = "sssetl"  -> Does(o, w, OnNode(w, o.n, LAMBDA g : SetLabels(g, o.n, w.ss[o.s])))
       [] o.op = "nsnew"   -> Does(o, w, [w EXCEPT !.ns = Put(@, o.h, {})])
       [] o.op = "nsadd"   -> Does(o, w, [w EXCEPT !.ns[o.h] = @ \cup {o.n}])
       [] o.op = "nsrm"    -> Does(o, w, [w EXCEPT !.ns[o.h] = @ \ {o.n}])
       [] o.op = "esnew"   -> Does(o, w, [w EXCEPT !.es = Put(@, o.h, {})])
       [] o.op = "esadd"   -> Does(o, w, [w EXCEPT !.es[o.h] = @ \cup {o.e}])
       [] o.op = "esrm"    -> Does(o, w, [w EXCEPT !.es[o.h] = @ \ {o.e}])
       [] o.op = "nmnew"   -> Does(o, w, [w EXCEPT !.nm = Put(@, o.h, {})])
       [] o.op = "nmadd"   -> Does(o, w, [w EXCEPT !.nm[o.h] = @ \cup {o.n}])
       [] o.op = "nmrm"    -> Does(o, w, [w EXCEPT !.nm[o.h] = @ \ {o.n}])
       [] o.op = "nmrelabel" -> Does(o, w, OnNode(w, o.n, LAMBDA g : SetLabels(g, o.n, Range(o.ls))))

------------------------------------------------------------------------------
(* Graph mutations *)
\* the labels an operation gives, or those of another node
LabelsGiven(w, o) == IF "src" \in DOMAIN o THEN NodeGraph(w, o.src).N[o.src].l ELSE Range(o.ls)
ApplyGraph(w, o) ==
  CASE o.op = "ng"  -> Does(o, w, [w EXCEPT !.gr = Put(@, o.g, EmptyGraph)])
    [] o.op = "nn"  -> Does(o, w, [w EXCEPT !.gr[o.g] = AddNode(@, o.h, LabelsGiven(w, o), o.p),
                                            !.no = Put(@, o.h, o.g)])
    [] o.op = "ne"  -> IF o.f \in Nodes(G(w, o.g)) /\ o.t \in Nodes(G(w, o.g))
                       THEN Does(o, w, [w EXCEPT !.gr[o.g] = AddEdge(@, o.h, o.f, o.t, o.l, o.p),
                                                 !.eo = Put(@, o.h, o.g),
                                                 !.ee = Put(@, o.h, [f |-> o.f, t |-> o.t])])
                       ELSE Refused(o, w)
    [] o.op = "sl"  -> Does(o, w, OnNode(w, o.h, LAMBDA g : SetLabels(g, o.h, LabelsGiven(w, o))))
    [] o.op = "snp" -> Does(o, w, OnNode(w, o.h, LAMBDA g : SetNodeProp(g, o.h, o.k, o.v)))
    [] o.op = "rnp" -> Does(o, w, OnNode(w, o.h, LAMBDA g : RmNodeProp(g, o.h, o.k)))
    [] o.op = "sel" -> Does(o, w, OnEdge(w, o.h, LAMBDA g : SetEdgeLabel(g, o.h, o.l)))
    [] o.op = "sep" -> Does(o, w, OnEdge(w, o.h, LAMBDA g : SetEdgeProp(g, o.h, o.k, o.v)))
    [] o.op = "rep" -> Does(o, w, OnEdge(w, o.h, LAMBDA g : RmEdgeProp(g, o.h, o.k)))
    [] o.op = "rme" -> Does(o, w, OnEdge(w, o.h, LAMBDA g : RmEdge(g, o.h)))
    [] o.op = "det" -> Does(o, w, OnNode(w, o.h, LAMBDA g : Detach(g, o.h)))
    [] o.op = "dr"  -> Does(o, w, OnNode(w, o.h, LAMBDA g : DetachRemove(g, o.h)))
    [] o.op = "ixn" -> Does(o, w, [w EXCEPT !.gr[o.g] = IndexNode(@, o.k)])
    [] o.op = "ixe" -> Does(o, w, [w EXCEPT !.gr[o.g] = IndexEdge(@, o.k)])
    [] o.op = "mutl" -> Does(o, w, w)     \* changes a copy of the labels
    [] o.op = "burst" -> Does(o, w, w)    \* nodes or loops that come and go

GraphOps == {"ng", "nn", "ne", "sl", "snp", "rnp", "sel", "sep", "rep", "rme", "det", "dr", "ixn", "ixe", "mutl", "burst"}
CopyOps  == {"copyg", "copyf", "copysub", "copyn", "copye", "clonee"}
PathOps  == {"pnode", "pels", "pedges", "pempty", "pclone", "pslice", "ponly", "pclear", "pappend", "pappendp",
             "prml", "prmf", "cnew", "cset", "cstart", "cpush", "capp", "cpop"}

Apply(w, o) == CASE o.op \in GraphOps -> ApplyGraph(w, o)
                 [] o.op \in CopyOps  -> ApplyCopy(w, o)
                 [] o.op \in PathOps  -> ApplyPath(w, o)
                 [] OTHER             -> ApplySet(w, o)

------------------------------------------------------------------------------
(* Query results *)
Dirs == {"in", "out", "any"}
\* both directions: incoming ones plus outgoing ones, so a self loop counts twice
AdjOK(g, n, d, S, r) ==
  CASE d = "in"  -> Lists(r, InEdges(g, n) \cap S)
    [] d = "out" -> Lists(r, OutEdges(g, n) \cap S)
    [] OTHER     -> /\ Len(r) = Cardinality(InEdges(g, n) \cap S) + Cardinality(OutEdges(g, n) \cap S)
                    /\ \A e \in Range(r) \cup ((InEdges(g, n) \cup OutEdges(g, n)) \cap S) :
                         Count(r, e) = (IF e \in InEdges(g, n) \cap S THEN 1 ELSE 0)
                                       + (IF e \in OutEdges(g, n) \cap S THEN 1 ELSE 0)

SnapOK(g, r) ==
  /\ r.nn = Cardinality(Nodes(g)) /\ r.ne = Cardinality(Edges(g))
  /\ Len(r.nodes) = Cardinality(Nodes(g)) /\ Len(r.edges) = Cardinality(Edges(g))
  /\ { r.nodes[i][1] : i \in DOMAIN r.nodes } = Nodes(g)
  /\ { r.edges[i][1] : i \in DOMAIN r.edges } = Edges(g)
  /\ \A i \in DOMAIN r.nodes : LET x == r.nodes[i] IN Range(x[2]) = g.N[x[1]].l /\ x[3] = g.N[x[1]].p
  /\ \A i \in DOMAIN r.edges : LET x == r.edges[i] y == g.E[x[1]]
                               IN x[2] = y.f /\ x[3] = y.t /\ x[4] = y.l /\ x[5] = y.p

PathOK(p, r) ==
  /\ r.n = p.n /\ r.e = p.e
  /\ r.nn = Len(p.n) /\ r.ne = Len(p.e)
  /\ r.empty = (p.n = <<>>)
  /\ r.first = PFirst(p) /\ r.last = PLast(p)
  /\ p.n # <<>> => r.over = TRUE

SymOf(q)  == IF "sym" \in DOMAIN q THEN q.sym ELSE EmptyFn
WrongKind(pat, sym) == \E i \in 1..Len(pat) : /\ pat[i].name \in DOMAIN sym
                                              /\ sym[pat[i].name][1] # (IF i % 2 = 1 THEN "n" ELSE "e")

CursorDir(q) == CASE q.m \in {"edges", "nodes", "with"} -> q.d
                  [] q.m \in {"fwd", "fwdw", "next", "nextw"} -> "out"
                  [] OTHER -> "in"
CursorEdges(g, q) == IF "l" \in DOMAIN q THEN LblFilter(g, Edges(g), {q.l}) ELSE Edges(g)

PatResOK(w, q) ==
  LET g   == G(w, q.g)
      sym == SymOf(q)
      M   == Matches(g, q.pat, sym)
  IN IF q.run.st = "toomany" THEN Cardinality(M) > 3000
     ELSE IF WrongKind(q.pat, sym)
     THEN q.run.st \in {"ok", "err"} /\ (q.run.st = "ok" /\ "res" \in DOMAIN q.run => q.run.res = <<>>)
                                     /\ (q.run.st = "ok" => q.run.heads = <<>>)
     ELSE /\ q.run.st = "ok"
          /\ Range(q.names) = { q.pat[i].name : i \in 1..Len(q.pat) } \ {""}
          /\ IF q.api = "nodes"
             THEN Lists(q.run.heads, { m.n[1] : m \in M })
             ELSE BagAgrees(q.run.res, M, LAMBDA r : ProjSym(r[3]), LAMBDA m : ProjSym(m.b))

PatAligned(w, q) ==
  q.run.st = "ok" /\ q.api # "nodes" =>
    LET g == G(w, q.g)
    IN /\ \A i \in DOMAIN q.run.res : Aligned(g, q.pat, q.run.res[i])
       /\ Lists(q.run.heads, { q.run.res[i][1][1] : i \in DOMAIN q.run.res })
       /\ Lists(q.run.tails, { LET r == q.run.res[i][1] IN r[Len(r)] : i \in DOMAIN q.run.res })

TrailsOK(w, q) ==
  LET g    == G(w, q.g)
      acc  == { e \in Edges(g) : EdgeOK(g, e, Range(q.ls), q.p) }
      all  == Trails(g, q.h, q.d, acc, q.min, q.max)
      want == IF "first" \in DOMAIN q THEN { t \in all : t[1][1] \in Range(q.first) } ELSE all
      tr   == { <<<<q.h>> \o t[2], t[1]>> : t \in want }
  IN /\ NoDup(q.r)
     /\ Range(q.r) \subseteq tr
     /\ Len(q.r) = (IF q.stop > 0 THEN Min2(q.stop, Cardinality(tr)) ELSE Cardinality(tr))
     /\ q.late = q.r

IsoOK(w, q) ==
  LET K(g) == IF "nc" \in DOMAIN q THEN Classed(g, q.nc, q.ec) ELSE g
      want == Isomorphic(K(G(w, q.a)), K(G(w, q.b)), q.ne, q.ee)
  IN IF ~q.err THEN /\ q.r = want
                    /\ ~("cancelled" \in DOMAIN q /\ want /\ Nodes(G(w, q.a)) # {})
     ELSE /\ q.right
          /\ ("cancelled" \in DOMAIN q \/ "cancel" \in DOMAIN q)
          /\ q.r = FALSE

\* the nodes of a tree of concatenations, each with its multiplicity
RECURSIVE TreeCount(_, _, _)
TreeCount(g, t, x) ==
  CASE t[1] = "m" -> SumSeq([ i \in 1..(Len(t) - 1) |-> TreeCount(g, t[i + 1], x) ])
    [] t[1] = "l" -> IF x \in NodesAllLabels(g, Range(t[2])) THEN 1 ELSE 0
    [] t[1] = "f" -> IF x \in FindNodes(g, Range(t[2]), t[3]) THEN 1 ELSE 0
    [] t[1] = "k" -> IF x \in NodesWithProp(g, t[2]) THEN 1 ELSE 0
TreeOK(g, t, r) == /\ Range(r) \subseteq Nodes(g)
                   /\ \A x \in Nodes(g) : Count(r, x) = TreeCount(g, t, x)

NodeMapAll(w, q, ls) == { n \in w.nm[q.h] : ls \subseteq NodeGraph(w, n).N[n].l }

(* JSON and DOT *)
HookOf(q) == IF "hook" \in DOMAIN q THEN q.hook ELSE NoHook
AnyFail(h, kvs) == \E i \in DOMAIN kvs : kvs[i][1] \in Range(h.fail)
\* keys for which the marshaling hook returns text that is not JSON
AnyBad(h, kvs)  == "bad" \in DOMAIN h
                   /\ \E i \in DOMAIN kvs : /\ kvs[i][1] \in Range(h.bad) \ (Range(h.drop) \cup Range(h.fail))
                                            /\ "dropk" \in DOMAIN h => kvs[i][2][1] \notin Range(h.dropk)
SnapGraph(q) ==
  [N |-> [ n \in { q.newn[i][1] : i \in DOMAIN q.newn } |->
            LET r == q.newn[CHOOSE i \in DOMAIN q.newn : q.newn[i][1] = n] IN [l |-> Range(r[2]), p |-> r[3]] ],
   E |-> [ e \in { q.newe[i][1] : i \in DOMAIN q.newe } |->
            LET r == q.newe[CHOOSE i \in DOMAIN q.newe : q.newe[i][1] = e]
            IN [f |-> r[2], t |-> r[3], l |-> r[4], p |-> r[5]] ],
   nix |-> {}, eix |-> {}]
SnapIso(g, q) == /\ LET new == { q.newn[i][1] : i \in DOMAIN q.newn }
                    IN \A i \in DOMAIN q.newe : {q.newe[i][2], q.newe[i][3]} \subseteq new
                 /\ q.nn = Cardinality(Nodes(g)) /\ q.ne = Cardinality(Edges(g))
                 /\ Isomorphic(g, SnapGraph(q), "lp", "lp")
StoredKeys(g) == UNION { DOMAIN g.N[n].p : n \in Nodes(g) } \cup UNION { DOMAIN g.E[e].p : e \in Edges(g) }

\* values that have no JSON representation
RECURSIVE NoJSON(_)
NoJSON(v) == \/ v[1] = "x" /\ v[2] \in {"func", "chan", "nan", "unjson"}
             \/ v[1] = "la" /\ \E i \in DOMAIN v[2] : NoJSON(v[2][i])
HasNoJSON(g) == \/ \E n \in Nodes(g) : \E k \in DOMAIN g.N[n].p : NoJSON(g.N[n].p[k])
                \/ \E e \in Edges(g) : \E k \in DOMAIN g.E[e].p : NoJSON(g.E[e].p[k])
EncOK(w, q) ==
  LET g   == G(w, q.g)
      h   == HookOf(q)
      kvs == GraphProps(g)
  IN IF "hook" \notin DOMAIN q /\ HasNoJSON(g) THEN q.err
     ELSE IF AnyBad(h, kvs) THEN q.err
     ELSE IF AnyFail(h, kvs) THEN q.err /\ q.hookerr
     ELSE /\ ~q.err /\ q.valid
          /\ EncodedShape(q.doc, q.sep)
          /\ Isomorphic(JGraph(g, h), DocGraph(q.doc, NoHook), "lp", "lp")
          /\ "hook" \in DOMAIN q => SameBag(q.calls, kvs)
RtOK(w, q) ==
  LET g == G(w, q.g)
  IN /\ ~q.err /\ q.valid /\ EncodedShape(q.doc, q.sep)
     /\ Isomorphic(JGraph(g, NoHook), DocGraph(q.doc, NoHook), "lp", "lp")
     /\ "dpanic" \notin DOMAIN q /\ ~q.derr
     /\ SnapIso(JGraph(g, NoHook), q)
     /\ "interned" \in DOMAIN q => StoredKeys(JGraph(g, NoHook)) \subseteq Range(q.interned)
DecOK(w, q) ==
  LET t == q.doc
      h == HookOf(q)
  IN /\ "dpanic" \notin DOMAIN q
     /\ IF "bad" \in DOMAIN q THEN q.derr
        ELSE IF ~ValidDoc(t)
        THEN q.derr
        ELSE IF AnyFail(h, DocProps(t)) THEN q.derr /\ q.dhook
        ELSE IF UnreadableProp(t) THEN q.derr
        ELSE /\ ~q.derr
             /\ SnapIso(DocGraph(t, h), q)
             \* what the target held before is untouched; the next document
             \* of the stream is still there
             /\ "kept" \in DOMAIN q => q.kept
             /\ "next" \in DOMAIN q => q.next
             /\ "hook" \in DOMAIN q => SameBag(q.calls, DocProps(t))
             /\ q.intern = "log" => StoredKeys(DocGraph(t, h)) \subseteq Range(q.interned)

FailuresOK(r) == r.nil = 0 /\ r.panic = 0 /\ r.other = 0 /\ r.err = r.runs
TruncOK(r)    == r.nil = 0 /\ r.panic = 0 /\ r.err = r.runs /\ r.full = "nil"

DotOK(w, q) ==
  LET g     == G(w, q.g)
      Verd(h, S, T) == IF h \in Range(S) THEN "fail" ELSE IF h \in Range(T) THEN "reject" ELSE "accept"
      nl    == q.nlog
      el    == q.elog
      acc   == TLCEval({ nl[i][2] : i \in { j \in DOMAIN nl : nl[j][3] = "accept" } })
      id    == TLCEval([ n \in acc |-> nl[CHOOSE i \in DOMAIN nl : nl[i][2] = n][1] ])
      IdOf(n) == id[n]
      offered == TLCEval({ e \in Edges(g) : g.E[e].f \in acc /\ g.E[e].t \in acc })
      drawn == { e \in offered : Verd(e, q.faile, q.reje) = "accept" }
      line  == TLCEval([ e \in drawn |-> <<IdOf(g.E[e].f), IdOf(g.E[e].t), g.E[e].l # "", g.E[e].l>> ])
      failsN == \E n \in Nodes(g) : n \in Range(q.failn)
      goodN == { n \in Nodes(g) : n \notin Range(q.rejn) }
      failsE == \E e \in Edges(g) : e \in Range(q.faile) /\ g.E[e].f \in goodN /\ g.E[e].t \in goodN
  IN /\ q.right
     /\ q.err = (failsN \/ failsE)
     \* at most one call per item, the recorded verdict, nothing after a failure
     /\ NoDup([ i \in DOMAIN nl |-> nl[i][2] ]) /\ { nl[i][2] : i \in DOMAIN nl } \subseteq Nodes(g)
     /\ NoDup([ i \in DOMAIN el |-> el[i][3] ]) /\ { el[i][3] : i \in DOMAIN el } \subseteq offered
     /\ \A i \in DOMAIN nl : nl[i][3] = "fail" => i = Len(nl) /\ el = <<>>
     /\ \A i \in DOMAIN el : el[i][4] = "fail" => i = Len(el)
     /\ \A i \in DOMAIN el : el[i][1] = IdOf(g.E[el[i][3]].f) /\ el[i][2] = IdOf(g.E[el[i][3]].t)
     /\ Cardinality({ IdOf(n) : n \in acc }) = Cardinality(acc)
     /\ ~q.err =>
          /\ { nl[i][2] : i \in DOMAIN nl } = Nodes(g)
          /\ { el[i][3] : i \in DOMAIN el } = offered
          /\ q.parse /\ q.pname = q.name
          /\ Lists(q.nodes, { IdOf(n) : n \in acc })
          /\ Len(q.edges) = Cardinality(drawn)
          /\ \A x \in { line[e] : e \in drawn } :
               Count(q.edges, x) = Cardinality({ d \in drawn : line[d] = x })

\* the default renderer: some naming of the nodes explains the output
DotDefaultOK(w, q) ==
  LET g   == G(w, q.g)
      ids == Range(q.nodes)
      H   == [N |-> [ x \in ids |-> [l |-> {}, p |-> EmptyFn] ],
              E |-> [ i \in DOMAIN q.edges |-> [f |-> q.edges[i][1], t |-> q.edges[i][2],
                                                l |-> <<q.edges[i][3], q.edges[i][4]>>, p |-> EmptyFn] ],
              nix |-> {}, eix |-> {}]
      K   == [N |-> [ n \in Nodes(g) |-> [l |-> {}, p |-> EmptyFn] ],
              E |-> [ e \in Edges(g) |-> [f |-> g.E[e].f, t |-> g.E[e].t,
                                          l |-> <<g.E[e].l # "", g.E[e].l>>, p |-> EmptyFn] ],
              nix |-> {}, eix |-> {}]
  IN /\ ~q.err /\ q.parse /\ q.pname = q.name
     /\ NoDup(q.nodes)
     /\ \A i \in DOMAIN q.edges : q.edges[i][1] \in ids /\ q.edges[i][2] \in ids
     /\ Isomorphic(K, H, "true", "labels")

AttrOK(w, q) ==
  IF q.q = "nattr"
  THEN LET x == NodeGraph(w, q.h).N[q.h]
       IN /\ Range(q.r.hl) = x.l \cap Range(q.ls) /\ Range(q.r.gl) = x.l
          /\ q.r.gp = Restrict(x.p, Range(q.ks)) /\ q.r.fp = x.p
          /\ q.r.cnt = Min2(1, Cardinality(DOMAIN x.p)) /\ q.r.stop = (x.p = EmptyFn)
          /\ q.r.g = w.no[q.h]
  ELSE LET x == EdgeGraph(w, q.h).E[q.h]
       IN /\ q.r.l = x.l /\ q.r.f = x.f /\ q.r.t = x.t
          /\ q.r.gp = Restrict(x.p, Range(q.ks)) /\ q.r.fp = x.p
          /\ q.r.cnt = Min2(1, Cardinality(DOMAIN x.p)) /\ q.r.stop = (x.p = EmptyFn)
          /\ q.r.g = w.eo[q.h]

IdsOK(w, q) ==
  LET key(i) == <<q.r[i][1], q.r[i][2]>>
  IN /\ \A i, j \in DOMAIN q.r : q.r[i][3] = q.r[j][3] => i = j
     /\ \A i \in DOMAIN q.r : key(i) \in DOMAIN w.ids => w.ids[key(i)] = q.r[i][3]

ResultOK(w, q) ==
  q.st = "ok" /\
  CASE q.q = "snap"  -> SnapOK(G(w, q.g), q.r)
    [] q.q = "nodes" -> q.agree /\ Lists(q.r, Nodes(G(w, q.g)))
    [] q.q = "edges" -> q.agree /\ Lists(q.r, Edges(G(w, q.g)))
    [] q.q = "nal"   -> q.agree /\ Lists(q.r, NodesAllLabels(G(w, q.g), Range(q.ls)))
    [] q.q = "eal"   -> q.agree /\ Lists(q.r, EdgesAnyLabel(G(w, q.g), Range(q.ls)))
    [] q.q = "nwp"   -> q.agree /\ Lists(q.r, NodesWithProp(G(w, q.g), q.k))
    [] q.q = "ewp"   -> q.agree /\ Lists(q.r, EdgesWithProp(G(w, q.g), q.k))
    [] q.q = "fn"    -> q.agree /\ Lists(q.r, FindNodes(G(w, q.g), Range(q.ls), q.p))
    [] q.q = "fe"    -> q.agree /\ Lists(q.r, FindEdges(G(w, q.g), Range(q.ls), q.p))
    [] q.q = "nff"   -> Lists(q.r, { n \in Range(q.hs) : NodeOK(G(w, q.g), n, Range(q.ls), q.p) })
    [] q.q = "eff"   -> Lists(q.r, { e \in Range(q.hs) : EdgeOK(G(w, q.g), e, Range(q.ls), q.p) })
    [] q.q = "ged"   -> q.agree /\ LET g == NodeGraph(w, q.h) IN AdjOK(g, q.h, q.d, Edges(g), q.r)
    [] q.q = "gel"   -> q.agree /\ LET g == NodeGraph(w, q.h) IN AdjOK(g, q.h, q.d, EdgesAnyLabel(g, {q.l}), q.r)
    [] q.q = "gea"   -> q.agree /\ LET g == NodeGraph(w, q.h)
                        IN AdjOK(g, q.h, q.d, IF q.ls = <<>> THEN Edges(g) ELSE EdgesAnyLabel(g, Range(q.ls)), q.r)
    [] q.q = "srci"  -> q.agree /\ Lists(q.r, Sources(G(w, q.g)))
    [] q.q = "snki"  -> q.agree /\ Lists(q.r, Sinks(G(w, q.g)))
    [] q.q = "src"   -> Lists(q.r, Sources(G(w, q.g)))
    [] q.q = "snk"   -> Lists(q.r, Sinks(G(w, q.g)))
    [] q.q = "ebn"   -> Lists(q.r, EdgesBetween(NodeGraph(w, q.a), q.a, q.b))
    [] q.q = "nnw"   -> LET g == NodeGraph(w, q.h) IN Lists(q.r, Targets(g, LblFilter(g, OutEdges(g, q.h), {q.l})))
    [] q.q = "pnw"   -> LET g == NodeGraph(w, q.h) IN Lists(q.r, Origins(g, LblFilter(g, InEdges(g, q.h), {q.l})))
    [] q.q = "tgt"   -> LET g == NodeGraph(w, q.h) IN Lists(q.r, Targets(g, CandEdges(g, q.h, q.d)))
    [] q.q = "sno"   -> LET g == NodeGraph(w, q.h) IN Lists(q.r, Origins(g, CandEdges(g, q.h, q.d)))
    [] q.q = "fen"   -> LET N == Nodes(G(w, q.g))
                        IN IF q.k > 0 /\ q.k <= Cardinality(N)
                           THEN ~q.ret /\ Len(q.r) = q.k /\ NoDup(q.r) /\ Range(q.r) \subseteq N
                           ELSE q.ret /\ Lists(q.r, N)
    [] q.q \in {"nattr", "eattr"} -> AttrOK(w, q)
    [] q.q = "ids"   -> IdsOK(w, q)
    [] q.q = "path"  -> PathOK(w.pa[q.h], q.r)
    [] q.q = "pprefix"  -> /\ q.r = IsPrefixEdges(w.ee, w.pa[q.h], q.els)
                          /\ \A i \in DOMAIN q.els : q.ends[i] = << Src(w.ee, q.els[i]), Tgt(w.ee, q.els[i]) >>
    [] q.q = "pprefixp" -> q.r = HasPrefixPath(w.pa[q.h], w.pa[q.s])
    [] q.q = "cpath" -> w.cu[q.h].has => PathOK(w.cu[q.h].p, q.r)
    [] q.q = "cedges" -> q.agree /\ IF w.cu[q.h].node = 0 THEN q.r = <<>>
                         ELSE LET g == NodeGraph(w, w.cu[q.h].node)
                              IN AdjOK(g, w.cu[q.h].node, CursorDir(q), CursorEdges(g, q), q.r)
    [] q.q = "cnodes" -> q.agree /\ IF w.cu[q.h].node = 0 THEN q.r = <<>>
                         ELSE LET x == w.cu[q.h].node
                                  g == NodeGraph(w, x)
                                  d == CursorDir(q)
                              IN Lists(q.r, { FarEnd(g, x, e, d) : e \in CandEdges(g, x, d) \cap CursorEdges(g, q) })
    [] q.q = "pat"   -> PatResOK(w, q)
    [] q.q = "trails" -> TrailsOK(w, q)
    [] q.q = "iso"   -> IsoOK(w, q)
    [] q.q = "cmp"   -> CmpOK(q.a, q.b, q.r)
    [] q.q = "cmps"  -> \A i \in DOMAIN q.vs : \A j \in DOMAIN q.vs : CmpOK(q.vs[i], q.vs[j], q.r[i][j])
    [] q.q = "ss"    -> LET S == w.ss[q.h]
                        IN /\ Range(q.r.has) = S \cap Range(q.u) /\ q.r.len = Cardinality(S)
                           /\ Lists(q.r.slice, S) /\ Lists(q.r.sorted, S) /\ q.r.ordered
                           /\ ~q.r.jerr /\ Lists(q.r.json, S) /\ Lists(q.r.str, S)
    [] q.q = "sscmp" -> LET A == w.ss[q.a]
                            B == w.ss[q.b]
                        IN q.r.eq = (A = B) /\ q.r.all = (B \subseteq A) /\ q.r.any = (A \cap B # {})
    [] q.q = "sshas" -> LET A == w.ss[q.h]
                        IN q.r.all = (Range(q.ls) \subseteq A) /\ q.r.any = (A \cap Range(q.ls) # {})
    [] q.q = "ns"    -> LET S == w.ns[q.h]
                        IN q.agree /\ Lists(q.r, S) /\ Lists(q.slice, S) /\ q.len = Cardinality(S)
                           /\ Range(q.has) = S \cap Range(q.u)
    [] q.q = "es"    -> LET S == w.es[q.h] IN q.agree /\ Lists(q.r, S) /\ Lists(q.slice, S) /\ q.len = Cardinality(S)
    [] q.q = "nmall" -> q.agree /\ Lists(q.r, NodeMapAll(w, q, Range(q.ls)))
    [] q.q = "nmit"  -> q.agree /\ Lists(q.r, w.nm[q.h])
    [] q.q = "nmempty" -> q.r = (w.nm[q.h] = {})
    [] q.q = "multi" -> q.agree /\ TreeOK(G(w, q.g), <<"m">> \o [ i \in DOMAIN q.lss |-> <<"l", q.lss[i]>> ], q.r)
    [] q.q = "mtree" -> q.agree /\ TreeOK(G(w, q.g), q.t, q.r)
    [] q.q = "enc"   -> EncOK(w, q)
    [] q.q = "rt"    -> RtOK(w, q)
    [] q.q = "dec"   -> DecOK(w, q)
    [] q.q \in {"encfail", "dotfail"} -> FailuresOK(q.r)
    [] q.q = "trunc" -> TruncOK(q.r)
    [] q.q = "dot"   -> IF q.mode = "default" THEN DotDefaultOK(w, q) ELSE DotOK(w, q)

\* C18: a reported maximum size is never too small and the end is final
SizeOK(q) == q.st = "ok" /\ "max" \in DOMAIN q =>
                /\ q.max = -1 \/ (q.max >= Len(q.r) /\ q.max >= 0)
                \* asked again after k items: at least what is left
                /\ "mid" \in DOMAIN q => \A i \in DOMAIN q.mid :
                     LET k == q.mid[i][1] s == q.mid[i][2] IN s = -1 \/ s >= Len(q.r) - k
                /\ q.more = 0

\* the bindings given to a pattern search are as they were
SymsSame(q) == /\ DOMAIN q.symafter = DOMAIN SymOf(q)
               /\ \A k \in DOMAIN SymOf(q) :
                    q.symafter[k][1] = SymOf(q)[k][1] /\ Lists(q.symafter[k][2], Range(SymOf(q)[k][2]))

\* C19: the arguments are as they were
ArgsOK(q) ==
  q.st = "ok" =>
    /\ "after" \in DOMAIN q /\ q.q # "cmps" =>
          /\ "ls" \in DOMAIN q => Range(q.after.ls) = Range(q.ls)
          /\ "p" \in DOMAIN q => q.after.p = q.p
    /\ q.q = "cmps" => q.after = q.vs
    \* the same question after the first answer was overwritten
    /\ "r2" \in DOMAIN q => SameBag(q.r, q.r2)
    /\ q.q = "pat" => /\ q.patafter = q.patbefore
                      /\ SymsSame(q)
=============================================================================
