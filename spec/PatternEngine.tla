---------------------------- MODULE PatternEngine ----------------------------
(* The evaluation of a pattern as the code does it (pattern.go,              *)
(* planprocessors.go, vpathitr.go): a plan starts at some item, goes forward *)
(* to the end and then backwards to the beginning; every step enumerates its *)
(* candidates and backtracks. One TLC behaviour is one run of one pattern on *)
(* one graph from one start item; the graphs, patterns, bound symbols and    *)
(* start items are the initial states. The invariants compare what the run   *)
(* reported with the declarative meaning of the pattern (Patterns.tla).      *)
EXTENDS Patterns, Json

CONSTANTS NN,        \* number of nodes
          NE,        \* maximum number of edges
          Lens,      \* pattern lengths
          Dirs,      \* subset of {"out", "in", "any"}
          Bnds,      \* bounds of edge items: numbers min * 10 + max, 9 for unbounded
          NodeLs,    \* BOOLEAN: node items may ask for label "A"
          Naming,    \* subset of {"none", "all", "cycle", "ecycle"}
          Ring,      \* 0: all graphs; k: a cycle of k nodes and at most one more edge
          Binding    \* subset of {"none", "node", "edge", "wrong"}

VARIABLES g, pat, sym, start,    \* the input
          depth,                 \* the step the plan is at; 0: the end
          todo,                  \* per step: candidates not tried yet
          res,                   \* per item: current result
          loc, own,              \* local symbols and the items that recorded them
          vnode, vsave,          \* the end of a variable length path; values to restore
          out                    \* results reported

vars == <<g, pat, sym, start, depth, todo, res, loc, own, vnode, vsave, out>>

------------------------------------------------------------------------------
(* inputs *)
Node(n) == [l |-> IF n = 1 THEN {"A"} ELSE {}, p |-> EmptyFn]
GraphOf(es) == [N |-> [ n \in 1..NN |-> Node(n) ],
                E |-> [ i \in 1..Len(es) |-> [f |-> es[i][1], t |-> es[i][2], l |-> IF i = 1 THEN "L" ELSE "M", p |-> EmptyFn] ],
                nix |-> {}, eix |-> {}]
AllGraphs == UNION { { GraphOf(es) : es \in [1..k -> (1..NN) \X (1..NN)] } : k \in 0..NE }
Cycle(k) == [ i \in 1..k |-> <<i, (i % k) + 1>> ]
Rings == { GraphOf(Cycle(Ring)) } \cup { GraphOf(Append(Cycle(Ring), x)) : x \in {1} \X (1..Ring) }
Graphs == IF Ring = 0 THEN AllGraphs ELSE Rings
Bound(x) == IF x % 10 = 9 THEN -1 ELSE x % 10
EdgeItem(d, b) == [ls |-> <<>>, p |-> EmptyFn, min |-> b \div 10, max |-> Bound(b),
                   left |-> d = "in", und |-> d = "any", name |-> ""]
NodeItem(l) == [ls |-> IF l THEN <<"A">> ELSE <<>>, p |-> EmptyFn, min |-> 1, max |-> 1,
                left |-> FALSE, und |-> FALSE, name |-> ""]
NodeNm == <<"n1", "e2", "n3", "e4", "n5", "e6", "n7">>
Name(how, i, n) == CASE how = "none" -> ""
                     [] how = "all" -> NodeNm[i]
                     \* the last node is the first one
                     [] how = "cycle" -> IF i = n THEN NodeNm[1] ELSE NodeNm[i]
                     \* the last edge is the first one
                     [] how = "ecycle" -> IF i = n - 1 /\ n > 3 THEN NodeNm[2] ELSE NodeNm[i]
Pats == UNION { LET m == (n - 1) \div 2
                IN { [ i \in 1..n |->
                        IF i % 2 = 1 THEN [NodeItem(nl[(i + 1) \div 2]) EXCEPT !.name = Name(how, i, n)]
                        ELSE [EdgeItem(ed[i \div 2][1], ed[i \div 2][2]) EXCEPT !.name = Name(how, i, n)] ] :
                     nl \in [1..(m + 1) -> IF NodeLs THEN BOOLEAN ELSE {FALSE}],
                     ed \in [1..m -> Dirs \X Bnds], how \in Naming } : n \in Lens }
\* names of variable length items are not repeated
NamesOK(p) == \A i, j \in 1..Len(p) : i # j /\ p[i].name # "" /\ p[i].name = p[j].name => IsFixed(p[i]) /\ IsFixed(p[j])
Syms(p, gg) ==
  (IF "none" \in Binding THEN { EmptyFn } ELSE {})
  \cup (IF "node" \in Binding THEN { [ x \in {nm} |-> <<"n", q>> ] : nm \in { p[i].name : i \in { j \in 1..Len(p) : j % 2 = 1 } } \ {""},
                                     q \in { <<>>, <<1>>, <<2>> } } ELSE {})
  \cup (IF "edge" \in Binding THEN { [ x \in {nm} |-> <<"e", q>> ] : nm \in { p[i].name : i \in { j \in 1..Len(p) : j % 2 = 0 } } \ {""},
                                     q \in { <<>> } \cup { <<e>> : e \in Edges(gg) } } ELSE {})
  \cup (IF "wrong" \in Binding THEN { [ x \in {p[1].name} |-> <<"e", <<>> >> ] } ELSE {})
\* a plan can start at a node, or at an edge of length one with a direction
CanStartAt(p, i) == i % 2 = 1 \/ (IsFixed(p[i]) /\ ItemDir(p[i]) # "any")

------------------------------------------------------------------------------
(* the plan *)
Order == [ k \in 1..Len(pat) |-> IF k <= Len(pat) - start + 1 THEN start + k - 1 ELSE Len(pat) - k + 1 ]
Forward(i) == i > start
NoRes == <<"none">>

Constrained(nm) == nm # "" /\ (nm \in DOMAIN loc \/ nm \in DOMAIN sym)
Constraint(nm)  == IF nm \in DOMAIN loc THEN loc[nm] ELSE <<sym[nm][1], Range(sym[nm][2])>>
NodeIn(nm, x) == ~Constrained(nm) \/ (Constraint(nm)[1] = "n" /\ x \in Constraint(nm)[2])
EdgeIn(nm, e) == ~Constrained(nm) \/ (Constraint(nm)[1] = "e" /\ e \in Constraint(nm)[2])

RECURSIVE AnySeq(_)
AnySeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AnySeq(S \ {x})

EdgeAccepted(i) == { e \in Edges(g) : EdgeOK(g, e, ItemLabels(pat[i]), pat[i].p) /\ EdgeIn(pat[i].name, e) }
Flip(d) == CASE d = "out" -> "in" [] d = "in" -> "out" [] OTHER -> "any"
\* the direction in which an edge item is crossed
CrossDir(i) == IF Forward(i) THEN ItemDir(pat[i]) ELSE Flip(ItemDir(pat[i]))
Prev(i) == IF Forward(i) THEN i - 1 ELSE i + 1
PathRev(x) == <<"path", Rev(x[2]), Rev(x[3])>>

\* candidates of item i, entered now. An edge result is <<"path", nodes, edges>>,
\* from the node it was entered from to the node it leads to
Cands(i) ==
  LET it == pat[i]
  IN IF i = start
     THEN IF i % 2 = 1
          THEN AnySeq({ <<"node", x>> : x \in { y \in Nodes(g) : NodeOK(g, y, ItemLabels(it), it.p) /\ NodeIn(it.name, y) } })
          \* pattern order: from the left end to the right end
          ELSE AnySeq({ IF it.left THEN <<"path", <<g.E[e].t, g.E[e].f>>, <<e>> >> ELSE <<"path", <<g.E[e].f, g.E[e].t>>, <<e>> >> :
                          e \in EdgeAccepted(i) })
     ELSE IF i % 2 = 0
     THEN LET u == res[Prev(i)][2]
              d == CrossDir(i)
              acc == EdgeAccepted(i)
          IN IF IsFixed(it) THEN AnySeq({ <<"path", <<u, FarEnd(g, u, e, d)>>, <<e>> >> : e \in CandEdges(g, u, d) \cap acc })
             ELSE AnySeq({ <<"path", <<u>> \o t[2], t[1]>> : t \in Trails(g, u, d, acc, it.min, it.max) })
     ELSE \* the node at the end of the edge just crossed
          LET r == res[Prev(i)]
              e == r[3][Len(r[3])]
              d == ItemDir(pat[Prev(i)])
              from == IF Forward(i) THEN (d = "in") ELSE (d = "out")
              \* the node item on the other side of the edge
              other == res[IF Forward(i) THEN i - 2 ELSE i + 2]
              x == IF vnode # 0 THEN vnode
                   ELSE IF d = "any" THEN (IF g.E[e].t = other[2] THEN g.E[e].f ELSE g.E[e].t)
                   ELSE IF from THEN g.E[e].f ELSE g.E[e].t
          IN IF NodeOK(g, x, ItemLabels(pat[i]), pat[i].p) /\ NodeIn(pat[i].name, x) THEN << <<"node", x>> >> ELSE <<>>

Entity(i, r) == IF i % 2 = 1 THEN <<"n", {r[2]}>> ELSE <<"e", Range(r[3])>>

\* an edge result in pattern order
Oriented(i, r) == IF i % 2 = 0 /\ i < start THEN PathRev(r) ELSE r
RECURSIVE JoinN(_, _), JoinE(_)
JoinE(i) == IF i > Len(pat) THEN <<>> ELSE Oriented(i, res[i])[3] \o JoinE(i + 2)
JoinN(i, first) == IF i > Len(pat) THEN first ELSE JoinN(i + 2, first \o Tail(Oriented(i, res[i])[2]))
CurrentResult ==
  LET ns == IF Len(pat) = 1 THEN <<res[1][2]>> ELSE JoinN(4, Oriented(2, res[2])[2])
      es == IF Len(pat) = 1 THEN <<>> ELSE JoinE(2)
      nm == { pat[i].name : i \in 1..Len(pat) } \ {""}
      \* the first step of the plan with the name
      At(x) == Order[CHOOSE k \in 1..Len(pat) : pat[Order[k]].name = x /\ \A j \in 1..(k - 1) : pat[Order[j]].name # x]
      Val(i) == IF i % 2 = 1 THEN NodeEnt(res[i][2]) ELSE EdgeEnt(Oriented(i, res[i])[2], Oriented(i, res[i])[3])
  IN <<ns, es, [ x \in nm |-> Val(At(x)) ]>>

------------------------------------------------------------------------------
Init ==
  /\ g \in Graphs
  /\ pat \in { p \in Pats : NamesOK(p) }
  /\ sym \in Syms(pat, g)
  /\ start \in { i \in 1..Len(pat) : CanStartAt(pat, i) }
  /\ depth = 1
  /\ todo = << >> /\ out = <<>> /\ vsave = <<>>
  /\ res = [ i \in 1..Len(pat) |-> NoRes ]
  /\ loc = EmptyFn /\ own = EmptyFn /\ vnode = 0

\* Run of the step at this depth starts: todo has one entry less than depth
Enter ==
  /\ depth > 0 /\ depth <= Len(pat) /\ Len(todo) = depth - 1
  /\ LET i == Order[depth]
     IN /\ todo' = Append(todo, Cands(i))
        \* a node step takes the variable path end, and restores it when it is left
        /\ vsave' = Append(vsave, IF i % 2 = 1 /\ i # start THEN vnode ELSE 0)
        /\ vnode' = IF i % 2 = 1 /\ i # start THEN 0 ELSE vnode
  /\ UNCHANGED <<g, pat, sym, start, depth, res, loc, own, out>>

\* the next candidate
Try ==
  /\ depth > 0 /\ depth <= Len(pat) /\ Len(todo) = depth /\ todo[depth] # <<>>
  /\ LET i == Order[depth]
         r == Head(todo[depth])
         nm == pat[i].name
         rec == nm # "" /\ nm \notin DOMAIN sym /\ nm \notin DOMAIN own
     IN /\ res' = [res EXCEPT ![i] = r]
        /\ loc' = IF rec THEN Put(loc, nm, Entity(i, r)) ELSE loc
        /\ own' = IF rec THEN Put(own, nm, i) ELSE own
        /\ vnode' = IF i % 2 = 0 /\ ~IsFixed(pat[i]) THEN r[2][Len(r[2])] ELSE vnode
        /\ todo' = [todo EXCEPT ![depth] = Tail(@)]
  /\ depth' = depth + 1
  /\ UNCHANGED <<g, pat, sym, start, vsave, out>>

Forget(i) ==
  LET nm == pat[i].name
      mine == nm \in DOMAIN own /\ own[nm] = i
  IN /\ loc' = IF mine THEN Without(loc, nm) ELSE loc
     /\ own' = IF mine THEN Without(own, nm) ELSE own
     /\ vnode' = IF i % 2 = 0 /\ ~IsFixed(pat[i]) THEN 0 ELSE vnode

\* all steps have a result: report it, and go back to the last step
Report ==
  /\ depth = Len(pat) + 1
  /\ out' = Append(out, CurrentResult)
  /\ depth' = Len(pat)
  /\ Forget(Order[Len(pat)])
  /\ UNCHANGED <<g, pat, sym, start, todo, res, vsave>>

\* no more candidates: back to the step before
Back ==
  /\ depth > 0 /\ depth <= Len(pat) /\ Len(todo) = depth /\ todo[depth] = <<>>
  /\ todo' = SubSeq(todo, 1, depth - 1)
  /\ vsave' = SubSeq(vsave, 1, depth - 1)
  /\ depth' = depth - 1
  /\ LET i == Order[depth]
     IN IF depth = 1 THEN /\ UNCHANGED <<loc, own>>
                          /\ vnode' = vnode
        ELSE LET j == Order[depth - 1]
                 nm == pat[j].name
                 mine == nm \in DOMAIN own /\ own[nm] = j
             IN /\ loc' = IF mine THEN Without(loc, nm) ELSE loc
                /\ own' = IF mine THEN Without(own, nm) ELSE own
                /\ vnode' = IF j % 2 = 0 /\ ~IsFixed(pat[j]) THEN 0
                            ELSE IF i % 2 = 1 /\ vsave[depth] # 0 THEN vsave[depth] ELSE vnode
  /\ UNCHANGED <<g, pat, sym, start, res, out>>

Next == Enter \/ Try \/ Report \/ Back
Spec == Init /\ [][Next]_vars

Done == depth = 0
PrintScript == Done => PrintT("SCRIPT " \o ToJson([
   n |-> NN, e |-> [ i \in 1..Cardinality(Edges(g)) |-> <<g.E[i].f, g.E[i].t, g.E[i].l>> ],
   pat |-> [ i \in 1..Len(pat) |-> <<pat[i].ls, pat[i].min, pat[i].max, pat[i].left, pat[i].und, pat[i].name>> ],
   sym |-> [ i \in 1..Cardinality(DOMAIN sym) |-> LET k == CHOOSE x \in DOMAIN sym : TRUE IN <<k, sym[k][1], sym[k][2]>> ],
   start |-> start]))

Wrong == \E i \in 1..Len(pat) : /\ pat[i].name \in DOMAIN sym
                                /\ sym[pat[i].name][1] # (IF i % 2 = 1 THEN "n" ELSE "e")
------------------------------------------------------------------------------
\* C07, C08 (every start item), C27 (with symbols): exactly the matches, each once
InvMatches == Done => IF Wrong THEN out = <<>>
                      ELSE LET M == TLCEval(Matches(g, pat, sym))
                               R == TLCEval([ i \in 1..Len(out) |-> out[i] ])
                           IN /\ Len(out) = Cardinality(M)
                              /\ SameBag([ i \in DOMAIN R |-> <<R[i][1], R[i][2]>> ],
                                         [ i \in 1..Cardinality(M) |-> LET f == AnySeq(M) IN <<f[i].n, f[i].e>> ])
                              /\ BagAgrees(R, M, LAMBDA r : ProjSym(r[3]), LAMBDA m : ProjSym(m.b))
\* C09: every reported path is aligned with the pattern
InvAligned == depth = Len(pat) + 1 => (Wrong \/ Aligned(g, pat, CurrentResult))
\* symbols are forgotten when the step that bound them is left
InvLocal == /\ DOMAIN loc = DOMAIN own
            /\ Done => loc = EmptyFn /\ vnode = 0
            /\ \A nm \in DOMAIN own : \E k \in 1..depth : k <= Len(pat) /\ Order[k] = own[nm]
=============================================================================
