------------------------------ MODULE IdentImpl ------------------------------
(* Identity and ownership over two graphs, as the code keeps them: every      *)
(* graph has one counter (idBase) for nodes and edges; a node knows its graph *)
(* and whether it was removed; NewEdge, CloneEdge and the copy functions look *)
(* at both. Abstract side: who is in which graph.                             *)
EXTENDS Util, Json

CONSTANTS MaxN, MaxE, Ops
VARIABLES base,       \* graph -> idBase
          nd, ed,     \* nodes [id, g, removed], edges [id, g, f, t] in the order they were made; a removed edge stays
          gone,       \* removed edges
          refused,    \* the last call was refused
          hist
vars == <<base, nd, ed, gone, refused, hist>>
View == <<base, nd, ed, gone, refused>>
GS == {1, 2}
NS == DOMAIN nd
ES == DOMAIN ed
LiveN(g) == { n \in NS : nd[n].g = g /\ ~nd[n].removed }
LiveE(g) == { e \in ES \ gone : ed[e].g = g }

Init == base = [ g \in GS |-> 0 ] /\ nd = <<>> /\ ed = <<>> /\ gone = {} /\ refused = FALSE /\ hist = <<>>
Log(o) == hist' = Append(hist, o)

Alloc(g) == base' = [base EXCEPT ![g] = @ + 1]
NewNode == \E g \in GS : /\ Len(nd) < MaxN
             /\ nd' = Append(nd, [id |-> base[g], g |-> g, removed |-> FALSE]) /\ Alloc(g)
             /\ refused' = FALSE /\ Log(<<"nn", g>>) /\ UNCHANGED <<ed, gone>>
\* a copy of a node, made by graph g
CopyNode == \E g \in GS, n \in NS : /\ Len(nd) < MaxN /\ ~nd[n].removed
             /\ nd' = Append(nd, [id |-> base[g], g |-> g, removed |-> FALSE]) /\ Alloc(g)
             /\ refused' = FALSE /\ Log(<<"copyn", g, n>>) /\ UNCHANGED <<ed, gone>>
Checked(g, f, t) == nd[f].g = g /\ ~nd[f].removed /\ nd[t].g = g /\ ~nd[t].removed
MakeEdge(g, f, t, o) ==
  /\ Len(ed) < MaxE
  /\ IF Checked(g, f, t)
     THEN /\ ed' = Append(ed, [id |-> base[g], g |-> nd[f].g, f |-> f, t |-> t]) /\ Alloc(g) /\ refused' = FALSE
     ELSE ed' = ed /\ base' = base /\ refused' = TRUE
  /\ Log(o) /\ UNCHANGED <<nd, gone>>
NewEdge   == \E g \in GS, f, t \in NS : MakeEdge(g, f, t, <<"ne", g, f, t>>)
CloneEdge == \E g \in GS, f, t \in NS, e \in ES \ gone : MakeEdge(g, f, t, <<"clonee", g, f, t, e>>)
RmEdge == \E e \in ES \ gone : gone' = gone \cup {e} /\ refused' = FALSE /\ Log(<<"rme", e>>) /\ UNCHANGED <<base, nd, ed>>
RmNode == \E n \in NS : /\ ~nd[n].removed /\ nd' = [nd EXCEPT ![n].removed = TRUE]
             /\ gone' = gone \cup { e \in ES : n \in {ed[e].f, ed[e].t} }
             /\ refused' = FALSE /\ Log(<<"dr", n>>) /\ UNCHANGED <<base, ed>>
PrintScript == PrintT("SCRIPT " \o ToJson(hist'))
Next == /\ \/ NewNode \/ RmEdge \/ RmNode \/ NewEdge
           \/ "copy" \in Ops /\ (CopyNode \/ CloneEdge)
        /\ PrintScript
Spec == Init /\ [][Next]_vars

\* C21: nodes of a graph, and edges of a graph, have different identifiers
InvIds == \A g \in GS : /\ \A n, m \in LiveN(g) : nd[n].id = nd[m].id => n = m
                        /\ \A e, f \in LiveE(g) : ed[e].id = ed[f].id => e = f
\* C21: an edge joins nodes that are in its graph
InvOwn == \A e \in ES \ gone : ed[e].f \in LiveN(ed[e].g) /\ ed[e].t \in LiveN(ed[e].g)
\* C21: identity and graph never change; a refused call changes nothing
Stable == [][ /\ \A n \in NS : nd'[n].id = nd[n].id /\ nd'[n].g = nd[n].g
              /\ \A e \in ES : ed'[e] = ed[e]
              /\ refused' => UNCHANGED <<base, nd, ed, gone>> ]_vars
\* identifiers are not used again
NoReuse == [][ /\ Len(nd') > Len(nd) => \A n \in NS : nd[n].g = nd'[Len(nd')].g => nd[n].id # nd'[Len(nd')].id
               /\ Len(ed') > Len(ed) => \A e \in ES : ed[e].g = ed'[Len(ed')].g => ed[e].id # ed'[Len(ed')].id ]_vars
=============================================================================
