------------------------------- MODULE SetImpl -------------------------------
(* String sets as the code keeps them (stringset.go): a set value holds a     *)
(* pointer to a map; copying a value, Clone, and storing or reading the       *)
(* labels of a node copy the pointer; Add, AddSet and Remove put a changed    *)
(* copy of the map in the place of the old one, UnmarshalJSON and             *)
(* NewStringSet a new map. Beside it runs the abstract set of every slot.     *)
(* Address 0 is the nil map of the zero value.                                *)
EXTENDS Util, Json

CONSTANTS NS,        \* set variables 1..NS
          NN,        \* nodes: slots NS+1..NS+NN are their labels
          Str, MaxOps, Ops
VARIABLES at, mem,   \* slot -> address; address -> strings
          abs,       \* slot -> the set it must be
          hist

vars == <<at, mem, abs, hist>>
Slots == 1..(NS + NN)
SetV  == 1..NS
NodeV == (NS + 1)..(NS + NN)
Val(s) == IF at[s] = 0 THEN {} ELSE mem[at[s]]

Init == /\ at = [ s \in Slots |-> 0 ] /\ mem = <<>> /\ abs = [ s \in Slots |-> {} ] /\ hist = <<>>

Log(o) == hist' = Append(hist, o)
\* slot s gets a new map with contents x
Fresh(s, x) == mem' = Append(mem, x) /\ at' = [at EXCEPT ![s] = Len(mem) + 1]
\* slot s gets the map of slot t
Share(s, t) == mem' = mem /\ at' = [at EXCEPT ![s] = at[t]]

OpNew  == \E s \in SetV, x \in SUBSET Str : Fresh(s, x) /\ abs' = [abs EXCEPT ![s] = x] /\ Log(<<"ssnew", s, x>>)
OpZero == \E s \in SetV : at' = [at EXCEPT ![s] = 0] /\ mem' = mem /\ abs' = [abs EXCEPT ![s] = {}] /\ Log(<<"sszero", s>>)
OpCopy == \E s, t \in SetV, k \in {"sscopy", "ssclone"} :
            s # t /\ Share(s, t) /\ abs' = [abs EXCEPT ![s] = abs[t]] /\ Log(<<k, s, t>>)
\* through JSON: a new map
OpJson == \E s, t \in SetV : Fresh(s, Val(t)) /\ abs' = [abs EXCEPT ![s] = abs[t]] /\ Log(<<"ssjson", s, t>>)
OpAdd  == \E s \in SetV, x \in SUBSET Str : Fresh(s, Val(s) \cup x) /\ abs' = [abs EXCEPT ![s] = @ \cup x] /\ Log(<<"ssadd", s, x>>)
OpAddS == \E s, t \in SetV : Fresh(s, Val(s) \cup Val(t)) /\ abs' = [abs EXCEPT ![s] = @ \cup abs[t]] /\ Log(<<"ssaddset", s, t>>)
OpRm   == \E s \in SetV, x \in SUBSET Str : Fresh(s, Val(s) \ x) /\ abs' = [abs EXCEPT ![s] = @ \ x] /\ Log(<<"ssrm", s, x>>)
OpUnm  == \E s \in SetV, x \in SUBSET Str : Fresh(s, x) /\ abs' = [abs EXCEPT ![s] = x] /\ Log(<<"ssunm", s, x>>)
OpGetL == \E s \in SetV, n \in NodeV : Share(s, n) /\ abs' = [abs EXCEPT ![s] = abs[n]] /\ Log(<<"ssnode", s, n - NS>>)
OpSetL == \E s \in SetV, n \in NodeV : Share(n, s) /\ abs' = [abs EXCEPT ![n] = abs[s]] /\ Log(<<"sssetl", n - NS, s>>)

\* every transition, with a history that leads to it
PrintScript == PrintT("SCRIPT " \o ToJson(hist'))
Next == /\ Len(hist) < MaxOps
        /\ \/ "new" \in Ops /\ OpNew
           \/ "zero" \in Ops /\ OpZero
           \/ "copy" \in Ops /\ OpCopy
           \/ "json" \in Ops /\ OpJson
           \/ "add" \in Ops /\ (OpAdd \/ OpAddS)
           \/ "rm" \in Ops /\ OpRm
           \/ "unm" \in Ops /\ OpUnm
           \/ "node" \in Ops /\ (OpGetL \/ OpSetL)
        /\ PrintScript
Spec == Init /\ [][Next]_vars

\* what the slots hold and which of them share a map
View == <<[ s \in Slots |-> Val(s) ], { <<s, t>> \in Slots \X Slots : at[s] = at[t] }, { s \in Slots : at[s] = 0 }>>

\* C20: every variable and every node has the set it must have
InvC20 == \A s \in Slots : Val(s) = abs[s]
\* the comparisons the code makes between two sets, by size and membership
IsEqual(x, y) == Cardinality(x) = Cardinality(y) /\ \A e \in y : e \in x
InvEqual == \A s, t \in Slots : IsEqual(Val(s), Val(t)) <=> abs[s] = abs[t]
\* C20, C19: an operation changes no slot but the one it names
Confined == [][ Cardinality({ s \in Slots : (IF at'[s] = 0 THEN {} ELSE mem'[at'[s]]) # Val(s) }) <= 1 ]_vars
\* a map that two slots share is never written
NoWrite == [][ \A a \in DOMAIN mem : mem'[a] = mem[a] ]_vars
=============================================================================
