-------------------------------- MODULE Trace --------------------------------
(* Validation of traces recorded from the real code. Every trace is a        *)
(* sequence of events; an event is a sequence of operations and then         *)
(* observations. A step of this specification performs the operations with   *)
(* the actions of World, and is enabled only if every recorded outcome and   *)
(* observation is the specified one. Which observations are judged, and how, *)
(* depends on the property under check (Prop).                               *)
EXTENDS World, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop   == IOEnv.PROP

VARIABLES h, i, w

(* the judgement of one observation *)
MemOK(ww, q) == \* C08: same contents, same pattern: same results
  LET M == Matches(G(ww, q.g), q.pat, SymOf(q))
  IN q.key \in DOMAIN ww.mem =>
       LET old == ww.mem[q.key]
       IN old.m = M => /\ old.run.st = q.run.st
                       /\ q.run.st = "ok" /\ q.api # "nodes" => SameBag(old.run.res, q.run.res)
                       /\ q.run.st = "ok" => Lists(q.run.heads, Range(old.run.heads))

Judge(ww, q) ==
  CASE Prop = "C18" -> SizeOK(q)
    [] Prop = "C19" -> IF q.q = "snap" THEN ResultOK(ww, q) ELSE ArgsOK(q)
    [] Prop = "C08" -> q.q # "pat" \/ MemOK(ww, q)
    [] Prop = "C09" -> q.q # "pat" \/ PatAligned(ww, q)
    [] Prop = "C27" -> q.q # "pat" \/ (ResultOK(ww, q) /\ SymsSame(q))
    [] OTHER -> ResultOK(ww, q)

Remember(ww, q) ==
  CASE q.q = "ids" ->
         [ww EXCEPT !.ids = [ k \in DOMAIN @ \cup { <<q.r[j][1], q.r[j][2]>> : j \in DOMAIN q.r } |->
             IF k \in DOMAIN @ THEN @[k]
             ELSE q.r[CHOOSE j \in DOMAIN q.r : <<q.r[j][1], q.r[j][2]>> = k][3] ]]
    [] Prop = "C08" /\ q.q = "pat" /\ q.key \notin DOMAIN ww.mem ->
         [ww EXCEPT !.mem = Put(@, q.key, [run |-> q.run, m |-> Matches(G(ww, q.g), q.pat, SymOf(q))])]
    [] OTHER -> ww

\* C19: an operation leaves the slices, maps and sets it is given as they were
OpKeeps(o) == Prop = "C19" => "changed" \notin DOMAIN o

RECURSIVE RunOps(_, _, _), RunObs(_, _, _)
\* [ok, w, j]: j = index of the first operation with a wrong outcome
RunOps(ww, ops, j) ==
  IF j > Len(ops) THEN [ok |-> TRUE, w |-> ww, j |-> 0]
  ELSE LET r == TLCEval(Apply(ww, ops[j]))
       IN IF r.ok /\ OpKeeps(ops[j]) THEN RunOps(r.w, ops, j + 1) ELSE [ok |-> FALSE, w |-> ww, j |-> j]
RunObs(ww, obs, j) ==
  IF j > Len(obs) THEN [ok |-> TRUE, w |-> ww, j |-> 0]
  ELSE IF Judge(ww, obs[j]) THEN RunObs(TLCEval(Remember(ww, obs[j])), obs, j + 1)
  ELSE [ok |-> FALSE, w |-> ww, j |-> j]

Init == h \in 1..Len(Traces) /\ i = 0 /\ w = EmptyWorld

Next == /\ i < Len(Traces[h].ev)
        /\ LET e == Traces[h].ev[i + 1]
               a == TLCEval(RunOps(w, e.ops, 1))
               b == TLCEval(RunObs(a.w, e.obs, 1))
           IN IF ~a.ok THEN PrintT(<<"MISMATCH", h, i + 1, "op", a.j>>) /\ FALSE
              ELSE IF ~b.ok THEN PrintT(<<"MISMATCH", h, i + 1, "obs", b.j>>) /\ FALSE
              ELSE w' = b.w
        /\ i' = i + 1 /\ h' = h

Spec == Init /\ [][Next]_<<h, i, w>>
=============================================================================
