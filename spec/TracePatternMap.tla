-------------------------- MODULE TracePatternMap --------------------------
(* Recorded uses of the real pattern maps and their sub-maps. *)
EXTENDS PatternMap, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
H == 1..4
VARIABLES l, hs
vars == <<l, hs>>
B(x) == IF x THEN 1 ELSE 0
Step(e) ==
  CASE e.e = "reset" -> hs' = [h \in H |-> {}]
    [] e.e = "ins" -> e.r = B(MapInsertRet(hs[e.h], e.p, e.v)) /\ hs' = [hs EXCEPT ![e.h] = MapInsert(@, e.p, e.v)]
    [] e.e = "many" -> LET r == RunRet(hs[e.h], e.p, e.lo, e.hi) IN
         e.r = [i \in DOMAIN r |-> B(r[i])] /\ hs' = [hs EXCEPT ![e.h] = RunInsert(@, e.p, e.lo, e.hi)]
    [] e.e = "union" -> hs' = [hs EXCEPT ![e.h] = MapUnion(@, hs[e.h2]), ![e.h2] = {}]
    [] e.e = "get" -> (\A i \in 1..Len(e.g) : GetOK(hs[e.h], e.g[i].t, e.g[i].y)) /\ UNCHANGED hs
Init == l = 1 /\ hs = [h \in H |-> {}]
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  d = Len(Trace) \/ (PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE)
=============================================================================
