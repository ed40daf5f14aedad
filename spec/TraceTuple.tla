----------------------------- MODULE TraceTuple -----------------------------
(* Recorded comparisons of real triples and quads. *)
EXTENDS Tuple, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Step1(e) ==
  LET c == Cmp(e.a, e.b) IN
  /\ e.c = c /\ e.p = c /\ e.q = (IF c = 0 THEN 1 ELSE 0)
  /\ (c = 0 => e.h = 1)
Init == l = 1
Next == l <= Len(Trace) /\ Step1(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  d = Len(Trace) \/ (PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE)
=============================================================================
