----------------------------- MODULE TraceMacro -----------------------------
(* What compiled uses of the real macros evaluated to. *)
EXTENDS Macro, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Step1(e) ==
  CASE e.m = "triple" -> EvalOne(FALSE, e.ts) = <<1, e.r>>
    [] e.m = "quad" -> EvalOne(TRUE, e.ts) = <<1, e.r>>
    [] e.m = "triples" -> EvalList(FALSE, e.ts) = <<1, e.r>>
    [] e.m = "quads" -> EvalList(TRUE, e.ts) = <<1, e.r>>
Init == l = 1
Next == l <= Len(Trace) /\ Step1(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  d = Len(Trace) \/ (PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE)
=============================================================================
