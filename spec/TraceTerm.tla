----------------------------- MODULE TraceTerm -----------------------------
(***************************************************************************)
(* Recorded comparisons within pools of real values of one type: m[i][j]   *)
(* compares value i in one form with value j in another.                   *)
(***************************************************************************)
EXTENDS Term, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pool, eq, ord
vars == <<l, pool, eq, ord>>
(* Values arrive with classes in place of texts, so equality is identity.  *)
EqOf(xs) == [i \in 1..Len(xs) |-> [j \in 1..Len(xs) |-> IF xs[i] = xs[j] THEN 1 ELSE 0]]
Step1(e) ==
  CASE e.e = "reset" -> pool' = e.xs /\ eq' = EqOf(e.xs) /\ ord' = <<>>
    [] e.e = "eq" -> e.m = eq /\ UNCHANGED <<pool, eq, ord>>
    [] e.e = "cmp" ->
         /\ \A i, j \in 1..Len(pool) : (e.m[i][j] = 0) <=> (eq[i][j] = 1)
         /\ IF ord = <<>> THEN TotalOrder(e.m, Len(pool)) /\ ord' = e.m
            ELSE e.m = ord /\ UNCHANGED ord
         /\ UNCHANGED <<pool, eq>>
    [] e.e = "hash" -> \* 1: same hash value
         /\ \A i, j \in 1..Len(pool) : eq[i][j] = 1 => e.m[i][j] = 1
         /\ UNCHANGED <<pool, eq, ord>>
Init == l = 1 /\ pool = <<>> /\ eq = <<>> /\ ord = <<>>
Next == l <= Len(Trace) /\ Step1(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  d = Len(Trace) \/ (PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE)
=============================================================================
