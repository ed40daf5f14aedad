---------------------------- MODULE TraceInterp ----------------------------
(* Recorded use of real interpretations. *)
EXTENDS Interp, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, seen
vars == <<l, m, seen>>
Rng(s) == {s[i] : i \in 1..Len(s)}
SeqIs(s, S) == Len(s) = Cardinality(S) /\ Rng(s) = S
B(x) == IF x THEN 1 ELSE 0
Step1(e) ==
  CASE e.e = "reset" -> m' = (IF e.transparent = 1 THEN Transparent ELSE Empty) /\ seen' = {}
    [] e.e = "ins" -> InsertOK(m, e.t, e.r) /\ m' = InsertPost(m, e.t, e.r) /\ UNCHANGED seen
    [] e.e = "look" -> e.r = Lookup(m, e.t) /\ UNCHANGED <<m, seen>>
    [] e.e = "alias" -> m' = Bind(m, e.t, e.r) /\ UNCHANGED seen
    [] e.e = "new" -> \* t: the term the generator gave; each once
         /\ e.t \notin seen /\ seen' = seen \cup {e.t}
         /\ InsertOK(m, e.t, e.r) /\ m' = InsertPost(m, e.t, e.r)
    [] e.e = "terms" -> \* what the resource r is called; -1: not offered
         /\ SeqIs(e.i, IrisOf(m, e.r)) /\ SeqIs(e.l, LitsOf(m, e.r)) /\ SeqIs(e.n, NamedOf(m, e.r))
         /\ (e.b # <<-1>> => SeqIs(e.b, BlanksOf(m, e.r)) /\ SeqIs(e.a, TermsOf(m, e.r)))
         /\ e.x = B(Anonymous(m, e.r))
         /\ UNCHANGED <<m, seen>>
Init == l = 1 /\ m = Empty /\ seen = {}
Next == l <= Len(Trace) /\ Step1(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  d = Len(Trace) \/ (PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE)
=============================================================================
