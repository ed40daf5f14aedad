----------------------------- MODULE TraceSerde -----------------------------
(* Recorded serialisations and deserialisations. *)
EXTENDS Serde, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, enc, dec
vars == <<l, enc, dec>>
(* A container is the set of its statements. *)
AsSet(d) == {d[i] : i \in 1..Len(d)}
Step1(e) ==
  CASE e.e = "reset" -> enc' = None /\ dec' = None
    [] e.e = "val" -> \* value x of type ty written as j, read back as b
         /\ WriteOK(enc, dec, e.ty, e.x, e.n, e.j)
         /\ enc' = Put(enc, <<e.ty, e.x>>, e.j) /\ dec' = Put(dec, <<e.ty, e.j>>, e.n)
         /\ ReadOK(dec', e.ty, e.j, e.b)
    [] e.e = "form" -> \* a borrowed or shared form of a value written before
         /\ <<e.ty, e.x>> \in DOMAIN enc /\ enc[<<e.ty, e.x>>] = e.j
         /\ UNCHANGED <<enc, dec>>
    [] e.e = "set" -> \* a graph or dataset
         /\ AsSet(e.b) = AsSet(e.n) /\ Len(e.b) = Cardinality(AsSet(e.n))
         /\ UNCHANGED <<enc, dec>>
    [] e.e = "text" ->
         /\ TextKind(e.ty, e.s, e.iri = 1) = e.k
         /\ (e.k # "no" => e.v = e.s)
         /\ UNCHANGED <<enc, dec>>
Init == l = 1 /\ enc = None /\ dec = None
Next == l <= Len(Trace) /\ Step1(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  d = Len(Trace) \/ (PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE)
=============================================================================
