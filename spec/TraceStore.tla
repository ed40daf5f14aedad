----------------------------- MODULE TraceStore -----------------------------
(***************************************************************************)
(* Validation of recorded histories of the real containers.  A trace works *)
(* on several containers (handles); copies, conversions and removed graphs *)
(* get handles of their own, so independence is part of what is checked.   *)
(* Every line must be a step of Store with the recorded result, and every  *)
(* recorded observation must be the one Store prescribes.                  *)
(***************************************************************************)
EXTENDS Store, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
H == 1..16

VARIABLES l, hs
vars == <<l, hs>>

B(x) == IF x THEN 1 ELSE 0
SeqIsSet(sq, S) == Len(sq) = Cardinality(S) /\ Rng(sq) = S
Ascending(sq) == \A i \in 1..(Len(sq) - 1) : sq[i] < sq[i + 1]

ObsOK(o, Q) ==
  CASE o.k = "len" -> o.r = Cardinality(Q)
    [] o.k = "empty" -> o.r = B(Q = {})
    [] o.k = "has" -> \A i \in 1..Len(o.a) : o.r[i] = B(o.a[i] \in Q)
    [] o.k = "iter" -> IsSorted(o.r) /\ SeqIsSet(o.r, Q)
    [] o.k = "set" -> SeqIsSet(o.r, Q)
    [] o.k = "res" -> Ascending(o.r) /\ SeqIsSet(o.r, Resources(Q))
    [] o.k = "hasres" -> \A i \in 1..Len(o.a) : o.r[i] = B(o.a[i] \in Resources(Q))
    [] o.k = "subj" -> SeqIsSet(o.r, Subjects(Q))
    [] o.k = "pred" -> SeqIsSet(o.r, Predicates(Q))
    [] o.k = "obj" -> SeqIsSet(o.r, Objects(Q))
    [] o.k = "graphs" -> SeqIsSet(o.r, NamedGraphs(Q))
    [] o.k = "counts" ->
         LET c == << Cardinality(Resources(Q)), Cardinality(Subjects(Q)), Cardinality(Predicates(Q)),
                     Cardinality(Objects(Q)), Cardinality(NamedGraphs(Q)), Cardinality(Q) >> IN
         \A i \in 1..6 : o.r[i] = -1 \/ o.r[i] = c[i]
    [] o.k = "pat" -> SeqIsSet(o.r, Matches(Q, o.a))
    [] o.k = "multi" -> SeqIsSet(o.r, MultiMatches(Q, o.a))
    [] o.k = "hass" -> \A i \in 1..Len(o.a) : o.r[i] = B(HasSubject(Q, o.a[i]))
    [] o.k = "hasp" -> \A i \in 1..Len(o.a) : o.r[i] = B(HasPredicate(Q, o.a[i]))
    [] o.k = "haso" -> \A i \in 1..Len(o.a) : o.r[i] = B(HasObject(Q, o.a[i]))
    [] o.k = "hasg" -> \A i \in 1..Len(o.a) : o.r[i] = B(HasNamedGraph(Q, o.a[i]))
    [] o.k = "hast" -> \A i \in 1..Len(o.a) : o.r[i] = B(ContainsTriple(Q, o.a[i]))
    [] o.k = "qo" -> SeqIsSet(o.r, QuadObjects(Q, o.a[1], o.a[2], o.a[3]))
    [] o.k = "po" -> LET PO == PredicatesObjects(Q, o.a[1], o.a[2]) IN
                     /\ \A i \in 1..Len(o.r) : Len(o.r[i][2]) = Cardinality(Rng(o.r[i][2]))
                     /\ Len(o.r) = Cardinality(PO)
                     /\ {<<o.r[i][1], Rng(o.r[i][2])>> : i \in 1..Len(o.r)} = PO
    [] o.k = "cmp" -> \* r = <<equal, three-way comparison, hashes equal>>
                     LET R == hs[o.a] IN
                     /\ o.r[1] = B(Q = R) /\ o.r[2] = CmpSets(Q, R)
                     /\ (Q = R => o.r[3] = 1)

ObsAll(os, Q) ==
  \A i \in 1..Len(os) : IF ObsOK(os[i], Q) THEN TRUE ELSE PrintT(<<"REJECTED-OBS", l, i, os[i].k>>) /\ FALSE

Set(h, Q) == hs' = [hs EXCEPT ![h] = Q]

(* r = -1: result not recorded. *)
Step(e) ==
  CASE e.e = "reset" -> hs' = [h \in H |-> {}]
    [] e.e = "ins" -> (e.r = -1 \/ e.r = B(InsertRet(hs[e.h], e.q))) /\ Set(e.h, InsertPost(hs[e.h], e.q))
    [] e.e = "rem" -> (e.r = -1 \/ e.r = B(RemoveRet(hs[e.h], e.q))) /\ Set(e.h, RemovePost(hs[e.h], e.q))
    [] e.e = "rg" -> \* the graph returned becomes handle h2; some = 0 when nothing was returned
         LET R == RemoveGraphRet(hs[e.h], e.g) IN
         /\ e.some = Len(R)
         /\ SeqIsSet(e.r, IF R = <<>> THEN {} ELSE R[1])
         /\ hs' = [hs EXCEPT ![e.h] = RemoveGraphPost(@, e.g), ![e.h2] = Rng(e.r)]
    [] e.e = "ext" ->
         /\ Len(e.y) = Cardinality(Rng(e.y))
         /\ ExtractOK(hs[e.h], e.p, e.n, Rng(e.y))
         /\ Set(e.h, ExtractPost(hs[e.h], Rng(e.y)))
    [] e.e = "copy" -> Set(e.h2, hs[e.h])
    [] e.e = "move" -> hs' = [hs EXCEPT ![e.h2] = hs[e.h], ![e.h] = {}]
    [] e.e = "add" -> Set(e.h, hs[e.h] \cup Rng(e.qs))
    [] e.e = "make" -> Set(e.h, Rng(e.qs))
    [] e.e = "obs" -> ObsAll(e.o, hs[e.h]) /\ UNCHANGED hs

Init == l = 1 /\ hs = [h \in H |-> {}]
Next ==
  /\ l <= Len(Trace)
  /\ Step(Trace[l])
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  d = Len(Trace) \/ (PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE)
=============================================================================
