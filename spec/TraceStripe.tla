---------------------------- MODULE TraceStripe ----------------------------
(***************************************************************************)
(* Validation of recorded histories at scale: every line is an operation   *)
(* repeated over whole cells, in some order, or a batch of observations    *)
(* summarised per cell.                                                    *)
(***************************************************************************)
EXTENDS StripeStore, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
H == 1..8

VARIABLES l, hs, sz
vars == <<l, hs, sz>>

B(x) == IF x THEN 1 ELSE 0
(* A listing of resources: none repeated, whole stripes. *)
Lists(r, K) == r.dup = 0 /\ Len(r.k) = Cardinality(K) /\ Rng(r.k) = {<<k, sz[k]>> : k \in K}

ObsOK(o, S) ==
  CASE o.k = "len" -> o.r = Total(sz, S)
    [] o.k = "empty" -> o.r = B(S = {})
    [] o.k = "has" -> \A i \in 1..Len(o.a) : o.r[i] = B(o.a[i] \in S)
    [] o.k = "iter" -> o.r.asc = 1 /\ AnswerOK(sz, o.r, << <<ANY>>, <<ANY>>, <<ANY>>, <<ANY>> >>, S)
    [] o.k = "res" -> o.r.asc = 1 /\ Lists(o.r, Resources(S))
    [] o.k = "hasres" -> \A i \in 1..Len(o.a) : o.r[i] = B(o.a[i] \in Resources(S))
    [] o.k = "subj" -> Lists(o.r, Subjects(S))
    [] o.k = "pred" -> Lists(o.r, Predicates(S))
    [] o.k = "obj" -> Lists(o.r, Objects(S))
    [] o.k = "graphs" -> Lists(o.r, NamedGraphs(S))
    [] o.k = "counts" ->
         LET c == << StripeTotal(sz, Resources(S)), StripeTotal(sz, Subjects(S)), StripeTotal(sz, Predicates(S)),
                     StripeTotal(sz, Objects(S)), StripeTotal(sz, NamedGraphs(S)), Total(sz, S) >> IN
         \A i \in 1..6 : o.r[i] = -1 \/ o.r[i] = c[i]
    [] o.k = "pat" -> AnswerOK(sz, o.r, o.a, S)
    [] o.k = "hass" -> \A i \in 1..Len(o.a) : o.r[i] = B(HasSubject(S, o.a[i]))
    [] o.k = "hasp" -> \A i \in 1..Len(o.a) : o.r[i] = B(HasPredicate(S, o.a[i]))
    [] o.k = "haso" -> \A i \in 1..Len(o.a) : o.r[i] = B(HasObject(S, o.a[i]))
    [] o.k = "hasg" -> \A i \in 1..Len(o.a) : o.r[i] = B(HasNamedGraph(S, o.a[i]))
    [] o.k = "hast" -> \A i \in 1..Len(o.a) : o.r[i] = B(ContainsTriple(S, o.a[i]))
    [] o.k = "qo" -> Lists(o.r, QuadObjects(S, o.a[1], o.a[2], o.a[3]))
    [] o.k = "po" -> \* r.each: the distinct <<stripe of the predicate, stripe of objects, how many>>
         /\ Lists(o.r, QuadPredicates(S, o.a[1], o.a[2]))
         /\ o.r.odup = 0
         /\ Rng(o.r.each) = {<<x[2], x[3], sz[x[3]]>> : x \in {x \in S : x[4] = o.a[1] /\ x[1] = o.a[2]}}
    [] o.k = "cmp" ->
         LET R == hs[o.a] IN
         /\ o.r[1] = B(S = R) /\ o.r[2] = StripeCmp(sz, S, R)
         /\ (S = R => o.r[3] = 1)

ObsAll(os, S) ==
  \A i \in 1..Len(os) : IF ObsOK(os[i], S) THEN TRUE ELSE PrintT(<<"REJECTED-OBS", l, i, os[i].k>>) /\ FALSE

Set(h, S) == hs' = [hs EXCEPT ![h] = S]
WeightsOf(S) == {<<x, Weight(sz, x)>> : x \in S}

(* n = -1: results not recorded, else the number of calls that reported a change. *)
Step(e) ==
  CASE e.e = "reset" -> hs' = [h \in H |-> {}] /\ sz' = e.sz
    [] e.e = "bins" -> /\ e.n = -1 \/ e.n = (IF InsertRet(hs[e.h], e.c) THEN Weight(sz, e.c) ELSE 0)
                       /\ Set(e.h, InsertPost(hs[e.h], e.c)) /\ UNCHANGED sz
    [] e.e = "brem" -> /\ e.n = -1 \/ e.n = (IF RemoveRet(hs[e.h], e.c) THEN Weight(sz, e.c) ELSE 0)
                       /\ Set(e.h, RemovePost(hs[e.h], e.c)) /\ UNCHANGED sz
    [] e.e = "rgs" -> \* each graph of stripe g removed; the distinct summaries of the graphs returned
         LET R == RemoveGraphRet(hs[e.h], e.g) IN
         /\ IF R = <<>> THEN e.some = 0 /\ e.each = <<>>
            ELSE /\ e.some = (IF e.g = DEFAULT THEN 1 ELSE sz[e.g])
                 /\ Len(e.each) = 1
                 /\ e.each[1].asc = 1
                 /\ Len(e.each[1].cells) = Cardinality(R[1])
                 /\ Rng(e.each[1].cells) = WeightsOf(R[1])
         /\ hs' = [hs EXCEPT ![e.h] = RemoveGraphPost(@, e.g), ![e.h2] = IF R = <<>> THEN {} ELSE R[1]]
         /\ UNCHANGED sz
    [] e.e = "exts" -> \* extraction under every choice of members of the given stripes
         LET T == Touched(e.f, hs[e.h]) IN
         /\ e.y.dup = 0 /\ Rng(e.y.cells) = WeightsOf(T)
         /\ Set(e.h, hs[e.h] \ T) /\ UNCHANGED sz
    [] e.e = "extp" -> \* extraction of up to n quads, put back afterwards
         LET w(x) == CountOf(e.y, x) IN
         /\ PartOK(sz, e.y, e.p, hs[e.h], e.n)
         /\ e.left = Total(sz, hs[e.h]) - SumOver(CellsOf(e.y), w)
         /\ e.back = SumOver(CellsOf(e.y), w)
         /\ UNCHANGED <<hs, sz>>
    [] e.e = "copy" -> Set(e.h2, hs[e.h]) /\ UNCHANGED sz
    [] e.e = "move" -> hs' = [hs EXCEPT ![e.h2] = hs[e.h], ![e.h] = {}] /\ UNCHANGED sz
    [] e.e = "add" -> Set(e.h, hs[e.h] \cup Rng(e.cs)) /\ UNCHANGED sz
    [] e.e = "make" -> Set(e.h, Rng(e.cs)) /\ UNCHANGED sz
    [] e.e = "obs" -> ObsAll(e.o, hs[e.h]) /\ UNCHANGED <<hs, sz>>

Init == l = 1 /\ hs = [h \in H |-> {}] /\ sz = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ Step(Trace[l])
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  d = Len(Trace) \/ (PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE)
=============================================================================
