------------------------------ MODULE TraceIso ------------------------------
(* Recorded decisions of the real procedure on pairs of datasets. *)
EXTENDS Components, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>
B(x) == IF x THEN 1 ELSE 0
(* i: reported isomorphic, w: a bijection was returned, f and b: its two    *)
(* directions.  x = 1 when the decision is under test, else the witness.    *)
Flip(ps) == [i \in 1..Len(ps) |-> <<ps[i][2], ps[i][1]>>]
Step(e) ==
  LET A == Rng(e.a) C == Rng(e.b) IN
  IF IOEnv.PART = "decision"
  THEN IF e.e = "big"
       \* too large to search: either a renaming is known, or counting the quads
       \* of each shape, or the blank nodes of each surrounding, tells the two apart
       THEN IF e.k # <<>>
            THEN Assert(WitnessOK(A, C, e.k, Flip(e.k)), "bad trace") /\ e.i = 1
            ELSE Assert(Shapes(A) # Shapes(C) \/ Surroundings(A) # Surroundings(C), "bad trace") /\ e.i = 0
       ELSE IF e.e = "comp"
       \* components: compare the census
       THEN /\ Assert(Separate(e.ca) /\ Separate(e.cb), "bad trace")
            /\ Assert(DatasetOf(e.ca, e.p[1], e.p[2]) = A /\ DatasetOf(e.cb, e.p[1], e.p[2]) = C, "bad trace")
            /\ e.i = B(Census(e.ca) = Census(e.cb))
       ELSE e.i = B(IsomorphicBySearch(A, C))
  ELSE e.w = e.i /\ (e.w = 1 => WitnessOK(A, C, e.f, e.g))
Init == l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  d = Len(Trace) \/ (PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE)
=============================================================================
