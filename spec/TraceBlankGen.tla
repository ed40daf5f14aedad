--------------------------- MODULE TraceBlankGen ---------------------------
(***************************************************************************)
(* Recorded use of real generators, directly and through the               *)
(* interpretations built on them.                                          *)
(*  "new":   prefix p, offset n                                            *)
(*  "next":  r = the texts issued by consecutive calls (0 or 1 of them per *)
(*           call); pn = 1 when the last call ended in a panic             *)
(*  "count": the counter reads n and the prefix p                          *)
(***************************************************************************)
EXTENDS BlankGen, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Max == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
VARIABLES l, g
vars == <<l, g>>
RECURSIVE IssueAll(_, _)
(* The generator after issuing all of rs, or <<>> when one is not allowed. *)
IssueAll(h, rs) ==
  IF rs = <<>> THEN <<h>>
  ELSE IF Exhausted(h, Max) \/ ~IssueOK(h, Head(rs)) THEN <<>>
  ELSE IssueAll(Issue(h, Head(rs)), Tail(rs))
Step1(e) ==
  CASE e.e = "reset" -> g' = NewGen(e.p, e.n)
    [] e.e = "next" ->
         LET h == IssueAll(g, e.r) IN
         /\ h # <<>>
         /\ e.pn = 1 <=> (e.tried > Len(e.r))
         /\ (e.pn = 1 => Exhausted(h[1], Max))
         /\ g' = h[1]
    [] e.e = "count" -> e.n = g.count /\ e.p = g.prefix /\ UNCHANGED g
Init == l = 1 /\ g = NewGen(<<>>, <<0>>)
Next == l <= Len(Trace) /\ Step1(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  d = Len(Trace) \/ (PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE)
=============================================================================
