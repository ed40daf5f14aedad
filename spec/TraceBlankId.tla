---------------------------- MODULE TraceBlankId ----------------------------
(***************************************************************************)
(* Recorded acceptances of the real entry points.                          *)
(*  "scan": with a fixed context (text before and after), the maximal      *)
(*          intervals of accepted code points among all Unicode scalar     *)
(*          values.  Two unions of intervals are equal when they agree at  *)
(*          the ends of the intervals of both and just outside.            *)
(*  "text": one text, its verdict, and what came back: the identifier's    *)
(*          text and suffix, or the refused input.                         *)
(*  "num":  identifiers made from distinct numbers.                        *)
(***************************************************************************)
EXTENDS BlankId, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
B(x) == IF x THEN 1 ELSE 0
IsScalar(c) == (c >= 0 /\ c <= Hex4(13, 7, 15, 15)) \/ (c >= Hex4(14, 0, 0, 0) /\ c <= 17 * 65536 - 1)
AllRanges == BaseRanges \o UnderColon \o ExtraRanges \o << <<DOT, DOT>> >>
Ends(rs) == UNION {{rs[i][1] - 1, rs[i][1], rs[i][2], rs[i][2] + 1} : i \in 1..Len(rs)}
ScanOK(e) ==
  \A c \in {c \in Ends(AllRanges) \cup Ends(e.r) \cup {0, 127, 128, 17 * 65536 - 1} : IsScalar(c)} :
     IsBlankId(e.b \o <<c>> \o e.a) <=> In(c, e.r)
Step1(e) ==
  CASE e.e = "scan" -> ScanOK(e)
    [] e.e = "text" ->
         /\ e.ok = B(IsBlankId(e.s))
         /\ IF e.ok = 1 THEN e.t = e.s /\ e.f = SubSeq(e.s, 3, Len(e.s)) ELSE e.t = e.s
    [] e.e = "num" ->
         /\ \A i \in 1..Len(e.t) : IsBlankId(e.t[i])
         /\ Cardinality({e.t[i] : i \in 1..Len(e.t)}) = Len(e.t)
    [] e.e = "reset" -> TRUE
Init == l = 1
Next == l <= Len(Trace) /\ Step1(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  d = Len(Trace) \/ (PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE)
=============================================================================
