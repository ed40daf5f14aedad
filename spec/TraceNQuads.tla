---------------------------- MODULE TraceNQuads ----------------------------
(* Recorded renderings must read back as what was rendered. *)
EXTENDS NQuads, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Step1(e) ==
  CASE e.e = "term" -> TermReads(e.s, e.x)
    [] e.e = "stmt" -> StatementReads(e.s, e.x)
    [] e.e = "doc" -> DocReads(e.s, e.x)
    [] e.e = "iri" -> LET r == ReadIri(e.s, 1) IN r # Fail /\ r[1] = e.v /\ r[2] = Len(e.s) + 1
    [] e.e = "string" -> At(e.s, 1) = QUOTE /\ LET r == ScanString(e.s, 2, <<>>) IN r # Fail /\ r[1] = e.v /\ r[2] = Len(e.s) + 1
    [] e.e = "type" -> \* a datatype or language suffix: what a literal ends with
         TermReads(<<QUOTE, QUOTE>> \o e.s, e.x) \/ (e.x.d = XsdString /\ ReadTerm(<<QUOTE, QUOTE>> \o e.s, 1) = <<e.x, Len(e.s) + 3, 1>>)
Init == l = 1
Next == l <= Len(Trace) /\ Step1(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  d = Len(Trace) \/ (PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE)
=============================================================================
