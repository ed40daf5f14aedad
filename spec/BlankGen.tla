------------------------------ MODULE BlankGen ------------------------------
(***************************************************************************)
(* Numbered generators of blank node identifiers.  Numbers are sequences   *)
(* of decimal digits without leading zeros, so that the machine limit is   *)
(* within reach.                                                           *)
(***************************************************************************)
EXTENDS BlankId, FiniteSets

RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<1>>
          ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1]
          ELSE Inc(SubSeq(d, 1, Len(d) - 1)) \o <<0>>
Dec10(d) == [i \in 1..Len(d) |-> 48 + d[i]]

(* A generator: its prefix (code points), its counter, what it has issued.  *)
NewGen(prefix, offset) == [prefix |-> prefix, count |-> offset, issued |-> {}]
Exhausted(g, max) == g.count = max
(* What is issued next: the prefix followed by the counter.                 *)
Numbered(g) == <<UNDERSCORE, COLON>> \o g.prefix \o Dec10(g.count)
IssueOK(g, text) == IsBlankId(text) /\ text = Numbered(g) /\ text \notin g.issued
Issue(g, text) == [g EXCEPT !.count = Inc(@), !.issued = @ \cup {text}]
=============================================================================
