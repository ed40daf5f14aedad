------------------------------ MODULE BlankId ------------------------------
(***************************************************************************)
(* Blank node identifiers, as sequences of Unicode code points:            *)
(*   BLANK_NODE_LABEL ::= '_:' (PN_CHARS_U | [0-9])                        *)
(*                        ((PN_CHARS | '.')* PN_CHARS)?                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Hex4(a, b, c, d) == a * 4096 + b * 256 + c * 16 + d

BaseRanges == <<
  <<65, 90>>, <<97, 122>>,
  <<Hex4(0, 0, 12, 0), Hex4(0, 0, 13, 6)>>, <<Hex4(0, 0, 13, 8), Hex4(0, 0, 15, 6)>>,
  <<Hex4(0, 0, 15, 8), Hex4(0, 2, 15, 15)>>, <<Hex4(0, 3, 7, 0), Hex4(0, 3, 7, 13)>>,
  <<Hex4(0, 3, 7, 15), Hex4(1, 15, 15, 15)>>, <<Hex4(2, 0, 0, 12), Hex4(2, 0, 0, 13)>>,
  <<Hex4(2, 0, 7, 0), Hex4(2, 1, 8, 15)>>, <<Hex4(2, 12, 0, 0), Hex4(2, 15, 14, 15)>>,
  <<Hex4(3, 0, 0, 1), Hex4(13, 7, 15, 15)>>, <<Hex4(15, 9, 0, 0), Hex4(15, 13, 12, 15)>>,
  <<Hex4(15, 13, 15, 0), Hex4(15, 15, 15, 13)>>, <<65536, 14 * 65536 + 65535>> >>
UnderColon == << <<95, 95>>, <<58, 58>> >>
Digits == << <<48, 57>> >>
ExtraRanges == << <<45, 45>>, <<48, 57>>, <<Hex4(0, 0, 11, 7), Hex4(0, 0, 11, 7)>>,
                  <<Hex4(0, 3, 0, 0), Hex4(0, 3, 6, 15)>>, <<Hex4(2, 0, 3, 15), Hex4(2, 0, 4, 0)>> >>
DOT == 46
UNDERSCORE == 95
COLON == 58

In(c, rs) == \E i \in 1..Len(rs) : rs[i][1] <= c /\ c <= rs[i][2]
PnBase(c) == In(c, BaseRanges)
PnU(c) == PnBase(c) \/ In(c, UnderColon)
PnChar(c) == PnU(c) \/ In(c, ExtraRanges)
FirstChar(c) == PnU(c) \/ In(c, Digits)

(* The grammar, read as it is written: some split of the text fits. *)
IsBlankId(s) ==
  /\ Len(s) >= 3
  /\ s[1] = UNDERSCORE /\ s[2] = COLON
  /\ FirstChar(s[3])
  /\ \/ Len(s) = 3
     \/ /\ \A i \in 4..(Len(s) - 1) : PnChar(s[i]) \/ s[i] = DOT
        /\ PnChar(s[Len(s)])
IsSuffix(s) == IsBlankId(<<UNDERSCORE, COLON>> \o s)

(* The same as an automaton, the form a reader can follow character by      *)
(* character: state, code point -> state.                                   *)
Step(q, c) ==
  CASE q = "start" -> IF c = UNDERSCORE THEN "under" ELSE "dead"
    [] q = "under" -> IF c = COLON THEN "colon" ELSE "dead"
    [] q = "colon" -> IF FirstChar(c) THEN "in" ELSE "dead"
    [] q \in {"in", "dot"} -> IF c = DOT THEN "dot" ELSE IF PnChar(c) THEN "in" ELSE "dead"
    [] OTHER -> "dead"
RECURSIVE Run(_, _)
Run(q, s) == IF s = <<>> THEN q ELSE Run(Step(q, Head(s)), Tail(s))
Accepts(s) == Run("start", s) = "in"
=============================================================================
