------------------------------- MODULE Macro -------------------------------
(***************************************************************************)
(* The statement macros as an evaluator of token sequences.  Tokens:       *)
(*   <<"<">> <<">">> <<"_">> <<":">> <<"^">> <<".">>                       *)
(*   <<"str", text>>   a string literal                                    *)
(*   <<"var", value>>  a Rust variable holding a term                      *)
(* Term values: <<"i", text>>, <<"b", label>>, <<"l", text, datatype>>.    *)
(* EvalTerms gives <<1, terms>> or <<0, <<>>>> for what is no statement.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Xsd == "http://www.w3.org/2001/XMLSchema#string"
Tok(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE <<"end">>
Is(ts, i, k) == Tok(ts, i)[1] = k
RECURSIVE EvalTerms(_, _, _)
EvalTerms(ts, i, acc) ==
  IF i > Len(ts) THEN <<1, acc>>
  ELSE IF Is(ts, i, "var") THEN EvalTerms(ts, i + 1, Append(acc, ts[i][2]))
  ELSE IF Is(ts, i, "<") /\ Is(ts, i + 1, "str") /\ Is(ts, i + 2, ">")
  THEN EvalTerms(ts, i + 3, Append(acc, <<"i", ts[i + 1][2]>>))
  ELSE IF Is(ts, i, "_") /\ Is(ts, i + 1, ":") /\ Is(ts, i + 2, "str")
  THEN EvalTerms(ts, i + 3, Append(acc, <<"b", "_:" \o ts[i + 2][2]>>))
  ELSE IF Is(ts, i, "str") /\ Is(ts, i + 1, "^") /\ Is(ts, i + 2, "^") /\ Is(ts, i + 3, "str")
  THEN EvalTerms(ts, i + 4, Append(acc, <<"l", ts[i][2], ts[i + 3][2]>>))
  ELSE IF Is(ts, i, "str") THEN EvalTerms(ts, i + 1, Append(acc, <<"l", ts[i][2], Xsd>>))
  ELSE <<0, <<>>>>

(* One statement: 3 terms, or for quads 3 or 4 (without a graph: default). *)
None == <<"none">>
EvalOne(quads, ts) ==
  LET r == EvalTerms(ts, 1, <<>>) IN
  IF r[1] = 0 THEN r
  ELSE IF quads THEN IF Len(r[2]) = 3 THEN <<1, Append(r[2], None)>>
                     ELSE IF Len(r[2]) = 4 THEN r ELSE <<0, <<>>>>
  ELSE IF Len(r[2]) = 3 THEN r ELSE <<0, <<>>>>

(* A list: statements each ended by a dot. *)
RECURSIVE Split(_, _, _, _)
Split(ts, i, cur, acc) ==
  IF i > Len(ts) THEN IF cur = <<>> THEN <<1, acc>> ELSE <<0, <<>>>>
  ELSE IF ts[i][1] = "." THEN Split(ts, i + 1, <<>>, Append(acc, cur))
  ELSE Split(ts, i + 1, Append(cur, ts[i]), acc)
EvalList(quads, ts) ==
  LET s == Split(ts, 1, <<>>, <<>>) IN
  IF s[1] = 0 THEN s
  ELSE LET rs == [k \in 1..Len(s[2]) |-> EvalOne(quads, s[2][k])] IN
       IF \A k \in 1..Len(rs) : rs[k][1] = 1 THEN <<1, [k \in 1..Len(rs) |-> rs[k][2]]>> ELSE <<0, <<>>>>
=============================================================================
