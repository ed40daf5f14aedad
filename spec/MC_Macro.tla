------------------------------ MODULE MC_Macro ------------------------------
(***************************************************************************)
(* Writing terms as tokens and evaluating gives the terms back; then every *)
(* statement over the ways of writing a term, and pairs of statements, for *)
(* the real macros.                                                        *)
(***************************************************************************)
EXTENDS Macro, TLC, Json
IriW == << <<"<">>, <<"str", "http://e.org/a">>, <<">">> >>
BlankW == << <<"_">>, <<":">>, <<"str", "b.1">> >>
PlainW == << <<"str", "x . y">> >>
TypedW == << <<"str", "1">>, <<"^">>, <<"^">>, <<"str", "http://e.org/t">> >>
VarW(v) == << <<"var", v>> >>
Ways == {IriW, BlankW, PlainW, TypedW, VarW(<<"i", "http://e.org/v">>), VarW(<<"l", "v", "http://e.org/u">>)}
MoreVars == {VarW(<<"b", "_:v">>), VarW(<<"i", "http://e.org/w">>)}
Value(w) == EvalTerms(w, 1, <<>>)[2][1]
ASSUME \A w \in Ways \cup MoreVars : EvalTerms(w, 1, <<>>)[1] = 1 /\ Len(EvalTerms(w, 1, <<>>)[2]) = 1
ASSUME \A a, b, c, d \in Ways :
   /\ EvalOne(FALSE, a \o b \o c) = <<1, <<Value(a), Value(b), Value(c)>>>>
   /\ EvalOne(TRUE, a \o b \o c) = <<1, <<Value(a), Value(b), Value(c), None>>>>
   /\ EvalOne(TRUE, a \o b \o c \o d) = <<1, <<Value(a), Value(b), Value(c), Value(d)>>>>
Dot == << <<".">> >>
Out(m, ts) == PrintT("@@" \o ToJson([m |-> m, ts |-> ts]))
ASSUME \A a, b, c \in Ways : Out("triple", a \o b \o c) /\ Out("quad", a \o b \o c)
Core == {IriW, BlankW, TypedW, VarW(<<"i", "http://e.org/v">>), PlainW}
ASSUME \A a, b, c, d \in Core : Out("quad", a \o b \o c \o d)
ASSUME \A v \in MoreVars : \A i \in 1..4 :
  LET q == [k \in 1..4 |-> IF k = i THEN v ELSE IriW] IN
  /\ Out("quad", q[1] \o q[2] \o q[3] \o q[4]) /\ Out("triple", q[1] \o q[2] \o q[3])
  /\ Out("quads", q[1] \o q[2] \o q[3] \o q[4] \o Dot) /\ Out("triples", q[1] \o q[2] \o q[3] \o Dot)
(* Lists: none, one, and two statements, with and without a graph, in both orders. *)
ASSUME Out("triples", <<>>) /\ Out("quads", <<>>)
ASSUME \A a, b, c \in Ways : Out("triples", a \o b \o c \o Dot) /\ Out("quads", a \o b \o c \o Dot)
ASSUME \A a, b \in Core :
   LET t == a \o IriW \o b \o Dot
       q == a \o IriW \o PlainW \o b \o Dot
       u == BlankW \o b \o a \o Dot IN
   /\ Out("triples", t \o u) /\ Out("quads", t \o q) /\ Out("quads", q \o t) /\ Out("quads", q \o q \o u)
=============================================================================
