------------------------------ MODULE MC_Term ------------------------------
(* Every accessor's answer for all terms of a small universe. *)
EXTENDS Term, TLC, Json
Xsd == 9
N == 1..3
Types == {<<"d", n>> : n \in N \cup {Xsd}} \cup {<<"g", n>> : n \in N}
Lits == {<<"l", v, t>> : v \in 0..3, t \in Types}
Named == {<<"i", n>> : n \in N \cup {Xsd}} \cup Lits
Blanks == {<<"b", n>> : n \in N}
Locals == Named \cup Blanks
(* Equality is an equivalence for any classes. *)
Cls == [p \in ({"v"} \X (0..3)) \cup ({"d", "g", "i", "b"} \X (1..9)) |-> IF p = <<"g", 2>> THEN 1 ELSE p[2]]
ASSUME \A x, y \in Locals : SameTerm(Cls, x, y) = SameTerm(Cls, y, x)
ASSUME \A x \in Locals : SameTerm(Cls, x, x)
ASSUME SameTerm(Cls, <<"l", 1, <<"g", 1>>>>, <<"l", 1, <<"g", 2>>>>)
ASSUME \A x, y \in Locals : SameTerm(Cls, x, y) =>
   x = y \/ (IsLit(x) /\ IsLit(y) /\ x[3][1] = "g" /\ {x[3][2], y[3][2]} = {1, 2})
Out(x) == PrintT("@@" \o ToJson(x))
ASSUME \A x \in Locals : Out([t |-> "local", x |-> x, a |-> LocalAnswers(x)])
ASSUME \A x \in Named : Out([t |-> "named", x |-> x, a |-> NamedAnswers(x)])
ASSUME \A x \in Lits : Out([t |-> "lit", x |-> x, a |-> LitAnswers(x, Xsd, 2)])
ASSUME \A x \in Types : Out([t |-> "type", x |-> x, a |-> TypeAnswers(x, Xsd, 2)])
ASSUME \A x \in Blanks \cup {<<"i", n>> : n \in N} : Out([t |-> "id", x |-> x, a |-> IdAnswers(x)])
=============================================================================
