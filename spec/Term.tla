-------------------------------- MODULE Term --------------------------------
(***************************************************************************)
(* Terms, whatever form they are held in:                                  *)
(*   <<"b", n>>  blank node   <<"i", n>>  IRI   <<"l", n, type>>  literal  *)
(*   types: <<"d", n>> datatype IRI, <<"g", n>> language                   *)
(* Numbers stand for texts; Same(role, m, n) tells whether two texts of a  *)
(* role are equal (languages that differ in case only are).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsBlank(x) == x[1] = "b"
IsIri(x) == x[1] = "i"
IsLit(x) == x[1] = "l"
IsNamed(x) == ~IsBlank(x)
No == <<>>
If(b, v) == IF b THEN v ELSE No

(* What each accessor of each type must tell; No for an absent answer.      *)
LocalAnswers(x) ==
  [is_anonymous |-> IsBlank(x), is_blank_id |-> IsBlank(x),
   as_anonymous |-> If(IsBlank(x), x), as_blank_id |-> If(IsBlank(x), x),
   as_iri |-> If(IsIri(x), x), as_literal |-> If(IsLit(x), x),
   to_and_fro |-> x]
NamedAnswers(x) ==
  [is_iri |-> IsIri(x), is_literal |-> IsLit(x),
   as_literal |-> If(IsLit(x), x), into_literal |-> If(IsLit(x), x),
   try_into_literal |-> <<IF IsLit(x) THEN "ok" ELSE "err", x>>,
   as_iri |-> If(IsIri(x), x), into_iri |-> If(IsIri(x), x),
   try_into_iri |-> <<IF IsIri(x) THEN "ok" ELSE "err", x>>,
   to_and_fro |-> x]
(* t: a type; xsd: the number of xsd:string; probe: another IRI.            *)
TypeAnswers(t, xsd, probe) ==
  [is_lang_string |-> t[1] = "g", lang_tag |-> If(t[1] = "g", t),
   is_xsd_string |-> t = <<"d", xsd>>, is_iri |-> t = <<"d", probe>>,
   to_and_fro |-> t]
LitAnswers(x, xsd, probe) ==
  [value |-> <<"v", x[2]>>, type |-> x[3], to_and_fro |-> x,
   is_lang_string |-> x[3][1] = "g", lang_tag |-> If(x[3][1] = "g", x[3])]
IdAnswers(x) == [as_iri |-> If(IsIri(x), x), to_and_fro |-> x]

(* Equality by kind and components; cls maps <<role, number>> to the class  *)
(* of equal texts.                                                          *)
SameType(cls, t, u) == t[1] = u[1] /\ cls[<<t[1], t[2]>>] = cls[<<u[1], u[2]>>]
SameTerm(cls, x, y) ==
  /\ x[1] = y[1]
  /\ IF IsLit(x) THEN cls[<<"v", x[2]>>] = cls[<<"v", y[2]>>] /\ SameType(cls, x[3], y[3])
     ELSE cls[<<x[1], x[2]>>] = cls[<<y[1], y[2]>>]

(* m: comparison matrix over a pool of n values, -1, 0, 1; eq: equality.    *)
TotalOrder(m, n) ==
  /\ \A i, j \in 1..n : m[i][j] \in {-1, 0, 1} /\ m[i][j] = -m[j][i]
  /\ \A i, j, k \in 1..n : m[i][j] <= 0 /\ m[j][k] <= 0 => m[i][k] <= 0
=============================================================================
