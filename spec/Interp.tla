------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Interpretations: a partial map m from terms to resources.  Terms are    *)
(* numbers: 1..3 IRIs, 4..6 literals, 7..9 blank node identifiers, and     *)
(* generated ones from 100 on (IRIs 100.., literals 200.., blanks 300..).  *)
(* Resources are numbers, given out in order.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsIri(t) == t \in 1..3 \/ t \in 100..199
IsLit(t) == t \in 4..6 \/ t \in 200..299
IsBlankTerm(t) == t \in 7..9 \/ t \in 300..399
IsNamed(t) == IsIri(t) \/ IsLit(t)

Empty == [t \in {} |-> 0]
(* The transparent interpretations: every term is its own resource. *)
Transparent == [t \in (1..9) \cup (100..399) |-> t]

Known(m, t) == t \in DOMAIN m
Lookup(m, t) == IF Known(m, t) THEN m[t] ELSE 0
Bind(m, t, r) == [x \in DOMAIN m \cup {t} |-> IF x = t THEN r ELSE m[x]]
Used(m) == {m[t] : t \in DOMAIN m}
(* Inserting t gives r and the interpretation m2: the known resource, or a  *)
(* new one.                                                                 *)
InsertOK(m, t, r) == IF Known(m, t) THEN r = m[t] ELSE r # 0 /\ r \notin Used(m)
InsertPost(m, t, r) == IF Known(m, t) THEN m ELSE Bind(m, t, r)

TermsOf(m, r) == {t \in DOMAIN m : m[t] = r}
IrisOf(m, r) == {t \in TermsOf(m, r) : IsIri(t)}
LitsOf(m, r) == {t \in TermsOf(m, r) : IsLit(t)}
BlanksOf(m, r) == {t \in TermsOf(m, r) : IsBlankTerm(t)}
NamedOf(m, r) == IrisOf(m, r) \cup LitsOf(m, r)
Anonymous(m, r) == NamedOf(m, r) = {}
=============================================================================
