----------------------------- MODULE MC_Pattern -----------------------------
(***************************************************************************)
(* Canonicalisation of patterns: theorems about Pattern.tla over a finite  *)
(* scope, and the vectors replayed on the real conversions.                *)
(*                                                                         *)
(* The conversions are generic: they never look at a resource and only     *)
(* compare variables for equality, so two resources and four variables     *)
(* reach every distinction they can make.                                  *)
(***************************************************************************)
EXTENDS Pattern, TLC, Json, SequencesExt

T == 1..2
V == {-1, -2, -3, -4}
RawQuads == (T \cup V) \X (T \cup V) \X (T \cup V) \X (T \cup V \cup {DEFAULT})
Quads == (1..3) \X (1..3) \X (1..3) \X (0..3)

(* Canonical form means the same thing, is canonical, and is a normal form: *)
(* equal up to the names of variables gives equal, and canonicalising again *)
(* changes nothing.                                                         *)
ASSUME \A r \in RawQuads : \A q \in Quads : MatchRaw(r, q) <=> MatchC(Canon(r), q)
ASSUME \A r \in RawQuads : IsCanonical(Canon(r)) /\ Canon(Raw(Canon(r))) = Canon(r)
(* Distinct canonical forms are told apart by some quad: the form is unique. *)
CP == CanonicalPatterns(T)
Meaning(c) == {q \in Quads : MatchC(c, q)}
ASSUME Cardinality({Meaning(c) : c \in CP}) = Cardinality(CP)

Out(x) == PrintT("@@" \o ToJson(x))
ASSUME \A r \in RawQuads : Out([t |-> "raw", r |-> r, c |-> Canon(r)])
ASSUME \A r \in RawQuads : r[4] = DEFAULT =>
          Out([t |-> "rawt", r |-> r, c |-> Canon(<<r[1], r[2], r[3], -9>>)])
(* Optional components: 0 stands for None; the graph is -1 for None, 0 for  *)
(* Some(None), a term for Some(Some(term)).                                 *)
Opt(x) == IF x = 0 THEN ANY ELSE x
ASSUME \A s, p, o \in 0..2 : \A g \in -1..2 :
          Out([t |-> "opt", r |-> <<s, p, o, g>>, c |-> <<Opt(s), Opt(p), Opt(o), g>>])
ASSUME \A s, p, o \in T : \A g \in 0..2 : Out([t |-> "const", r |-> <<s, p, o, g>>])
(* Every canonical pattern: its views are its components. *)
ASSUME \A c \in CanonicalPatterns(1..3) : Out([t |-> "view", c |-> c])
(* One object constraint against triples. *)
ASSUME \A o \in {ANY, SAME_S, SAME_P, 1, 2} : \A q \in (1..3) \X (1..3) \X (1..3) \X {0} :
          Out([t |-> "filter", o |-> o, q |-> q, r |-> MatchPos(o, q, 3)])
=============================================================================
