------------------------------- MODULE Serde -------------------------------
(***************************************************************************)
(* Serialisation as an observed code: whatever texts the code chooses,     *)
(* every value has one text per type, every text of a type stands for one  *)
(* value, and reading gives that value back.  enc maps <<type, value>> to  *)
(* the text seen, dec maps <<type, text>> to the value it was written for. *)
(* A bare text read as a term is a blank node identifier, an IRI, or       *)
(* refused (the kinds are written without tags).                           *)
(***************************************************************************)
EXTENDS BlankId, FiniteSets, TLC

None == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f

(* Writing value x (equal values: same n) of type ty gives text j.         *)
WriteOK(enc, dec, ty, x, n, j) ==
  /\ <<ty, x>> \in DOMAIN enc => enc[<<ty, x>>] = j
  /\ <<ty, j>> \in DOMAIN dec => dec[<<ty, j>>] = n
(* Reading text j as type ty gives value b.                                 *)
ReadOK(dec, ty, j, b) == <<ty, j>> \in DOMAIN dec => b = dec[<<ty, j>>]

(* What a bare text is, read as ty; iri tells whether it is a valid IRI.    *)
TextKind(ty, s, iri) ==
  CASE ty = "blank" -> IF IsBlankId(s) THEN "b" ELSE "no"
    [] ty = "named" -> IF iri THEN "i" ELSE "no"
    [] ty = "datatype" -> IF iri THEN "i" ELSE "no"
    [] ty = "local" -> IF IsBlankId(s) THEN "b" ELSE IF iri THEN "i" ELSE "no"
=============================================================================
