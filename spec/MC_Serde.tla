------------------------------ MODULE MC_Serde ------------------------------
(***************************************************************************)
(* The untagged code is unambiguous: no text is both a blank node          *)
(* identifier and an IRI, and no literal is written as a bare text.  Then  *)
(* the values and texts to run on the real code.                           *)
(***************************************************************************)
EXTENDS Serde, Json, IOUtils

(* IRIs begin with a letter and have a colon (RFC 3987: scheme). *)
Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
MayBeIri(s) == Len(s) >= 2 /\ Letter(s[1]) /\ \E i \in 2..Len(s) : s[i] = 58
Chars == {97, 95, 58, 48, 46, 45, 32, 34}
Texts == UNION {[1..n -> Chars] : n \in 0..4}
ASSUME \A s \in Texts : ~(IsBlankId(s) /\ MayBeIri(s))

(* An untagged writer and reader over a small universe, and its round trip. *)
Values == {[k |-> "b", v |-> s] : s \in {t \in Texts : IsBlankId(t)}}
          \cup {[k |-> "i", v |-> s] : s \in {t \in Texts : MayBeIri(t)}}
          \cup {[k |-> "l", v |-> s] : s \in Texts}
Written(x) == IF x.k = "l" THEN [obj |-> 1, v |-> x.v] ELSE [obj |-> 0, v |-> x.v]
ReadBack(j) == IF j.obj = 1 THEN [k |-> "l", v |-> j.v]
               ELSE [k |-> TextKind("local", j.v, MayBeIri(j.v)), v |-> j.v]
ASSUME \A x \in Values : ReadBack(Written(x)) = x

Out(x) == PrintT("@@" \o ToJson(x))
IriT(v) == [k |-> "i", v |-> v, d |-> <<>>, g |-> <<>>]
BlankT(v) == [k |-> "b", v |-> v, d |-> <<>>, g |-> <<>>]
Typed(v, d) == [k |-> "l", v |-> v, d |-> d, g |-> <<>>]
Tagged(v, g) == [k |-> "l", v |-> v, d |-> <<>>, g |-> g]
H == <<104, 58, 47, 47, 100>>      \* h://d
H2 == <<104, 58>>
En == <<101, 110>>
B1 == <<95, 58, 97>>
B2 == <<95, 58, 48, 46, 45>>
Lit == {<<>>, H, B1, <<34, 92>>, <<91, 93>>, <<123, 125>>, <<110, 117, 108, 108>>, <<48>>, <<10, 0>>, <<128512>>, <<65, 110, 121>>}
Terms == {IriT(H), IriT(H2), BlankT(B1), BlankT(B2)} \cup {Typed(v, d) : v \in Lit, d \in {H, H2}}
         \cup {Tagged(v, g) : v \in Lit, g \in {En, <<101, 110, 45, 85, 83>>, <<120, 45, 97>>}}
ASSUME \A x \in Terms : Out([t |-> "term", x |-> x])
Few == {IriT(H), BlankT(B1), Typed(B1, H), Tagged(H, En)}
ASSUME \A a, b, c \in Few : /\ Out([t |-> "stmt", x |-> <<a, b, c>>])
                            /\ \A d \in Few : Out([t |-> "stmt", x |-> <<a, b, c, d>>])
ASSUME \A s \in Texts : Out([t |-> "text", s |-> s])
=============================================================================
