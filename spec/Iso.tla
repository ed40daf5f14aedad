-------------------------------- MODULE Iso --------------------------------
(***************************************************************************)
(* Isomorphism of datasets.  Terms of BLANK0 and above are blank nodes,    *)
(* lower ones are IRIs and literals.  Two datasets are isomorphic when a   *)
(* bijection between their blank nodes turns one into the other.           *)
(***************************************************************************)
EXTENDS Rdf

BLANK0 == 11
IsBlank(t) == t >= BLANK0
Blanks(Q) == {t \in Resources(Q) : IsBlank(t)}

Apply(f, t) == IF IsBlank(t) THEN f[t] ELSE t
RenameQuad(f, q) == <<Apply(f, q[1]), Apply(f, q[2]), Apply(f, q[3]), Apply(f, q[4])>>
Rename(f, Q) == {RenameQuad(f, q) : q \in Q}

Bijections(S, T) ==
  {f \in [S -> T] : \A x, y \in S : f[x] = f[y] => x = y}

(* The definition. *)
Isomorphic(A, B) ==
  /\ Cardinality(Blanks(A)) = Cardinality(Blanks(B))
  /\ \E f \in Bijections(Blanks(A), Blanks(B)) : Rename(f, A) = B

(* A witness given as a sequence of pairs <<blank of A, blank of B>> for    *)
(* each direction.                                                          *)
AsMap(ps) == [x \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = x][2]]
WitnessOK(A, B, fw, bw) ==
  LET f == AsMap(fw) g == AsMap(bw) IN
  /\ Len(fw) = Cardinality(DOMAIN f) /\ Len(bw) = Cardinality(DOMAIN g)
  /\ DOMAIN f = Blanks(A) /\ DOMAIN g = Blanks(B)
  /\ \A x \in DOMAIN f : f[x] \in DOMAIN g /\ g[f[x]] = x
  /\ \A y \in DOMAIN g : g[y] \in DOMAIN f /\ f[g[y]] = y
  /\ Rename(f, A) = B

(* The same by search, for datasets with too many blank nodes to enumerate  *)
(* all bijections: extend a partial map while every quad whose blank nodes  *)
(* are all mapped lands in B.                                               *)
Settled(q, D) == \A i \in 1..4 : IsBlank(q[i]) => q[i] \in D
Consistent(A, B, f) == \A q \in A : Settled(q, DOMAIN f) => RenameQuad(f, q) \in B
Ext(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
RECURSIVE SearchFrom(_, _, _)
SearchFrom(A, B, f) ==
  LET todo == Blanks(A) \ DOMAIN f IN
  IF todo = {} THEN Rename(f, A) = B
  ELSE LET x == CHOOSE t \in todo : TRUE IN
       \E y \in Blanks(B) \ {f[z] : z \in DOMAIN f} :
         Consistent(A, B, Ext(f, x, y)) /\ SearchFrom(A, B, Ext(f, x, y))
NoMap == [x \in {} |-> 0]
IsomorphicBySearch(A, B) ==
  /\ Cardinality(A) = Cardinality(B)
  /\ Cardinality(Blanks(A)) = Cardinality(Blanks(B))
  /\ SearchFrom(A, B, NoMap)
=============================================================================
