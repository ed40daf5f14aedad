----------------------------- MODULE Components -----------------------------
(***************************************************************************)
(* Datasets made of separate components, for which isomorphism is known at  *)
(* any size.  A component is <<kind, ids>>, ids being distinct blank nodes: *)
(*   0  a path   ids[1] -> ids[2] -> ... (two nodes at least)               *)
(*   1  a cycle  ids[1] -> ids[2] -> ... -> ids[1]                          *)
(*   2  a star   ids[1] -> each of the others (one other at least)          *)
(* Links are quads with their ends in two of the four positions; label 1    *)
(* for paths and cycles, 2 for stars.                                       *)
(* Two such datasets are isomorphic exactly when they have as many          *)
(* components of each kind and length (checked in MC_Components).           *)
(***************************************************************************)
EXTENDS Iso, TLC

Link(i, j, x, y, c) ==
  LET k == CHOOSE k \in 1..4 : k # i /\ k # j /\ \A m \in 1..4 : m = i \/ m = j \/ k <= m IN
  [n \in 1..4 |-> CASE n = i -> x [] n = j -> y [] n = k -> c [] OTHER -> 1]

LinksOf(c, i, j) ==
  LET n == Len(c[2]) IN
  CASE c[1] = 0 -> {Link(i, j, c[2][k], c[2][k + 1], 1) : k \in 1..(n - 1)}
    [] c[1] = 1 -> {Link(i, j, c[2][k], c[2][IF k = n THEN 1 ELSE k + 1], 1) : k \in 1..n}
    [] c[1] = 2 -> {Link(i, j, c[2][1], c[2][k], 2) : k \in 2..n}
DatasetOf(cs, i, j) == UNION {LinksOf(cs[k], i, j) : k \in 1..Len(cs)}

(* Well formed: no blank node occurs twice, sizes as above. *)
Sizes(cs) == [k \in 1..Len(cs) |-> Len(cs[k][2])]
RECURSIVE Total(_, _)
Total(s, k) == IF k = 0 THEN 0 ELSE s[k] + Total(s, k - 1)
Separate(cs) ==
  /\ \A k \in 1..Len(cs) : Len(cs[k][2]) >= IF cs[k][1] = 1 THEN 1 ELSE 2
  /\ \A k \in 1..Len(cs) : \A m \in 1..Len(cs[k][2]) : IsBlank(cs[k][2][m])
  /\ Cardinality(UNION {Rng(cs[k][2]) : k \in 1..Len(cs)}) = Total(Sizes(cs), Len(cs))

Kind(c) == <<c[1], Len(c[2])>>
Number(cs, t) == Cardinality({k \in 1..Len(cs) : Kind(cs[k]) = t})
Census(cs) == {<<Kind(cs[k]), Number(cs, Kind(cs[k]))>> : k \in 1..Len(cs)}

(* The quads with blank nodes erased, each with its number of occurrences,  *)
(* and the same around each blank node, which is marked: isomorphic         *)
(* datasets have the same of both.                                          *)
Erase(q) == [i \in 1..4 |-> IF IsBlank(q[i]) THEN BLANK0 ELSE q[i]]
Shapes(Q) == {<<s, Cardinality({q \in Q : Erase(q) = s})>> : s \in {Erase(q) : q \in Q}}
Mark(q, b) == [i \in 1..4 |-> IF q[i] = b THEN BLANK0 + 1 ELSE IF IsBlank(q[i]) THEN BLANK0 ELSE q[i]]
Around(Q, b) ==
  LET R == {q \in Q : \E i \in 1..4 : q[i] = b} IN
  {<<s, Cardinality({q \in R : Mark(q, b) = s})>> : s \in {Mark(q, b) : q \in R}}
Surroundings(Q) ==
  LET f == TLCEval([b \in Blanks(Q) |-> Around(Q, b)]) IN
  {<<a, Cardinality({b \in DOMAIN f : f[b] = a})>> : a \in {f[b] : b \in DOMAIN f}}
=============================================================================
