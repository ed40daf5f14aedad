--------------------------- MODULE MC_StripeStore ---------------------------
(***************************************************************************)
(* What StripeStore says of cells is what Store says of their expansion:   *)
(* for every content over a few cells, every operation on whole stripes and *)
(* every pattern.                                                           *)
(***************************************************************************)
EXTENDS StripeStore, TLC

Sz == <<2, 1, 2>>
Cells == {<<1, 2, 3, 0>>, <<1, 1, 1, 2>>, <<3, 2, 3, 3>>, <<1, 2, 1, 1>>, <<2, 2, 2, 2>>, <<1, 2, 3, 1>>}
K == 1..3

VARIABLES S, T
Others == {{<<1, 2, 3, 0>>}, Cells, {<<1, 1, 1, 2>>, <<3, 2, 3, 3>>}, {<<1, 2, 1, 1>>}}
Init == S = {} /\ T = {}
Next == /\ T = {}
        /\ \/ \E x \in Cells : S' = S \cup {x} /\ T' = T
           \/ S' = S /\ T' \in Others

Q == Expand(Sz, S)
Given == {<<9, 1, 1>>, <<9, 1, 2>>, <<9, 2, 1>>, <<9, 3, 1>>, <<9, 3, 2>>}
Alts == {<<9, 1, 1, 1, 2>>, <<9, 3, 2, 1, 1, 3, 2>>, <<9>>}
P1 == Given \cup Alts \cup {<<ANY>>}
P2 == {<<9, 2, 1>>, <<9, 1, 2>>, <<9, 1, 1, 2, 1>>, <<ANY>>, <<SAME_S>>}
P3 == {<<9, 1, 1>>, <<9, 3, 2>>, <<9, 3, 1, 1, 2>>, <<ANY>>, <<SAME_S>>, <<SAME_P>>}
P4 == {<<9, 1, 2>>, <<9, 2, 1, 3, 1>>, <<ANY>>, <<DEFAULT>>, <<SAME_S>>, <<SAME_P>>, <<SAME_O>>}
Plain(pat) == [i \in 1..4 |-> IF pat[i][1] = 9 THEN ANY ELSE pat[i][1]]
Patterns == {pat \in P1 \X P2 \X P3 \X P4 :
  /\ pat[2][1] = SAME_S => pat[1][1] = ANY
  /\ pat[3][1] = SAME_S => pat[1][1] = ANY
  /\ pat[3][1] = SAME_P => pat[2][1] = ANY
  /\ pat[4][1] = SAME_S => pat[1][1] = ANY
  /\ pat[4][1] = SAME_P => pat[2][1] = ANY
  /\ pat[4][1] = SAME_O => pat[3][1] = ANY}
(* The pattern over resources. *)
Flat(c) == IF c[1] = 9 THEN <<1>> \o [j \in 1..((Len(c) - 1) \div 2) |-> Off(Sz, c[2 * j]) + c[2 * j + 1]] ELSE c
FlatPat(pat) == [i \in 1..4 |-> Flat(pat[i])]

Sizes == Cardinality(Q) = Total(Sz, S)
Insertions == T = {} =>
  \A x \in Cells :
    /\ Cardinality({q \in ExpandCell(Sz, x) : InsertRet(Q, q)}) = (IF x \in S THEN 0 ELSE Weight(Sz, x))
    /\ Cardinality({q \in ExpandCell(Sz, x) : RemoveRet(Q, q)}) = (IF x \in S THEN Weight(Sz, x) ELSE 0)
    /\ Expand(Sz, S \cup {x}) = Q \cup ExpandCell(Sz, x)
    /\ Expand(Sz, S \ {x}) = Q \ ExpandCell(Sz, x)
Roles == T = {} =>
  /\ Subjects(Q) = UNION {Stripe(Sz, k) : k \in Subjects(S)}
  /\ Predicates(Q) = UNION {Stripe(Sz, k) : k \in Predicates(S)}
  /\ Objects(Q) = UNION {Stripe(Sz, k) : k \in Objects(S)}
  /\ NamedGraphs(Q) = UNION {Stripe(Sz, k) : k \in NamedGraphs(S)}
  /\ Resources(Q) = UNION {Stripe(Sz, k) : k \in Resources(S)}
  /\ Cardinality(Resources(Q)) = StripeTotal(Sz, Resources(S))
Answers == T = {} =>
  \A pat \in Patterns : \A x \in Cells :
    Cardinality(MultiMatches(Q, FlatPat(pat)) \cap ExpandCell(Sz, x)) = (IF x \in S THEN MatchWeight(Sz, pat, x) ELSE 0)
Graphs == T = {} =>
  \A g \in K \cup {0} : \A m \in Stripe(Sz, g) :
    RemoveGraphRet(Q, m) =
      IF g # 0 /\ GraphOf(S, g) = {} THEN <<>>
      ELSE <<Expand(Sz, {ToTriple(x) : x \in GraphOf(S, g)})>>
Order == CmpSets(Q, Expand(Sz, T)) = StripeCmp(Sz, S, T)
=============================================================================
