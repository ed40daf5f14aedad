---------------------------- MODULE MC_Components ----------------------------
(* Same census iff isomorphic, for all datasets of components with up to    *)
(* MAX blank nodes, in each pair of positions.                              *)
EXTENDS Components, TLC, IOUtils

Max == atoi(IOEnv.MAX)
Kinds == {<<k, n>> \in (0..2) \X (1..Max) : k = 1 \/ n >= 2}
(* All lists of kinds with at most Max nodes, in all orders. *)
RECURSIVE Lists(_)
Lists(m) == {<<>>} \cup UNION {{<<t>> \o r : r \in Lists(m - t[2])} : t \in {t \in Kinds : t[2] <= m}}
(* The nodes in turn. *)
RECURSIVE Lay(_, _)
Lay(ts, next) ==
  IF ts = <<>> THEN <<>>
  ELSE << <<ts[1][1], [k \in 1..ts[1][2] |-> next + k - 1]>> >> \o Lay(Tail(ts), next + ts[1][2])
All == {Lay(ts, BLANK0) : ts \in Lists(Max)}
Pairs == {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 3>>, <<2, 4>>, <<3, 4>>}
ASSUME \A cs \in All : Separate(cs)
ASSUME \A p \in Pairs : \A a, b \in All :
  (Census(a) = Census(b)) <=> IsomorphicBySearch(DatasetOf(a, p[1], p[2]), DatasetOf(b, p[1], p[2]))
ASSUME \A p \in Pairs : \A a, b \in All :
  Census(a) = Census(b) =>
    LET A == DatasetOf(a, p[1], p[2]) B == DatasetOf(b, p[1], p[2]) IN
    Shapes(A) = Shapes(B) /\ Surroundings(A) = Surroundings(B)
ASSUME PrintT(<<"component lists", Cardinality(All)>>)
=============================================================================
