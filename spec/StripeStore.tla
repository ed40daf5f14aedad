---------------------------- MODULE StripeStore ----------------------------
(***************************************************************************)
(* The meaning of a container at scale.  Resources are grouped in stripes: *)
(* stripe k holds sz[k] resources, all smaller than those of stripe k + 1. *)
(* A cell <<s, p, o, g>> of stripes stands for the product of its stripes  *)
(* (g = 0: the default graph only), and a content is a set of cells.  What *)
(* Store says about the expanded content is said here in terms of cells    *)
(* and sizes; MC_StripeStore checks that the two agree.                    *)
(***************************************************************************)
EXTENDS Store, FiniteSetsExt

Factor(sz, x, i) == IF i = 4 /\ x[4] = DEFAULT THEN 1 ELSE sz[x[i]]
Weight(sz, x) == Factor(sz, x, 1) * Factor(sz, x, 2) * Factor(sz, x, 3) * Factor(sz, x, 4)

SumOver(S, f(_)) == MapThenSumSet(f, S)
Total(sz, S) == LET w(x) == Weight(sz, x) IN SumOver(S, w)
StripeTotal(sz, K) == LET w(k) == sz[k] IN SumOver(K, w)

(* Patterns: each position is <<c>> with c one of ANY, SAME_x and 0 (the    *)
(* default graph), or <<9>> \o <<k1, m1, k2, m2, ...>>, the alternatives    *)
(* "member m of stripe k"; a given resource is a single alternative.        *)
Members(c, k) == {c[2 * j + 1] : j \in {j \in 1..((Len(c) - 1) \div 2) : c[2 * j] = k}}
PosWeight(sz, c, x, i) ==
  IF c[1] = 9 THEN IF x[i] = DEFAULT THEN 0 ELSE Cardinality(Members(c, x[i]))
  ELSE CASE c[1] = ANY -> Factor(sz, x, i)
         [] c[1] = DEFAULT -> IF x[i] = DEFAULT THEN 1 ELSE 0
         [] OTHER -> IF x[i] = x[-1 - c[1]] THEN 1 ELSE 0
MatchWeight(sz, pat, x) ==
  PosWeight(sz, pat[1], x, 1) * PosWeight(sz, pat[2], x, 2) * PosWeight(sz, pat[3], x, 3) * PosWeight(sz, pat[4], x, 4)
MatchTotal(sz, pat, S) == LET w(x) == MatchWeight(sz, pat, x) IN SumOver(S, w)

(* The summary of an answer: y.cells is a sequence of <<cell, count>>, y.dup *)
(* is 0 when no quad was repeated, y.eq lists the pairs <<i, j>> of positions *)
(* that were equal in every quad, and y.vals[i] the resources <<k, m>> found  *)
(* at a position with alternatives.                                           *)
CellsOf(y) == {y.cells[i][1] : i \in 1..Len(y.cells)}
CountOf(y, x) == LET i == CHOOSE i \in 1..Len(y.cells) : y.cells[i][1] = x IN y.cells[i][2]
Within(y, pat) ==
  /\ y.dup = 0
  /\ \A i \in 1..4 :
       CASE pat[i][1] = 9 -> \A v \in Rng(y.vals[i]) : v[2] \in Members(pat[i], v[1])
         [] pat[i][1] < ANY -> <<-1 - pat[i][1], i>> \in Rng(y.eq)
         [] OTHER -> TRUE
(* Exactly the matching quads. *)
AnswerOK(sz, y, pat, S) ==
  /\ Within(y, pat)
  /\ CellsOf(y) = {x \in S : MatchWeight(sz, pat, x) > 0}
  /\ \A x \in CellsOf(y) : CountOf(y, x) = MatchWeight(sz, pat, x)
(* Some n of the matching quads. *)
PartOK(sz, y, pat, S, n) ==
  /\ Within(y, pat)
  /\ CellsOf(y) \subseteq S
  /\ \A x \in CellsOf(y) : CountOf(y, x) <= MatchWeight(sz, pat, x)
  /\ LET w(x) == CountOf(y, x) IN SumOver(CellsOf(y), w) = Min(n, MatchTotal(sz, pat, S))

(* Cells whose every quad is met when the pattern ranges over whole stripes: *)
(* f[i] is a stripe, ANY, or 0 for the default graph.                        *)
Touched(f, S) == {x \in S : \A i \in 1..4 : f[i] = ANY \/ x[i] = f[i]}

(* Order of the expanded contents. *)
Top(sz, x) == <<x[1], sz[x[1]], x[2], sz[x[2]], x[3], sz[x[3]], x[4], Factor(sz, x, 4)>>
Bottom(x) == <<x[1], 1, x[2], 1, x[3], 1, x[4], 1>>
StripeCmp(sz, A, B) ==
  IF A = B THEN 0
  ELSE LET d == Least((A \ B) \cup (B \ A))
           After(C) == \E r \in C : LessAt(Bottom(d), Top(sz, r), 8) IN
       IF d \in A THEN IF After(B) THEN -1 ELSE 1
       ELSE IF After(A) THEN 1 ELSE -1

(* Expansion: resource <<k, m>> is number Off(k) + m. *)
RECURSIVE Off(_, _)
Off(sz, k) == IF k <= 1 THEN 0 ELSE Off(sz, k - 1) + sz[k - 1]
Stripe(sz, k) == IF k = DEFAULT THEN {DEFAULT} ELSE (Off(sz, k) + 1)..(Off(sz, k) + sz[k])
ExpandCell(sz, x) == Stripe(sz, x[1]) \X Stripe(sz, x[2]) \X Stripe(sz, x[3]) \X Stripe(sz, x[4])
Expand(sz, S) == UNION {ExpandCell(sz, x) : x \in S}
=============================================================================
