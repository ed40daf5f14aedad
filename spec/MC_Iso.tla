------------------------------- MODULE MC_Iso -------------------------------
(***************************************************************************)
(* Isomorphism classes of all datasets of a small universe.  Each dataset  *)
(* is printed with the code of the least of its renamings: two datasets    *)
(* are isomorphic exactly when the codes are equal, which is a theorem     *)
(* checked on the smaller universes.  The harness then decides all pairs   *)
(* with the real procedure.                                                *)
(***************************************************************************)
EXTENDS Iso, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

U == atoi(IOEnv.UNIVERSE)
B2 == {11, 12}
B3 == {11, 12, 13}
B4 == {11, 12, 13, 14}
(* Links between two positions, for each pair of positions: the quads with  *)
(* x in position i, y in position j, label c in the first position left and *)
(* 1 in the other one.                                                      *)
PairOf(n) == << <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 3>>, <<2, 4>>, <<3, 4>> >>[n]
LinkQuad(i, j, x, y, c) ==
  LET k == Min({1, 2, 3, 4} \ {i, j}) IN
  [n \in 1..4 |-> CASE n = i -> x [] n = j -> y [] n = k -> c [] OTHER -> 1]
Links(n, X, Y, C) == {LinkQuad(PairOf(n)[1], PairOf(n)[2], x, y, c) : x \in X, y \in Y, c \in C}
Universe ==
  CASE U = 1 -> B3 \X {1} \X B3 \X {0}
    [] U = 2 -> {q \in B4 \X {1} \X B4 \X {0} : q[1] # q[3]}
    [] U = 3 -> (B2 \cup {1}) \X (B2 \cup {1}) \X (B2 \cup {1}) \X (B2 \cup {0, 1})
    [] U = 4 -> B3 \X {1, 2} \X (B3 \cup {1, 2}) \X {0}
    [] U = 5 -> {1} \X B3 \X B3 \X (B3 \cup {0})
    [] U = 6 -> {q \in B4 \X {1} \X B4 \X {0, 1} : q[1] < q[3]}
    [] U \in 7..12 -> Links(U - 6, {11, 12}, {13, 14}, {1, 2})
    [] U \in 13..18 -> Links(U - 12, B3, B3, {1})
    [] U = 19 -> B2 \X B2 \X B2 \X B2
UBlanks == Blanks(Universe)
Deep == IF "DEEP" \in DOMAIN IOEnv THEN 4 ELSE 3
MaxSize == CASE U = 1 -> 9 [] U = 2 -> 12 [] U = 3 -> 2 [] U = 4 -> Deep [] U = 5 -> Deep [] U = 6 -> 12 [] U = 19 -> Deep [] OTHER -> 12
Wide == U \in {3, 4, 5, 19}

QS == SetToSortSeq(Universe, QuadLess)
N == Len(QS)
Idx(q) == CHOOSE i \in 1..N : QS[i] = q
Perms == SetToSeq(Bijections(UBlanks, UBlanks))
(* Action of each permutation of the blank nodes on the universe. *)
Act == [k \in 1..Len(Perms) |-> [i \in 1..N |->
          LET r == RenameQuad(Perms[k], QS[i]) IN IF r \in Universe THEN Idx(r) ELSE 0]]
RECURSIVE CodeSeq(_)
CodeSeq(s) == IF s = <<>> THEN 0 ELSE 128 * CodeSeq(Tail(s)) + Head(s)
Code(S) == IF Wide THEN CodeSeq(SetToSortSeq(S, <)) ELSE FoldSet(LAMBDA i, a : a + 2 ^ (i - 1), 0, S)
(* Renamings that leave the universe do not count (universe 6 is ordered). *)
Class(S) == Min({Code({Act[k][i] : i \in S}) : k \in {k \in 1..Len(Perms) : \A i \in S : Act[k][i] # 0}})
Sets == IF U = 3 THEN {{}} \cup {{i, j} : i, j \in 1..N}
        ELSE IF Wide THEN UNION {kSubset(n, 1..N) : n \in 0..MaxSize} ELSE SUBSET (1..N)
QuadsOf(S) == {QS[i] : i \in S}

(* Theorem: equal codes is isomorphism (full pairs on universe 1, one block *)
(* of pairs on the others). *)
Block == IF U = 1 THEN {S \in Sets : Cardinality(S) <= 3}
         ELSE IF Wide THEN {S \in Sets : Cardinality(S) = 1} ELSE {S \in Sets : Cardinality(S) <= 1}
ASSUME \A S, T \in Block :
         LET i == Isomorphic(QuadsOf(S), QuadsOf(T)) IN
         /\ (Class(S) = Class(T)) <=> i
         /\ IsomorphicBySearch(QuadsOf(S), QuadsOf(T)) <=> i
ASSUME \A i \in 1..N : PrintT("@@" \o ToJson([t |-> "u", i |-> i, q |-> QS[i]]))
ASSUME \A S \in Sets : PrintT("@@" \o ToJson([t |-> "d", s |-> SetToSortSeq(S, <), c |-> Class(S)]))
=============================================================================
