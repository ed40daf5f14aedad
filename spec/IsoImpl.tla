------------------------------ MODULE IsoImpl ------------------------------
(***************************************************************************)
(* Design model of the procedure that looks for a bijection: counting,      *)
(* comparing the quads without blank nodes, the signature of each blank     *)
(* node (its quads, once per position it takes in them), candidates by      *)
(* signature, and a depth-first search that keeps a partial map in both     *)
(* directions and pairs the quads of two signatures greedily.               *)
(***************************************************************************)
EXTENDS Iso, SequencesExt

BlankPositions(q) == Cardinality({i \in 1..4 : IsBlank(q[i])})
RECURSIVE BlankCount(_)
BlankCount(Q) == IF Q = {} THEN 0
                 ELSE LET q == CHOOSE q \in Q : TRUE IN BlankPositions(q) + BlankCount(Q \ {q})
Ground(Q) == {q \in Q : BlankPositions(q) = 0}

(* The quads of x in increasing order, each repeated for every position of x. *)
RECURSIVE Repeat(_, _)
Repeat(q, n) == IF n = 0 THEN <<>> ELSE <<q>> \o Repeat(q, n - 1)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Signature(Q, x) ==
  LET mine == SetToSortSeq({q \in Q : \E i \in 1..4 : q[i] = x}, QuadLess) IN
  Flat([k \in 1..Len(mine) |-> Repeat(mine[k], Cardinality({i \in 1..4 : mine[k][i] = x}))])

(* A partial map in both directions. *)
Empty == [f |-> NoMap, g |-> NoMap]
Add(m, x, y) == [f |-> Ext(m.f, x, y), g |-> Ext(m.g, y, x)]
TermMatches(m, a, b) ==
  IF ~IsBlank(a) \/ ~IsBlank(b) THEN a = b
  ELSE IF a \in DOMAIN m.f THEN m.f[a] = b
  ELSE IF b \in DOMAIN m.g THEN m.g[b] = a
  ELSE TRUE
QuadMatches(m, p, q) == \A i \in 1..4 : TermMatches(m, p[i], q[i])

(* Greedy pairing: each quad takes the first one left that it matches. *)
RECURSIVE Pairs(_, _, _)
Pairs(m, s, t) ==
  IF s = <<>> THEN TRUE
  ELSE LET ok == {i \in 1..Len(t) : QuadMatches(m, Head(s), t[i])} IN
       /\ ok # {}
       /\ LET i == CHOOSE i \in ok : \A j \in ok : i <= j
          IN Pairs(m, Tail(s), SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t)))
SigMatches(m, s, t) == Len(s) = Len(t) /\ Pairs(m, s, t)

(* Whether some perfect pairing exists at all. *)
SomePairing(m, s, t) ==
  /\ Len(s) = Len(t)
  /\ \E p \in [1..Len(s) -> 1..Len(s)] :
       /\ \A i, j \in 1..Len(s) : p[i] = p[j] => i = j
       /\ \A i \in 1..Len(s) : QuadMatches(m, s[i], t[p[i]])

None == <<>>
(* The blank nodes and the candidates in increasing order; the answer is    *)
(* the first complete map, as <<map>>, or None. *)
RECURSIVE Dfs(_, _, _, _), Try(_, _, _, _, _)
Dfs(A, B, m, todo) ==
  IF todo = <<>> THEN <<m>>
  ELSE LET x == Head(todo)
           ys == SetToSortSeq({y \in Blanks(B) : SigMatches(Empty, Signature(A, x), Signature(B, y))}, <)
       IN Try(A, B, m, todo, ys)
Try(A, B, m, todo, ys) ==
  IF ys = <<>> THEN None
  ELSE LET x == Head(todo) y == Head(ys) next == Add(m, x, y)
           r == IF y \notin DOMAIN m.g /\ SigMatches(next, Signature(A, x), Signature(B, y))
                THEN Dfs(A, B, next, Tail(todo)) ELSE None
       IN IF r # None THEN r ELSE Try(A, B, m, todo, Tail(ys))

Find(A, B) ==
  IF \/ Cardinality(A) # Cardinality(B)
     \/ BlankCount(A) # BlankCount(B)
     \/ Ground(A) # Ground(B)
     \/ Cardinality(Blanks(A)) # Cardinality(Blanks(B))
     \/ {Len(Signature(A, x)) : x \in Blanks(A)} # {Len(Signature(B, y)) : y \in Blanks(B)}
  THEN None
  ELSE Dfs(A, B, Empty, SetToSortSeq(Blanks(A), <))
=============================================================================
