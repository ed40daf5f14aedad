---------------------------- MODULE MC_PatternMap ----------------------------
(***************************************************************************)
(* All sequences of a few insertions, from every pair of patterns, and the *)
(* lookups after them.                                                     *)
(***************************************************************************)
EXTENDS PatternMap, TLC, Json, SequencesExt

Pats == CanonicalTriplePatterns(1..2)
VARIABLES ps, map, hist
vars == <<ps, map, hist>>
Init == ps \in Pats \X Pats /\ map = {} /\ hist = <<>>
Insert(k, v) ==
  /\ Len(hist) < 3
  /\ map' = MapInsert(map, ps[k], v)
  /\ hist' = Append(hist, <<k, v, IF MapInsertRet(map, ps[k], v) THEN 1 ELSE 0>>)
  /\ UNCHANGED ps
Next == \E k \in 1..2, v \in 1..2 : Insert(k, v)
Spec == Init /\ [][Next]_vars

(* Triples in lexicographic order over 1..3; what a lookup yields is given  *)
(* as 3 * (times value 1 is yielded) + (times value 2 is yielded).          *)
Tr(i) == <<((i - 1) \div 9) + 1, (((i - 1) \div 3) % 3) + 1, ((i - 1) % 3) + 1, DEFAULT>>
Times(M, t, v) == Cardinality({e \in Hits(M, t) : e[2] = v})
Emit == Len(hist') = 3 =>
  PrintT("@@" \o ToJson([p |-> ps, h |-> hist', g |-> [i \in 1..27 |-> 3 * Times(map', Tr(i), 1) + Times(map', Tr(i), 2)]]))
=============================================================================
