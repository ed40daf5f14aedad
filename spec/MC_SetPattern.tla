---------------------------- MODULE MC_SetPattern ----------------------------
(***************************************************************************)
(* A canonical triple pattern under successive calls of set_subject,       *)
(* set_predicate and set_object.                                           *)
(***************************************************************************)
EXTENDS Pattern, TLC, Json

T == 1..3
Triples == (1..4) \X (1..4) \X (1..4) \X {DEFAULT}

VARIABLES start, pat, hist
vars == <<start, pat, hist>>
DEPTH == 3

Init == start \in CanonicalTriplePatterns(1..2) /\ pat = start /\ hist = <<>>
Set(i, v) ==
  /\ Len(hist) < DEPTH
  /\ pat' = SetC(pat, i, v)
  /\ hist' = Append(hist, <<i, v, pat[i]>>)       \* position, value, constraint returned
  /\ UNCHANGED start
Next == \E i \in 1..3, v \in T : Set(i, v)
Spec == Init /\ [][Next]_vars

Emit == PrintT("@@" \o ToJson([s |-> start, h |-> hist', c |-> pat']))

Canonical == IsCanonical(pat)
(* What a call does, stated on the triples accepted before and after. *)
Narrows(p, i, v) ==
  LET n == SetC(p, i, v)
      r == Raw(p)
      others == [j \in 1..4 |-> IF j = i THEN -99 ELSE r[j]] IN
  \A q \in Triples :
    MatchC(n, q) <=>
      /\ q[i] = v
      /\ IF p[i] >= 1 THEN MatchRaw(others, q) ELSE MatchC(p, q)
ASSUME \A p \in CanonicalTriplePatterns(T), i \in 1..3, v \in T : Narrows(p, i, v)

(* The nested forms stand for the pattern without its first d positions and  *)
(* cannot change those: what a call leaves is the set pattern with them put  *)
(* back.  On the positions they do hold, nothing is lost.                    *)
NestedSet(p, d, i, v) == [j \in 1..4 |-> IF j <= d THEN p[j] ELSE SetC(p, i, v)[j]]
Rest(p, d) == {SubSeq(q, d + 1, 3) : q \in {q \in Triples : MatchC(p, q)}}
NestedCases == {<<p, d, i, v>> \in CanonicalTriplePatterns(1..2) \X {1, 2} \X {2, 3} \X T : i > d}
ASSUME \A c \in NestedCases :
  LET n == NestedSet(c[1], c[2], c[3], c[4]) IN
  IsCanonical(n) /\ Rest(n, c[2]) = Rest(SetC(c[1], c[3], c[4]), c[2])
ASSUME \A c \in NestedCases :
  PrintT("@@" \o ToJson([s |-> c[1], d |-> c[2], h |-> <<<<c[3], c[4], c[1][c[3]]>>>>, c |-> NestedSet(c[1], c[2], c[3], c[4])]))
LastBound == hist # <<>> => LET h == hist[Len(hist)] IN pat[h[1]] = h[2]
=============================================================================
