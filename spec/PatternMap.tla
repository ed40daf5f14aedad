----------------------------- MODULE PatternMap -----------------------------
(***************************************************************************)
(* A map from triple patterns to values: a set of entries <<pattern, v>>.  *)
(***************************************************************************)
EXTENDS Pattern

MapInsertRet(M, p, v) == <<p, v>> \notin M
MapInsert(M, p, v) == M \cup {<<p, v>>}
MapUnion(M, N) == M \cup N
(* Entries found by a triple: a value is yielded once per pattern it is     *)
(* stored under, so what is yielded is a bag.                               *)
Hits(M, t) == {e \in M : MatchC(e[1], t)}
BagOf(M, t) == LET X == Hits(M, t) IN [v \in {e[2] : e \in X} |-> Cardinality({e \in X : e[2] = v})]
SeqBag(sq) == [v \in {sq[i] : i \in 1..Len(sq)} |-> Cardinality({i \in 1..Len(sq) : sq[i] = v})]
(* The values lo..hi inserted in turn under one pattern. *)
RunRet(M, p, lo, hi) == [i \in 1..(hi - lo + 1) |-> MapInsertRet(M, p, lo + i - 1)]
RunInsert(M, p, lo, hi) == M \cup {<<p, v>> : v \in lo..hi}
GetOK(M, t, sq) == SeqBag(sq) = BagOf(M, t)
=============================================================================
