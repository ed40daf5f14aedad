-------------------------------- MODULE Rdf --------------------------------
(***************************************************************************)
(* RDF data: terms are positive integers standing for resources in their  *)
(* order, a quad is <<s, p, o, g>> with g = 0 for the default graph, and a *)
(* triple is the quad of the default graph with the same components.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

DEFAULT == 0

IsTerm(x) == x >= 1

(* Order of quads: lexicographic on subject, predicate, object, graph, with *)
(* the default graph before every named graph (0 < any term).               *)
LessAt(a, b, n) ==
  \E k \in 1..n : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]

QuadLess(a, b) == LessAt(a, b, 4)

(* Order of containers: that of their sorted sequences of quads.  The least *)
(* quad of the symmetric difference decides, except that a sequence that is *)
(* a prefix of the other comes first.                                       *)
Least(Q) == CHOOSE q \in Q : \A r \in Q : q = r \/ QuadLess(q, r)

CmpSets(A, B) ==
  IF A = B THEN 0
  ELSE LET d == Least((A \ B) \cup (B \ A)) IN
       IF d \in A
       THEN IF \E r \in B : QuadLess(d, r) THEN -1 ELSE 1
       ELSE IF \E r \in A : QuadLess(d, r) THEN 1 ELSE -1

IsSorted(sq) == \A i \in 1..(Len(sq) - 1) : QuadLess(sq[i], sq[i + 1])

Rng(sq) == {sq[i] : i \in 1..Len(sq)}

(* Roles. *)
Subjects(Q) == {q[1] : q \in Q}
Predicates(Q) == {q[2] : q \in Q}
Objects(Q) == {q[3] : q \in Q}
NamedGraphs(Q) == {q[4] : q \in Q} \ {DEFAULT}
Resources(Q) == Subjects(Q) \cup Predicates(Q) \cup Objects(Q) \cup NamedGraphs(Q)
GraphOf(Q, g) == {q \in Q : q[4] = g}
ToTriple(q) == <<q[1], q[2], q[3], DEFAULT>>
=============================================================================
