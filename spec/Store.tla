------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The meaning of a dataset: a set of quads, and what every operation      *)
(* returns and leaves behind.  A graph is a dataset of the default graph.  *)
(***************************************************************************)
EXTENDS Pattern

(* Mutations: value returned and content left. *)
InsertRet(Q, q) == q \notin Q
InsertPost(Q, q) == Q \cup {q}
RemoveRet(Q, q) == q \in Q
RemovePost(Q, q) == Q \ {q}

(* Removing a graph: <<>> for "no such graph", or the sequence of one set.  *)
RemoveGraphRet(Q, g) ==
  IF g # DEFAULT /\ GraphOf(Q, g) = {} THEN <<>>
  ELSE <<{ToTriple(q) : q \in GraphOf(Q, g)}>>
RemoveGraphPost(Q, g) == Q \ GraphOf(Q, g)

(* Extraction of up to k quads: any k of the matching quads, all of them if *)
(* there are fewer.                                                         *)
Min(a, b) == IF a < b THEN a ELSE b
ExtractOK(Q, pat, k, yielded) ==
  /\ yielded \subseteq Matches(Q, pat)
  /\ Cardinality(yielded) = Min(k, Cardinality(Matches(Q, pat)))
ExtractPost(Q, yielded) == Q \ yielded

(* Helpers built on pattern matching. *)
HasSubject(Q, r) == r \in Subjects(Q)
HasPredicate(Q, r) == r \in Predicates(Q)
HasObject(Q, r) == r \in Objects(Q)
HasNamedGraph(Q, r) == r \in NamedGraphs(Q)
QuadObjects(Q, g, s, p) == {q[3] : q \in {x \in Q : x[1] = s /\ x[2] = p /\ x[4] = g}}
QuadPredicates(Q, g, s) == {q[2] : q \in {x \in Q : x[1] = s /\ x[4] = g}}
PredicatesObjects(Q, g, s) ==
  {<<p, QuadObjects(Q, g, s, p)>> : p \in QuadPredicates(Q, g, s)}
ContainsTriple(Q, t) == \E q \in Q : ToTriple(q) = ToTriple(t)

(* A graph read through the dataset interface: its triples are quads of the *)
(* default graph; this is the identity in this encoding, and patterns       *)
(* keep their meaning (a named graph, or a graph equal to another           *)
(* component, matches nothing).                                             *)
=============================================================================
