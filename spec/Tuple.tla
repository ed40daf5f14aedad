------------------------------- MODULE Tuple -------------------------------
(***************************************************************************)
(* Triples <<s, p, o>> and quads <<s, p, o, g>>, g = 0 for the default     *)
(* graph.  Components are positive numbers.  One operator per operation    *)
(* of the real types; f maps a component n to n + 100.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

F(n) == n + 100
FG(g) == IF g = 0 THEN 0 ELSE F(g)
IsQuad(t) == Len(t) = 4
TripleOf(q) == SubSeq(q, 1, 3)
QuadOf(t, g) == Append(SubSeq(t, 1, 3), g)
Mapped(t, i) == [t EXCEPT ![i] = IF i = 4 THEN FG(@) ELSE F(@)]
MappedAll(t) == [i \in 1..Len(t) |-> IF i = 4 THEN FG(t[i]) ELSE F(t[i])]
(* Distinct maps per position: component n at position i becomes n + 100 i. *)
MappedEach(t) == [i \in 1..Len(t) |-> IF i = 4 /\ t[i] = 0 THEN 0 ELSE t[i] + 100 * i]
Replaced(t, i, v) == [t EXCEPT ![i] = v]

(* Lexicographic order, the default graph first: 0 is below every name.     *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i > Len(a) THEN 0
                    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 1)

(* Comparison of components that may be incomparable (NaN): number 9 is     *)
(* neither below, above nor equal to anything; the first difference decides.*)
NaN == 9
PCmp1(x, y) == IF x = NaN \/ y = NaN THEN 2 ELSE IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
PCmp4(x, y) == IF x = 0 \/ y = 0 THEN (IF x = y THEN 0 ELSE IF x = 0 THEN -1 ELSE 1) ELSE PCmp1(x, y)
RECURSIVE PCmpFrom(_, _, _)
PCmpFrom(a, b, i) == IF i > Len(a) THEN 0
                     ELSE LET c == IF i = 4 THEN PCmp4(a[i], b[i]) ELSE PCmp1(a[i], b[i]) IN
                          IF c = 0 THEN PCmpFrom(a, b, i + 1) ELSE c
PCmp(a, b) == PCmpFrom(a, b, 1)
PEq(a, b) == PCmp(a, b) = 0
=============================================================================
