------------------------------ MODULE MC_Tuple ------------------------------
(***************************************************************************)
(* The order is total, and every operation's expected result, for all      *)
(* tuples over the components 1..3 (positions distinguishable) and all     *)
(* pairs over 1..2, printed for replay on the real types.                  *)
(***************************************************************************)
EXTENDS Tuple, TLC, Json
C == 1..3
Triples == C \X C \X C
Quads == C \X C \X C \X (0..3)
C2 == 1..2
T2 == C2 \X C2 \X C2
Q2 == C2 \X C2 \X C2 \X (0..2)
P2 == {1, 2, NaN}
TP == P2 \X P2 \X P2
QP == P2 \X P2 \X P2 \X {0, 1, 2, NaN}
Total(S) == /\ \A a, b \in S : Cmp(a, b) = -Cmp(b, a) /\ (Cmp(a, b) = 0 <=> a = b)
            /\ \A a, b, c \in S : Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0 => Cmp(a, c) <= 0
ASSUME Total(T2)
ASSUME Total(Q2)
ASSUME \A a, b \in Q2 : PCmp(a, b) = Cmp(a, b)
ASSUME \A a, b \in TP : Cmp(TripleOf(QuadOf(a, 0)), b) = Cmp(a, b)
Out(x) == PrintT("@@" \o ToJson(x))
Pos(t) == 1..Len(t)
ASSUME \A t \in Triples \cup Quads :
  Out([t |-> "tuple", x |-> t, all |-> MappedAll(t), each |-> MappedEach(t),
       one |-> [i \in Pos(t) |-> Mapped(t, i)],
       set |-> [i \in Pos(t) |-> Replaced(t, i, 7)],
       \* with_graph / into_quad with graph 0, 5
       g0 |-> QuadOf(t, 0), g5 |-> QuadOf(t, 5), tr |-> TripleOf(t)])
ASSUME \A a, b \in T2 : Out([t |-> "pair", a |-> a, b |-> b, c |-> Cmp(a, b)])
ASSUME \A a, b \in Q2 : Out([t |-> "pair", a |-> a, b |-> b, c |-> Cmp(a, b)])
ASSUME \A a, b \in TP : Out([t |-> "ppair", a |-> a, b |-> b, c |-> PCmp(a, b), e |-> IF PEq(a, b) THEN 1 ELSE 0])
ASSUME \A a, b \in {q \in QP : q[1] = 1 \/ q[2] = NaN} : Out([t |-> "ppair", a |-> a, b |-> b, c |-> PCmp(a, b), e |-> IF PEq(a, b) THEN 1 ELSE 0])
=============================================================================
