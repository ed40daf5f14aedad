----------------------------- MODULE MC_IsoImpl -----------------------------
(***************************************************************************)
(* The procedure of IsoImpl decides isomorphism, returns a witness, and its *)
(* greedy pairing of quads loses nothing, on all pairs of datasets of equal *)
(* size of a small universe; one state per dataset.                         *)
(***************************************************************************)
EXTENDS IsoImpl, TLC, IOUtils, FiniteSetsExt

U == atoi(IOEnv.UNIVERSE)
B2 == {11, 12}
B3 == {11, 12, 13}
Universe ==
  CASE U = 1 -> B3 \X {1} \X B3 \X {0}
    [] U = 2 -> (B2 \cup {1}) \X {1, 11} \X B2 \X {0, 12}
    [] U = 3 -> B2 \X B2 \X B2 \X {0, 11}
    [] U = 4 -> B3 \X {1} \X {1, 2, 11} \X {0, 12}
MaxQ == atoi(IOEnv.MAX)
Sets == UNION {kSubset(n, Universe) : n \in 0..MaxQ}
VARIABLES A
Init == A \in Sets
Next == UNCHANGED A
Spec == Init /\ [][Next]_A
Same == kSubset(Cardinality(A), Universe)
PairsOf(f) == LET D == SetToSortSeq(DOMAIN f, <) IN [i \in 1..Len(D) |-> <<D[i], f[D[i]]>>]
Decides == \A C \in Same :
  LET r == Find(A, C) IN
  /\ (r # None) <=> Isomorphic(A, C)
  /\ r # None => WitnessOK(A, C, PairsOf(r[1].f), PairsOf(r[1].g))
(* Under any injective partial map greedy pairing succeeds exactly when     *)
(* some pairing exists (checked for maps of at most one pair).              *)
Greedy == \A C \in Same : \A x \in Blanks(A), y \in Blanks(C) :
  LET s == Signature(A, x) t == Signature(C, y) IN
  Len(s) <= 4 =>
    /\ SigMatches(Empty, s, t) <=> SomePairing(Empty, s, t)
    /\ SigMatches(Add(Empty, x, y), s, t) <=> SomePairing(Add(Empty, x, y), s, t)
=============================================================================
