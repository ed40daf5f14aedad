--------------------------- MODULE MC_StoreTables ---------------------------
(***************************************************************************)
(* For the universe of STORE_PARAMS: what every query must answer for      *)
(* every content, printed as tables for replay on the real containers.     *)
(***************************************************************************)
EXTENDS Store, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

P == JsonDeserialize(IOEnv.STORE_PARAMS)
U == P.quads
N == Len(U)
Terms == 1..P.terms

Bit(i) == 2^(i - 1)
Mask(Q) == FoldSet(LAMBDA i, acc : acc + Bit(i), 0, {i \in 1..N : U[i] \in Q})
Sub(m) == {U[i] : i \in {i \in 1..N : (m \div Bit(i)) % 2 = 1}}
Sorted(S) == SetToSortSeq(S, <)
SortedQuads(Q) == SetToSortSeq(Q, QuadLess)
Out(x) == PrintT("@@" \o ToJson(x))

MaskLine(m) ==
  LET Q == Sub(m) IN
  [ t |-> "mask", m |-> m, iter |-> SortedQuads(Q), res |-> Sorted(Resources(Q)),
    subj |-> Sorted(Subjects(Q)), pred |-> Sorted(Predicates(Q)), obj |-> Sorted(Objects(Q)),
    graphs |-> Sorted(NamedGraphs(Q)),
    po |-> SetToSeq({<<g, s, SetToSeq({<<x[1], Sorted(x[2])>> : x \in PredicatesObjects(Q, g, s)})>> :
                      g \in Terms \cup {DEFAULT}, s \in Terms}),
    cmp |-> [k \in 1..(2^N) |-> CmpSets(Q, Sub(k - 1))],
    triples |-> SetToSeq({ToTriple(q) : q \in Q}) ]

(* Sanity of the order used above. *)
ASSUME \A m \in 0..(2^N - 1) : IsSorted(SortedQuads(Sub(m)))
ASSUME \A a, b \in 0..(2^N - 1) :
  /\ CmpSets(Sub(a), Sub(b)) = -CmpSets(Sub(b), Sub(a))
  /\ (CmpSets(Sub(a), Sub(b)) = 0) = (a = b)

ASSUME \A m \in 0..(2^N - 1) : Out(MaskLine(m))
ASSUME \A c \in CanonicalPatterns(Terms) : Out([t |-> "pat", p |-> c, m |-> Mask(Matches(Rng(U), c))])

(* Multi-valued patterns: no alternative, one, two, a repeated one, an absent one. *)
Alts == {<<1>>} \cup {<<1, a>> : a \in Terms} \cup {<<1, a, b>> : a, b \in 1..3}
        \cup {<<1, 3, 2, 1, P.terms>>}
Free == <<ANY>>
MS == {Free} \cup Alts
MP == {Free, <<SAME_S>>} \cup Alts
MO == {Free, <<SAME_S>>, <<SAME_P>>} \cup Alts
MG == {Free, <<DEFAULT>>, <<SAME_S>>, <<SAME_P>>, <<SAME_O>>} \cup Alts
MultiOK(s, p, o, g) ==
  /\ p = <<SAME_S>> => s = Free
  /\ o = <<SAME_S>> => s = Free
  /\ o = <<SAME_P>> => p = Free
  /\ g = <<SAME_S>> => s = Free
  /\ g = <<SAME_P>> => p = Free
  /\ g = <<SAME_O>> => o = Free
MultiPats == {mp \in MS \X MP \X MO \X MG : MultiOK(mp[1], mp[2], mp[3], mp[4])}
(* A seed-dependent sample of that product, every pattern with one constrained position included. *)
Pick(mp) ==
  LET h == FoldSeq(LAMBDA x, acc : (acc * 31 + x + 7) % 65521, P.mseed,
                   mp[1] \o <<9>> \o mp[2] \o <<9>> \o mp[3] \o <<9>> \o mp[4]) IN
  \/ Cardinality({i \in 1..4 : mp[i] # Free}) <= 1
  \/ h % P.mmod = 0
ASSUME P.multi =>
  \A mp \in MultiPats : Pick(mp) =>
     Out([t |-> "multi", p |-> mp, m |-> Mask(MultiMatches(Rng(U), mp))])
=============================================================================
