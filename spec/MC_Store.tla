------------------------------ MODULE MC_Store ------------------------------
(***************************************************************************)
(* Exhaustive exploration of StoreImpl over a small universe of quads,     *)
(* next to the abstract store; every transition is printed with a history  *)
(* that leads to it, for replay on the real containers.                    *)
(*                                                                         *)
(* The universe, the term set and the bounds come from the parameter file  *)
(* named by the environment variable STORE_PARAMS.                         *)
(***************************************************************************)
EXTENDS StoreImpl, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.STORE_PARAMS)
U == P.quads                               \* sequence of quads, indexed 1..n
N == Len(U)
Terms == 1..P.terms
XPats == P.xpats                           \* patterns used for extraction steps
Emit == P.emit

VARIABLES st, content, hist, act, ret

vars == <<st, content, hist, act, ret>>
View == <<st, content>>

Bit(i) == 2^(i - 1)
RECURSIVE SumBits(_)
SumBits(I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN Bit(i) + SumBits(I \ {i})
Mask(Q) == SumBits({i \in 1..N : U[i] \in Q})
(* Masks of quads of a graph, moved to the triples of U that represent them *)
TMask(g, T) == SumBits({i \in 1..N : U[i][4] = g /\ ToTriple(U[i]) \in T})

Init == st = EmptyImpl /\ content = {} /\ hist = <<>> /\ act = <<>> /\ ret = 0

(* Action codes: <<1,i>> insert U[i]; <<2,i>> remove U[i]; <<3,g>> remove    *)
(* graph g; <<4,x>> extract everything matching XPats[x].                    *)
DoInsert(i) ==
  LET r == ImplInsert(st, U[i]) IN
  /\ st' = r.st /\ content' = InsertPost(content, U[i])
  /\ act' = <<1, i>> /\ ret' = (IF r.ret THEN 1 ELSE 0)
  /\ Assert(r.ret = InsertRet(content, U[i]), "insert")
DoRemove(i) ==
  LET r == ImplRemove(st, U[i]) IN
  /\ st' = r.st /\ content' = RemovePost(content, U[i])
  /\ act' = <<2, i>> /\ ret' = (IF r.ret THEN 1 ELSE 0)
  /\ Assert(r.ret = RemoveRet(content, U[i]), "remove")
DoRemoveGraph(g) ==
  LET r == ImplRemoveGraph(st, g) IN
  /\ st' = r.st /\ content' = RemoveGraphPost(content, g)
  /\ act' = <<3, g>>
  /\ ret' = (IF r.ret = <<>> THEN -1 ELSE TMask(g, r.ret[1]))
  /\ Assert(r.ret = RemoveGraphRet(content, g), "remove graph")
DoExtract(x) ==
  LET pat == XPats[x]
      r == ImplExtract(st, pat, N) IN
  /\ st' = r.st /\ content' = ExtractPost(content, Rng(r.ret))
  /\ act' = <<4, x>> /\ ret' = Mask(Rng(r.ret))
  /\ Assert(ExtractOK(content, pat, N, Rng(r.ret)) /\ Len(r.ret) = Cardinality(Rng(r.ret)), "extract")

Next ==
  /\ Len(hist) < P.depth
  /\ \/ \E i \in 1..N : DoInsert(i)
     \/ \E i \in 1..N : DoRemove(i)
     \/ \E g \in (IF P.rg THEN Terms \cup {DEFAULT} ELSE {}) : DoRemoveGraph(g)
     \/ \E x \in 1..Len(XPats) : DoExtract(x)
  /\ hist' = Append(hist, act')

Spec == Init /\ [][Next]_vars

(* Printed once per transition. *)
EmitTransition == Emit => PrintT("@@" \o ToJson(<<hist', ret', Mask(content')>>))

(* Properties of the design. *)
Refines == Abs(st) = content
Exact == IndexesExact(st)
AllPats == CanonicalPatterns(Terms)
SearchExact ==
  \A pat \in AllPats :
    LET f == Search(st, pat, 1) IN
    /\ {QuadAt(st, f[n]) : n \in 1..Len(f)} = Matches(content, pat)
    /\ Len(f) = Cardinality(Matches(content, pat))
PartialExtractExact ==
  \A x \in 1..Len(XPats), k \in 1..N :
    LET r == ImplExtract(st, XPats[x], k) IN
    /\ ExtractOK(content, XPats[x], k, Rng(r.ret))
    /\ Abs(r.st) = ExtractPost(content, Rng(r.ret))
    /\ IndexesExact(r.st)
=============================================================================
