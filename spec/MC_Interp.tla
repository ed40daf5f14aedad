----------------------------- MODULE MC_Interp -----------------------------
(***************************************************************************)
(* All short histories of an interpretation: insertions, a new resource    *)
(* from the generator, and aliasing (two terms for one resource).  Each    *)
(* complete history is printed with the final map.                         *)
(***************************************************************************)
EXTENDS Interp, TLC, Json, IOUtils, SequencesExt
Depth == atoi(IOEnv.DEPTH)
VARIABLES m, n, gen, h
vars == <<m, n, gen, h>>
Terms == {1, 2, 4, 5, 7, 8}
Init == m = Empty /\ n = 1 /\ gen = 0 /\ h = <<>>
Ins(t) == /\ LET r == IF Known(m, t) THEN m[t] ELSE n IN
             /\ m' = InsertPost(m, t, r) /\ n' = IF Known(m, t) THEN n ELSE n + 1
             /\ h' = Append(h, <<1, t, r>>) /\ UNCHANGED gen
(* 300 stands for the generated term; the harness's generator decides its kind. *)
New == /\ m' = Bind(m, 300 + gen, n) /\ n' = n + 1 /\ gen' = gen + 1
       /\ h' = Append(h, <<2, 300 + gen, n>>)
Alias(t, r) == ~Known(m, t) /\ m' = Bind(m, t, r) /\ h' = Append(h, <<3, t, r>>) /\ UNCHANGED <<n, gen>>
Next == /\ Len(h) < Depth
        /\ \/ \E t \in Terms : Ins(t)
           \/ New
           \/ \E t \in Terms, r \in 1..(n - 1) : Alias(t, r)
        /\ (Len(h') = Depth => PrintT("@@" \o ToJson([h |-> h', m |-> SetToSortSeq({<<t, m'[t]>> : t \in DOMAIN m'}, LAMBDA a, b : a[1] < b[1])])))
Spec == Init /\ [][Next]_vars
(* The terms of the resources partition the known terms, and looking up any *)
(* term of a resource gives that resource. *)
Partition == /\ UNION {TermsOf(m, r) : r \in Used(m)} = DOMAIN m
             /\ \A r, s \in Used(m) : r # s => TermsOf(m, r) \cap TermsOf(m, s) = {}
RoundTrip == \A r \in Used(m) : \A t \in TermsOf(m, r) : Lookup(m, t) = r
Fresh == n \notin Used(m)
=============================================================================
