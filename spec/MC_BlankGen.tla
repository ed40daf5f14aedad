---------------------------- MODULE MC_BlankGen ----------------------------
(* A generator that numbers its identifiers satisfies the contract, up to   *)
(* and including exhaustion, with a small limit.                            *)
EXTENDS BlankGen, TLC
Max == <<1, 0, 2>>
Prefixes == {<<>>, <<97>>, <<55>>, <<97, 46>>, <<58>>}
Offsets == {<<0>>, <<9>>, <<9, 8>>, <<9, 9>>, <<1, 0, 0>>, <<1, 0, 2>>}
VARIABLES g, ok, panicked
vars == <<g, ok, panicked>>
Init == /\ \E p \in Prefixes, o \in Offsets : g = NewGen(p, o)
        /\ ok = TRUE /\ panicked = FALSE
Next == IF Exhausted(g, Max) THEN panicked' = TRUE /\ UNCHANGED <<g, ok>>
        ELSE /\ ok' = IssueOK(g, Numbered(g))
             /\ g' = Issue(g, Numbered(g)) /\ UNCHANGED panicked
Spec == Init /\ [][Next]_vars
Contract == ok
AllDistinct == panicked => g.count = Max
=============================================================================
