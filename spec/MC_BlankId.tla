----------------------------- MODULE MC_BlankId -----------------------------
(***************************************************************************)
(* All texts over one representative of each character class, up to MaxLen *)
(* code points; the automaton is explored as a state machine and the       *)
(* grammar and the automaton must agree in every state.                    *)
(***************************************************************************)
EXTENDS BlankId, TLC, Json, IOUtils

MaxLen == atoi(IOEnv.MAXLEN)
(* '_', ':', digit, letter, '-', '.', combining accent, space, astral letter *)
Alphabet == {95, 58, 55, 97, 45, 46, 768, 32, 65536}
VARIABLES s, q
vars == <<s, q>>
Out(x) == PrintT("@@" \o ToJson(x))
Emit(t) == Out([t |-> "id", s |-> t, ok |-> IF IsBlankId(t) THEN 1 ELSE 0])
Init == s = <<>> /\ q = "start" /\ Emit(s)
(* All texts of up to five code points; longer ones only while not refused.  *)
Next == /\ Len(s) < MaxLen
        /\ (q # "dead" \/ Len(s) <= 4)
        /\ \E c \in Alphabet : s' = Append(s, c) /\ q' = Step(q, c) /\ Emit(s')
Spec == Init /\ [][Next]_vars
Agree == (q = "in") <=> IsBlankId(s)
AgreeRun == Accepts(s) <=> IsBlankId(s)
(* No identifier ends in a dot, and dots never end the search for one. *)
DotInside == IsBlankId(s) => s[Len(s)] # DOT
=============================================================================
