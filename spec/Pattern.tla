------------------------------ MODULE Pattern ------------------------------
(***************************************************************************)
(* Quad patterns.                                                          *)
(*                                                                         *)
(* A raw pattern is <<s, p, o, g>> whose entries are terms (>= 1), the     *)
(* default graph (0, graph position only) or variables (< 0, equal numbers *)
(* being the same variable).                                               *)
(*                                                                         *)
(* A canonical pattern has, instead of variables, ANY for the first        *)
(* occurrence of a variable and SAME_x for a later one, x being the        *)
(* position of the first.                                                  *)
(***************************************************************************)
EXTENDS Rdf

ANY    == -1
SAME_S == -2
SAME_P == -3
SAME_O == -4
SameAs(i) == -1 - i                   \* SAME_S for 1, SAME_P for 2, SAME_O for 3

(* Meaning of a raw pattern: some assignment of the variables gives the quad. *)
MatchRaw(pat, q) ==
  /\ \A i \in 1..4 : pat[i] >= 0 => q[i] = pat[i]
  /\ \A i, j \in 1..4 : pat[i] < 0 /\ pat[i] = pat[j] => q[i] = q[j]

(* Meaning of one component of a canonical pattern. *)
MatchPos(c, q, i) ==
  CASE c = ANY -> TRUE
    [] c = SAME_S -> q[i] = q[1]
    [] c = SAME_P -> q[i] = q[2]
    [] c = SAME_O -> q[i] = q[3]
    [] OTHER -> q[i] = c

MatchC(pat, q) == \A i \in 1..4 : MatchPos(pat[i], q, i)
Matches(Q, pat) == {q \in Q : MatchC(pat, q)}

(* Canonicalisation. *)
FirstPos(pat, i) == CHOOSE j \in 1..i : pat[j] = pat[i] /\ \A k \in 1..(j - 1) : pat[k] # pat[i]

Canon(pat) ==
  [i \in 1..4 |-> IF pat[i] >= 0 THEN pat[i]
                  ELSE LET j == FirstPos(pat, i) IN IF j = i THEN ANY ELSE SameAs(j)]

(* The raw pattern of a canonical one: variable -k is the one introduced at k. *)
Raw(c) == [i \in 1..4 |-> CASE c[i] >= 0 -> c[i]
                            [] c[i] = ANY -> -i
                            [] OTHER -> c[i] + 1]

IsCanonical(c) ==
  /\ c[1] = ANY \/ c[1] >= 1
  /\ c[2] = ANY \/ c[2] >= 1 \/ (c[2] = SAME_S /\ c[1] = ANY)
  /\ c[3] = ANY \/ c[3] >= 1 \/ (c[3] = SAME_S /\ c[1] = ANY) \/ (c[3] = SAME_P /\ c[2] = ANY)
  /\ c[4] = ANY \/ c[4] >= 0 \/ (c[4] = SAME_S /\ c[1] = ANY) \/ (c[4] = SAME_P /\ c[2] = ANY)
                             \/ (c[4] = SAME_O /\ c[3] = ANY)

CanonicalPatterns(T) ==
  {c \in (T \cup {ANY}) \X (T \cup {ANY, SAME_S}) \X (T \cup {ANY, SAME_S, SAME_P})
         \X (T \cup {DEFAULT, ANY, SAME_S, SAME_P, SAME_O}) : IsCanonical(c)}

(* Triple patterns: canonical patterns with the graph left out; the graph   *)
(* entry is fixed to ANY.                                                   *)
CanonicalTriplePatterns(T) == {c \in CanonicalPatterns(T) : c[4] = ANY}

(* A pattern of a dataset read on a graph seen as a dataset. *)
TriplePart(c) == <<c[1], c[2], c[3], ANY>>

(* Binding the component at position i to term v. *)
SetC(c, i, v) ==
  LET r == Raw(c) IN
  IF r[i] >= 0
  THEN [c EXCEPT ![i] = v]
  ELSE Canon([j \in 1..4 |-> IF r[j] = r[i] THEN v ELSE r[j]])

(* Multi-valued patterns: components are [any |-> code] or [alts |-> seq].  *)
(* Represented as sequences: <<c>> with c < 0 or c = 0 (default graph) for  *)
(* a constraint, and <<1>> \o alternatives for a list of alternatives.      *)
MultiPos(m, q, i) ==
  IF m[1] = 1 THEN \E k \in 2..Len(m) : q[i] = m[k]
  ELSE MatchPos(m[1], q, i)
MatchMulti(mp, q) == \A i \in 1..4 : MultiPos(mp[i], q, i)
MultiMatches(Q, mp) == {q \in Q : MatchMulti(mp, q)}
=============================================================================
