----------------------------- MODULE MC_NQuads -----------------------------
(***************************************************************************)
(* The reader inverts every allowed way of writing a string (theorem), and *)
(* the values whose real renderings are recorded and read back.            *)
(***************************************************************************)
EXTENDS NQuads, Json, IOUtils

(* a " \ LF CR TAB ' space NUL é < > . @ ^ u, last two planes' characters *)
Alphabet == {97, 34, 92, 10, 13, 9, 39, 32, 0, 233, 60, 62, 46, 64, 94, 117, 127, 8232, 65533, 128512, 1114111}
Small == {97, 34, 92, 10, 13}
(* Ways of writing one character. *)
Hex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
H4(c) == <<Hex((c \div 4096) % 16), Hex((c \div 256) % 16), Hex((c \div 16) % 16), Hex(c % 16)>>
H8(c) == H4(c \div 65536) \o H4(c % 65536)
Letters == [c \in {9, 8, 10, 13, 12, 34, 39, 92} |->
   CASE c = 9 -> 116 [] c = 8 -> 98 [] c = 10 -> 110 [] c = 13 -> 114 [] c = 12 -> 102 [] OTHER -> c]
Ways(c) == (IF c \in {34, 92, 10, 13} THEN {} ELSE {<<c>>})
           \cup (IF c \in DOMAIN Letters THEN {<<92, Letters[c]>>} ELSE {})
           \cup (IF c < 65536 THEN {<<92, 117>> \o H4(c)} ELSE {})
           \cup {<<92, 85>> \o H8(c)}
ASSUME \A c, d \in Alphabet : \A x \in Ways(c), y \in Ways(d) :
          TermReads(<<34>> \o x \o y \o <<34>>, Typed(<<c, d>>, XsdString))

Strings == {<<>>} \cup {<<a>> : a \in Alphabet} \cup {<<a, b>> : a, b \in Alphabet}
           \cup {<<a, b, c>> : a, b, c \in Small} \cup {<<a, b, c, d>> : a, b, c, d \in {34, 92, 110}}
Dt == <<104, 58, 47, 47, 100>>      \* h://d
En == <<101, 110>>
Out(x) == PrintT("@@" \o ToJson(x))
ASSUME \A s \in Strings :
  /\ Out([t |-> "term", x |-> Typed(s, XsdString)])
  /\ Out([t |-> "term", x |-> Typed(s, Dt)])
  /\ Out([t |-> "term", x |-> Tagged(s, En)])
Iris == {Dt, <<104, 58>>, <<104, 58, 47, 37, 50, 48>>, <<104, 58, 35>>, <<104, 58, 233>>, XsdString}
Labels == {<<95, 58, 48>>, <<95, 58, 97, 46, 98>>, <<95, 58, 58>>, <<95, 58, 95, 45>>, <<95, 58, 233>>, <<95, 58, 65536, 183>>}
Tags == {En, <<101, 110, 45, 85, 83>>, <<122, 104, 45, 72, 97, 110, 116>>, <<120, 45, 97>>}
Terms == {IriTerm(i) : i \in Iris} \cup {BlankTerm(b) : b \in Labels}
         \cup {Typed(<<97>>, i) : i \in Iris} \cup {Tagged(<<97>>, g) : g \in Tags}
ASSUME \A x \in Terms : Out([t |-> "term", x |-> x])
Few == {IriTerm(Dt), BlankTerm(<<95, 58, 97, 46, 98>>), Typed(<<34, 46, 10>>, XsdString), Tagged(<<>>, En), Typed(<<92>>, Dt)}
ASSUME \A a, b, c \in Few : /\ Out([t |-> "stmt", x |-> <<a, b, c>>])
                            /\ \A d \in Few : Out([t |-> "stmt", x |-> <<a, b, c, d>>])
=============================================================================
