------------------------------- MODULE NQuads -------------------------------
(***************************************************************************)
(* A reader of N-Quads text, over code points.  A term is                  *)
(*   [k |-> "i", v |-> text, d |-> <<>>, g |-> <<>>]        IRI            *)
(*   [k |-> "b", v |-> text, ...]                           blank node     *)
(*   [k |-> "l", v |-> text, d |-> datatype, g |-> <<>>]    literal        *)
(*   [k |-> "l", v |-> text, d |-> <<>>, g |-> language]    tagged literal *)
(* Generalised statements are allowed: any term at any position.           *)
(* Reading functions take a text and a position and return <<>> when the   *)
(* text does not fit, <<value, next position>> when it does.               *)
(***************************************************************************)
EXTENDS BlankId, TLC

IriTerm(v) == [k |-> "i", v |-> v, d |-> <<>>, g |-> <<>>]
BlankTerm(v) == [k |-> "b", v |-> v, d |-> <<>>, g |-> <<>>]
Typed(v, d) == [k |-> "l", v |-> v, d |-> d, g |-> <<>>]
Tagged(v, g) == [k |-> "l", v |-> v, d |-> <<>>, g |-> g]

(* http://www.w3.org/2001/XMLSchema#string *)
XsdString == <<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 119, 51, 46, 111, 114, 103, 47, 50, 48, 48, 49, 47,
               88, 77, 76, 83, 99, 104, 101, 109, 97, 35, 115, 116, 114, 105, 110, 103>>

LT == 60  GT == 62  QUOTE == 34  BSLASH == 92  LF == 10  CR == 13  SPACE == 32  TAB == 9
AT == 64  CARET == 94  HYPHEN == 45

At(t, i) == IF i >= 1 /\ i <= Len(t) THEN t[i] ELSE -1
Fail == <<>>

HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
RECURSIVE HexRun(_, _, _, _)
HexRun(t, i, n, acc) ==
  IF n = 0 THEN <<acc, i>>
  ELSE LET h == HexVal(At(t, i)) IN
       IF h < 0 \/ acc > 69631 THEN Fail ELSE HexRun(t, i + 1, n - 1, acc * 16 + h)
(* \uXXXX and \UXXXXXXXX, at the letter after the backslash. *)
UChar(t, i) == IF At(t, i) = 117 THEN HexRun(t, i + 1, 4, 0)
               ELSE IF At(t, i) = 85 THEN HexRun(t, i + 1, 8, 0) ELSE Fail
(* The other escapes of strings. *)
EChar(c) == CASE c = 116 -> 9 [] c = 98 -> 8 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 102 -> 12
              [] c = 34 -> 34 [] c = 39 -> 39 [] c = 92 -> 92 [] OTHER -> -1

(* The first position from i on with one of these characters or with none at all,
   looked for in steps of 32. *)
RECURSIVE Stop(_, _, _)
Stop(t, i, S) ==
  LET w == {k \in i..(i + 31) : At(t, k) \in S} IN
  IF w = {} THEN Stop(t, i + 32, S) ELSE CHOOSE k \in w : \A j \in w : k <= j

IriChar(c) == c > 32 /\ c \notin {60, 62, 34, 123, 125, 124, 94, 96, 92}
RECURSIVE ScanIri(_, _, _)
ScanIri(t, i, acc) ==
  LET e == Stop(t, i, {-1, GT, BSLASH})
      new == acc \o SubSeq(t, i, e - 1)
      c == At(t, e) IN
  IF c = -1 \/ \E k \in i..(e - 1) : ~IriChar(t[k]) THEN Fail
  ELSE IF c = GT THEN <<new, e + 1>>
  ELSE LET u == UChar(t, e + 1) IN IF u = Fail THEN Fail ELSE ScanIri(t, u[2], Append(new, u[1]))
ReadIri(t, i) == IF At(t, i) = LT THEN ScanIri(t, i + 1, <<>>) ELSE Fail

RECURSIVE ScanString(_, _, _)
ScanString(t, i, acc) ==
  LET e == Stop(t, i, {-1, LF, CR, QUOTE, BSLASH})
      new == acc \o SubSeq(t, i, e - 1)
      c == At(t, e) IN
  IF c = QUOTE THEN <<new, e + 1>>
  ELSE IF c = BSLASH
  THEN LET x == EChar(At(t, e + 1)) IN
       IF x >= 0 THEN ScanString(t, e + 2, Append(new, x))
       ELSE LET u == UChar(t, e + 1) IN IF u = Fail THEN Fail ELSE ScanString(t, u[2], Append(new, u[1]))
  ELSE Fail

Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
AlNum(c) == Letter(c) \/ (c >= 48 /\ c <= 57)
RECURSIVE Run1(_, _, _)
(* End of the longest run of letters (digits too when `more`) from i. *)
Run1(t, i, more) == IF Letter(At(t, i)) \/ (more /\ AlNum(At(t, i))) THEN Run1(t, i + 1, more) ELSE i
RECURSIVE SubTags(_, _)
SubTags(t, i) == IF At(t, i) = HYPHEN /\ AlNum(At(t, i + 1)) THEN SubTags(t, Run1(t, i + 1, TRUE)) ELSE i
ReadTag(t, i) == LET j == Run1(t, i, FALSE) IN
                 IF j = i THEN Fail ELSE LET e == SubTags(t, j) IN <<SubSeq(t, i, e - 1), e>>

(* x: 1 when a datatype is written out. *)
ReadLiteral(t, i) ==
  LET s == ScanString(t, i + 1, <<>>) IN
  IF s = Fail THEN Fail
  ELSE IF At(t, s[2]) = AT
  THEN LET g == ReadTag(t, s[2] + 1) IN IF g = Fail THEN Fail ELSE <<Tagged(s[1], g[1]), g[2], 0>>
  ELSE IF At(t, s[2]) = CARET
  THEN IF At(t, s[2] + 1) # CARET THEN Fail
       ELSE LET d == ReadIri(t, s[2] + 2) IN IF d = Fail THEN Fail ELSE <<Typed(s[1], d[1]), d[2], 1>>
  ELSE <<Typed(s[1], XsdString), s[2], 0>>

RECURSIVE LabelEnd(_, _)
LabelEnd(t, i) == IF PnChar(At(t, i)) \/ At(t, i) = DOT THEN LabelEnd(t, i + 1) ELSE i
RECURSIVE TrimDots(_, _)
TrimDots(t, e) == IF At(t, e - 1) = DOT THEN TrimDots(t, e - 1) ELSE e
ReadBlank(t, i) ==
  LET e == TrimDots(t, LabelEnd(t, i + 2)) IN
  IF IsBlankId(SubSeq(t, i, e - 1)) THEN <<SubSeq(t, i, e - 1), e>> ELSE Fail

(* A term; third component: 1 when a datatype is written out. *)
ReadTerm(t, i) ==
  LET c == At(t, i) IN
  IF c = LT THEN LET r == ReadIri(t, i) IN IF r = Fail THEN Fail ELSE <<IriTerm(r[1]), r[2], 0>>
  ELSE IF c = UNDERSCORE THEN LET r == ReadBlank(t, i) IN IF r = Fail THEN Fail ELSE <<BlankTerm(r[1]), r[2], 0>>
  ELSE IF c = QUOTE THEN ReadLiteral(t, i)
  ELSE Fail

RECURSIVE SkipWs(_, _)
SkipWs(t, i) == IF At(t, i) = SPACE \/ At(t, i) = TAB THEN SkipWs(t, i + 1) ELSE i

(* Terms up to a dot, an end of line or the end of the text. *)
RECURSIVE ReadTerms(_, _, _)
ReadTerms(t, i, acc) ==
  LET j == SkipWs(t, i) IN
  IF At(t, j) \in {-1, DOT, LF, CR} THEN <<acc, j>>
  ELSE LET r == ReadTerm(t, j) IN
       IF r = Fail THEN Fail ELSE ReadTerms(t, r[2], Append(acc, r[1]))

RECURSIVE SkipEol(_, _)
SkipEol(t, i) == IF At(t, i) \in {LF, CR} THEN SkipEol(t, i + 1) ELSE i
IsEol(c) == c = LF \/ c = CR
(* <<1, statements>>, each of 3 or 4 terms, or <<0, what was read before the fault>>. *)
RECURSIVE ReadDoc(_, _, _)
ReadDoc(t, i, acc) ==
  LET j == SkipWs(t, SkipEol(t, i)) IN
  IF j > Len(t) THEN <<1, acc>>
  ELSE LET r == ReadTerms(t, j, <<>>) IN
       IF r = Fail \/ ~(Len(r[1]) \in {3, 4}) \/ At(t, r[2]) # DOT THEN <<0, acc>>
       ELSE LET k == SkipWs(t, r[2] + 1) IN
            IF k <= Len(t) /\ ~IsEol(t[k]) THEN <<0, acc>>
            ELSE ReadDoc(t, k, Append(acc, r[1]))

(* What a rendering must satisfy. *)
TermReads(t, x) ==
  LET r == ReadTerm(t, 1) IN
  /\ r # Fail /\ r[2] = Len(t) + 1 /\ r[1] = x
  /\ (x.k = "l" /\ x.d = XsdString => r[3] = 0)
(* One statement; the final dot may be left to the writer of the document. *)
StatementReads(t, xs) ==
  LET r == ReadTerms(t, 1, <<>>) IN
  /\ r # Fail /\ r[1] = xs
  /\ LET e == IF At(t, r[2]) = DOT THEN r[2] + 1 ELSE r[2] IN SkipWs(t, e) > Len(t)
DocReads(t, S) ==
  LET r == ReadDoc(t, 1, <<>>)
      d == r[2] IN
  /\ r[1] = 1 /\ Len(d) = Len(S)
  /\ {d[i] : i \in 1..Len(d)} = {S[i] : i \in 1..Len(S)}
=============================================================================
