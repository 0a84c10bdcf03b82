------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Text primitives of the SDP specification.  Text is a TLA+ string; a      *)
(* character is a string of length one.  Every operator mirrors one          *)
(* informal notion of RFC 4566 / the Rust standard library that the parser's *)
(* observable behaviour depends on: whitespace, trimming, splitting on a     *)
(* separator, ASCII case folding.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json

Ch(s, i) == SubSeq(s, i, i)

\* White space, including what Unicode adds (vertical tab, next line, no-break
\* space, ogham space, the U+2000 spaces, line and paragraph separators, ...).
WSChars    == {" ", "\t", "\n", "\f", "\r",
               "", "", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", "　"}
UpperChars == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
               "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
LowerChars == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
               "n","o","p","q","r","s","t","u","v","w","x","y","z"}
DigitChars == {"0","1","2","3","4","5","6","7","8","9"}
HexChars   == DigitChars \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
PunctChars == {" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",
               ":",";","<","=",">","?","@","[","\\","]","^","_","`","{","|","}","~",
               "\t","\f","\r","\n"}
\* Non-ASCII characters whose upper or lower case is or contains ASCII: whether
\* they match a keyword depends on how case is folded, which is left open.
PeculiarChars == {"ß", "İ", "ı", "ŉ", "ſ", "ǰ", "ẖ", "ẗ", "ẘ", "ẙ", "ẚ", "K", "ﬀ", "ﬁ", "ﬂ", "ﬃ", "ﬄ", "ﬅ", "ﬆ"}
\* Graphic ASCII and blanks.
PlainChars == UpperChars \cup LowerChars \cup DigitChars \cup PunctChars

LowerOf ==
  [c \in UpperChars |->
     CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d"
       [] c = "E" -> "e" [] c = "F" -> "f" [] c = "G" -> "g" [] c = "H" -> "h"
       [] c = "I" -> "i" [] c = "J" -> "j" [] c = "K" -> "k" [] c = "L" -> "l"
       [] c = "M" -> "m" [] c = "N" -> "n" [] c = "O" -> "o" [] c = "P" -> "p"
       [] c = "Q" -> "q" [] c = "R" -> "r" [] c = "S" -> "s" [] c = "T" -> "t"
       [] c = "U" -> "u" [] c = "V" -> "v" [] c = "W" -> "w" [] c = "X" -> "x"
       [] c = "Y" -> "y" [] c = "Z" -> "z"]

\* The texts without such characters.  (A character
\* beyond the basic plane is seen as two halves, neither of which is special.)
IsModelText(s) == \A i \in 1..Len(s) : Ch(s, i) \notin PeculiarChars
PeculiarFold == [c \in PeculiarChars |->
  CASE c = "ß" -> "ss" [] c \in {"İ", "ı"} -> "i" [] c = "ŉ" -> "n" [] c = "ſ" -> "s" [] c = "ǰ" -> "j" [] c = "ẖ" -> "h" [] c = "ẗ" -> "t"
    [] c = "ẘ" -> "w" [] c = "ẙ" -> "y" [] c = "ẚ" -> "a" [] c = "K" -> "k" [] c = "ﬀ" -> "ff" [] c = "ﬁ" -> "fi" [] c = "ﬂ" -> "fl"
    [] c = "ﬃ" -> "ffi" [] c = "ﬄ" -> "ffl" [] c \in {"ﬅ", "ﬆ"} -> "st"]
RECURSIVE FoldFrom(_, _)
FoldFrom(s, i) ==
  IF i > Len(s) THEN "" ELSE (IF Ch(s, i) \in PeculiarChars THEN PeculiarFold[Ch(s, i)] ELSE Ch(s, i)) \o FoldFrom(s, i + 1)
FoldPeculiar(s) == IF IsModelText(s) THEN s ELSE FoldFrom(s, 1)
Nul == JsonDeserialize("chars.json").nul
IsPlainText(s) == \A i \in 1..Len(s) : Ch(s, i) \in PlainChars
WS(c) == c \in WSChars

Has(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
AllIn(s, C) == \A i \in 1..Len(s) : Ch(s, i) \in C
Idxs(s, c) == {i \in 1..Len(s) : Ch(s, i) = c}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* s written n times.
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN s \o Rep(s, n - 1) ELSE Rep(s \o s, n \div 2)
\* Drop the first k characters / keep the first k characters.
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Take(s, k) == SubSeq(s, 1, k)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

\* Surrounding whitespace removed.
Trim(s) ==
  IF s = "" THEN s
  ELSE IF ~WS(Ch(s, 1)) /\ ~WS(Ch(s, Len(s))) THEN s
  ELSE LET N == {i \in 1..Len(s) : ~WS(Ch(s, i))}
       IN  IF N = {} THEN "" ELSE SubSeq(s, MinOf(N), MaxOf(N))

\* The maximal non-blank runs of s.
SplitWs(s) ==
  LET n  == Len(s)
      B  == {i \in 1..n : WS(Ch(s, i))}
      st == SetToSortSeq({i \in 1..n : i \notin B /\ (i = 1 \/ i - 1 \in B)}, <)
      en == SetToSortSeq({i \in 1..n : i \notin B /\ (i = n \/ i + 1 \in B)}, <)
  IN  IF B = {} THEN (IF n = 0 THEN <<>> ELSE <<s>>)
      ELSE TLCEval([k \in 1..Len(st) |-> SubSeq(s, st[k], en[k])])

\* The fields of s between occurrences of c (always at least one field).
SplitOn(s, c) ==
  LET P == SetToSortSeq(Idxs(s, c), <)
      n == Len(P) + 1
  IN  IF n = 1 THEN <<s>>
      ELSE TLCEval([k \in 1..n |-> SubSeq(s, IF k = 1 THEN 1 ELSE P[k-1] + 1,
                                             IF k = n THEN Len(s) ELSE P[k] - 1)])

\* At most m fields; the last one keeps the remaining separators.
SplitMax(s, c, m) ==
  LET P == SetToSortSeq(Idxs(s, c), <)
      n == IF Len(P) + 1 < m THEN Len(P) + 1 ELSE m
  IN  IF n = 1 THEN <<s>>
      ELSE TLCEval([k \in 1..n |-> SubSeq(s, IF k = 1 THEN 1 ELSE P[k-1] + 1,
                                             IF k = n THEN Len(s) ELSE P[k] - 1)])

RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE (IF Ch(s, i) \in UpperChars THEN LowerOf[Ch(s, i)] ELSE Ch(s, i)) \o LowerFrom(s, i + 1)
Lower(s) == IF \E i \in 1..Len(s) : Ch(s, i) \in UpperChars THEN LowerFrom(s, 1) ELSE s

\* Case-insensitive comparison with a lower-case keyword.
EqI(s, kw) == Len(s) = Len(kw) /\ Lower(s) = kw

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) ==
  IF i > Len(ss) THEN ""
  ELSE IF i = Len(ss) THEN ss[i]
  ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

\* Elements f[1..n] of a sequence that satisfy P, and images of sequences.
Map(ss, Op(_)) == TLCEval([k \in 1..Len(ss) |-> Op(ss[k])])
Filter(ss, P(_)) == SelectSeq(ss, P)
NonEmpty(ss) == SelectSeq(ss, LAMBDA x : x # "")
Tail2(ss, k) == SubSeq(ss, k, Len(ss))

\* The element of a singleton.  TheOne({f(v) : v \in {e}}) is LET v == e IN f(v)
\* with e evaluated once.
TheOne(S) == CHOOSE x \in S : TRUE

\* Option helpers: <<>> is "absent", <<x>> is "present".
Opt(o, pre) == IF o = <<>> THEN "" ELSE pre \o o[1]


(* Stores a value for later TLCGet(k).  Workers share what is stored, and TLC *)
(* orders the fields of a record on first use, in place: comparing the value  *)
(* with itself does that once, before any worker starts.                      *)
Keep(k, v) == \E w \in {v} : w = w /\ TLCSet(k, w)
=========================================================================
