-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Numbers.  SDP numbers reach 2^64-1, TLC integers do not, so a number is   *)
(* its canonical decimal numeral (a string without leading zeros).  Decimal  *)
(* fractions are canonical decimal strings too ("0.5", "30", "-1.25").       *)
(***************************************************************************)
EXTENDS Text

U8  == "255"
U16 == "65535"
U32 == "4294967295"
U64 == "18446744073709551615"

DigitVal == [c \in DigitChars |->
   CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
     [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]

IsDigits(s) == s # "" /\ AllIn(s, DigitChars)

\* Canonical numeral of a non-empty digit string.
StripZeros(s) ==
  LET N == {i \in 1..Len(s) : Ch(s, i) # "0"}
  IN  IF N = {} THEN "0" ELSE SubSeq(s, MinOf(N), Len(s))

\* a <= b for canonical numerals.
NumLe(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE LET D == {i \in 1..Len(a) : Ch(a, i) # Ch(b, i)}
       IN  D = {} \/ DigitVal[Ch(a, MinOf(D))] < DigitVal[Ch(b, MinOf(D))]
NumLt(a, b) == a # b /\ NumLe(a, b)

\* The numeric field s, bounded by max: <<canonical>> or <<>> when rejected.
\* An optional leading '+' and leading zeros are tolerated; nothing else is.
Num(s, max) ==
  LET d == IF s # "" /\ Ch(s, 1) = "+" THEN Drop(s, 1) ELSE s
  IN  IF ~IsDigits(d) THEN <<>>
      ELSE LET c == StripZeros(d) IN IF NumLe(c, max) THEN <<c>> ELSE <<>>

IsNum(s, max) == Num(s, max) # <<>>

RECURSIVE IntFrom(_, _, _)
IntFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE IntFrom(s, i + 1, acc * 10 + DigitVal[Ch(s, i)])
\* Only for numerals of at most nine digits.
ToInt(s) == IntFrom(s, 1, 0)

HexVal(c) == CASE c \in DigitChars -> DigitVal[c]
               [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
               [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] c \in {"f", "F"} -> 15
HexDigit(n) == SubSeq("0123456789abcdef", n + 1, n + 1)
HexDigitU(n) == SubSeq("0123456789ABCDEF", n + 1, n + 1)
RECURSIVE HexFrom(_, _, _)
HexFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE HexFrom(s, i + 1, acc * 16 + HexVal(Ch(s, i)))
RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN HexDigit(n) ELSE HexText(n \div 16) \o HexDigit(n % 16)

---------------------------------------------------------------------------
(* Decimal fractions.  A numeral is exact when its significant digits fit the *)
(* floating point type (6 for f32, 15 for f64: every such decimal is printed  *)
(* back as itself); the answer for a longer one is not predicted ("unk").     *)

FloatNames == {"inf", "infinity", "nan"}
Unsigned(s) == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN Drop(s, 1) ELSE s
IsPlainDecimal(u) ==
  LET p == SplitOn(u, ".")
  IN  /\ u # "" /\ u # "."
      /\ Len(p) <= 2
      /\ \A k \in 1..Len(p) : AllIn(p[k], DigitChars)
StripTrail0(s) ==
  LET N == {i \in 1..Len(s) : Ch(s, i) # "0"}
  IN  IF N = {} THEN "" ELSE SubSeq(s, 1, MaxOf(N))
CanonUnsigned(u) ==
  LET p == SplitOn(u, ".")
      ip == StripZeros(IF p[1] = "" THEN "0" ELSE p[1])
      fp == IF Len(p) = 2 THEN StripTrail0(p[2]) ELSE ""
  IN  IF fp = "" THEN ip ELSE ip \o "." \o fp
\* The significant digits of a canonical decimal: between its first and its
\* last digit that is not 0.
SigDigits(c) ==
  LET N == {i \in 1..Len(c) : Ch(c, i) \in DigitChars /\ Ch(c, i) # "0"}
  IN  IF N = {} THEN 0
      ELSE Cardinality({i \in MinOf(N)..MaxOf(N) : Ch(c, i) # "."})
ZeroText(n) == Rep("0", n)
\* The plain decimal u times ten to the power of e.
Shift(u, e) ==
  LET p == SplitOn(u, ".")
      fp == IF Len(p) = 2 THEN p[2] ELSE ""
  IN  IF e >= 0
      THEN LET f == fp \o ZeroText(e) IN p[1] \o SubSeq(f, 1, e) \o "." \o Drop(f, e)
      ELSE LET i == ZeroText(-e) \o p[1] IN SubSeq(i, 1, Len(i) + e) \o "." \o Drop(i, Len(i) + e) \o fp
MaxExp == 30      \* exponents and lengths of either type beyond these are not predicted
MaxLen == 34

\* [t |-> "ok", neg, abs] | "inf" | "nan" | "err" | "unk"
FloatOf(s, digits) ==
  LET u   == Unsigned(s)
      neg == s # "" /\ Ch(s, 1) = "-"
      l   == Lower(u)
      m   == SplitOn(l, "e")
      Val(d) == LET c == CanonUnsigned(d)
                IN  IF SigDigits(c) <= digits /\ Len(c) <= MaxLen
                    THEN [t |-> "ok", neg |-> neg, abs |-> c]
                    ELSE [t |-> "unk", neg |-> neg, abs |-> ""]
  IN  IF IsPlainDecimal(u) THEN Val(u)
      ELSE IF l \in {"inf", "infinity"} THEN [t |-> "inf", neg |-> neg, abs |-> "inf"]
      ELSE IF l = "nan" THEN [t |-> "nan", neg |-> FALSE, abs |-> "NaN"]
      ELSE IF Len(m) = 2 /\ IsPlainDecimal(m[1]) /\ IsDigits(Unsigned(m[2]))
           THEN LET x == StripZeros(Unsigned(m[2]))
                    e == IF Ch(m[2], 1) = "-" THEN -ToInt(x) ELSE ToInt(x)
                IN  IF Len(x) > 2 \/ ToInt(x) > MaxExp \/ Len(m[1]) > MaxLen
                    THEN [t |-> "unk", neg |-> neg, abs |-> ""]
                    ELSE Val(Shift(m[1], e))
      ELSE [t |-> "err", neg |-> neg, abs |-> ""]
Float(s) == FloatOf(s, 6)        \* f32
Float64(s) == FloatOf(s, 15)     \* f64
FloatText(f) == (IF f.neg THEN "-" ELSE "") \o f.abs
FloatIsZero(f) == f.t = "ok" /\ f.abs = "0"

\* Comparison of canonical unsigned decimals.
PadTo(s, n) == s \o ZeroText(n - Len(s))
DecLt(a, b) ==
  LET pa == SplitOn(a, ".")  pb == SplitOn(b, ".")
      fa == IF Len(pa) = 2 THEN pa[2] ELSE ""
      fb == IF Len(pb) = 2 THEN pb[2] ELSE ""
      n  == (IF Len(fa) > Len(fb) THEN Len(fa) ELSE Len(fb)) + 1
  IN  IF pa[1] # pb[1] THEN NumLt(pa[1], pb[1])
      ELSE NumLt(StripZeros(PadTo(fa, n)), StripZeros(PadTo(fb, n)))
\* f < g over the modelled floats (inf is above every decimal, nan compares false).
FloatLt(f, g) ==
  IF f.t = "nan" \/ g.t = "nan" THEN FALSE
  ELSE LET sf == IF FloatIsZero(f) THEN FALSE ELSE f.neg
           sg == IF FloatIsZero(g) THEN FALSE ELSE g.neg
           AbsLt(x, y) == IF x.t = "inf" THEN FALSE ELSE IF y.t = "inf" THEN TRUE ELSE DecLt(x.abs, y.abs)
       IN  IF sf /\ ~sg THEN TRUE
           ELSE IF ~sf /\ sg THEN FALSE
           ELSE IF sf THEN AbsLt(g, f) ELSE AbsLt(f, g)
=============================================================================
