-------------------------------- MODULE Addr --------------------------------
(***************************************************************************)
(* Addresses: IPv4 / IPv6 literals and host names, with their canonical     *)
(* text.  An address is [k |-> "v4"|"v6"|"host", a |-> canonical text].      *)
(* A verdict is [t |-> "ok", v |-> address] | Bad | Unknown, where Unknown    *)
(* marks text outside the modelled host-name domain (internationalised       *)
(* names).                                                                   *)
(***************************************************************************)
EXTENDS Num

Bad     == [t |-> "err"]
Unknown == [t |-> "unk"]
Good(v) == [t |-> "ok", v |-> v]

---------------------------------------------------------------------------
(* Dotted quads: four decimal octets, no leading zeros.                      *)
IsOctet(s) == /\ IsDigits(s) /\ Len(s) <= 3 /\ (Len(s) = 1 \/ Ch(s, 1) # "0") /\ ToInt(s) <= 255
IsQuad(s) == LET p == SplitOn(s, ".") IN Len(p) = 4 /\ \A i \in 1..4 : IsOctet(p[i])

---------------------------------------------------------------------------
(* IPv6.                                                                     *)
IsH16(s) == s # "" /\ Len(s) <= 4 /\ AllIn(s, HexChars)
\* The 16-bit groups written by a ':'-separated run, <<-1>> if malformed;
\* a dotted quad is permitted as the last element when mayQuad.
Groups(run, mayQuad) ==
  IF run = "" THEN <<>>
  ELSE LET p == SplitOn(run, ":")
           n == Len(p)
           quad == mayQuad /\ IsQuad(p[n])
           h == IF quad THEN n - 1 ELSE n
       IN  IF \E i \in 1..h : ~IsH16(p[i]) THEN <<-1>>
           ELSE LET hs == [i \in 1..h |-> HexFrom(p[i], 1, 0)]
                IN  IF quad
                    THEN LET q == SplitOn(p[n], ".")
                         IN  hs \o << ToInt(q[1]) * 256 + ToInt(q[2]), ToInt(q[3]) * 256 + ToInt(q[4]) >>
                    ELSE hs
Zeros(n) == [i \in 1..n |-> 0]
DoubleColons(s) == {i \in 1..(Len(s) - 1) : SubSeq(s, i, i + 1) = "::"}
\* The eight groups, or <<>> when s is not an IPv6 literal.
V6Groups(s) ==
  LET D == DoubleColons(s)
  IN  IF D = {}
      THEN LET g == Groups(s, TRUE) IN IF Len(g) = 8 THEN g ELSE <<>>
      ELSE IF Cardinality(D) > 1 THEN <<>>
      ELSE LET i == MinOf(D)
               h == Groups(SubSeq(s, 1, i - 1), FALSE)
               l == Groups(SubSeq(s, i + 2, Len(s)), TRUE)
           IN  IF h = <<-1>> \/ l = <<-1>> \/ Len(h) + Len(l) > 7 THEN <<>>
               ELSE h \o Zeros(8 - Len(h) - Len(l)) \o l
IsMapped(g) == /\ \A i \in 1..5 : g[i] = 0
               /\ g[6] = 65535
NatText(n) == ToString(n)
QuadText(hi, lo) == NatText(hi \div 256) \o "." \o NatText(hi % 256) \o "."
                    \o NatText(lo \div 256) \o "." \o NatText(lo % 256)
\* Longest run of at least two zero groups, leftmost on ties: <<start, len>>.
ZeroRun(g) ==
  LET R == {r \in (1..8) \X (2..8) : r[1] + r[2] <= 9 /\ \A i \in r[1]..(r[1] + r[2] - 1) : g[i] = 0}
  IN  IF R = {} THEN <<0, 0>>
      ELSE LET m == MaxOf({r[2] : r \in R})
               st == MinOf({r[1] : r \in {q \in R : q[2] = m}})
           IN  <<st, m>>
HexRun(g, i, j) == Join([k \in 1..(j - i + 1) |-> HexText(g[i + k - 1])], ":")
V6Text(g) ==
  IF IsMapped(g) THEN "::ffff:" \o QuadText(g[7], g[8])
  ELSE LET z == ZeroRun(g)
       IN  IF z = <<0, 0>> THEN HexRun(g, 1, 8)
           ELSE HexRun(g, 1, z[1] - 1) \o "::" \o HexRun(g, z[1] + z[2], 8)

---------------------------------------------------------------------------
(* Host names.                                                               *)
ForbiddenHost == {" ","#","/",":","<",">","?","@","[","\\","]","^","|","%","\t","\n","\f","\r"}
HostChars == (LowerChars \cup UpperChars \cup DigitChars \cup PunctChars) \ ForbiddenHost

(* Numbers of an IPv4 host, as the URL standard reads them: decimal, octal   *)
(* with a leading 0, hexadecimal with 0x; fewer than four numbers are         *)
(* allowed, the last one filling the remaining octets.                        *)
Radix(l) == IF Len(l) >= 2 /\ SubSeq(l, 1, 2) = "0x" THEN 16 ELSE IF Len(l) >= 2 /\ Ch(l, 1) = "0" THEN 8 ELSE 10
Numeral(l) == IF Radix(l) = 16 THEN Drop(l, 2) ELSE IF Radix(l) = 8 THEN Drop(l, 1) ELSE l
OctalChars == DigitChars \ {"8", "9"}
IsIpNumber(l) == /\ l # ""
                 /\ AllIn(Numeral(l), IF Radix(l) = 16 THEN HexChars ELSE IF Radix(l) = 8 THEN OctalChars ELSE DigitChars)
\* The number as four octets, <<>> when it needs more.
RECURSIVE OctetsFrom(_, _, _, _)
OctetsFrom(n, r, i, o) ==
  IF i > Len(n) THEN o
  ELSE LET d == o[4] * r + HexVal(Ch(n, i))
           c == o[3] * r + d \div 256
           b == o[2] * r + c \div 256
           a == o[1] * r + b \div 256
       IN  IF a > 255 THEN <<>> ELSE OctetsFrom(n, r, i + 1, <<a, b % 256, c % 256, d % 256>>)
Octets(l) == OctetsFrom(Numeral(l), Radix(l), 1, <<0, 0, 0, 0>>)
EndsInNumber(p) ==
  LET q == IF p[Len(p)] = "" THEN IF Len(p) > 1 THEN p[Len(p) - 1] ELSE "x" ELSE p[Len(p)]
  IN  IsDigits(q) \/ IsIpNumber(q)
IpNumbers(p0) ==
  LET p == IF p0[Len(p0)] = "" THEN SubSeq(p0, 1, Len(p0) - 1) ELSE p0
      n == Len(p)
  IN  IF n > 4 \/ \E i \in 1..n : ~IsIpNumber(p[i]) THEN Bad
      ELSE LET o == [i \in 1..n |-> Octets(p[i])]
           IN  IF \E i \in 1..n : o[i] = <<>> THEN Bad
               \* all but the last are single octets, the last fits what is left
               ELSE IF \E i \in 1..(n - 1) : SubSeq(o[i], 1, 3) # <<0, 0, 0>> THEN Bad
               ELSE IF \E j \in 1..(n - 1) : o[n][j] # 0 THEN Bad
               ELSE LET v == [i \in 1..4 |-> IF i < n THEN o[i][4] ELSE o[n][i]]
                    IN  Good([k |-> "v4", a |-> Join([i \in 1..4 |-> NatText(v[i])], ".")])

(* Percent-encoding is undone first.                                         *)
Printable7 == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
IsEscape(s, i) == Ch(s, i) = "%" /\ i + 2 <= Len(s) /\ Ch(s, i + 1) \in HexChars /\ Ch(s, i + 2) \in HexChars
EscapeValue(s, i) == HexVal(Ch(s, i + 1)) * 16 + HexVal(Ch(s, i + 2))
\* A control character decodes to some forbidden character; beyond ASCII is not modelled.
Decoded(n) == IF n < 32 \/ n = 127 THEN " " ELSE SubSeq(Printable7, n - 31, n - 31)
RECURSIVE Undo(_, _)
Undo(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF IsEscape(s, i) THEN Decoded(EscapeValue(s, i)) \o Undo(s, i + 3)
  ELSE Ch(s, i) \o Undo(s, i + 1)
BeyondAscii(s) == \E i \in 1..Len(s) : IsEscape(s, i) /\ EscapeValue(s, i) >= 128

Host(s0) ==
  IF s0 = "" THEN Bad
  ELSE IF ~IsPlainText(s0) \/ BeyondAscii(s0) THEN Unknown
  ELSE LET s == IF Has(s0, "%") THEN Undo(s0, 1) ELSE s0
       IN  IF ~AllIn(s, HostChars) THEN Bad
           ELSE LET l == Lower(s)
                    p == SplitOn(l, ".")
                IN  IF \E i \in 1..Len(p) : StartsWith(p[i], "xn--") THEN Unknown
                    ELSE IF EndsInNumber(p) THEN IpNumbers(p)
                    ELSE Good([k |-> "host", a |-> l])

\* connection-address / unicast-address.
Address(s) ==
  IF Has(s, ":")
  THEN LET inner == IF Len(s) > 2 /\ Ch(s, 1) = "[" /\ Ch(s, Len(s)) = "]" THEN SubSeq(s, 2, Len(s) - 1) ELSE s
           g == V6Groups(inner)
       IN  IF g = <<>> THEN Bad ELSE Good([k |-> "v6", a |-> V6Text(g)])
  ELSE Host(s)

\* "IN" and the address type token.
IsNetType(s) == EqI(s, "in")
AddrType(s) == IF EqI(s, "ip4") THEN <<"IP4">> ELSE IF EqI(s, "ip6") THEN <<"IP6">> ELSE <<>>

\* An address under an explicit type: literals must be of that type.
TypedAddress(at, s) ==
  LET r == Address(s)
  IN  IF r.t # "ok" THEN r
      ELSE IF r.v.k = "v4" /\ at # "IP4" THEN Bad
      ELSE IF r.v.k = "v6" /\ at # "IP6" THEN Bad
      ELSE Good([at |-> at, k |-> r.v.k, a |-> r.v.a])
TypedAddressText(v) == "IN " \o v.at \o " " \o v.a
=============================================================================
