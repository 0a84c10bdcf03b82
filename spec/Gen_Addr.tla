------------------------------- MODULE Gen_Addr -------------------------------
(***************************************************************************)
(* Every word of at most Depth address pieces, read as an address, as an      *)
(* address of either declared type, as an address type and as a network type. *)
(***************************************************************************)
EXTENDS Addr, Json
CONSTANTS Group, Depth
VARIABLES w

Pieces ==
  CASE Group = "v6" -> << ":", "::", "0", "1", "ffff", "0db8", "1.2.3.4", "[", "]", "g", "10000", "255.255.255.255" >>
    [] Group = "v4" -> << ".", "0", "1", "255", "256", "0x", "0377", "08", "f", "16777216", "4294967296", "65535" >>
    [] Group = "host" -> << ".", "a", "Z", "-", "_", "%41", "%2e", "%31", "%", "xn--", "1", "0x", " ", "/", "%ff" >>
    [] Group = "type" -> << "I", "i", "P", "p", "4", "6", "N", "n", " ", "IP4", "ip6", "x" >>
RECURSIVE Word(_, _)
Word(k, i) == IF i > Len(k) THEN "" ELSE Pieces[k[i]] \o Word(k, i + 1)
Init == w = <<>>
Next == Len(w) < Depth /\ \E k \in 1..Len(Pieces) : w' = Append(w, k)

Val(r) == IF r.t = "ok" THEN <<r.v>> ELSE <<>>
\* The canonical text of an address is an address, the same one.
FixedPoint(r) == r.t = "ok" => Address(r.v.a) = r
\* Letter case never matters; a literal is of exactly one type, a name of both.
CaseFree(s, r) == Address(Lower(s)) = r
TypesAgree(r, p, q) ==
  CASE r.t # "ok" -> p = r /\ q = r
    [] r.v.k = "v4" -> p.t = "ok" /\ q.t = "err"
    [] r.v.k = "v6" -> p.t = "err" /\ q.t = "ok"
    [] OTHER -> p.t = "ok" /\ q.t = "ok" /\ p.v.a = q.v.a
Checked ==
  \E s \in {Word(w, 1)} : \E r \in {Address(s)} : \E p \in {TypedAddress("IP4", s)} : \E q \in {TypedAddress("IP6", s)} :
    /\ FixedPoint(r) /\ CaseFree(s, r) /\ TypesAgree(r, p, q)
    /\ PrintT(ToJson([in |-> s, t |-> r.t, v |-> Val(r), t4 |-> p.t, v4 |-> Val(p), t6 |-> q.t, v6 |-> Val(q),
                      ty |-> AddrType(s), net |-> IsNetType(s)]))
=============================================================================
