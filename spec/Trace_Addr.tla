------------------------------ MODULE Trace_Addr ------------------------------
(***************************************************************************)
(* Decides whether recorded readings of address texts are allowed.            *)
(* Event: in, o = [t, v, t4, v4, t6, v6, ty, net] as in Gen_Addr, and the      *)
(* comparison of the address with that of another text: other, eq (untyped),   *)
(* eq4, eq6 (under a type), each <<>> when one of the two is no address.       *)
(***************************************************************************)
EXTENDS Addr, Json
CONSTANTS File, Chunks
T == ndJsonDeserialize(File)
VARIABLES c, i
Size == (Len(T) + Chunks - 1) \div Chunks
Final(k) == LET n == k * Size IN IF n < Len(T) THEN n ELSE Len(T)
Init == c \in 1..Chunks /\ i = (c - 1) * Size
Next == i < Final(c) /\ i' = i + 1 /\ UNCHANGED c

Val(r) == IF r.t = "ok" THEN <<r.v>> ELSE <<>>
Equal(r, q) == IF r.t = "ok" /\ q.t = "ok" THEN <<r.v = q.v>> ELSE <<>>
Reads(r, t, v) == r.t = "unk" \/ (r.t = t /\ Val(r) = v)
Compares(r, q, eq) == r.t = "unk" \/ q.t = "unk" \/ Equal(r, q) = eq
Faults(e) ==
  LET F(holds, what) == IF holds THEN {} ELSE {what}
      o == e.o
  IN  F(Reads(Address(e.in), o.t, o.v), "address")
      \cup F(Reads(TypedAddress("IP4", e.in), o.t4, o.v4), "IP4 address")
      \cup F(Reads(TypedAddress("IP6", e.in), o.t6, o.v6), "IP6 address")
      \cup F(IsModelText(e.in) => (AddrType(e.in) = o.ty /\ IsNetType(e.in) = o.net), "address or network type")
      \cup F(Compares(Address(e.in), Address(e.other), e.eq), "comparison")
      \cup F(Compares(TypedAddress("IP4", e.in), TypedAddress("IP4", e.other), e.eq4), "comparison of IP4 addresses")
      \cup F(Compares(TypedAddress("IP6", e.in), TypedAddress("IP6", e.other), e.eq6), "comparison of IP6 addresses")
      \cup F(e.ok = "", e.ok)
Checked ==
  \/ i = (c - 1) * Size
  \/ \E F \in {Faults(T[i])} : /\ (Address(T[i].in).t # "unk" \/ PrintT("UNMODELLED"))
                               /\ (F = {} \/ PrintT(ToJson([mismatch |-> i, faults |-> F])))
=============================================================================
