----------------------------- MODULE Trace_Serde -----------------------------
(***************************************************************************)
(* Decides whether recorded serialized views agree with the programmatic     *)
(* view recorded beside them.                                                *)
(*   kind "line": v (<<line value>>), view                                   *)
(*   kind "sess": v (<<session>>), warns, view                               *)
(*   kind "err" : v (<<diagnostic>>), view                                   *)
(* ok: serialization succeeded.  res is the result (value, text, outcome) as *)
(* one text; Plain holds the results of the build without serialization.     *)
(***************************************************************************)
EXTENDS Serde, Json

CONSTANTS File, Plain, Chunks
T == ndJsonDeserialize(File)
P == ndJsonDeserialize(Plain)
VARIABLES c, i

Size == (Len(T) + Chunks - 1) \div Chunks
Final(k) == LET n == k * Size IN IF n < Len(T) THEN n ELSE Len(T)
Init == c \in 1..Chunks /\ i = (c - 1) * Size
Next == i < Final(c) /\ i' = i + 1 /\ UNCHANGED c

View(o) ==
  CASE o.kind = "line" -> JLine(o.v[1])
    [] o.kind = "sess" -> JSession(o.v[1], o.warns)
    [] o.kind = "err" -> JDiag(o.v[1])
Faults(o, p, w) ==
  (IF ~o.ok THEN {"serialization failed"} ELSE IF o.view = w THEN {} ELSE {"view, expected " \o w})
  \cup (IF o.in = p.in /\ o.res = p.res THEN {} ELSE {"the result differs when serialization is off"})

ASSUME Len(T) = Len(P)
Checked ==
  \/ i = (c - 1) * Size
  \/ \E o \in {T[i]} : \E w \in {View(o)} : \E F \in {Faults(o, P[i], w)} :
       F = {} \/ PrintT(ToJson([mismatch |-> i, faults |-> F, in |-> o.in]))
=============================================================================
