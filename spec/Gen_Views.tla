------------------------------ MODULE Gen_Views ------------------------------
(***************************************************************************)
(* Every text of every form of a group with the serialized view the          *)
(* specification gives its value.                                            *)
(***************************************************************************)
EXTENDS Serde, FormVocab, Json
CONSTANTS Group
ASSUME Keep(1, Forms(Group))
Form(c) == TLCGet(1)[c]
VARIABLES c, s, left
Init == c \in 1..Len(TLCGet(1)) /\ s = "" /\ left = Len(Form(c))
Slot == Form(c)[Len(Form(c)) - left + 1]
Next == left > 0 /\ \E f \in {Slot} : \E a \in 1..Len(f) : s' = s \o f[a] /\ left' = left - 1 /\ UNCHANGED c
Checked ==
  left > 0 \/ \E r \in {ParseLine(s)} : PrintT(ToJson([in |-> s, t |-> r.t, view |-> IF r.t = "ok" THEN JLine(r.v) ELSE ""]))
=============================================================================
