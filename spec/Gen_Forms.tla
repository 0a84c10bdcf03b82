------------------------------ MODULE Gen_Forms ------------------------------
(***************************************************************************)
(* Every text of every form of a group, with the reading the specification   *)
(* gives it.  The state is a form and the alternatives chosen so far.        *)
(***************************************************************************)
EXTENDS RoundTrip, FormVocab, Json
CONSTANTS Group
\* Computed once, before the search (register 1).
ASSUME Keep(1, Forms(Group))
Form(c) == TLCGet(1)[c]
VARIABLES c, s, left
Init == c \in 1..Len(TLCGet(1)) /\ s = "" /\ left = Len(Form(c))
Slot == Form(c)[Len(Form(c)) - left + 1]
Next == left > 0 /\ \E f \in {Slot} : \E a \in 1..Len(f) : s' = s \o f[a] /\ left' = left - 1 /\ UNCHANGED c
Record(t, r, rt) ==
  IF r.t = "ok" THEN [in |-> t, t |-> "ok", v |-> r.v, txt |-> ValueText(r.v), rt |-> rt, lv |-> Levels(r.v)]
  ELSE [in |-> t, t |-> r.t, v |-> <<>>, txt |-> "", rt |-> "", lv |-> <<>>]
Checked ==
  left > 0 \/ \E r \in {ParseLine(s)} : \E rt \in {IF r.t = "ok" THEN Rt(r.v) ELSE ""} :
    /\ r.t \in {"ok", "err", "unsup", "rej", "unk"}
    /\ (r.t = "ok" /\ Faithful(r.v)) => rt = "same"
    /\ PrintT(ToJson(Record(s, r, rt)))
=============================================================================
