------------------------------ MODULE Gen_Lines ------------------------------
(***************************************************************************)
(* Enumerates grammar derivations of one group of constructs, checks the     *)
(* specification's own guarantees on each of them and emits each one with    *)
(* the result the specification prescribes.                                  *)
(*   state = one derivation: construct c, irregular slots d = {<<slot, alt>>}*)
(***************************************************************************)
EXTENDS RoundTrip, Vocab, Json

CONSTANTS Group, Depth, Emit

All == Constructs(Group)
VARIABLES c, d

RECURSIVE TextFrom(_, _, _)
AltOf(dd, i) == IF \E x \in dd : x[1] = i THEN (CHOOSE x \in dd : x[1] = i)[2] ELSE 1
TextFrom(cc, dd, i) ==
  IF i > Len(All[cc]) THEN "" ELSE All[cc][i][AltOf(dd, i)] \o TextFrom(cc, dd, i + 1)
TextOf(cc, dd) == TextFrom(cc, dd, 1)

\* A verdict never depends on the blanks around the value or the case of the type.
Record(t, r, rt) ==
  IF r.t = "ok" THEN [in |-> t, t |-> "ok", v |-> r.v, txt |-> ValueText(r.v), rt |-> rt, lv |-> Levels(r.v)]
  ELSE [in |-> t, t |-> r.t, v |-> <<>>, txt |-> "", rt |-> "", lv |-> <<>>]

Init == /\ c \in 1..Len(All)
        /\ d = {}
Next == /\ Cardinality(d) < Depth
        /\ \E i \in 1..Len(All[c]) :
             /\ \A x \in d : x[1] < i
             /\ \E a \in 2..Len(All[c][i]) : d' = d \cup {<<i, a>>}
        /\ UNCHANGED c

Checked ==
  \E t \in {TextOf(c, d)} : \E r \in {ParseLine(t)} : \E rt \in {IF r.t = "ok" THEN Rt(r.v) ELSE ""} :
    /\ r.t \in {"ok", "err", "unsup", "rej", "unk"}
    /\ (r.t = "ok" /\ Faithful(r.v)) => rt = "same"
    /\ Emit => PrintT(ToJson(Record(t, r, rt)))
=============================================================================
