------------------------------ MODULE Gen_Serde ------------------------------
(***************************************************************************)
(* Every derivation of the base vocabulary with its value and its view.      *)
(* Values that differ have views that differ.                                *)
(***************************************************************************)
EXTENDS Serde, Vocab, Json

CONSTANTS Depth
All == Constructs("BASE")
VARIABLES c, d
RECURSIVE TextFrom(_, _, _)
AltOf(dd, i) == IF \E x \in dd : x[1] = i THEN (CHOOSE x \in dd : x[1] = i)[2] ELSE 1
TextFrom(cc, dd, i) ==
  IF i > Len(All[cc]) THEN "" ELSE All[cc][i][AltOf(dd, i)] \o TextFrom(cc, dd, i + 1)

Init == c \in 1..Len(All) /\ d = {}
Next == /\ Cardinality(d) < Depth
        /\ \E i \in 1..Len(All[c]) :
             /\ \A x \in d : x[1] < i
             /\ \E a \in 2..Len(All[c][i]) : d' = d \cup {<<i, a>>}
        /\ UNCHANGED c
\* Same view, same value (compared with the regular derivation of the construct).
Injective(r) ==
  \E q \in {ParseLine(TextFrom(c, {}, 1))} :
    (r.t = "ok" /\ q.t = "ok" /\ JLine(q.v) = JLine(r.v)) => SameValue(q.v, r.v)
Checked ==
  \E t \in {TextFrom(c, d, 1)} : \E r \in {ParseLine(t)} :
    /\ Injective(r)
    /\ PrintT(ToJson([in |-> t, t |-> r.t, view |-> IF r.t = "ok" THEN JLine(r.v) ELSE ""]))
=============================================================================
