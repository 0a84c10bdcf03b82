------------------------------ MODULE Gen_Short ------------------------------
(***************************************************************************)
(* Every word of at most Depth pieces after every beginning of some groups, with *)
(* the reading the specification gives it.  The specification is total:      *)
(* every text has exactly one verdict.                                       *)
(***************************************************************************)
EXTENDS RoundTrip, ShortVocab, Json
CONSTANTS Which, Depth
VARIABLES g, b, w
RECURSIVE Word(_, _)
Word(k, i) == IF i > Len(k) THEN "" ELSE Piece(g)[k[i]] \o Word(k, i + 1)
Init == g \in Which /\ b \in 1..Len(Begin(g)) /\ w = <<>>
Next == Len(w) < Depth /\ \E k \in 1..Len(Piece(g)) : w' = Append(w, k) /\ UNCHANGED <<g, b>>
Record(t, r, rt) ==
  IF r.t = "ok" THEN [in |-> t, t |-> "ok", v |-> r.v, txt |-> ValueText(r.v), rt |-> rt, lv |-> Levels(r.v)]
  ELSE [in |-> t, t |-> r.t, v |-> <<>>, txt |-> "", rt |-> "", lv |-> <<>>]
Checked ==
  \E t \in {Begin(g)[b] \o Word(w, 1)} : \E r \in {ParseLine(t)} : \E rt \in {IF r.t = "ok" THEN Rt(r.v) ELSE ""} :
    /\ r.t \in {"ok", "err", "unsup", "rej", "unk"}
    /\ (r.t = "ok" /\ Faithful(r.v)) => rt = "same"
    /\ PrintT(ToJson(Record(t, r, rt)))
=============================================================================
