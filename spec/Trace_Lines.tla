----------------------------- MODULE Trace_Lines -----------------------------
(***************************************************************************)
(* Decides whether recorded observations of single lines are allowed by the  *)
(* specification.  Each event is one line with what the crate made of it:    *)
(*   in, t (verdict), v (value), txt (printed value), rt (re-parse), lv      *)
(*   (name and levels), nr/text (diagnostic carries its number/text), at     *)
(*   (attribute parser agrees).                                              *)
(* The state walks one of Chunks parts of the trace.                         *)
(***************************************************************************)
EXTENDS RoundTrip, Json, Integers

CONSTANTS File, Chunks, Aspects
T == ndJsonDeserialize(File)
VARIABLES c, i

Size == (Len(T) + Chunks - 1) \div Chunks
Final(k) == LET n == k * Size IN IF n < Len(T) THEN n ELSE Len(T)
Init == c \in 1..Chunks /\ i = (c - 1) * Size
Next == i < Final(c) /\ i' = i + 1 /\ UNCHANGED c

On(a) == a \in Aspects
Faults(e, o) ==
  LET both == e.t = "ok" /\ o.t = "ok"
      F(a, holds, what) == IF ~On(a) \/ holds THEN {} ELSE {what}
  IN  F("verdict", IF both THEN TRUE ELSE Agrees(e, o), "verdict, expected " \o e.t)
      \cup (IF o.t = "panic" THEN {"panic"} ELSE {})
      \cup F("diag", o.nr /\ o.text, "line number or text")
      \cup F("value", o.at = "", "attribute parser alone differs")
      \cup (IF ~both THEN {}
            ELSE F("value", Agrees(e, o), "value")
                 \cup F("text", o.txt = ValueText(e.v), "text, expected " \o ValueText(e.v))
                 \cup F("roundtrip", \E rt \in {Rt(e.v)} : (Faithful(e.v) => rt = "same") /\ (rt \notin {"unk", "rej"} => o.rt = rt), "round trip")
                 \cup F("levels", e.v.ty = "a" => (Len(o.lv) = 1 /\ o.lv[1] = Levels(e.v)[1]), "name or levels"))
Checked ==
  \/ i = (c - 1) * Size
  \/ \E o \in {T[i]} : \E e \in {ParseLine(o.in)} : \E F \in {Faults(e, o)} :
       /\ (e.t # "unk" \/ PrintT("UNMODELLED"))
       /\ (F = {} \/ PrintT(ToJson([mismatch |-> i, faults |-> F, in |-> o.in])))
=============================================================================
