------------------------------ MODULE Trace_Docs ------------------------------
(***************************************************************************)
(* Decides whether recorded readings of whole descriptions are allowed.      *)
(* Event: in (text), strict, t, line (0-based), text, sess (<<session>> or   *)
(* <<>>), warns, txt (printed session), rt (strict re-parse of txt).         *)
(***************************************************************************)
EXTENDS Values, Json

CONSTANTS File, Chunks, Aspects
T == ndJsonDeserialize(File)
VARIABLES c, i

Size == (Len(T) + Chunks - 1) \div Chunks
Final(k) == LET n == k * Size IN IF n < Len(T) THEN n ELSE Len(T)
Init == c \in 1..Chunks /\ i = (c - 1) * Size
Next == i < Final(c) /\ i' = i + 1 /\ UNCHANGED c

---------------------------------------------------------------------------
Faults(o, e) ==
  LET On(a) == a \in Aspects
      F(a, holds, what) == IF ~On(a) \/ holds THEN {} ELSE {what}
      both == e.t = "ok" /\ o.t = "ok"
  IN  IF o.t = "panic" THEN {"panic"}
      ELSE IF e.t = "unk" THEN {}
      ELSE F("accept", (e.t = "ok") = (o.t = "ok"), "accepted or rejected, expected " \o e.t)
           \cup F("class", e.t = o.t, "class, expected " \o e.t)
           \cup (IF e.t = o.t /\ e.t # "ok" THEN F("diag", e.line = o.line /\ e.text = o.text, "line number or text, expected " \o ToString(e.line)) ELSE {})
           \cup (IF ~both THEN {}
                 ELSE F("value", SameSession(e.sess, o.sess[1]), "session")
                      \cup F("text", e.txt = o.txt, "printed text")
                      \cup F("diag", e.warns = o.warns, "warnings")
                      \cup F("warn", Len(e.warns) = Len(o.warns), "number of warnings")
                      \cup F("roundtrip", e.faithful => o.rt = "same", "round trip"))
           \cup (IF e.props THEN {} ELSE {"specification: document properties"})

Checked ==
  \/ i = (c - 1) * Size
  \/ \E o \in {T[i]} : \E e \in {Reading(o.in, o.strict, i % 4 = 0 /\ Len(o.in) < 3000 /\ Cardinality(Idxs(o.in, "\n")) <= 40)} : \E F \in {Faults(o, e)} :
       /\ (e.t # "unk" \/ PrintT("UNMODELLED"))
       /\ (F = {} \/ PrintT(ToJson([mismatch |-> i, faults |-> F, in |-> o.in])))
=============================================================================
