-------------------------------- MODULE Total --------------------------------
(***************************************************************************)
(* One call and the uses of what it returned.  Every call returns; what it   *)
(* returns can be used in every way, and every use returns.                  *)
(***************************************************************************)
EXTENDS Sequences, Naturals

Entries == {"lenient", "strict", "line", "attr"}
\* Outcomes of an entry point: a value or an error of some class.
OutcomesOf(e) == CASE e \in {"lenient", "strict"} -> {"ok", "err", "unsup", "seq"}
                   [] e = "line" -> {"ok", "err", "unsup"}
                   [] e = "attr" -> {"ok", "err"}
UsesOfValue == <<"print", "debug", "clone", "mask", "print masked">>
UsesOfError == <<"print", "debug", "source">>
OutcomeOfUse(u) == IF u = "clone" THEN "same" ELSE "done"

\* st: [phase, entry, got, used].  A call is open until its return.
Idle == [phase |-> "idle", entry |-> "", got |-> "", used |-> 0, open |-> ""]
CallStep(s, e) == [s EXCEPT !.phase = "busy", !.entry = e, !.open = e]
UsesFor(s) == IF s.got = "ok" THEN UsesOfValue ELSE UsesOfError
CanUse(s) == s.phase = "holding" /\ s.used < Len(UsesFor(s))
UseStep(s) == [s EXCEPT !.phase = "busy", !.open = UsesFor(s)[s.used + 1]]
\* The results the open call may return.
Returns(s) == IF s.open \in Entries /\ s.got = "" THEN OutcomesOf(s.open) ELSE {OutcomeOfUse(s.open)}
ReturnStep(s, o) ==
  IF s.got = "" THEN [s EXCEPT !.phase = "holding", !.got = o, !.open = ""]
  ELSE [s EXCEPT !.phase = "holding", !.used = @ + 1, !.open = ""]
Finished(s) == s.phase = "holding" /\ s.used = Len(UsesFor(s))

\* A recorded history of [step, outcome] pairs, run through the machine:
\* the position of the first step that is not allowed, 0 if there is none, and
\* whether the history ends with everything used.
RECURSIVE RunFrom(_, _, _)
RunFrom(h, i, s) ==
  IF i > Len(h) THEN (IF Finished(s) THEN 0 ELSE i)
  ELSE LET t == IF s.phase = "idle" /\ h[i][1] \in Entries THEN CallStep(s, h[i][1])
                ELSE IF CanUse(s) /\ UsesFor(s)[s.used + 1] = h[i][1] THEN UseStep(s)
                ELSE Idle
       IN  IF t.phase # "busy" \/ h[i][2] \notin Returns(t) THEN i ELSE RunFrom(h, i + 1, ReturnStep(t, h[i][2]))
FirstFault(h) == RunFrom(h, 1, Idle)
=============================================================================
