------------------------------ MODULE Trace_Build ------------------------------
(***************************************************************************)
(* Decides whether recorded building histories are behaviours of Build.      *)
(* A history: b (start), x0 (its value), ev (sequence of [o, r, seen, x], x  *)
(* recorded if seen), txt, rv = [t, v, warns, again] (strict re-reading).    *)
(***************************************************************************)
EXTENDS Build, Json

CONSTANTS File, Aspects
T == ndJsonDeserialize(File)

VARIABLES t, i, x
Begin(b) ==
  CASE b.obj = "media" -> NewMedia(LineVal("m", b.l))
    [] b.obj = "session" -> NewSession(b.v, LineVal("o", b.o), b.name)
    [] b.obj = "parsed" -> Reading(b.text, FALSE, FALSE).sess
IsMedia == T[t].b.obj = "media"
Same(p, q) == IF IsMedia THEN SameMedia(p, q) ELSE SameSession(p, q)
SameAnswer(p, q) == p.t = q.t /\ (p.t = "val" => SameAttrs(p.v, q.v))
Complain(what) == PrintT(ToJson([trace |-> t, step |-> i, faults |-> {what}, in |-> ToJson([b |-> T[t].b, ops |-> [k \in 1..i |-> T[t].ev[k].o]])]))

Init == t \in 1..Len(T) /\ i = 0 /\ x = Begin(T[t].b)
On(a) == a \in Aspects
\* Properties of the step from v by o, answered r, to w.
StepOk(v, o, w, r) ==
  IF IsMedia THEN Multiset22(v, o, w, r) /\ Codec23(v, o, w)
  ELSE /\ Build24(v, o, w, r) /\ LevelsOk(w)
       /\ (o.op = "m" /\ v.media # <<>> /\ o.i <= Len(v.media)) =>
             LET k == IF o.i = 0 THEN Len(v.media) ELSE o.i
             IN  Multiset22(v.media[k], o.o, w.media[k], r) /\ Codec23(v.media[k], o.o, w.media[k])
\* A history is followed as long as the specification agrees with it.
Next ==
  /\ i < Len(T[t].ev)
  /\ \E e \in {T[t].ev[i + 1]} : \E o \in {ResolveAll(e.o)} : \E a \in {IF IsMedia THEN ApplyM(x, o) ELSE ApplyS(x, o)} :
       /\ x' = a[1] /\ i' = i + 1 /\ t' = t
       /\ IF StepOk(x, o, a[1], a[2]) THEN TRUE ELSE Complain("specification: step property")
       /\ IF ((On("value") /\ e.seen) => Same(a[1], e.x)) /\ (On("answer") => SameAnswer(a[2], e.r)) THEN TRUE
          ELSE Complain("value or answer") /\ FALSE
Checked ==
  /\ (i # 0 \/ ~On("value") \/ Same(x, T[t].x0) \/ Complain("starting value"))
  /\ IF i # Len(T[t].ev) THEN TRUE
     ELSE /\ (~On("text") \/ T[t].txt = (IF IsMedia THEN MediaTextV(x) ELSE SessionTextV(x)) \/ Complain("printed text"))
          /\ IF IsMedia \/ ~On("reread") \/ ~Printable(x) THEN TRUE
             ELSE LET rv == T[t].rv
                  IN  /\ (Prints24(x) \/ Complain("specification: S24"))
                      /\ ((rv.t = "ok" /\ rv.warns = 0 /\ rv.again /\ SameSession(CanonMsid(rv.v[1]), ReRead(x))) \/ Complain("re-reading the printed text"))
                      /\ PrintT("REREAD")
=============================================================================
