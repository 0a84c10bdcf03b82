----------------------------- MODULE Trace_Total -----------------------------
(***************************************************************************)
(* Decides whether the recorded histories are allowed: every distinct        *)
(* history of the run with the number of calls that had it and an example.   *)
(***************************************************************************)
EXTENDS Total, TLC, Json
CONSTANTS File
T == ndJsonDeserialize(File)
VARIABLES i
Init == i = 0
Next == i < Len(T) /\ i' = i + 1
Checked == i = 0 \/ \E f \in {FirstFault(T[i].h)} : f = 0 \/ PrintT(ToJson([mismatch |-> i, at |-> f, h |-> T[i].h, n |-> T[i].n]))
=============================================================================
