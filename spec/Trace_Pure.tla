----------------------------- MODULE Trace_Pure -----------------------------
(***************************************************************************)
(* Decides whether recorded results are those each call gives on its own:    *)
(* event i returned res for job; Alone[job].res is what it gives in a        *)
(* process that does nothing else.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS File, Alone, Chunks
T == ndJsonDeserialize(File)
A == ndJsonDeserialize(Alone)
VARIABLES c, i
Size == (Len(T) + Chunks - 1) \div Chunks
Final(k) == LET n == k * Size IN IF n < Len(T) THEN n ELSE Len(T)
Answer(j) == A[j].res
Init == c \in 1..Chunks /\ i = (c - 1) * Size
Next == i < Final(c) /\ i' = i + 1 /\ UNCHANGED c
Checked ==
  \/ i = (c - 1) * Size
  \/ T[i].res = Answer(T[i].job)
  \/ PrintT(ToJson([mismatch |-> i, job |-> T[i].job, phase |-> T[i].phase]))
=============================================================================
