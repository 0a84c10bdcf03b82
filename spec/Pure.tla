-------------------------------- MODULE Pure --------------------------------
(***************************************************************************)
(* Clients call the crate; calls overlap freely.  The crate has no state: a  *)
(* call's result is a function of the call alone (Answer).                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Clients, Jobs, Answer(_)
VARIABLES running, results
\* running[c] is the job of client c's open call, 0 when it has none;
\* results the set of <<job, result>> pairs returned so far.

PureInit == running = [c \in Clients |-> 0] /\ results = {}
Begin(c, j) == running[c] = 0 /\ running' = [running EXCEPT ![c] = j] /\ UNCHANGED results
End(c) == /\ running[c] # 0
          /\ results' = results \cup {<<running[c], Answer(running[c])>>}
          /\ running' = [running EXCEPT ![c] = 0]
\* S29
FunctionOfInput == \A a, b \in results : a[1] = b[1] => a[2] = b[2]
=============================================================================
