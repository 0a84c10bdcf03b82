------------------------------ MODULE Gen_Pure ------------------------------
(***************************************************************************)
(* Every schedule of at most Calls calls of NJobs jobs by NClients clients,  *)
(* up to the names of the clients (a client is first used in order).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NClients, NJobs, Calls

VARIABLES running, results, s
P == INSTANCE Pure WITH Clients <- 1..NClients, Jobs <- 1..NJobs, Answer <- LAMBDA j : j
Begun == Cardinality({i \in 1..Len(s) : s[i][2] # 0})
Used == {s[i][1] : i \in 1..Len(s)}
Init == P!PureInit /\ s = <<>>
Next == \E c \in 1..NClients :
          \/ /\ Begun < Calls
             /\ \A d \in 1..(c - 1) : d \in Used
             /\ \E j \in 1..NJobs : P!Begin(c, j) /\ s' = Append(s, <<c, j>>)
          \/ P!End(c) /\ s' = Append(s, <<c, 0>>)
Complete == Begun = Calls /\ \A c \in 1..NClients : running[c] = 0
Checked == P!FunctionOfInput /\ (Complete => PrintT(ToJson([s |-> s])))
=============================================================================
