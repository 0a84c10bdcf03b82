------------------------------ MODULE MC_Total ------------------------------
(***************************************************************************)
(* The life of a call as a machine: under weak fairness every call returns   *)
(* and every value is used up.  Generates every history that is allowed.     *)
(***************************************************************************)
EXTENDS Total, TLC, Json
VARIABLES st, h
vars == <<st, h>>
Init == st = Idle /\ h = <<>>
Call == st.phase = "idle" /\ \E e \in Entries : st' = CallStep(st, e) /\ UNCHANGED h
Use == CanUse(st) /\ st' = UseStep(st) /\ UNCHANGED h
Return == st.phase = "busy" /\ \E o \in Returns(st) : st' = ReturnStep(st, o) /\ h' = Append(h, <<st.open, o>>)
Next == Call \/ Use \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Call) /\ WF_vars(Use) /\ WF_vars(Return)
EveryCallReturns == [](st.phase = "busy" => <>(st.phase = "holding"))
EverythingIsUsed == <>Finished(st)
\* The checker of recorded histories accepts exactly the machine's.
Checked == Finished(st) => FirstFault(h) = 0 /\ PrintT(ToJson([h |-> h]))
=============================================================================
