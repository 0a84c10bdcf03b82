------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The reader as a state machine: it takes one physical line at a time and   *)
(* can be asked, after any number of lines, what the description read so far *)
(* amounts to.  Sdp!Outcome says the same thing as a function of the whole   *)
(* description; Refines states that the two agree.                           *)
(*                                                                           *)
(* A reader state:                                                           *)
(*   n      physical lines taken                                             *)
(*   warn   line numbers of unsupported lines, in order                      *)
(*   bad    number of the last malformed line, 0 if none                     *)
(*   good   number of well-formed lines taken                                *)
(*   head   numbers of the first three well-formed lines                     *)
(*   skel   0, or which of the three has the wrong type                      *)
(*   body   verdict of placing the remaining well-formed lines               *)
(***************************************************************************)
EXTENDS Sdp

Start == [n |-> 0, warn |-> <<>>, bad |-> 0, good |-> 0, head |-> <<>>, skel |-> 0, body |-> Ok(EmptySession)]
HeadTypes == <<"v", "o", "s">>

Blank == [t |-> "blank"]
\* Take a line with verdict r (Blank for an empty line).
Take1(st, r) ==
  LET n  == st.n + 1
      s1 == [st EXCEPT !.n = n]
  IN  CASE r.t = "blank" -> s1
        [] r.t = "unsup" -> [s1 EXCEPT !.warn = Append(@, n)]
        [] r.t = "err"   -> [s1 EXCEPT !.bad = n]
        [] r.t = "ok" /\ st.good < 3 ->
             [s1 EXCEPT !.good = @ + 1, !.head = Append(@, n),
                        !.skel = IF @ = 0 /\ r.v.ty # HeadTypes[st.good + 1] THEN st.good + 1 ELSE @]
        [] OTHER ->
             [s1 EXCEPT !.good = @ + 1,
                        !.body = IF @.t # "ok" THEN @ ELSE Place(@.v, [n |-> n, r |-> r])]

\* The outcome if the description ends here.
Finish(st, strict, V(_)) ==
  IF strict /\ st.warn # <<>> THEN [t |-> "unsup", line |-> st.warn[1]]
  ELSE IF st.bad # 0 THEN [t |-> "err", line |-> st.bad]
  ELSE IF st.good < 4 THEN SeqErr(1)
  ELSE IF st.skel # 0 THEN SeqErr(st.skel)
  ELSE IF st.body.t # "ok" THEN st.body
  ELSE IF ~Constraints(st.body.v, V) THEN SeqErr(1)
  ELSE [t |-> "ok", warn |-> st.warn,
        s |-> [version |-> st.head[1], origin |-> st.head[2], session |-> st.head[3], body |-> st.body.v]]
=============================================================================
