------------------------------- MODULE Gen_Docs -------------------------------
(***************************************************************************)
(* Every description made of the prefix of a vocabulary and at most Depth    *)
(* further lines: runs the reader on it line by line, checks that the reader *)
(* agrees with Sdp!Outcome and that the outcome satisfies the properties of  *)
(* DocProps, and emits the description (line indices) with both outcomes.    *)
(***************************************************************************)
EXTENDS Values, DocVocab, Json

CONSTANTS Group, Depth, Emit

Lines == Prefix(Group) \o Alphabet(Group)
NP == Len(Prefix(Group))
\* Classified once, before the search (register 1).
ASSUME Keep(1, Map(Lines, Classify))
Class(k) == TLCGet(1)[k]

VARIABLES d, st
vars == <<d, st>>
RECURSIVE Feed(_, _)
Feed(s, i) == IF i > NP THEN s ELSE Feed(Take1(s, Class(i)), i + 1)
Init == d = [i \in 1..NP |-> i] /\ st = Feed(Start, 1)
Next == /\ Len(d) < NP + Depth
        /\ \E k \in (NP + 1)..Len(Lines) : d' = Append(d, k) /\ st' = Take1(st, Class(k))

R(dd) == [n \in 1..Len(dd) |-> Class(dd[n])]
C(dd) == SelectSeq([n \in 1..Len(dd) |-> [n |-> n, r |-> Class(dd[n])]], LAMBDA c : c.r.t # "blank")
V(n) == Class(d[n]).v
FaithfulDoc == \A n \in 1..Len(d) : Class(d[n]).t = "ok" => Faithful(Class(d[n]).v) \/ (Class(d[n]).v.ty = "a" /\ Class(d[n]).v.x.k = "fmtp")
Vocabulary == [vocab |-> Lines,
               vals |-> [i \in 1..Len(Lines) |-> IF Class(i).t = "ok" THEN <<Class(i).v>> ELSE <<>>],
               prefix |-> NP]
Record(o, q) ==
  IF o.t = "ok" THEN [d |-> d, l |-> o, s |-> q, txt |-> SessionTextOf(o.s, V), faithful |-> FaithfulDoc]
  ELSE [d |-> d, l |-> o, s |-> q, txt |-> "", faithful |-> FALSE]

Checked ==
  \E o \in {Finish(st, FALSE, V)} : \E q \in {Finish(st, TRUE, V)} : \E rr \in {R(d)} : \E cc \in {C(d)} :
      /\ o = Outcome(cc, FALSE, V)
      /\ q = Outcome(cc, TRUE, V)
      /\ AllDocProps(rr, o, q)
      /\ o.t = "ok" => \E s \in {SessionValue(o.s, V)} : ConstraintsV(s) /\ SessionTextV(s) = SessionTextOf(o.s, V)
      /\ (~Emit \/ (d # [i \in 1..NP |-> i]) \/ PrintT(ToJson(Vocabulary)))
      /\ (~Emit \/ PrintT(ToJson(Record(o, q))))
=============================================================================
