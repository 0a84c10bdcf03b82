------------------------------ MODULE Gen_Build ------------------------------
(***************************************************************************)
(* Every history of at most Depth operations of a group's alphabet, from     *)
(* each of its starting objects: checks the step properties of Build and,    *)
(* for sessions, that the canonical text of a valid one reads back to it;    *)
(* emits each history with the value and answer it must lead to.             *)
(***************************************************************************)
EXTENDS Build, BuildVocab, DocVocab, Json

CONSTANTS Group, Depth, Emit

\* The level groups try every attribute kind.
AttrTexts == Map(OneOfEach, LAMBDA l : Drop(l, 2))
\* Every form of every attribute kind, for the groups that try them all.
Rich == Map(SelectSeq(OneOfEach \o Variants \o MoreForms, LAMBDA l : Len(l) > 2 /\ SubSeq(l, 1, 2) = "a=" /\ ParseLine(l).t = "ok"), LAMBDA l : Drop(l, 2))
KindsOf(as) == SetToSeq({ParseAttr(as[i]).v.k : i \in 1..Len(as)})
GroupOps(g) ==
  CASE g = "levels" -> Map(AttrTexts, LAMBDA a : Add(a)) \o Map(AttrTexts, LAMBDA a : Set1(a)) \o <<Rem("sendrecv"), RmCodecs>>
    [] g = "slevels" -> Map(AttrTexts, LAMBDA a : SAttr(a)) \o Map(AttrTexts, LAMBDA a : AddMedia("audio", a, "9", "RTP/AVP", "IN IP4 0.0.0.0"))
    [] g = "kinds" -> Map(Rich, Add) \o Map(KindsOf(AttrTexts), Rem) \o Map(KindsOf(AttrTexts), GetAll) \o Map(KindsOf(AttrTexts), Get1)
    [] g = "replace" -> Map(Rich, Add) \o Map(Rich, Set1)
    [] g = "strip" -> Map(Rich, Add) \o <<RmCodecs>> \o Ops("dcs") \o Map(SelectSeq(Rich, LAMBDA a : ParseAttr(a).v.k = "rtpmap"), Codec)
    [] g = "skinds" -> Map(Rich, SAttr) \o Map(KindsOf(AttrTexts), SGet)
    [] OTHER -> Ops(g)
Begin(b) == IF b.obj = "media" THEN NewMedia(LineVal("m", b.l)) ELSE NewSession(b.v, LineVal("o", b.o), b.name)
ASSUME Keep(1, Map(GroupOps(Group), ResolveAll))
ASSUME Keep(2, Map(Starts(Group), Begin))
ASSUME Keep(3, GroupOps(Group))
Op(i) == TLCGet(1)[i]
NOps(i) == Len(TLCGet(1))

\* b: starting object; d: operations so far; x: value; y, r: value before the last operation and its answer
VARIABLES b, d, x, y, r
Init == /\ b \in 1..Len(Starts(Group)) /\ d = <<>> /\ x = TLCGet(2)[b] /\ y = x /\ r = Done
IsMedia == Starts(Group)[b].obj = "media"
Apply(v, o) == IF IsMedia THEN ApplyM(v, o) ELSE ApplyS(v, o)
Next == /\ Len(d) < Depth
        /\ \E i \in 1..NOps(0) : LET a == Apply(x, Op(i)) IN d' = Append(d, i) /\ x' = a[1] /\ r' = a[2]
        /\ y' = x /\ b' = b

Step ==
  d # <<>> =>
    LET o == Op(d[Len(d)])
    IN  IF IsMedia THEN /\ Multiset22(y, o, x, r) /\ Codec23(y, o, x)
                        /\ \A i \in 1..Len(x.attrs) : AtMediaLevel(x.attrs[i].k)
        ELSE /\ Build24(y, o, x, r) /\ LevelsOk(x)
             /\ (o.op = "m" /\ y.media # <<>> /\ o.i <= Len(y.media)) =>
                   LET i == IF o.i = 0 THEN Len(y.media) ELSE o.i
                   IN  Multiset22(y.media[i], o.o, x.media[i], r) /\ Codec23(y.media[i], o.o, x.media[i])
                       /\ \A j \in 1..Len(y.media) : j = i \/ y.media[j] = x.media[j]
             /\ Prints24(x)
TextOf == IF IsMedia THEN MediaTextV(x) ELSE SessionTextV(x)
Checked ==
  /\ Step
  /\ (~Emit \/ d # <<>> \/ PrintT(ToJson([ops |-> TLCGet(3), starts |-> Starts(Group)])))
  /\ (~Emit \/ PrintT(ToJson([b |-> b, d |-> d, x |-> x, r |-> r, txt |-> TextOf, rr |-> ~IsMedia /\ Printable(x)])))
=============================================================================
