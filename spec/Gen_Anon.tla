------------------------------- MODULE Gen_Anon -------------------------------
(***************************************************************************)
(* Every history of at most Depth maskings of a group's alphabet on one      *)
(* anonymizer: checks S25-S28 and emits each history with the masked object  *)
(* its last step gives, masks being symbolic.                                *)
(***************************************************************************)
EXTENDS Anon, AnonVocab, Json

CONSTANTS Group, Depth, Emit

\* The object an operation masks: <<ty, x>>.
Object(o) ==
  CASE o.op = "s" -> << "s", Reading(o.text, FALSE, FALSE).sess >>
    [] o.op = "m" -> << "m", Reading(o.text, FALSE, FALSE).sess.media[o.k] >>
    [] o.op = "line" -> LET v == ParseLine(o.l).v IN << v.ty, v.x >>
    [] o.op = "call" -> << o.c, o.v >>
    [] o.op = "back" -> << o.c, Token(o.c, o.n) >>
ASSUME Keep(1, Map(AnonOps(Group), Object))
ASSUME Keep(2, AnonOps(Group))
Obj(i) == TLCGet(1)[i]
NOps(i) == Len(TLCGet(1))

Op(i) == TLCGet(2)[i]
VARIABLES d, memo, before, r
Init == d = <<>> /\ memo = Empty /\ before = Empty /\ r = ""
\* A mask can be fed back once it was issued; such histories keep to one category.
Possible(i) ==
  Group = "back" =>
    /\ d # <<>> => Op(d[1]).c = Op(i).c
    /\ Op(i).op = "back" => Op(i).n <= Cardinality(DOMAIN memo[Op(i).c])
Next == /\ Len(d) < Depth
        /\ \E i \in 1..NOps(0) :
           /\ Possible(i)
           /\ LET a == Mask(memo, Obj(i)[1], Obj(i)[2]) IN d' = Append(d, i) /\ memo' = a[1] /\ r' = a[2] /\ before' = memo

Again(i) == LET a == Mask(memo, Obj(i)[1], Obj(i)[2]) IN a[1] = memo /\ SameV(Obj(i)[1], a[2], r)
Checked ==
  /\ d # <<>> => LET i == d[Len(d)] IN Masking(Obj(i)[1], Obj(i)[2], r, before, memo) /\ Again(i)
  /\ (~Emit \/ (IF d = <<>> THEN PrintT(ToJson([ops |-> TLCGet(2)])) ELSE PrintT(ToJson([d |-> d, r |-> r]))))
=============================================================================
