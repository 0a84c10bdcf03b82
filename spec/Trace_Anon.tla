------------------------------ MODULE Trace_Anon ------------------------------
(***************************************************************************)
(* Decides whether recorded maskings are behaviours of Anon.                 *)
(* A history is a sequence of events on several anonymizers:                 *)
(*   n anonymizer, ty, x object before, y the same object after the call,    *)
(*   r result, warns number of diagnostics the result carries, txt its       *)
(*   printed text (sessions), pr queries <<category, value, mask>> made      *)
(*   directly to the anonymizer afterwards;                                  *)
(* clean: its values do not look like masks.  An event with ty "many" holds  *)
(* pairs <<value, mask>> of one category c of a fresh anonymizer.            *)
(***************************************************************************)
EXTENDS Anon, Json

CONSTANTS File, Aspects
T == ndJsonDeserialize(File)
VARIABLES t, i, memo

Init == t \in 1..Len(T) /\ i = 0 /\ memo = [n \in 1..3 |-> Empty]
Complain(what) == PrintT(ToJson([trace |-> t, step |-> i + 1, faults |-> {what}, in |-> ToString(t)]))

\* Adds observed pairs to a memo: <<memo, conflicts, collisions>>.
RECURSIVE Observe(_, _, _, _)
Observe(m, pairs, same, distinct) ==
  IF pairs = <<>> THEN << m, same, distinct >>
  ELSE LET p == Head(pairs)
       IN  IF Knows(m, p) THEN Observe(m, Tail(pairs), same /\ m[p.c][p.v] = p.m, distinct)
           ELSE Observe(TLCEval(Learn(m, p, p.m)), Tail(pairs), same, distinct /\ p.m \notin Used(m, p.c))

SetOfPairs(ps) == {<<p[1], p[2]>> : p \in {ps[k] : k \in 1..Len(ps)}}
KindOf(a) == IF Has(a, ":") THEN "v6" ELSE "v4"
\* Complains about a broken requirement of a wanted aspect.
Need(aspect, holds, what) == IF aspect \notin Aspects THEN TRUE ELSE IF holds THEN TRUE ELSE Complain(what)
Many(e) ==
  LET s == SetOfPairs(e.pairs)
  IN  /\ Need("same", Cardinality({p[1] : p \in s}) = Cardinality(s), "one value, two masks")
      /\ Need("distinct", Cardinality({p[2] : p \in s}) >= Cardinality(s), "two values, one mask")
      /\ Need("kind", e.c \in {"v4", "v6"} => \A p \in s : KindOf(p[2]) = e.c, "kind of a masked address")
      /\ Need("carry", e.clean => \A p \in s : p[1] # p[2], "value carried over")

Step(e) ==
  \E p \in {Slots(e.ty, e.x)} : \E q \in {Slots(e.ty, e.r)} :
  LET fit == Len(p) = Len(q) /\ \A k \in 1..Len(p) : p[k].c = q[k].c
      direct == [k \in 1..Len(e.pr) |-> [c |-> e.pr[k][1], v |-> e.pr[k][2], m |-> e.pr[k][3]]]
      slots == [k \in 1..Len(p) |-> [c |-> p[k].c, v |-> p[k].v, m |-> q[k].v]]
  IN  \E a \in {IF fit THEN Observe(memo[e.n], slots, TRUE, TRUE) ELSE <<memo[e.n], FALSE, FALSE>>} : \E b \in {Observe(a[1], direct, TRUE, TRUE)} :
      /\ Need("carry", e.pr # <<>> => \A k \in 1..Len(p) : \E j \in 1..Len(direct) : direct[j].c = p[k].c /\ direct[j].v = p[k].v, "harness: places not queried")
      /\ Need("original", SameV(e.ty, e.x, e.y), "the original changed")
      /\ Need("warns", e.warns = 0, "diagnostics carried over")
      /\ Need("text", e.ty = "s" => e.txt = SessionTextV(e.r), "text of the masked session")
      /\ Need("kind", fit, "kind or presence of a masked value")
      /\ Need("rest", SameV(e.ty, Skeleton(e.ty, e.x), Skeleton(e.ty, e.r)), "something else than the sensitive values changed")
      /\ IF fit THEN TRUE ELSE FALSE
      /\ Need("carry", e.clean => \A k \in 1..Len(p) : p[k].v # q[k].v, "a sensitive value was carried over")
      /\ Need("same", a[2] /\ b[2], "one value, two masks")
      /\ Need("carry", b[2], "a value in the result is not the anonymizer's mask of the original")
      /\ Need("distinct", a[3] /\ b[3], "two values, one mask")
      /\ a[2] /\ a[3] /\ b[2] /\ b[3]
      /\ memo' = [memo EXCEPT ![e.n] = b[1]]

Next ==
  /\ i < Len(T[t].ev)
  /\ LET e == T[t].ev[i + 1]
     IN  IF e.ty = "many" THEN Many(e) /\ memo' = memo ELSE Step(e)
  /\ i' = i + 1 /\ t' = t
\* Every anonymizer stays one-to-one.
Checked == i # Len(T[t].ev) \/ \A n \in 1..3 : \A c \in Cats : OneToOne(memo[n][c])
=============================================================================
