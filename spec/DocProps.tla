------------------------------ MODULE DocProps ------------------------------
(***************************************************************************)
(* The properties of whole descriptions, stated on (lines, outcome) without  *)
(* reference to how the outcome is computed.  R is the sequence of verdicts  *)
(* of the physical lines (Blank for blank ones), o the lenient and q the     *)
(* strict outcome.                                                           *)
(***************************************************************************)
EXTENDS Reader

KindAt(R, n) == IF R[n].t = "ok" THEN R[n].v.ty ELSE "-"
AttrKindAt(R, n) == IF KindAt(R, n) = "a" THEN R[n].v.x.k ELSE "-"
GoodAt(R) == {n \in 1..Len(R) : R[n].t = "ok"}
MediaAt(R) == {n \in GoodAt(R) : KindAt(R, n) = "m"}
\* The media line a line is under, 0 at session level.
Owner(R, n) == LET M == {k \in MediaAt(R) : k <= n} IN IF M = {} THEN 0 ELSE MaxOf(M)
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Under(R, sec, P(_)) == {n \in GoodAt(R) : Owner(R, n) = sec /\ P(n)}

\* S02: unsupported lines only ever warn, except in strict mode.
UnsupAt(R) == {n \in 1..Len(R) : R[n].t = "unsup"}
Without(R, n) == [k \in 1..Len(R) |-> IF k = n THEN Blank ELSE R[k]]
S02(R, o, q) ==
  /\ UnsupAt(R) = {} => o = q
  /\ UnsupAt(R) # {} => q.t = "unsup" /\ q.line = MinOf(UnsupAt(R))
  /\ o.t # "unsup"
  /\ o.t = "ok" => SeqSet(o.warn) = UnsupAt(R) /\ Increasing(o.warn)
\* S03: the last malformed line is reported, by its physical number.
S03(R, o, q) ==
  LET B == {n \in 1..Len(R) : R[n].t = "err"}
  IN  /\ (B # {}) = (o.t = "err")
      /\ o.t = "err" => o.line = MaxOf(B)
\* S04: every line ends up in its own section, in order, exactly once.
S04(R, o) ==
  o.t = "ok" =>
    LET b == o.s.body
        secs == {0} \cup MediaAt(R)
    IN  /\ SeqSet(b.attrs) = Under(R, 0, LAMBDA n : KindAt(R, n) = "a") /\ Increasing(b.attrs)
        /\ SeqSet(b.bw) = Under(R, 0, LAMBDA n : KindAt(R, n) = "b") /\ Increasing(b.bw)
        /\ b.timing = MaxOf(Under(R, 0, LAMBDA n : KindAt(R, n) = "t") \cup {0})
        /\ b.conn = MaxOf(Under(R, 0, LAMBDA n : KindAt(R, n) = "c") \cup {0})
        /\ [i \in 1..Len(b.media) |-> b.media[i].line] = SetToSortSeq(MediaAt(R), <)
        /\ \A i \in 1..Len(b.media) :
             LET m == b.media[i]
             IN  /\ SeqSet(m.attrs) = Under(R, m.line, LAMBDA n : KindAt(R, n) = "a" /\ AttrKindAt(R, n) # "dtls-message")
                 /\ Increasing(m.attrs)
                 /\ SeqSet(m.bw) = Under(R, m.line, LAMBDA n : KindAt(R, n) = "b") /\ Increasing(m.bw)
                 /\ SeqSet(IF m.conn = 0 THEN <<>> ELSE <<m.conn>>) = Under(R, m.line, LAMBDA n : KindAt(R, n) = "c")
\* S05: the skeleton.
Nth(R, i) == SetToSortSeq(GoodAt(R), <)[i]
S05(R, o) ==
  o.t = "ok" =>
    /\ Cardinality(GoodAt(R)) >= 4
    /\ \A i \in 1..3 : KindAt(R, Nth(R, i)) = HeadTypes[i]
    /\ \A n \in GoodAt(R) : KindAt(R, n) \in {"v", "o", "s"} => n \in {Nth(R, i) : i \in 1..3}
    /\ \A n \in GoodAt(R) : KindAt(R, n) = "t" => Owner(R, n) = 0
    /\ \A m \in MediaAt(R) : Cardinality(Under(R, m, LAMBDA n : KindAt(R, n) = "c")) <= 1
\* S06: attributes only where they are allowed.
S06(R, o) ==
  o.t = "ok" =>
    \A n \in GoodAt(R) : KindAt(R, n) = "a" /\ AttrKindAt(R, n) # "dtls-message" =>
      IF Owner(R, n) = 0 THEN AtSessionLevel(AttrKindAt(R, n)) ELSE AtMediaLevel(AttrKindAt(R, n))
\* S07: session-wide constraints.
HasAttr(R, sec, k) == \E n \in GoodAt(R) : Owner(R, n) = sec /\ AttrKindAt(R, n) = k
HasType(R, sec, ty) == \E n \in GoodAt(R) : Owner(R, n) = sec /\ KindAt(R, n) = ty
C07(R) ==
  /\ HasType(R, 0, "t")
  /\ HasType(R, 0, "c") \/ \A m \in MediaAt(R) : HasType(R, m, "c")
  /\ ~(HasAttr(R, 0, "extmap") /\ \E m \in MediaAt(R) : HasAttr(R, m, "extmap"))
  /\ \A m \in MediaAt(R) : HasAttr(R, m, "rtcp-mux-only") => HasAttr(R, m, "rtcp-mux")
\* S08: rid and simulcast references.
AttrsUnder(R, sec, k) == {R[n].v.x : n \in {j \in GoodAt(R) : Owner(R, j) = sec /\ AttrKindAt(R, j) = k}}
C08(R) ==
  \A m \in MediaAt(R) :
    /\ \A r \in AttrsUnder(R, m, "rid") : \A i \in 1..Len(r.formats) : \E j \in 1..Len(R[m].v.x.fmts) : R[m].v.x.fmts[j] = r.formats[i]
    /\ \A s \in AttrsUnder(R, m, "simulcast") : \A d \in {"send", "recv"} :
         LET l == IF d = "send" THEN s.send ELSE s.recv
         IN  \A a \in 1..Len(l) : \A b \in 1..Len(l[a]) :
               \E r \in AttrsUnder(R, m, "rid") : r.dir = d /\ r.id = l[a][b].id
Sound78(R, o) == o.t = "ok" => C07(R) /\ C08(R)
\* Nothing else rejects: a well-formed skeleton with allowed attributes that
\* satisfies the constraints is accepted.
Complete(R, o) ==
  ( /\ \A n \in 1..Len(R) : R[n].t # "err"
    /\ S05(R, [t |-> "ok"]) /\ S06(R, [t |-> "ok"]) /\ C07(R) /\ C08(R)
    /\ \A n \in GoodAt(R) : Owner(R, n) = 0 /\ n \notin {Nth(R, i) : i \in 1..3} => KindAt(R, n) \in {"a", "b", "c", "t"}
    /\ \A n \in GoodAt(R) : Owner(R, n) # 0 => KindAt(R, n) \in {"a", "b", "c", "m"}
  ) => o.t = "ok"

AllDocProps(R, o, q) ==
  /\ S02(R, o, q) /\ S03(R, o, q) /\ S04(R, o) /\ S05(R, o) /\ S06(R, o)
  /\ Sound78(R, o) /\ Complete(R, o)
=============================================================================
