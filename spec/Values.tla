-------------------------------- MODULE Values --------------------------------
(***************************************************************************)
(* Sessions as values (rather than as line indices): what the programmatic   *)
(* view shows, its canonical text, the session-wide constraints, and the     *)
(* reading of a text.                                                        *)
(***************************************************************************)
EXTENDS DocProps, RoundTrip, Integers

\* Physical lines: ended by LF or CRLF.
PhysLines(text) ==
  LET p == SplitOn(text, "\n")
      n == Len(p)
      Strip(s) == IF EndsWith(s, "\r") THEN Take(s, Len(s) - 1) ELSE s
      q == Map([k \in 1..n |-> <<k, p[k]>>], LAMBDA x : IF x[1] < n THEN Strip(x[2]) ELSE x[2])
  IN  IF p[n] = "" THEN SubSeq(q, 1, n - 1) ELSE q
Classify(l) == IF Trim(l) = "" THEN Blank ELSE ParseLine(l)

\* The session value an outcome denotes.
ValueSeq(ns, V(_)) == [j \in 1..Len(ns) |-> V(ns[j]).x]
ValueOpt(n, V(_)) == IF n = 0 THEN <<>> ELSE << V(n).x >>
SessionValue(s, V(_)) ==
  [version |-> V(s.version).x, origin |-> V(s.origin).x,
   session |-> LET x == Trim(V(s.session).x) IN IF x = "" THEN <<>> ELSE <<x>>,
   conn |-> ValueOpt(s.body.conn, V), timing |-> ValueOpt(s.body.timing, V),
   bw |-> ValueSeq(s.body.bw, V), attrs |-> ValueSeq(s.body.attrs, V),
   media |-> [k \in 1..Len(s.body.media) |->
                LET m == s.body.media[k]
                IN  [line |-> V(m.line).x, conn |-> ValueOpt(m.conn, V), bw |-> ValueSeq(m.bw, V), attrs |-> ValueSeq(m.attrs, V)]]]
SameAttrs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k].k = b[k].k /\ a[k] = b[k]
SameMedia(a, b) == a.line = b.line /\ a.conn = b.conn /\ a.bw = b.bw /\ SameAttrs(a.attrs, b.attrs)
SameSession(a, b) ==
  /\ a.version = b.version /\ a.origin = b.origin /\ a.session = b.session /\ a.conn = b.conn
  /\ a.timing = b.timing /\ a.bw = b.bw /\ SameAttrs(a.attrs, b.attrs)
  /\ Len(a.media) = Len(b.media)
  /\ \A k \in 1..Len(a.media) : SameMedia(a.media[k], b.media[k])

---------------------------------------------------------------------------
(* Canonical text of a session value.                                        *)
XText(ty, x) == ValueText([ty |-> ty, x |-> x])
SectionLines(pre, xs) == LinesText(pre \o "=", Map(xs, LAMBDA x : XText(pre, x)))
MediaTextV(m) ==
  "m=" \o XText("m", m.line) \o CRLF \o SectionLines("b", m.bw)
  \o (IF m.conn = <<>> THEN "" ELSE "c=" \o XText("c", m.conn[1]) \o CRLF) \o SectionLines("a", m.attrs)
SessionTextV(s) ==
  "v=" \o s.version \o CRLF \o "o=" \o XText("o", s.origin) \o CRLF
  \o "s=" \o (IF s.session = <<>> THEN " " ELSE s.session[1]) \o CRLF
  \o (IF s.timing = <<>> THEN "" ELSE "t=" \o XText("t", s.timing[1]) \o CRLF)
  \o SectionLines("b", s.bw)
  \o (IF s.conn = <<>> THEN "" ELSE "c=" \o XText("c", s.conn[1]) \o CRLF)
  \o SectionLines("a", s.attrs)
  \o Cat([i \in 1..Len(s.media) |-> MediaTextV(s.media[i])])

---------------------------------------------------------------------------
(* The session-wide constraints on a value.                                  *)
KindIn(as, k) == \E i \in 1..Len(as) : as[i].k = k
OnesOf(as, k) == {as[i] : i \in {j \in 1..Len(as) : as[j].k = k}}
RidsResolved(m) ==
  /\ \A r \in OnesOf(m.attrs, "rid") : SeqSet(r.formats) \subseteq SeqSet(m.line.fmts)
  /\ \A c \in OnesOf(m.attrs, "simulcast") : \A d \in {"send", "recv"} :
       VersionIds(IF d = "send" THEN c.send ELSE c.recv) \subseteq {r.id : r \in {q \in OnesOf(m.attrs, "rid") : q.dir = d}}
ConstraintsV(s) ==
  /\ s.timing # <<>>
  /\ s.conn # <<>> \/ \A i \in 1..Len(s.media) : s.media[i].conn # <<>>
  /\ ~(KindIn(s.attrs, "extmap") /\ \E i \in 1..Len(s.media) : KindIn(s.media[i].attrs, "extmap"))
  /\ \A i \in 1..Len(s.media) : (KindIn(s.media[i].attrs, "rtcp-mux-only") => KindIn(s.media[i].attrs, "rtcp-mux")) /\ RidsResolved(s.media[i])

---------------------------------------------------------------------------
(* The specified reading of a text; props is whether its outcome has the     *)
(* properties of DocProps (only evaluated on demand).                        *)
ReadingOf(L, Rs, Cs, strict, withProps) ==
  LET V(n) == Rs[n].v
      F(n) == Rs[n].t = "ok" => (Faithful(Rs[n].v) \/ (Rs[n].v.ty = "a" /\ Rs[n].v.x.k = "fmtp"))
      Props(o) == withProps => TheOne({IF strict THEN AllDocProps(Rs, q, o) ELSE AllDocProps(Rs, o, q) : q \in {Outcome(Cs, ~strict, V)}})
      View(o) ==
        IF o.t = "ok"
        THEN TheOne({[t |-> "ok", sess |-> v, txt |-> txt,
                      warns |-> [k \in 1..Len(o.warn) |-> [t |-> "unsup", line |-> o.warn[k] - 1, text |-> L[o.warn[k]]]],
                      faithful |-> \A n \in 1..Len(L) : F(n),
                      props |-> Props(o) /\ (withProps => ConstraintsV(v) /\ SessionTextV(v) = txt)]
                     : v \in {SessionValue(o.s, V)}, txt \in {SessionTextOf(o.s, V)}})
        ELSE [t |-> o.t, line |-> o.line - 1, text |-> IF o.t = "seq" THEN "" ELSE L[o.line], props |-> Props(o)]
  IN  IF ~Known(Cs) THEN [t |-> "unk"] ELSE TheOne({View(o) : o \in {Outcome(Cs, strict, V)}})
NonBlank(Rs) == SelectSeq([n \in 1..Len(Rs) |-> [n |-> n, r |-> Rs[n]]], LAMBDA x : x.r.t # "blank")
Reading(text, strict, withProps) ==
  \* The minimum is counted in bytes of UTF-8: at most three for each unit here.
  IF Len(text) < MinLength /\ ~IsPlainText(text) /\ 3 * Len(text) >= MinLength THEN [t |-> "unk"]
  ELSE IF Len(text) < MinLength THEN [t |-> "err", line |-> 0, text |-> text, props |-> TRUE]
  ELSE TheOne({TheOne({ReadingOf(x[1], x[2], Cs, strict, withProps) : Cs \in {NonBlank(x[2])}})
               : x \in {<<L, Map(L, Classify)>> : L \in {PhysLines(text)}}})

---------------------------------------------------------------------------
(* S24: what printing and re-reading a built session gives.                  *)
\* Whether a text is read back as a format list of this kind etc.
MediaLineReadable(x) ==
  LET r == ParseLine("m=" \o MediaText(x)) IN r.t = "ok" /\ [r.v.x EXCEPT !.ints = x.ints] = x
AttrFaithful(a) == Faithful([ty |-> "a", x |-> a]) \/ a.k = "fmtp"
Printable(s) ==
  /\ s.version = "0"
  /\ ConstraintsV(s)
  /\ \A i \in 1..Len(s.attrs) : AttrFaithful(s.attrs[i])
  /\ \A i \in 1..Len(s.media) : LET m == s.media[i] IN
       MediaLineReadable(m.line) /\ \A j \in 1..Len(m.attrs) : AttrFaithful(m.attrs[j]) /\ m.attrs[j].k # "dtls-message"
\* The value re-reading gives: printed attributes only, format lists by kind.
ReReadAttr(a) == Canon([ty |-> "a", x |-> a]).x
ReReadAttrs(as) == Map(SelectSeq(as, LAMBDA a : a.k = "fmtp" => FmtpText(a.p) # ""), ReReadAttr)
ReReadMedia(m) == [m EXCEPT !.line.ints = m.line.media # "application", !.attrs = ReReadAttrs(@)]
ReRead(s) == [s EXCEPT !.attrs = ReReadAttrs(@), !.media = Map(@, ReReadMedia)]
CanonMsid(s) == [s EXCEPT !.attrs = Map(@, ReReadAttr), !.media = Map(@, LAMBDA m : [m EXCEPT !.attrs = Map(@, ReReadAttr)])]
Prints24(s) ==
  Printable(s) =>
    LET r == Reading(SessionTextV(s), TRUE, FALSE)
    IN  r.t = "ok" /\ r.warns = <<>> /\ SameSession(CanonMsid(r.sess), ReRead(s)) /\ r.txt = SessionTextV(s)
=============================================================================
