-------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* Building sections and sessions through the API.  A media section is the   *)
(* value [line, conn, bw, attrs]; a session the value [version, origin,      *)
(* session, conn, timing, bw, attrs, media] (Values.tla).                    *)
(*                                                                           *)
(* An operation is a record with field op and texts as arguments; Resolve    *)
(* turns the texts into values (field v).  Apply gives the next value and    *)
(* what the call returns: [t |-> "ok" | "err"] or [t |-> "val", v |-> ...].  *)
(***************************************************************************)
EXTENDS Values

Done == [t |-> "ok"]
Refused == [t |-> "err"]
Answer(s) == [t |-> "val", v |-> s]

LineVal(ty, l) == ParseLine(ty \o "=" \o l).v.x
Resolve(o) ==
  CASE o.op \in {"add", "set", "codec", "sattr", "addmedia"} -> o @@ [v |-> ParseAttr(o.a).v]
    [] o.op \in {"bw", "sbw"} -> o @@ [v |-> LineVal("b", o.l)]
    [] o.op \in {"conn", "sconn"} -> o @@ [v |-> LineVal("c", o.l)]
    [] o.op = "stime" -> o @@ [v |-> LineVal("t", o.l)]
    [] o.op = "extend" -> o @@ [v |-> Map(o.ls, LAMBDA l : LineVal("m", l))]
    [] OTHER -> o
\* addmedia also carries an address: the connection it sets.
ResolveAll(o) ==
  IF o.op = "addmedia" THEN Resolve(o) @@ [c |-> LineVal("c", o.l)]
  ELSE IF o.op = "m" THEN [o EXCEPT !.o = Resolve(o.o)]
  ELSE Resolve(o)

---------------------------------------------------------------------------
(* Media sections.                                                           *)
NewMedia(line) == [line |-> line, conn |-> <<>>, bw |-> <<>>, attrs |-> <<>>]
OfKind(as, k) == SelectSeq(as, LAMBDA a : a.k = k)
NotOfKind(as, k) == SelectSeq(as, LAMBDA a : a.k # k)
First(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
CodecKinds == {"rtpmap", "fmtp", "rtcp-fb", "sctpmap", "sctp-port"}

AddTo(m, a) == [m EXCEPT !.attrs = Append(@, a)]
SetIn(m, a) == [m EXCEPT !.attrs = Append(NotOfKind(@, a.k), a)]
NumAttr(k, n) == [k |-> k, n |-> n]
NewStyle(m) == m.line.proto \in {"UDP/DTLS/SCTP", "TCP/DTLS/SCTP"}
DataChannel(m, o) ==
  LET m1 == IF NewStyle(m)
            THEN SetIn([m EXCEPT !.line.fmts = <<o.name>>, !.line.ints = FALSE], NumAttr("sctp-port", o.port))
            ELSE SetIn([m EXCEPT !.line.fmts = <<o.port>>, !.line.ints = TRUE], [k |-> "sctpmap", port |-> o.port, ch |-> o.streams])
      m2 == IF o.msg = "0" THEN m1 ELSE SetIn(m1, NumAttr("max-message-size", o.msg))
  IN  [m2 EXCEPT !.line.media = "application"]

ApplyM(m, o) ==
  CASE o.op = "add" -> IF AtMediaLevel(o.v.k) THEN <<AddTo(m, o.v), Done>> ELSE <<m, Refused>>
    [] o.op = "set" -> IF AtMediaLevel(o.v.k) THEN <<SetIn(m, o.v), Done>> ELSE <<m, Refused>>
    [] o.op = "remove" -> <<[m EXCEPT !.attrs = NotOfKind(@, o.k)], Done>>
    [] o.op = "get" -> <<m, Answer(First(OfKind(m.attrs, o.k)))>>
    [] o.op = "all" -> <<m, Answer(OfKind(m.attrs, o.k))>>
    [] o.op = "port" -> <<[m EXCEPT !.line.port = o.n], Done>>
    [] o.op = "bw" -> <<[m EXCEPT !.bw = Append(@, o.v)], Done>>
    [] o.op = "conn" -> <<[m EXCEPT !.conn = <<o.v>>], Done>>
    [] o.op = "codec" -> <<AddTo([m EXCEPT !.line.fmts = Append(@, o.v.pt)], o.v), Done>>
    [] o.op = "rmcodecs" -> <<[m EXCEPT !.line.fmts = <<>>, !.attrs = SelectSeq(@, LAMBDA a : a.k \notin CodecKinds)], Done>>
    [] o.op = "dc" -> <<DataChannel(m, o), Done>>

---------------------------------------------------------------------------
(* Sessions.                                                                 *)
NewSession(version, origin, name) ==
  [version |-> version, origin |-> origin, session |-> LET x == Trim(name) IN IF x = "" THEN <<>> ELSE <<x>>,
   conn |-> <<>>, timing |-> <<>>, bw |-> <<>>, attrs |-> <<>>, media |-> <<>>]
AddedMedia(o) ==
  [line |-> [media |-> o.media, port |-> o.port, count |-> "1", proto |-> o.proto, ints |-> TRUE, fmts |-> <<>>],
   conn |-> << [o.c EXCEPT !.ttl = <<>>, !.amount = <<>>] >>, bw |-> <<>>, attrs |-> <<o.v>>]
ApplyS(s, o) ==
  CASE o.op = "sattr" -> IF AtSessionLevel(o.v.k) THEN <<[s EXCEPT !.attrs = Append(@, o.v)], Done>> ELSE <<s, Refused>>
    [] o.op = "sget" -> <<s, Answer(First(OfKind(s.attrs, o.k)))>>
    [] o.op = "sconn" -> <<[s EXCEPT !.conn = <<o.v>>], Done>>
    [] o.op = "stime" -> <<[s EXCEPT !.timing = <<o.v>>], Done>>
    [] o.op = "sbw" -> <<[s EXCEPT !.bw = Append(@, o.v)], Done>>
    [] o.op = "addmedia" -> IF AtMediaLevel(o.v.k) THEN <<[s EXCEPT !.media = Append(@, AddedMedia(o))], Done>> ELSE <<s, Refused>>
    [] o.op = "extend" -> <<[s EXCEPT !.media = @ \o Map(o.v, NewMedia)], Done>>
    \* an operation on the i-th section (i = 0: the last); nothing when absent
    [] o.op = "m" -> LET i == IF o.i = 0 THEN Len(s.media) ELSE o.i
                     IN  IF i = 0 \/ i > Len(s.media) THEN <<s, Done>>
                         ELSE LET r == ApplyM(s.media[i], o.o) IN <<[s EXCEPT !.media[i] = r[1]], r[2]>>

---------------------------------------------------------------------------
(* Properties of one step from value x by operation o to value y with        *)
(* answer r, stated without ApplyM and ApplyS.                               *)
Prefix1(a, b) == Len(b) = Len(a) + 1 /\ SubSeq(b, 1, Len(a)) = a
Rest(m) == [m EXCEPT !.attrs = <<>>]
\* S06: nothing is stored where it is not allowed.
LevelsOk(s) ==
  /\ \A i \in 1..Len(s.attrs) : AtSessionLevel(s.attrs[i].k)
  /\ \A j \in 1..Len(s.media) : \A i \in 1..Len(s.media[j].attrs) : AtMediaLevel(s.media[j].attrs[i].k)
\* S22
Multiset22(x, o, y, r) ==
  CASE o.op = "add" -> IF AtMediaLevel(o.v.k)
                       THEN r = Done /\ Rest(y) = Rest(x) /\ Prefix1(x.attrs, y.attrs) /\ y.attrs[Len(y.attrs)] = o.v
                       ELSE r = Refused /\ y = x
    [] o.op = "set" -> IF AtMediaLevel(o.v.k)
                       THEN /\ r = Done /\ Rest(y) = Rest(x)
                            /\ OfKind(y.attrs, o.v.k) = <<o.v>> /\ y.attrs[Len(y.attrs)] = o.v
                            /\ NotOfKind(y.attrs, o.v.k) = NotOfKind(x.attrs, o.v.k)
                       ELSE r = Refused /\ y = x
    [] o.op = "remove" -> Rest(y) = Rest(x) /\ OfKind(y.attrs, o.k) = <<>> /\ y.attrs = NotOfKind(x.attrs, o.k)
    [] o.op = "get" -> y = x /\ (r.v = <<>> <=> OfKind(x.attrs, o.k) = <<>>)
                       /\ (r.v # <<>> => \E i \in 1..Len(x.attrs) : x.attrs[i] = r.v[1] /\ \A j \in 1..i : (x.attrs[j].k = o.k) = (j = i))
    [] o.op = "all" -> y = x /\ r.v = OfKind(x.attrs, o.k)
    [] o.op = "port" -> [y EXCEPT !.line.port = x.line.port] = x /\ y.line.port = o.n
    [] o.op = "bw" -> [y EXCEPT !.bw = x.bw] = x /\ Prefix1(x.bw, y.bw) /\ y.bw[Len(y.bw)] = o.v
    [] o.op = "conn" -> [y EXCEPT !.conn = x.conn] = x /\ y.conn = <<o.v>>
    [] OTHER -> TRUE
\* S23
Codec23(x, o, y) ==
  CASE o.op = "codec" -> /\ [y EXCEPT !.line.fmts = x.line.fmts, !.attrs = x.attrs] = x
                         /\ Prefix1(x.line.fmts, y.line.fmts) /\ y.line.fmts[Len(y.line.fmts)] = o.v.pt
                         /\ Prefix1(x.attrs, y.attrs) /\ y.attrs[Len(y.attrs)] = o.v
    [] o.op = "rmcodecs" -> /\ [y EXCEPT !.line.fmts = x.line.fmts, !.attrs = x.attrs] = x
                            /\ y.line.fmts = <<>>
                            /\ \A k \in CodecKinds : OfKind(y.attrs, k) = <<>>
                            /\ y.attrs = SelectSeq(x.attrs, LAMBDA a : a.k \notin CodecKinds)
    [] o.op = "dc" -> LET own == IF NewStyle(x) THEN "sctp-port" ELSE "sctpmap"
                          touched == {own} \cup (IF o.msg = "0" THEN {} ELSE {"max-message-size"})
                      IN  /\ y.line.media = "application" /\ Len(y.line.fmts) = 1
                          /\ Len(OfKind(y.attrs, own)) = 1
                          /\ (o.msg # "0" => OfKind(y.attrs, "max-message-size") = <<NumAttr("max-message-size", o.msg)>>)
                          /\ SelectSeq(y.attrs, LAMBDA a : a.k \notin touched) = SelectSeq(x.attrs, LAMBDA a : a.k \notin touched)
                          /\ [y EXCEPT !.line = x.line, !.attrs = x.attrs] = x
                          /\ y.line.port = x.line.port /\ y.line.proto = x.line.proto /\ y.line.count = x.line.count
    [] OTHER -> TRUE
\* S24
Build24(x, o, y, r) ==
  CASE o.op = "sattr" -> IF AtSessionLevel(o.v.k)
                         THEN [y EXCEPT !.attrs = x.attrs] = x /\ Prefix1(x.attrs, y.attrs) /\ y.attrs[Len(y.attrs)] = o.v /\ r = Done
                         ELSE y = x /\ r = Refused
    [] o.op = "sconn" -> [y EXCEPT !.conn = x.conn] = x /\ y.conn = <<o.v>>
    [] o.op = "stime" -> [y EXCEPT !.timing = x.timing] = x /\ y.timing = <<o.v>>
    [] o.op = "sbw" -> [y EXCEPT !.bw = x.bw] = x /\ Prefix1(x.bw, y.bw)
    [] o.op = "addmedia" -> IF AtMediaLevel(o.v.k) THEN [y EXCEPT !.media = x.media] = x /\ Prefix1(x.media, y.media) ELSE y = x /\ r = Refused
    [] o.op = "extend" -> [y EXCEPT !.media = x.media] = x /\ SubSeq(y.media, 1, Len(x.media)) = x.media /\ Len(y.media) = Len(x.media) + Len(o.v)
    [] o.op = "sget" -> y = x
    [] o.op = "m" -> [y EXCEPT !.media = x.media] = x /\ Len(y.media) = Len(x.media)
=============================================================================
