-------------------------------- MODULE Sdp --------------------------------
(***************************************************************************)
(* A whole session description.  A description is a sequence of physical     *)
(* lines; the outcome of reading it is stated over line indices (1-based):   *)
(* which lines ended up where.  Dereferencing the indices gives the values.  *)
(*                                                                           *)
(* A classified line is [n |-> physical index, r |-> verdict of ParseLine]. *)
(***************************************************************************)
EXTENDS Line

\* No description without at least "v=0\no=- 0 0 IN IP4 a\ns=\nt=0 0" can be complete.
MinLength == 29

EmptySession == [conn |-> 0, timing |-> 0, bw |-> <<>>, attrs |-> <<>>, media |-> <<>>]
SeqErr(n) == [t |-> "seq", line |-> n]

---------------------------------------------------------------------------
(* Placement of the lines after v=, o=, s=.  Each step takes the next        *)
(* well-formed line; st = [err, m (media sections opened), s].               *)
LineOf(c) == c.r.v
IsTy(c, ty) == LineOf(c).ty = ty
PlaceSession(s, c) ==
  LET w == LineOf(c)
  IN  CASE w.ty = "a" -> IF AtSessionLevel(w.x.k) THEN Ok([s EXCEPT !.attrs = Append(@, c.n)]) ELSE SeqErr(c.n)
        [] w.ty = "b" -> Ok([s EXCEPT !.bw = Append(@, c.n)])
        [] w.ty = "t" -> Ok([s EXCEPT !.timing = c.n])
        [] w.ty = "c" -> Ok([s EXCEPT !.conn = c.n])
        [] w.ty \in {"o", "s", "v"} -> SeqErr(c.n)
PlaceMedia(s, c) ==
  LET w == LineOf(c)
      k == Len(s.media)
      m == s.media[k]
  IN  CASE w.ty = "m" -> Ok([s EXCEPT !.media = Append(@, [line |-> c.n, conn |-> 0, bw |-> <<>>, attrs |-> <<>>])])
        [] w.ty = "c" -> IF m.conn # 0 THEN SeqErr(c.n) ELSE Ok([s EXCEPT !.media[k].conn = c.n])
        [] w.ty = "b" -> Ok([s EXCEPT !.media[k].bw = Append(@, c.n)])
        [] w.ty = "a" -> IF w.x.k = "dtls-message" THEN Ok(s)
                         ELSE IF AtMediaLevel(w.x.k) THEN Ok([s EXCEPT !.media[k].attrs = Append(@, c.n)])
                         ELSE SeqErr(c.n)
        [] w.ty \in {"o", "s", "v", "t"} -> SeqErr(c.n)
Place(s, c) ==
  IF IsTy(c, "m") /\ s.media = <<>>
  THEN Ok([s EXCEPT !.media = <<[line |-> c.n, conn |-> 0, bw |-> <<>>, attrs |-> <<>>]>>])
  ELSE IF s.media = <<>> THEN PlaceSession(s, c) ELSE PlaceMedia(s, c)
RECURSIVE PlaceAll(_, _, _)
PlaceAll(L, i, r) ==
  IF r.t # "ok" \/ i > Len(L) THEN r ELSE PlaceAll(L, i + 1, Place(r.v, L[i]))

---------------------------------------------------------------------------
(* Session-wide constraints.  V(n) is the line value at physical index n.    *)
AttrsOf(ns, V(_)) == [j \in 1..Len(ns) |-> V(ns[j]).x]
HasKind(ns, k, V(_)) == \E j \in 1..Len(ns) : V(ns[j]).x.k = k
RidsOf(m, V(_)) == {V(m.attrs[j]).x : j \in {q \in 1..Len(m.attrs) : V(m.attrs[q]).x.k = "rid"}}
SimsOf(m, V(_)) == {V(m.attrs[j]).x : j \in {q \in 1..Len(m.attrs) : V(m.attrs[q]).x.k = "simulcast"}}
VersionIds(l) == UNION {{l[a][b].id : b \in 1..Len(l[a])} : a \in 1..Len(l)}
SeqSet(s) == {s[i] : i \in 1..Len(s)}
RidFormatsDeclared(m, V(_)) ==
  \A r \in RidsOf(m, V) : SeqSet(r.formats) \subseteq SeqSet(V(m.line).x.fmts)
SimulcastRidsDefined(m, V(_)) ==
  LET ids(d) == {r.id : r \in {q \in RidsOf(m, V) : q.dir = d}}
  IN  \A sc \in SimsOf(m, V) :
        VersionIds(sc.send) \subseteq ids("send") /\ VersionIds(sc.recv) \subseteq ids("recv")
Constraints(s, V(_)) ==
  /\ s.timing # 0
  /\ s.conn # 0 \/ \A i \in 1..Len(s.media) : s.media[i].conn # 0
  /\ ~HasKind(s.attrs, "extmap", V) \/ \A i \in 1..Len(s.media) : ~HasKind(s.media[i].attrs, "extmap", V)
  /\ \A i \in 1..Len(s.media) :
       LET m == s.media[i] IN
       /\ HasKind(m.attrs, "rtcp-mux-only", V) => HasKind(m.attrs, "rtcp-mux", V)
       /\ RidFormatsDeclared(m, V)
       /\ SimulcastRidsDefined(m, V)

---------------------------------------------------------------------------
(* Assembly of the well-formed lines L (classified, in order).               *)
Assemble(L, V(_)) ==
  IF Len(L) < 4 THEN SeqErr(1)
  ELSE IF ~IsTy(L[1], "v") THEN SeqErr(1)
  ELSE IF ~IsTy(L[2], "o") THEN SeqErr(2)
  ELSE IF ~IsTy(L[3], "s") THEN SeqErr(3)
  ELSE LET p == PlaceAll(L, 4, Ok(EmptySession))
       IN  IF p.t # "ok" THEN p
           ELSE IF ~Constraints(p.v, V) THEN SeqErr(1)
           ELSE Ok([version |-> L[1].n, origin |-> L[2].n, session |-> L[3].n, body |-> p.v])

\* Outcome of reading the classified lines C (blank lines absent) of a
\* description of length len characters.
Outcome(C, strict, V(_)) ==
  LET W == SelectSeq(C, LAMBDA c : c.r.t = "unsup")
      E == SelectSeq(C, LAMBDA c : c.r.t = "err")
      G == SelectSeq(C, LAMBDA c : c.r.t = "ok")
      wn == [i \in 1..Len(W) |-> W[i].n]
  IN  IF strict /\ W # <<>> THEN [t |-> "unsup", line |-> W[1].n]
      ELSE IF E # <<>> THEN [t |-> "err", line |-> E[Len(E)].n]
      ELSE LET a == Assemble(G, V)
           IN  IF a.t = "ok" THEN [t |-> "ok", s |-> a.v, warn |-> wn] ELSE a

Known(C) == \A i \in 1..Len(C) : C[i].r.t \notin {"unk", "rej"}

---------------------------------------------------------------------------
(* Canonical text of an accepted session (CRLF line ends).                   *)
CRLF == "\r\n"
RECURSIVE CatFrom(_, _)
CatFrom(ss, i) == IF i > Len(ss) THEN "" ELSE ss[i] \o CatFrom(ss, i + 1)
Cat(ss) == CatFrom(ss, 1)
LinesText(pre, ts) == Cat(Map(NonEmpty(ts), LAMBDA t : pre \o t \o CRLF))
TextsOf(ns, V(_)) == [j \in 1..Len(ns) |-> ValueText(V(ns[j]))]
MediaSectionText(m, V(_)) ==
  "m=" \o ValueText(V(m.line)) \o CRLF
  \o LinesText("b=", TextsOf(m.bw, V))
  \o (IF m.conn = 0 THEN "" ELSE "c=" \o ValueText(V(m.conn)) \o CRLF)
  \o LinesText("a=", TextsOf(m.attrs, V))
SessionTextOf(s, V(_)) ==
  "v=" \o ValueText(V(s.version)) \o CRLF
  \o "o=" \o ValueText(V(s.origin)) \o CRLF
  \o "s=" \o SessionText(V(s.session).x) \o CRLF
  \o (IF s.body.timing = 0 THEN "" ELSE "t=" \o ValueText(V(s.body.timing)) \o CRLF)
  \o LinesText("b=", TextsOf(s.body.bw, V))
  \o (IF s.body.conn = 0 THEN "" ELSE "c=" \o ValueText(V(s.body.conn)) \o CRLF)
  \o LinesText("a=", TextsOf(s.body.attrs, V))
  \o Cat([i \in 1..Len(s.body.media) |-> MediaSectionText(s.body.media[i], V)])
=============================================================================
