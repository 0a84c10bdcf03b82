--------------------------------- MODULE Anon ---------------------------------
(***************************************************************************)
(* Anonymization.  An anonymizer is a memo: for every category of sensitive  *)
(* values a one-to-one function from the values met so far to their masks.   *)
(* Masking replaces the values in the sensitive places (slots) of an object  *)
(* by their masks, inventing a fresh one where a value is new, and touches   *)
(* nothing else.  Which masks are invented is left open.                     *)
(*                                                                           *)
(* Objects: [ty, x] with ty in {"s" session, "m" media section, "a", "c",    *)
(* "o" line values, "addr", "typed" addresses} or a category with a text.    *)
(***************************************************************************)
EXTENDS Values

Cats == {"v4", "v6", "host", "port", "ouser", "iuser", "pwd", "fp", "cname"}

---------------------------------------------------------------------------
(* Where the sensitive values are.  F(c, v) is what is put for value v of    *)
(* category c.                                                               *)
OnOpt(o, G(_)) == IF o = <<>> THEN <<>> ELSE << G(o[1]) >>
MaskAddr(a, F(_, _)) == [a EXCEPT !.a = F(a.k, @)]
IsCname(x) == x.k = "ssrc" /\ x.attr # <<>> /\ EqI(x.attr[1], "cname")
MaskAttr(x, F(_, _)) ==
  CASE x.k = "candidate" ->
         [x EXCEPT !.addr = MaskAddr(@, F), !.port = F("port", @), !.raddr = OnOpt(@, LAMBDA a : MaskAddr(a, F)),
                   !.rport = OnOpt(@, LAMBDA p : F("port", p)), !.ufrag = OnOpt(@, LAMBDA u : F("iuser", u))]
    [] x.k = "remote-candidates" -> [x EXCEPT !.addr = MaskAddr(@, F), !.port = F("port", @)]
    [] x.k = "rtcp" -> [x EXCEPT !.addr = OnOpt(@, LAMBDA a : MaskAddr(a, F))]
    [] x.k = "ice-ufrag" -> [x EXCEPT !.s = F("iuser", @)]
    [] x.k = "ice-pwd" -> [x EXCEPT !.s = F("pwd", @)]
    [] x.k = "fingerprint" -> [x EXCEPT !.fp = F("fp", @)]
    [] IsCname(x) -> [x EXCEPT !.val = OnOpt(@, LAMBDA v : F("cname", v))]
    [] OTHER -> x
MaskConn(c, F(_, _)) == [c EXCEPT !.addr = MaskAddr(@, F)]
MaskOrigin(o, F(_, _)) == [o EXCEPT !.user = F("ouser", @), !.addr = MaskAddr(@, F)]
MaskMedia(m, F(_, _)) ==
  [m EXCEPT !.conn = OnOpt(@, LAMBDA c : MaskConn(c, F)), !.attrs = Map(@, LAMBDA a : MaskAttr(a, F))]
MaskSession(s, F(_, _)) ==
  [s EXCEPT !.origin = MaskOrigin(@, F), !.conn = OnOpt(@, LAMBDA c : MaskConn(c, F)),
            !.attrs = Map(@, LAMBDA a : MaskAttr(a, F)), !.media = Map(@, LAMBDA m : MaskMedia(m, F))]
MaskV(ty, x, F(_, _)) ==
  CASE ty = "s" -> MaskSession(x, F)
    [] ty = "m" -> MaskMedia(x, F)
    [] ty = "a" -> MaskAttr(x, F)
    [] ty = "c" -> MaskConn(x, F)
    [] ty = "o" -> MaskOrigin(x, F)
    [] ty \in {"addr", "typed"} -> MaskAddr(x, F)
    [] OTHER -> F(ty, x)

\* The values in those places, in order of appearance.
Slot(c, v) == << [c |-> c, v |-> v] >>
SlotsOpt(o, G(_)) == IF o = <<>> THEN <<>> ELSE G(o[1])
SlotsAddr(a) == Slot(a.k, a.a)
SlotsAttr(x) ==
  CASE x.k = "candidate" -> SlotsAddr(x.addr) \o Slot("port", x.port) \o SlotsOpt(x.raddr, SlotsAddr)
                            \o SlotsOpt(x.rport, LAMBDA p : Slot("port", p)) \o SlotsOpt(x.ufrag, LAMBDA u : Slot("iuser", u))
    [] x.k = "remote-candidates" -> SlotsAddr(x.addr) \o Slot("port", x.port)
    [] x.k = "rtcp" -> SlotsOpt(x.addr, SlotsAddr)
    [] x.k = "ice-ufrag" -> Slot("iuser", x.s)
    [] x.k = "ice-pwd" -> Slot("pwd", x.s)
    [] x.k = "fingerprint" -> Slot("fp", x.fp)
    [] IsCname(x) -> SlotsOpt(x.val, LAMBDA v : Slot("cname", v))
    [] OTHER -> <<>>
SlotsConn(c) == SlotsAddr(c.addr)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
SlotsMedia(m) == SlotsOpt(m.conn, SlotsConn) \o Flat(Map(m.attrs, SlotsAttr))
SlotsOrigin(o) == Slot("ouser", o.user) \o SlotsAddr(o.addr)
Slots(ty, x) ==
  CASE ty = "s" -> SlotsOrigin(x.origin) \o SlotsOpt(x.conn, SlotsConn) \o Flat(Map(x.attrs, SlotsAttr)) \o Flat(Map(x.media, SlotsMedia))
    [] ty = "m" -> SlotsMedia(x)
    [] ty = "a" -> SlotsAttr(x)
    [] ty = "c" -> SlotsConn(x)
    [] ty = "o" -> SlotsOrigin(x)
    [] ty \in {"addr", "typed"} -> SlotsAddr(x)
    [] OTHER -> Slot(ty, x)

\* Everything but the sensitive values; their kinds and presence remain.
Hole(c, v) == "<" \o c \o ">"
Skeleton(ty, x) == MaskV(ty, x, Hole)
SameV(ty, p, q) ==
  CASE ty = "s" -> SameSession(p, q)
    [] ty = "m" -> SameMedia(p, q)
    [] ty = "a" -> p.k = q.k /\ p = q
    [] OTHER -> p = q

---------------------------------------------------------------------------
(* The memo.                                                                 *)
Empty == [c \in Cats |-> [v \in {} |-> ""]]
Knows(memo, s) == s.v \in DOMAIN memo[s.c]
Used(memo, c) == {memo[c][v] : v \in DOMAIN memo[c]}
Learn(memo, s, mask) == [memo EXCEPT ![s.c] = (s.v :> mask) @@ @]
OneToOne(f) == \A v, w \in DOMAIN f : f[v] = f[w] => v = w

\* Symbolic masks: the n-th fresh one of its category.
Token(c, n) == "$" \o c \o ":" \o ToString(n)
RECURSIVE LearnAll(_, _)
LearnAll(memo, slots) ==
  IF slots = <<>> THEN memo
  ELSE LET s == Head(slots)
       IN  LearnAll(IF Knows(memo, s) THEN memo ELSE Learn(memo, s, Token(s.c, Cardinality(DOMAIN memo[s.c]) + 1)), Tail(slots))
\* Masking an object: <<next memo, masked object>>.
Mask(memo, ty, x) ==
  LET m == TLCEval(LearnAll(memo, Slots(ty, x))) IN << m, MaskV(ty, x, LAMBDA c, v : m[c][v]) >>

---------------------------------------------------------------------------
(* S25-S28 for one masking of x (as ty) with memos before and after, result r. *)
Masking(ty, x, r, before, after) ==
  /\ \A c \in Cats : DOMAIN before[c] \subseteq DOMAIN after[c] /\ \A v \in DOMAIN before[c] : after[c][v] = before[c][v]
  /\ \A c \in Cats : OneToOne(after[c])
  /\ SameV(ty, Skeleton(ty, x), Skeleton(ty, r))
  /\ LET p == Slots(ty, x)
         q == Slots(ty, r)
     IN  /\ Len(p) = Len(q)
         /\ \A i \in 1..Len(p) : p[i].c = q[i].c /\ q[i].v = after[p[i].c][p[i].v] /\ q[i].v # p[i].v
         /\ \A i, j \in 1..Len(p) : p[i].c = p[j].c => ((p[i].v = p[j].v) <=> (q[i].v = q[j].v))
=============================================================================
