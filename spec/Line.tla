-------------------------------- MODULE Line --------------------------------
(***************************************************************************)
(* One SDP line: "<type>=<value>".  A line value is                          *)
(*   [ty |-> "v"|"o"|"s"|"t"|"c"|"b"|"m"|"a", x |-> typed value].            *)
(***************************************************************************)
EXTENDS Attr

ParseVersion(s) == IF IsNum(s, "0") THEN Ok("0") ELSE Err

ParseOrigin(s) ==
  LET p == SplitWs(s)
  IN  IF Len(p) < 6 THEN Err
      ELSE IF ~IsNum(p[2], U64) \/ ~IsNum(p[3], U64) \/ ~IsNetType(p[4]) \/ AddrType(p[5]) = <<>> THEN Err
      ELSE LET a == TypedAddress(AddrType(p[5])[1], p[6])
           IN  IF a.t # "ok" THEN a
               ELSE Ok([user |-> p[1], sid |-> Num(p[2], U64)[1], sver |-> Num(p[3], U64)[1], addr |-> a.v])
OriginText(x) == x.user \o " " \o x.sid \o " " \o x.sver \o " " \o TypedAddressText(x.addr)

ParseTiming(s) ==
  LET p == SplitWs(s)
  IN  IF Len(p) # 2 THEN Err
      ELSE IF ~IsNum(p[1], U64) \/ ~IsNum(p[2], U64) THEN Err
      ELSE Ok([start |-> Num(p[1], U64)[1], stop |-> Num(p[2], U64)[1]])
TimingText(x) == x.start \o " " \o x.stop

ParseConnection(s) ==
  LET p == SplitWs(s)
  IN  IF Len(p) # 3 THEN Err
      ELSE IF ~IsNetType(p[1]) \/ AddrType(p[2]) = <<>> THEN Err
      ELSE LET q == SplitOn(p[3], "/")
               a == TypedAddress(AddrType(p[2])[1], q[1])
           IN  IF Len(q) > 1 /\ ~IsNum(q[2], U8) THEN Err
               ELSE IF Len(q) > 2 /\ ~IsNum(q[3], U32) THEN Err
               ELSE IF a.t # "ok" THEN a
               ELSE Ok([addr |-> a.v, ttl |-> IF Len(q) > 1 THEN Num(q[2], U8) ELSE <<>>,
                        amount |-> IF Len(q) > 2 THEN Num(q[3], U32) ELSE <<>>])
ConnectionText(x) == TypedAddressText(x.addr) \o Opt(x.ttl, "/") \o Opt(x.amount, "/")

KnownBw(l) == CASE l = "as" -> "AS" [] l = "ct" -> "CT" [] l = "tias" -> "TIAS"
ParseBandwidth(s) ==
  LET p == SplitOn(s, ":")
  IN  IF Len(p) # 2 THEN Err
      ELSE IF ~IsNum(p[2], U32) THEN Err
      ELSE LET l == Lower(p[1]) IN
           Ok([known |-> l \in {"as", "ct", "tias"},
               bt |-> IF l \in {"as", "ct", "tias"} THEN KnownBw(l) ELSE p[1],
               n |-> Num(p[2], U32)[1]])
BandwidthText(x) == x.bt \o ":" \o x.n

MediaTypes == {"audio", "video", "application"}
Protos == {"rtp/avp", "rtp/avpf", "rtp/savp", "rtp/savpf", "tcp/dtls/rtp/savp", "tcp/dtls/rtp/savpf",
           "udp/tls/rtp/savp", "udp/tls/rtp/savpf", "dtls/sctp", "udp/dtls/sctp", "tcp/dtls/sctp"}
ProtoText(l) ==
  CASE l = "rtp/avp" -> "RTP/AVP" [] l = "rtp/avpf" -> "RTP/AVPF" [] l = "rtp/savp" -> "RTP/SAVP"
    [] l = "rtp/savpf" -> "RTP/SAVPF" [] l = "tcp/dtls/rtp/savp" -> "TCP/DTLS/RTP/SAVP"
    [] l = "tcp/dtls/rtp/savpf" -> "TCP/DTLS/RTP/SAVPF" [] l = "udp/tls/rtp/savp" -> "UDP/TLS/RTP/SAVP"
    [] l = "udp/tls/rtp/savpf" -> "UDP/TLS/RTP/SAVPF" [] l = "dtls/sctp" -> "DTLS/SCTP"
    [] l = "udp/dtls/sctp" -> "UDP/DTLS/SCTP" [] l = "tcp/dtls/sctp" -> "TCP/DTLS/SCTP"
\* RTP payload type numbers: reserved and RTCP-conflicting ranges excluded.
IsFormat(s) ==
  /\ IsNum(s, "127")
  /\ LET n == ToInt(Num(s, "127")[1]) IN n \notin {1, 2, 19} /\ ~(n >= 64 /\ n <= 95)
ParseMedia(s) ==
  LET p == SplitWs(s)
  IN  IF Len(p) < 4 THEN Err
      ELSE LET m == Lower(p[1])
               q == SplitOn(p[2], "/")
               pr == Lower(p[3])
               fs == Tail2(p, 4)
               unsup == m \notin MediaTypes \/ pr \notin Protos
               badFmt == m \in {"audio", "video"} /\ \E i \in 1..Len(fs) : ~IsFormat(fs[i])
               bad == ~IsNum(q[1], U16) \/ (Len(q) > 1 /\ ~IsNum(q[2], U32)) \/ badFmt
           IN  IF bad \/ unsup THEN Fault(FALSE, bad, unsup)
               ELSE Ok([media |-> m, port |-> Num(q[1], U16)[1],
                        count |-> IF Len(q) > 1 THEN Num(q[2], U32)[1] ELSE "0",
                        proto |-> ProtoText(pr),
                        ints |-> m # "application",
                        fmts |-> IF m = "application" THEN fs
                                 ELSE [i \in 1..Len(fs) |-> Num(fs[i], U32)[1]]])
MediaText(x) == x.media \o " " \o x.port \o NonDef("/", x.count, "0") \o " " \o x.proto \o " " \o Join(x.fmts, " ")

Wrap(ty, r) == IF r.t = "ok" THEN Ok([ty |-> ty, x |-> r.v]) ELSE r

\* A physical line (line terminator already removed), case folded as in ASCII.
ReadLine(l) ==
       LET p == SplitMax(l, "=", 2)
       IN  IF Len(p) # 2 THEN Err
           ELSE LET ty == Lower(Trim(p[1]))
                    x  == Trim(p[2])
                IN  IF Len(ty) # 1 THEN Err
                    ELSE IF x = "" /\ ty # "s" THEN Err
                    ELSE CASE ty = "a" -> Wrap("a", ParseAttr(x))
                           [] ty = "b" -> Wrap("b", ParseBandwidth(x))
                           [] ty = "c" -> Wrap("c", ParseConnection(x))
                           [] ty = "m" -> Wrap("m", ParseMedia(x))
                           [] ty = "o" -> Wrap("o", ParseOrigin(x))
                           [] ty = "s" -> Ok([ty |-> "s", x |-> p[2]])
                           [] ty = "t" -> Wrap("t", ParseTiming(x))
                           [] ty = "v" -> Wrap("v", ParseVersion(x))
                           [] OTHER -> Err

\* Canonical value text of a line value.
SessionText(raw) == IF Trim(raw) = "" THEN " " ELSE Trim(raw)
ValueText(w) ==
  CASE w.ty = "a" -> AttrText(w.x)
    [] w.ty = "b" -> BandwidthText(w.x)
    [] w.ty = "c" -> ConnectionText(w.x)
    [] w.ty = "m" -> MediaText(w.x)
    [] w.ty = "o" -> OriginText(w.x)
    [] w.ty = "s" -> w.x
    [] w.ty = "t" -> TimingText(w.x)
    [] w.ty = "v" -> w.x

\* Whether a line matches its keywords may depend on how a peculiar character
\* is folded.  It does not if the line reads the same with the character
\* replaced by what it folds to; then the reading is exact.
Refolded(a, b) ==
  /\ a.t = b.t
  /\ a.t = "ok" => /\ a.v.ty = b.v.ty
                   /\ a.v.ty = "a" => a.v.x.k = b.v.x.k /\ a.v.x.k \notin {"fmtp", "candidate"}
                   /\ FoldPeculiar(ValueText(a.v)) = ValueText(b.v)
\* The name of an attribute is matched in lower case, and no peculiar character
\* has a lower case of letters of those names: it is then no supported one.
PeculiarName(l) ==
  LET p == SplitMax(l, "=", 2)
  IN  Len(p) = 2 /\ Lower(Trim(p[1])) = "a" /\ ~IsModelText(SplitMax(p[2], ":", 2)[1])
ParseLine(l) ==
  IF IsModelText(l) \/ PeculiarName(l) THEN ReadLine(l)
  ELSE TheOne({IF Refolded(a, b) THEN a ELSE Unk : a \in {ReadLine(l)}, b \in {ReadLine(FoldPeculiar(l))}})

SameValue(w1, w2) ==
  /\ w1.ty = w2.ty
  /\ w1.ty = "a" => w1.x.k = w2.x.k
  /\ w1.x = w2.x

\* Does the observed verdict o agree with the specified verdict e?
Agrees(e, o) ==
  CASE e.t = "unk" -> o.t \in {"ok", "err", "unsup"}
    [] e.t = "rej" -> o.t \in {"err", "unsup"}
    [] e.t = "ok"  -> o.t = "ok" /\ SameValue(e.v, o.v)
    [] OTHER -> o.t = e.t
=============================================================================
