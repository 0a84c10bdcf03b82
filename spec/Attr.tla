-------------------------------- MODULE Attr --------------------------------
(***************************************************************************)
(* The a= attribute vocabulary: syntax (text -> value), canonical text       *)
(* (value -> text) and the levels at which each attribute may appear.        *)
(*                                                                           *)
(* A verdict is                                                              *)
(*   [t |-> "ok", v |-> value]  the text denotes value                       *)
(*   [t |-> "err"]              malformed                                    *)
(*   [t |-> "unsup"]            well-formed but not supported (a warning)    *)
(*   [t |-> "rej"]              both faults present: either class is allowed *)
(*   [t |-> "unk"]              outside the modelled text domain             *)
(* A value is a record whose field k names the attribute.                    *)
(***************************************************************************)
EXTENDS Addr

Err   == [t |-> "err"]
Unsup == [t |-> "unsup"]
Rej   == [t |-> "rej"]
Unk   == [t |-> "unk"]
Ok(v) == [t |-> "ok", v |-> v]

\* Verdict of a construct with the given faults present.
Fault(unk, err, unsup) ==
  IF unk THEN Unk ELSE IF err /\ unsup THEN Rej ELSE IF err THEN Err ELSE Unsup

---------------------------------------------------------------------------
(* Vocabulary.                                                               *)
FlagNames == {"bundle-only", "end-of-candidates", "extmap-allow-mixed", "ice-lite",
              "ice-mismatch", "inactive", "recvonly", "rtcp-mux", "rtcp-mux-only",
              "rtcp-rsize", "sendonly", "sendrecv"}
TextNames == {"ice-pwd", "ice-ufrag", "identity", "label", "mid"}
U64Names  == {"max-message-size", "maxptime", "ptime"}
OtherNames == {"candidate", "dtls-message", "extmap", "fingerprint", "fmtp", "framerate",
               "group", "ice-options", "ice-pacing", "imageattr", "msid", "msid-semantic",
               "remote-candidates", "rid", "rtcp", "rtcp-fb", "rtpmap", "sctp-port",
               "sctpmap", "setup", "simulcast", "ssrc", "ssrc-group"}
AttrNames == FlagNames \cup TextNames \cup U64Names \cup OtherNames

MediaOnly == {"bundle-only", "candidate", "fmtp", "framerate", "ice-mismatch", "imageattr",
              "label", "max-message-size", "maxptime", "mid", "msid", "ptime", "rid",
              "remote-candidates", "rtpmap", "rtcp", "rtcp-fb", "rtcp-mux", "rtcp-mux-only",
              "rtcp-rsize", "sctpmap", "sctp-port", "simulcast", "ssrc", "ssrc-group"}
SessionOnly == {"dtls-message", "group", "ice-lite", "ice-pacing", "identity", "msid-semantic"}
AtSessionLevel(k) == k \notin MediaOnly
AtMediaLevel(k)   == k \notin SessionOnly

---------------------------------------------------------------------------
(* Small value syntaxes.                                                     *)
PayloadType(s) == IF s = "*" THEN <<"*">> ELSE Num(s, U8)
Dirs == {"send", "recv"}

ParseText(k, s) == IF s = "" THEN Err ELSE Ok([k |-> k, s |-> s])
ParseU64(k, s) == IF IsNum(s, U64) THEN Ok([k |-> k, n |-> Num(s, U64)[1]]) ELSE Err

ParseIcePacing(s) ==
  IF IsNum(s, "9999999999") THEN Ok([k |-> "ice-pacing", n |-> Num(s, U64)[1]]) ELSE Err
ParseSctpPort(s) ==
  IF IsNum(s, U16) THEN Ok([k |-> "sctp-port", n |-> Num(s, U16)[1]]) ELSE Err

ParseMsid(s) ==
  LET p == SplitWs(s)
  IN  IF p = <<>> THEN Err
      ELSE Ok([k |-> "msid", id |-> p[1], appdata |-> IF Len(p) > 1 THEN <<p[2]>> ELSE <<>>])
ParseMsidSemantic(s) ==
  LET p == SplitWs(s)
  IN  IF p = <<>> THEN Err
      ELSE Ok([k |-> "msid-semantic", semantic |-> p[1], msids |-> Tail(p)])

GroupSemantics == {"ls", "fid", "srf", "anat", "fec", "ddp", "bundle"}
GroupText(l) == CASE l = "ls" -> "LS" [] l = "fid" -> "FID" [] l = "srf" -> "SRF"
                  [] l = "anat" -> "ANAT" [] l = "fec" -> "FEC" [] l = "ddp" -> "DDP"
                  [] l = "bundle" -> "BUNDLE"
ParseGroup(s) ==
  LET p == SplitWs(s)
  IN  IF p = <<>> THEN Err
      ELSE IF Lower(p[1]) \notin GroupSemantics THEN Unsup
      ELSE Ok([k |-> "group", semantics |-> GroupText(Lower(p[1])), tags |-> Tail(p)])

SsrcOf(s) ==
  LET p == SplitMax(s, " ", 2)
      id == Num(p[1], U32)
      q == IF Len(p) = 2 THEN SplitMax(p[2], ":", 2) ELSE <<>>
  IN  [ok |-> id # <<>>, id |-> IF id = <<>> THEN "" ELSE id[1],
       attr |-> IF q = <<>> THEN <<>> ELSE <<q[1]>>,
       val |-> IF Len(q) = 2 THEN <<q[2]>> ELSE <<>>]
ParseSsrc(s) ==
  LET r == SsrcOf(s)
  IN  IF ~r.ok THEN Err ELSE Ok([k |-> "ssrc", id |-> r.id, attr |-> r.attr, val |-> r.val])
SsrcGroupSemantics == {"dup", "fid", "fec", "fec-fr", "sim"}
SsrcGroupText(l) == CASE l = "dup" -> "DUP" [] l = "fid" -> "FID" [] l = "fec" -> "FEC"
                      [] l = "fec-fr" -> "FEC-FR" [] l = "sim" -> "SIM"
ParseSsrcGroup(s) ==
  LET p == SplitWs(s)
  IN  IF p = <<>> THEN Err
      ELSE LET unsup == Lower(p[1]) \notin SsrcGroupSemantics
               bad   == Len(p) < 2 \/ \E i \in 2..Len(p) : ~IsNum(p[i], U32)
           IN  IF unsup \/ bad THEN Fault(FALSE, bad, unsup)
               ELSE Ok([k |-> "ssrc-group", semantics |-> SsrcGroupText(Lower(p[1])),
                        ids |-> [i \in 1..(Len(p) - 1) |-> Num(p[i+1], U32)[1]]])

---------------------------------------------------------------------------
(* ICE.                                                                      *)
PairsFrom(p, i) == {j \in i..(Len(p) - 1) : (j - i) % 2 = 0}
KnownExt == {"generation", "network-cost", "raddr", "rport", "tcptype", "ufrag"}
\* Fold of the extension pairs, left to right; later values win.
RECURSIVE CandExt(_, _, _)
CandExt(p, i, c) ==
  IF c.t # "ok" \/ i + 1 > Len(p) THEN c
  ELSE LET n == Lower(p[i])
           x == p[i+1]
           nxt == CASE n = "generation" ->
                         IF IsNum(x, U32) THEN Ok([c.v EXCEPT !.generation = Num(x, U32)]) ELSE Err
                    [] n = "network-cost" ->
                         IF IsNum(x, U32) THEN Ok([c.v EXCEPT !.cost = Num(x, U32)]) ELSE Err
                    [] n = "rport" ->
                         IF IsNum(x, U16) THEN Ok([c.v EXCEPT !.rport = Num(x, U16)]) ELSE Err
                    [] n = "raddr" ->
                         LET a == Address(x) IN
                         IF a.t = "ok" THEN Ok([c.v EXCEPT !.raddr = <<a.v>>]) ELSE a
                    [] n = "tcptype" ->
                         IF Lower(x) \in {"active", "passive", "so"}
                         THEN Ok([c.v EXCEPT !.tcptype = <<Lower(x)>>]) ELSE Err
                    [] n = "ufrag" -> Ok([c.v EXCEPT !.ufrag = <<x>>])
                    [] OTHER -> Ok([c.v EXCEPT !.ext = Append(@, <<p[i], x>>)])
       IN  CandExt(p, i + 2, nxt)
ParseCandidate(s) ==
  LET p == SplitWs(s)
  IN  IF Len(p) < 8 THEN Err
      ELSE LET addr == Address(p[5])
               bad  == \/ ~IsNum(p[2], U32) \/ Lower(p[3]) \notin {"udp", "tcp"}
                       \/ ~IsNum(p[4], U64) \/ addr.t = "err"
                       \/ ~IsNum(p[6], U16) \/ Lower(p[7]) # "typ"
                       \/ Lower(p[8]) \notin {"host", "srflx", "prflx", "relay"}
               dangling == Len(p) > 8 /\ Len(p) % 2 = 1
               base == IF bad \/ addr.t # "ok" THEN addr
                       ELSE Ok([k |-> "candidate", foundation |-> p[1],
                                component |-> Num(p[2], U32)[1], transport |-> Lower(p[3]),
                                priority |-> Num(p[4], U64)[1], addr |-> addr.v,
                                port |-> Num(p[6], U16)[1], ctype |-> Lower(p[8]),
                                raddr |-> <<>>, rport |-> <<>>, tcptype |-> <<>>,
                                generation |-> <<>>, ufrag |-> <<>>, cost |-> <<>>, ext |-> <<>>])
           IN  IF bad THEN Fault(FALSE, TRUE, dangling)
               ELSE IF base.t = "unk" THEN Unk
               ELSE LET r == CandExt(p, 9, base)
                    IN  IF r.t = "unk" THEN Unk
                        ELSE IF r.t # "ok" \/ dangling THEN Fault(FALSE, r.t # "ok", dangling)
                        ELSE r

ParseRemoteCandidates(s) ==
  LET p == SplitWs(s)
  IN  IF Len(p) < 3 THEN Err
      ELSE LET addr == Address(p[2])
           IN  IF ~IsNum(p[1], U32) \/ ~IsNum(p[3], U16) \/ addr.t = "err" THEN Err
               ELSE IF addr.t = "unk" THEN Unk
               ELSE Ok([k |-> "remote-candidates", component |-> Num(p[1], U32)[1],
                        addr |-> addr.v, port |-> Num(p[3], U16)[1]])

ParseIceOptions(s) == IF s = "" THEN Err ELSE Ok([k |-> "ice-options", opts |-> SplitWs(s)])

---------------------------------------------------------------------------
(* DTLS.                                                                     *)
OctetCount(h) == CASE h = "sha-1" -> 20 [] h = "sha-224" -> 28 [] h = "sha-256" -> 32
                   [] h = "sha-384" -> 48 [] h = "sha-512" -> 64
HashNames == {"sha-1", "sha-224", "sha-256", "sha-384", "sha-512"}
\* Two hex digits (a '+' is tolerated in place of a leading zero).
IsByteToken(b) == Len(b) = 2 /\ Ch(b, 2) \in HexChars /\ Ch(b, 1) \in (HexChars \cup {"+"})
UpperHex(c) == HexDigitU(HexVal(c))
ByteText(b) == (IF Ch(b, 1) = "+" THEN "0" ELSE UpperHex(Ch(b, 1))) \o UpperHex(Ch(b, 2))
ParseFingerprint(s) ==
  LET p == SplitWs(s)
  IN  IF Len(p) # 2 THEN (IF p # <<>> /\ p[1] \notin HashNames THEN Rej ELSE Err)
      ELSE IF p[1] \notin HashNames THEN Unsup
      ELSE LET b == SplitOn(p[2], ":")
           IN  IF Len(b) # OctetCount(p[1]) \/ \E i \in 1..Len(b) : ~IsByteToken(b[i]) THEN Err
               ELSE Ok([k |-> "fingerprint", hash |-> p[1],
                        fp |-> Join([i \in 1..Len(b) |-> ByteText(b[i])], ":")])
ParseSetup(s) ==
  IF Lower(s) \in {"active", "actpass", "holdconn", "passive"}
  THEN Ok([k |-> "setup", s |-> Lower(s)]) ELSE Err
ParseDtlsMessage(s) ==
  LET p == SplitOn(s, " ")
  IN  IF Len(p) # 2 THEN Err
      ELSE IF p[1] \notin {"client", "server"} THEN Err
      ELSE Ok([k |-> "dtls-message", role |-> p[1], msg |-> p[2]])

---------------------------------------------------------------------------
(* Header extensions, codecs, feedback, SCTP.                                *)
\* RFC 4566 byte-string: no NUL (and no line end, which cannot occur here).
ParseExtmap(s) ==
  LET p == SplitWs(s)
  IN  IF Len(p) < 2 THEN Err
      ELSE LET e == SplitMax(p[1], "/", 2)
           IN  IF ~IsNum(e[1], U16) THEN Err
               ELSE IF Len(e) = 2 /\ Lower(e[2]) \notin {"recvonly", "sendonly", "sendrecv"} THEN Err
               ELSE IF \E i \in 3..Len(p) : Has(p[i], Nul) THEN Err
               ELSE Ok([k |-> "extmap", id |-> Num(e[1], U16)[1],
                        dir |-> IF Len(e) = 2 THEN <<Lower(e[2])>> ELSE <<>>,
                        url |-> p[2],
                        ext |-> IF Len(p) = 2 THEN <<>> ELSE <<Join(Tail2(p, 3), " ")>>])

ParseRtpmap(s) ==
  LET p == SplitWs(s)
  IN  IF Len(p) < 2 THEN Err
      ELSE LET q == SplitOn(p[2], "/")
           IN  IF ~IsNum(p[1], "127") \/ Len(q) < 2 THEN Err
               ELSE IF ~IsNum(q[2], U32) \/ (Len(q) > 2 /\ ~IsNum(q[3], U32)) THEN Err
               ELSE Ok([k |-> "rtpmap", pt |-> Num(p[1], U8)[1], codec |-> q[1],
                        freq |-> Num(q[2], U32)[1],
                        ch |-> IF Len(q) > 2 THEN Num(q[3], U32) ELSE <<>>])

ParseRtcp(s) ==
  LET p == SplitWs(s)
  IN  IF p = <<>> \/ (p # <<>> /\ ~IsNum(p[1], U16)) THEN Err
      ELSE IF Len(p) = 1 THEN Ok([k |-> "rtcp", port |-> Num(p[1], U16)[1], addr |-> <<>>])
      ELSE IF Len(p) < 4 THEN Err
      ELSE IF ~IsNetType(p[2]) \/ AddrType(p[3]) = <<>> THEN Err
      ELSE LET a == TypedAddress(AddrType(p[3])[1], p[4])
           IN  IF a.t # "ok" THEN a
               ELSE Ok([k |-> "rtcp", port |-> Num(p[1], U16)[1], addr |-> <<a.v>>])

FbTypes == {"ack", "ccm", "nack", "trr-int", "goog-remb", "transport-cc"}
FbParams(f) == CASE f = "ack" -> {"rpsi", "app"}
                 [] f = "ccm" -> {"fir", "tmmbr", "tstr", "vbcm"}
                 [] f = "nack" -> {"sli", "pli", "rpsi", "app"}
                 [] OTHER -> {}
ParseRtcpFb(s) ==
  LET p == SplitMax(s, " ", 4)
      badPt == PayloadType(p[1]) = <<>>
      f == p[2]
      hasParam == Len(p) >= 3
      noType == Len(p) < 2
      unsup == ~noType /\ (\/ f \notin FbTypes
                           \/ f = "ack" /\ ~hasParam
                           \/ f \notin {"trr-int"} /\ hasParam /\ p[3] \notin FbParams(f))
      bad == \/ noType
             \/ badPt
             \/ (~noType /\ f = "trr-int" /\ (~hasParam \/ ~IsNum(p[3], U32)))
  IN  IF bad \/ unsup THEN Fault(FALSE, bad, unsup)
      ELSE Ok([k |-> "rtcp-fb", pt |-> PayloadType(p[1])[1], fb |-> f,
               param |-> IF hasParam THEN p[3] ELSE "",
               extra |-> IF Len(p) = 4 THEN p[4] ELSE ""])

ParseSctpmap(s) ==
  LET p == SplitWs(s)
  IN  IF Len(p) # 3 THEN Err
      ELSE IF ~IsNum(p[1], U16) \/ Lower(p[2]) # "webrtc-datachannel" \/ ~IsNum(p[3], U32) THEN Err
      ELSE Ok([k |-> "sctpmap", port |-> Num(p[1], U16)[1], ch |-> Num(p[3], U32)[1]])

ParseFramerate(s) ==
  LET f == Float64(s)
  IN  IF f.t = "unk" THEN Unk
      ELSE IF f.t # "ok" \/ FloatIsZero(f) THEN Err
      ELSE Ok([k |-> "framerate", f |-> FloatText(f)])

---------------------------------------------------------------------------
(* Format parameters.                                                        *)
FmtpDefault ==
  [plid |-> "42000a", laa |-> FALSE, pm |-> "0", maxfs |-> "0", maxcpb |-> "0", maxdpb |-> "0",
   maxbr |-> "0", maxmbps |-> "0", maxfr |-> "0", profile |-> <<>>, level |-> <<>>, tier |-> <<>>,
   mpr |-> "48000", mabr |-> "0", usedtx |-> FALSE, stereo |-> FALSE, fec |-> FALSE, cbr |-> FALSE,
   ptime |-> "0", minptime |-> "0", maxptime |-> "0", enc |-> <<>>, dtmf |-> "",
   rtx |-> <<>>, unknown |-> <<>>]
HexPlid(s) ==
  LET d == IF s # "" /\ Ch(s, 1) = "+" THEN Drop(s, 1) ELSE s
  IN  IF d = "" \/ ~AllIn(d, HexChars) THEN <<>>
      ELSE LET c == StripZeros(Lower(d))
           IN  IF Len(c) > 6 THEN <<>> ELSE <<SubSeq("000000", 1, 6 - Len(c)) \o c>>
FmtpBool(s) == IF Num(s, U8) = <<"0">> THEN <<FALSE>> ELSE IF Num(s, U8) = <<"1">> THEN <<TRUE>> ELSE <<>>
SetIf(o, upd(_)) == IF o = <<>> THEN Err ELSE Ok(upd(o[1]))
FmtpParam(p, tok) ==
  LET q == SplitMax(tok, "=", 2)
  IN  IF Len(q) # 2 THEN Err
      ELSE LET n == Lower(q[1])
               x == q[2]
               u == Num(x, U32)
           IN  CASE n = "profile-level-id"  -> SetIf(HexPlid(x), LAMBDA w : [p EXCEPT !.plid = w])
                 [] n = "packetization-mode" -> SetIf(Num(x, "2"), LAMBDA w : [p EXCEPT !.pm = w])
                 [] n = "level-asymmetry-allowed" -> SetIf(FmtpBool(x), LAMBDA w : [p EXCEPT !.laa = w])
                 [] n = "max-mbps" -> SetIf(u, LAMBDA w : [p EXCEPT !.maxmbps = w])
                 [] n = "max-fs"   -> SetIf(u, LAMBDA w : [p EXCEPT !.maxfs = w])
                 [] n = "max-cpb"  -> SetIf(u, LAMBDA w : [p EXCEPT !.maxcpb = w])
                 [] n = "max-dpb"  -> SetIf(u, LAMBDA w : [p EXCEPT !.maxdpb = w])
                 [] n = "max-br"   -> SetIf(u, LAMBDA w : [p EXCEPT !.maxbr = w])
                 [] n = "max-fr"   -> SetIf(u, LAMBDA w : [p EXCEPT !.maxfr = w])
                 [] n = "profile"   -> SetIf(Num(x, "2"), LAMBDA w : [p EXCEPT !.profile = <<w>>])
                 [] n = "level-idx" -> SetIf(Num(x, "31"), LAMBDA w : [p EXCEPT !.level = <<w>>])
                 [] n = "tier"      -> SetIf(Num(x, "1"), LAMBDA w : [p EXCEPT !.tier = <<w>>])
                 [] n = "maxplaybackrate" -> SetIf(u, LAMBDA w : [p EXCEPT !.mpr = w])
                 [] n = "maxaveragebitrate" -> SetIf(u, LAMBDA w : [p EXCEPT !.mabr = w])
                 [] n = "ptime"    -> SetIf(u, LAMBDA w : [p EXCEPT !.ptime = w])
                 [] n = "minptime" -> SetIf(u, LAMBDA w : [p EXCEPT !.minptime = w])
                 [] n = "maxptime" -> SetIf(u, LAMBDA w : [p EXCEPT !.maxptime = w])
                 [] n = "usedtx"   -> SetIf(FmtpBool(x), LAMBDA w : [p EXCEPT !.usedtx = w])
                 [] n = "stereo"   -> SetIf(FmtpBool(x), LAMBDA w : [p EXCEPT !.stereo = w])
                 [] n = "useinbandfec" -> SetIf(FmtpBool(x), LAMBDA w : [p EXCEPT !.fec = w])
                 [] n = "cbr"      -> SetIf(FmtpBool(x), LAMBDA w : [p EXCEPT !.cbr = w])
                 [] n = "apt"      -> SetIf(Num(x, U8), LAMBDA w : [p EXCEPT !.rtx = <<[apt |-> w, time |-> <<>>]>>])
                 [] n = "rtx-time" -> IF p.rtx = <<>> THEN Err
                                      ELSE SetIf(u, LAMBDA w : [p EXCEPT !.rtx = <<[apt |-> p.rtx[1].apt, time |-> <<w>>]>>])
                 [] OTHER -> Ok([p EXCEPT !.unknown = Append(@, tok)])
RECURSIVE FmtpFold(_, _, _)
FmtpFold(toks, i, r) ==
  IF r.t # "ok" \/ i > Len(toks) THEN r ELSE FmtpFold(toks, i + 1, FmtpParam(r.v, toks[i]))
DtmfNum(s) == IsNum(s, "100")
DtmfTone(s) ==
  LET q == SplitMax(s, "-", 2)
  IN  IF Len(q) = 2 THEN DtmfNum(q[1]) /\ DtmfNum(q[2]) /\ NumLt(Num(q[1], U8)[1], Num(q[2], U8)[1])
      ELSE DtmfNum(s)
FmtpBlock(s) ==
  IF Has(s, "=")
  THEN FmtpFold(NonEmpty(Map(SplitOn(s, ";"), Trim)), 1, Ok(FmtpDefault))
  ELSE IF Has(s, "/")
  THEN LET e == SplitOn(s, "/")
       IN  IF \E i \in 1..Len(e) : ~IsNum(e[i], "128") THEN Err
           ELSE Ok([FmtpDefault EXCEPT !.enc = [i \in 1..Len(e) |-> Num(e[i], U8)[1]]])
  ELSE LET d == SplitOn(s, ",")
       IN  Ok([FmtpDefault EXCEPT !.dtmf = IF \A i \in 1..Len(d) : DtmfTone(d[i]) THEN s ELSE "0-15"])
ParseFmtp(s) ==
  LET p == SplitMax(s, " ", 2)
  IN  IF Len(p) # 2 THEN (IF IsNum(p[1], U8) THEN Unsup ELSE Rej)
      ELSE LET b == FmtpBlock(p[2])
           IN  IF b.t # "ok" \/ ~IsNum(p[1], U8) THEN Err
               ELSE Ok([k |-> "fmtp", pt |-> Num(p[1], U8)[1], p |-> b.v])

---------------------------------------------------------------------------
(* RID and simulcast.                                                        *)
RidParam(r, tok) ==
  LET q == SplitMax(tok, "=", 2)
  IN  IF Len(q) # 2 THEN Err
      ELSE LET n == q[1]
               u == Num(q[2], U32)
           IN  CASE n = "max-width"  -> SetIf(u, LAMBDA w : [r EXCEPT !.mw = w])
                 [] n = "max-height" -> SetIf(u, LAMBDA w : [r EXCEPT !.mh = w])
                 [] n = "max-fps"    -> SetIf(u, LAMBDA w : [r EXCEPT !.mfps = w])
                 [] n = "max-fs"     -> SetIf(u, LAMBDA w : [r EXCEPT !.mfs = w])
                 [] n = "max-br"     -> SetIf(u, LAMBDA w : [r EXCEPT !.mbr = w])
                 [] n = "max-pps"    -> SetIf(u, LAMBDA w : [r EXCEPT !.mpps = w])
                 [] n = "depends"    -> Ok([r EXCEPT !.depends = @ \o SplitOn(q[2], ",")])
                 [] OTHER            -> Ok([r EXCEPT !.unknown = Append(@, tok)])
RECURSIVE RidFold(_, _, _)
RidFold(toks, i, r) ==
  IF r.t # "ok" \/ i > Len(toks) THEN r ELSE RidFold(toks, i + 1, RidParam(r.v, toks[i]))
ParseRid(s) ==
  LET p == SplitMax(s, " ", 3)
  IN  IF Len(p) < 2 THEN Err
      ELSE IF p[2] \notin Dirs THEN Err
      ELSE LET base == [k |-> "rid", id |-> p[1], dir |-> p[2], formats |-> <<>>,
                        mw |-> "0", mh |-> "0", mfps |-> "0", mfs |-> "0", mbr |-> "0",
                        mpps |-> "0", unknown |-> <<>>, depends |-> <<>>]
           IN  IF Len(p) = 2 THEN Ok(base)
               ELSE LET toks == SplitOn(p[3], ";")
                        hasPt == StartsWith(toks[1], "pt=")
                        fs == IF hasPt THEN Map(SplitOn(Drop(toks[1], 3), ","), Trim) ELSE <<>>
                    IN  IF \E i \in 1..Len(fs) : ~IsNum(fs[i], U16) THEN Err
                        ELSE RidFold(toks, IF hasPt THEN 2 ELSE 1,
                                     Ok([base EXCEPT !.formats = [i \in 1..Len(fs) |-> Num(fs[i], U16)[1]]]))

SimId(s) == IF StartsWith(s, "~") THEN [id |-> Drop(s, 1), paused |-> TRUE] ELSE [id |-> s, paused |-> FALSE]
SimVersion(s) == Map(SplitOn(s, ","), SimId)
\* <<list>> or <<>>.
SimList(s) ==
  LET q == SplitMax(s, "=", 2)
  IN  IF Len(q) = 1 THEN << Map(SplitOn(s, ";"), SimVersion) >>
      ELSE IF q[1] # "rid" THEN <<>>
      ELSE << Map(SplitOn(q[2], ";"), SimVersion) >>
ParseSimulcast(s) ==
  LET p == SplitWs(s)
      n == Len(p)
  IN  IF n < 2 THEN Err
      ELSE IF p[1] \notin Dirs THEN Err
      ELSE IF SimList(p[2]) = <<>> THEN Err
      ELSE IF n = 3 THEN Err
      ELSE IF n > 3 /\ (p[3] \notin Dirs \/ p[3] = p[1]) THEN Err
      ELSE IF n > 3 /\ SimList(p[4]) = <<>> THEN Err
      ELSE LET l1 == SimList(p[2])[1]
               l2 == IF n > 3 THEN SimList(p[4])[1] ELSE <<>>
           IN  Ok([k |-> "simulcast", send |-> IF p[1] = "send" THEN l1 ELSE l2,
                   recv |-> IF p[1] = "recv" THEN l1 ELSE l2])

---------------------------------------------------------------------------
(* imageattr.                                                                *)
Has1(s, c) == IF Has(s, c) THEN 1 ELSE 0
\* Fields separated by sep, except inside brackets (tracked per field).
\* Fields left in an unbalanced bracket at the end are dropped.
RECURSIVE BraceFold(_, _, _, _, _, _)
BraceFold(fs, sep, i, depth, cur, acc) ==
  IF i > Len(fs) THEN acc
  ELSE LET d == depth + Has1(fs[i], "[") - Has1(fs[i], "]")
           c == Append(cur, fs[i])
       IN  IF d = 0 THEN BraceFold(fs, sep, i + 1, d, <<>>, Append(acc, Join(c, sep)))
           ELSE BraceFold(fs, sep, i + 1, d, c, acc)
BraceTokens(s, sep) == BraceFold(SplitOn(s, sep), sep, 1, 0, <<>>, <<>>)
Braced(s) == Len(s) >= 2 /\ Ch(s, 1) = "[" /\ Ch(s, Len(s)) = "]"
Inner(s) == SubSeq(s, 2, Len(s) - 1)

AllNum(ss) == \A i \in 1..Len(ss) : IsNum(ss[i], U32)
NumsOf(ss) == [i \in 1..Len(ss) |-> Num(ss[i], U32)[1]]
XyRange(s) ==
  IF s = "" THEN Err
  ELSE IF Ch(s, 1) # "["
  THEN IF IsNum(s, U32) THEN Ok([t |-> "vals", v |-> Num(s, U32)]) ELSE Err
  ELSE IF ~Braced(s) THEN Err
  ELSE IF Has(s, ":")
  THEN LET p == SplitOn(Inner(s), ":")
       IN  IF Len(p) \notin {2, 3} \/ ~AllNum(p) THEN Err
           ELSE IF Len(p) = 2 THEN Ok([t |-> "range", v |-> NumsOf(p)])
           ELSE Ok([t |-> "range", v |-> <<NumsOf(p)[1], NumsOf(p)[3], NumsOf(p)[2]>>])
  ELSE LET p == SplitOn(Inner(s), ",")
       IN  IF Len(p) < 2 \/ ~AllNum(p) THEN Err ELSE Ok([t |-> "vals", v |-> NumsOf(p)])

FloatsBad(fs) == \E i \in 1..Len(fs) : fs[i].t = "err"
FloatsUnk(fs) == \E i \in 1..Len(fs) : fs[i].t = "unk"
FloatTexts(fs) == [i \in 1..Len(fs) |-> FloatText(fs[i])]
NaNs(f, g) == f.t = "nan" \/ g.t = "nan"
\* f >= g for the purpose of ordering checks (never true of a NaN).
FloatGe(f, g) == ~NaNs(f, g) /\ ~FloatLt(f, g)
PsRange(s) ==
  LET p == SplitOn(s, "-")
      fs == Map(p, Float)
  IN  IF FloatsUnk(fs) THEN Unk
      ELSE IF Len(p) # 2 THEN Err
      ELSE IF FloatsBad(fs) THEN Err
      ELSE IF FloatGe(fs[1], fs[2]) THEN Err
      ELSE Ok(FloatTexts(fs))
SarVals(s) ==
  LET fs == Map(SplitOn(s, ","), Float)
      zero == [t |-> "ok", neg |-> FALSE, abs |-> "0"]
      prev(i) == IF i = 1 THEN zero ELSE fs[i-1]
  IN  IF FloatsUnk(fs) THEN Unk
      ELSE IF FloatsBad(fs) \/ Len(fs) < 2 THEN Err
      ELSE IF \E i \in 1..Len(fs) : FloatGe(prev(i), fs[i]) THEN Err
      ELSE Ok(FloatTexts(fs))
SetKey(r, tok) ==
  IF StartsWith(tok, "sar=")
  THEN LET x == Drop(tok, 4)
       IN  IF x # "" /\ Ch(x, 1) = "["
           THEN IF ~Braced(x) THEN Err
                ELSE IF Has(x, "-")
                THEN LET g == PsRange(Inner(x)) IN
                     IF g.t = "ok" THEN Ok([r EXCEPT !.sar = <<[t |-> "range", v |-> g.v]>>]) ELSE g
                ELSE IF Has(x, ",")
                THEN LET g == SarVals(Inner(x)) IN
                     IF g.t = "ok" THEN Ok([r EXCEPT !.sar = <<[t |-> "vals", v |-> g.v]>>]) ELSE g
                ELSE Ok(r)
           ELSE LET f == Float(x) IN
                IF f.t = "err" THEN Err ELSE IF f.t = "unk" THEN Unk
                ELSE Ok([r EXCEPT !.sar = <<[t |-> "vals", v |-> <<FloatText(f)>>]>>])
  ELSE IF StartsWith(tok, "par=")
  THEN LET x == Drop(tok, 4)
       IN  IF ~Braced(x) THEN Err
           ELSE LET g == PsRange(Inner(x)) IN
                IF g.t = "ok" THEN Ok([r EXCEPT !.par = <<g.v>>]) ELSE g
  ELSE IF StartsWith(tok, "q=")
  THEN LET f == Float(Drop(tok, 2)) IN
       IF f.t = "err" THEN Err ELSE IF f.t = "unk" THEN Unk
       ELSE Ok([r EXCEPT !.q = <<FloatText(f)>>])
  ELSE Ok(r)
RECURSIVE SetFold(_, _, _)
SetFold(toks, i, r) ==
  IF r.t # "ok" \/ i > Len(toks) THEN r ELSE SetFold(toks, i + 1, SetKey(r.v, toks[i]))
ImageSet(s) ==
  IF ~Braced(s) THEN Err
  ELSE LET p == BraceTokens(Inner(s), ",")
       IN  IF Len(p) < 2 THEN Err
           ELSE IF ~StartsWith(p[1], "x=") \/ ~StartsWith(p[2], "y=") THEN Err
           ELSE LET x == XyRange(Drop(p[1], 2))
                    y == XyRange(Drop(p[2], 2))
                IN  IF x.t # "ok" \/ y.t # "ok" THEN Err
                    ELSE SetFold(p, 3, Ok([x |-> x.v, y |-> y.v, sar |-> <<>>, par |-> <<>>, q |-> <<>>]))
NoSets == [w |-> FALSE, sets |-> <<>>]
\* A set list starting at token i: [t, v, next].
SetList(p, i) ==
  IF i > Len(p) THEN [t |-> "err"]
  ELSE IF p[i] = "*" THEN [t |-> "ok", v |-> [w |-> TRUE, sets |-> <<>>], next |-> i + 1]
  ELSE LET ends == {j \in (i+1)..(Len(p)+1) : j = Len(p) + 1 \/ ~StartsWith(p[j], "[")}
           e == MinOf(ends)
           rs == [j \in 1..(e - i) |-> ImageSet(p[i + j - 1])]
       IN  IF \E j \in 1..(e - i) : rs[j].t = "unk" THEN [t |-> "unk"]
           ELSE IF \E j \in 1..(e - i) : rs[j].t # "ok" THEN [t |-> "err"]
           ELSE [t |-> "ok", v |-> [w |-> FALSE, sets |-> [j \in 1..(e - i) |-> rs[j].v]], next |-> e]
ParseImageattr(s) ==
  LET p == BraceTokens(s, " ")
  IN  IF Len(p) < 3 THEN Err
      ELSE IF PayloadType(p[1]) = <<>> \/ p[2] \notin Dirs THEN Err
      ELSE LET l1 == SetList(p, 3)
           IN  IF l1.t # "ok" THEN l1
               ELSE LET more == l1.next <= Len(p)
                    IN  IF more /\ (p[l1.next] \notin Dirs \/ p[l1.next] = p[2]) THEN Err
                        ELSE LET l2 == IF more THEN SetList(p, l1.next + 1)
                                       ELSE [t |-> "ok", v |-> NoSets, next |-> l1.next]
                             IN  IF l2.t # "ok" THEN l2
                                 ELSE IF l2.next <= Len(p) THEN Err
                                 ELSE Ok([k |-> "imageattr", pt |-> PayloadType(p[1])[1],
                                          send |-> IF p[2] = "send" THEN l1.v ELSE l2.v,
                                          recv |-> IF p[2] = "recv" THEN l1.v ELSE l2.v])

---------------------------------------------------------------------------
(* The attribute line: name [":" value], name case-insensitive.              *)
AttrName(s) == Lower(SplitMax(s, ":", 2)[1])
ParseAttr(s) ==
  LET p == SplitMax(s, ":", 2)
      n == Lower(p[1])
      x == IF Len(p) = 2 THEN Trim(p[2]) ELSE ""
  IN  CASE n \in FlagNames -> IF Len(p) = 2 THEN Err ELSE Ok([k |-> n])
        [] n \in TextNames -> ParseText(n, x)
        [] n \in U64Names  -> ParseU64(n, x)
        [] n = "candidate" -> ParseCandidate(x)
        [] n = "dtls-message" -> ParseDtlsMessage(x)
        [] n = "extmap" -> ParseExtmap(x)
        [] n = "fingerprint" -> ParseFingerprint(x)
        [] n = "fmtp" -> ParseFmtp(x)
        [] n = "framerate" -> ParseFramerate(x)
        [] n = "group" -> ParseGroup(x)
        [] n = "ice-options" -> ParseIceOptions(x)
        [] n = "ice-pacing" -> ParseIcePacing(x)
        [] n = "imageattr" -> ParseImageattr(x)
        [] n = "msid" -> ParseMsid(x)
        [] n = "msid-semantic" -> ParseMsidSemantic(x)
        [] n = "remote-candidates" -> ParseRemoteCandidates(x)
        [] n = "rid" -> ParseRid(x)
        [] n = "rtcp" -> ParseRtcp(x)
        [] n = "rtcp-fb" -> ParseRtcpFb(x)
        [] n = "rtpmap" -> ParseRtpmap(x)
        [] n = "sctp-port" -> ParseSctpPort(x)
        [] n = "sctpmap" -> ParseSctpmap(x)
        [] n = "setup" -> ParseSetup(x)
        [] n = "simulcast" -> ParseSimulcast(x)
        [] n = "ssrc" -> ParseSsrc(x)
        [] n = "ssrc-group" -> ParseSsrcGroup(x)
        [] OTHER -> Unsup

---------------------------------------------------------------------------
(* Canonical text.  "" means the attribute is omitted (an all-default fmtp). *)
NonDef(name, x, d) == IF x = d THEN "" ELSE name \o x
NonDefB(name, b) == IF b THEN name \o "1" ELSE ""
SsrcText(v) == v.id \o Opt(v.attr, " ") \o Opt(v.val, ":")
RECURSIVE PairsText(_, _)
PairsText(ps, i) == IF i > Len(ps) THEN "" ELSE " " \o ps[i][1] \o " " \o ps[i][2] \o PairsText(ps, i + 1)
AddrOpt(o, pre) == IF o = <<>> THEN "" ELSE pre \o o[1].a
UpperT(tr) == IF tr = "udp" THEN "UDP" ELSE "TCP"
FmtpText(p) ==
  IF p.dtmf # "" THEN p.dtmf
  ELSE IF p.enc # <<>> THEN Join(p.enc, "/")
  ELSE Join(NonEmpty(<<
         IF p.rtx = <<>> THEN "" ELSE "apt=" \o p.rtx[1].apt \o Opt(p.rtx[1].time, ";rtx-time="),
         NonDef("profile-level-id=", p.plid, "42000a"),
         NonDefB("level-asymmetry-allowed=", p.laa),
         NonDef("packetization-mode=", p.pm, "0"),
         NonDef("max-fs=", p.maxfs, "0"),
         NonDef("max-cpb=", p.maxcpb, "0"),
         NonDef("max-dpb=", p.maxdpb, "0"),
         NonDef("max-br=", p.maxbr, "0"),
         NonDef("max-mbps=", p.maxmbps, "0"),
         NonDef("max-fr=", p.maxfr, "0"),
         Opt(p.profile, "profile="),
         Opt(p.level, "level-idx="),
         Opt(p.tier, "tier="),
         NonDef("maxplaybackrate=", p.mpr, "48000"),
         NonDef("maxaveragebitrate=", p.mabr, "0"),
         NonDef("ptime=", p.ptime, "0"),
         NonDef("minptime=", p.minptime, "0"),
         NonDef("maxptime=", p.maxptime, "0"),
         NonDefB("usedtx=", p.usedtx),
         NonDefB("stereo=", p.stereo),
         NonDefB("useinbandfec=", p.fec),
         NonDefB("cbr=", p.cbr),
         Join(p.unknown, ";")>>), ";")
RidParamsText(v) ==
  Join(NonEmpty(<<
    NonDef("max-width=", v.mw, "0"), NonDef("max-height=", v.mh, "0"),
    NonDef("max-fps=", v.mfps, "0"), NonDef("max-fs=", v.mfs, "0"),
    NonDef("max-br=", v.mbr, "0"), NonDef("max-pps=", v.mpps, "0"),
    Join(v.unknown, ";")>>), ";")
RidText(v) ==
  LET ps == Join(NonEmpty(<<
              IF v.formats = <<>> THEN "" ELSE "pt=" \o Join(v.formats, ","),
              RidParamsText(v),
              IF v.depends = <<>> THEN "" ELSE "depends=" \o Join(NonEmpty(v.depends), ",")>>), ";")
  IN  v.id \o " " \o v.dir \o (IF ps = "" THEN "" ELSE " " \o ps)
SimIdText(i) == (IF i.paused THEN "~" ELSE "") \o i.id
SimVersionText(vs) == Join(Map(vs, SimIdText), ",")
SimListText(pre, l) == IF l = <<>> THEN "" ELSE pre \o Join(NonEmpty(Map(l, SimVersionText)), ";")
RangeText(x, sep) ==
  IF x.t = "range"
  THEN "[" \o x.v[1] \o sep \o (IF Len(x.v) = 3 THEN x.v[3] \o sep ELSE "") \o x.v[2] \o "]"
  ELSE IF Len(x.v) = 1 THEN x.v[1] ELSE "[" \o Join(x.v, ",") \o "]"
SetText(r) ==
  "[x=" \o RangeText(r.x, ":") \o ",y=" \o RangeText(r.y, ":")
  \o (IF r.sar = <<>> THEN "" ELSE ",sar=" \o RangeText(r.sar[1], "-"))
  \o (IF r.par = <<>> THEN "" ELSE ",par=[" \o r.par[1][1] \o "-" \o r.par[1][2] \o "]")
  \o Opt(r.q, ",q=") \o "]"
SetListText(pre, l) ==
  IF l.w THEN pre \o "*" ELSE IF l.sets = <<>> THEN "" ELSE pre \o Join(Map(l.sets, SetText), " ")

AttrValueText(v) ==
  CASE v.k \in TextNames \cup {"setup"} -> v.s
    [] v.k \in U64Names \cup {"ice-pacing", "sctp-port"} -> v.n
    [] v.k = "candidate" ->
         v.foundation \o " " \o v.component \o " " \o UpperT(v.transport) \o " " \o v.priority \o " "
         \o v.addr.a \o " " \o v.port \o " typ " \o v.ctype
         \o AddrOpt(v.raddr, " raddr ") \o Opt(v.rport, " rport ") \o Opt(v.tcptype, " tcptype ")
         \o Opt(v.generation, " generation ") \o Opt(v.ufrag, " ufrag ") \o Opt(v.cost, " network-cost ")
         \o PairsText(v.ext, 1)
    [] v.k = "dtls-message" -> v.role \o " " \o v.msg
    [] v.k = "extmap" -> v.id \o Opt(v.dir, "/") \o " " \o v.url \o Opt(v.ext, " ")
    [] v.k = "fingerprint" -> v.hash \o " " \o v.fp
    [] v.k = "fmtp" -> LET t == FmtpText(v.p) IN IF t = "" THEN "" ELSE v.pt \o " " \o t
    [] v.k = "framerate" -> v.f
    [] v.k = "group" -> v.semantics \o (IF v.tags = <<>> THEN "" ELSE " " \o Join(v.tags, " "))
    [] v.k = "ice-options" -> Join(v.opts, " ")
    [] v.k = "imageattr" -> v.pt \o SetListText(" send ", v.send) \o SetListText(" recv ", v.recv)
    [] v.k = "msid" -> v.id \o Opt(v.appdata, " ")
    [] v.k = "msid-semantic" -> v.semantic \o " " \o (IF v.msids = <<>> THEN "*" ELSE Join(v.msids, " "))
    [] v.k = "remote-candidates" -> v.component \o " " \o v.addr.a \o " " \o v.port
    [] v.k = "rid" -> RidText(v)
    [] v.k = "rtcp" -> v.port \o (IF v.addr = <<>> THEN "" ELSE " " \o TypedAddressText(v.addr[1]))
    [] v.k = "rtcp-fb" ->
         v.pt \o " " \o v.fb \o (IF v.param = "" THEN "" ELSE " " \o v.param \o NonDef(" ", v.extra, ""))
    [] v.k = "rtpmap" -> v.pt \o " " \o v.codec \o "/" \o v.freq \o Opt(v.ch, "/")
    [] v.k = "sctpmap" -> v.port \o " webrtc-datachannel " \o v.ch
    [] v.k = "simulcast" ->
         Join(NonEmpty(<<SimListText("send ", v.send), SimListText("recv ", v.recv)>>), " ")
    [] v.k = "ssrc" -> SsrcText(v)
    [] v.k = "ssrc-group" -> v.semantics \o " " \o Join(v.ids, " ")
AttrText(v) ==
  IF v.k \in FlagNames THEN v.k
  ELSE LET t == AttrValueText(v) IN IF t = "" THEN "" ELSE v.k \o ":" \o t
=============================================================================
