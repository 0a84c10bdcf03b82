------------------------------ MODULE BuildVocab ------------------------------
(***************************************************************************)
(* Starting objects and operation alphabets for building histories.          *)
(***************************************************************************)
EXTENDS Text

Add(a) == [op |-> "add", a |-> a]
Set1(a) == [op |-> "set", a |-> a]
Rem(k) == [op |-> "remove", k |-> k]
Get1(k) == [op |-> "get", k |-> k]
GetAll(k) == [op |-> "all", k |-> k]
Port(n) == [op |-> "port", n |-> n]
Bw(l) == [op |-> "bw", l |-> l]
Conn(l) == [op |-> "conn", l |-> l]
Codec(a) == [op |-> "codec", a |-> a]
RmCodecs == [op |-> "rmcodecs"]
DC(name, port, streams, msg) == [op |-> "dc", name |-> name, port |-> port, streams |-> streams, msg |-> msg]
SAttr(a) == [op |-> "sattr", a |-> a]
SGet(k) == [op |-> "sget", k |-> k]
SConn(l) == [op |-> "sconn", l |-> l]
STime(l) == [op |-> "stime", l |-> l]
SBw(l) == [op |-> "sbw", l |-> l]
AddMedia(media, a, port, proto, l) == [op |-> "addmedia", media |-> media, a |-> a, port |-> port, proto |-> proto, l |-> l]
Extend(ls) == [op |-> "extend", ls |-> ls]
On(i, o) == [op |-> "m", i |-> i, o |-> o]

\* [kind of object, its text(s)]
MediaOf(l) == [obj |-> "media", l |-> l]
SessionWith(v, o, name) == [obj |-> "session", v |-> v, o |-> o, name |-> name]
O1 == "- 1 2 IN IP4 127.0.0.1"

Starts(g) ==
  CASE g = "attrs" -> << MediaOf("audio 9 RTP/AVP 0") >>
    [] g = "fields" -> << MediaOf("audio 9/2 RTP/AVP 0 8"), MediaOf("application 1 UDP/DTLS/SCTP webrtc-datachannel") >>
    [] g = "codecs" -> << MediaOf("video 9 UDP/TLS/RTP/SAVPF 96 97"), MediaOf("application 9 UDP/DTLS/SCTP webrtc-datachannel"),
                          MediaOf("application 9 DTLS/SCTP 5000"), MediaOf("application 9 TCP/DTLS/SCTP a b") >>
    [] g \in {"levels", "kinds", "replace"} -> << MediaOf("audio 9 RTP/AVP 0") >>
    [] g = "strip" -> << MediaOf("video 9 UDP/TLS/RTP/SAVPF 96"), MediaOf("application 9 UDP/DTLS/SCTP webrtc-datachannel") >>
    [] g = "skinds" -> << SessionWith("0", O1, "-") >>
    [] g = "slevels" -> << SessionWith("0", O1, "-") >>
    [] g = "session" -> << SessionWith("0", O1, " a b ") >>
    [] g = "names" -> << SessionWith("0", O1, ""), SessionWith("0", "u 18446744073709551615 0 IN IP6 H.x", "  "), SessionWith("1", O1, "x"),
                         SessionWith("0", O1, "x=y"), SessionWith("0", O1, "\tz") >>

Ops(g) ==
  CASE g = "attrs" ->
       << Add("mid:0"), Add("mid:1"), Set1("mid:1"), Set1("mid:0"), Add("sendrecv"), Add("sendonly"), Set1("sendrecv"), Add("ssrc:1 cname:a"), Add("ssrc:2"),
          Set1("ssrc:3"), Rem("mid"), Rem("sendrecv"), Rem("ssrc"), Rem("ice-lite"), Add("ice-lite"), Set1("ice-lite"), Set1("msid-semantic:WMS"),
          Get1("mid"), Get1("ssrc"), GetAll("ssrc"), GetAll("mid"), GetAll("rtpmap") >>
    [] g = "fields" ->
       << Port("0"), Port("65535"), Bw("AS:1"), Bw("AS:1 "), Bw("X:2"), Conn("IN IP4 1.2.3.4/5/6"), Conn("IN IP6 ::1"), Add("mid:0"), Rem("mid"),
          Set1("ptime:20"), Codec("rtpmap:97 VP8/90000"), RmCodecs, DC("webrtc-datachannel", "5000", "256", "0") >>
    [] g = "codecs" ->
       << Codec("rtpmap:97 VP8/90000"), Codec("rtpmap:0 PCMU/8000/2"), Codec("rtpmap:97 VP8/90000"), RmCodecs, Add("fmtp:97 max-fs=1"), Add("rtcp-fb:97 nack"),
          Add("sctp-port:1"), Add("sctpmap:1 webrtc-datachannel 2"), Add("max-message-size:7"), Add("mid:0"),
          DC("webrtc-datachannel", "5000", "256", "0"), DC("x", "65535", "65535", "4294967295"), DC("webrtc-datachannel", "0", "0", "1") >>
    [] g = "session" ->
       << SConn("IN IP4 1.2.3.4"), SConn("IN IP6 ::1"), STime("0 0"), STime("1 18446744073709551615"), SBw("CT:1"), SAttr("group:BUNDLE 0"), SAttr("extmap:1 urn:a"),
          SAttr("mid:0"), SGet("group"), AddMedia("audio", "sendrecv", "9", "RTP/AVP", "IN IP4 0.0.0.0"), AddMedia("video", "ice-lite", "9", "RTP/AVP", "IN IP4 0.0.0.0"),
          AddMedia("application", "sendonly", "65535", "UDP/DTLS/SCTP", "IN IP6 H.x"),
          Extend(<<>>), Extend(<< "video 1 RTP/AVP 96", "audio 2 RTP/SAVP 0 8" >>),
          On(0, Codec("rtpmap:0 PCMU/8000")), On(0, DC("webrtc-datachannel", "5000", "256", "9")), On(1, Conn("IN IP4 9.9.9.9")), On(0, Add("rtcp-mux-only")), On(0, Add("rtcp-mux")),
          On(1, Add("extmap:2 urn:b")), On(0, Add("rid:a send pt=96")), On(0, Add("simulcast:send a")), On(1, RmCodecs) >>
    [] g = "dcs" -> << DC("webrtc-datachannel", "5000", "256", "0"), DC("x", "1", "2", "3") >>
    [] g = "names" -> << STime("0 0"), SAttr("ice-lite"), SBw("Foo:4294967295"), SGet("ice-lite") >>
    [] OTHER -> <<>>
=============================================================================
