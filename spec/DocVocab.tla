------------------------------ MODULE DocVocab ------------------------------
(***************************************************************************)
(* Line vocabularies for descriptions: a fixed prefix of lines, then any     *)
(* sequence of lines of the alphabet.                                        *)
(***************************************************************************)
EXTENDS Text

V0 == "v=0"
O0 == "o=- 1 2 IN IP4 127.0.0.1"
S0 == "s=-"
T0 == "t=0 0"
C0 == "c=IN IP4 0.0.0.0"

\* Every supported attribute kind, one line each.
OneOfEach == <<
  "a=bundle-only", "a=candidate:0 1 UDP 2122252543 172.16.156.106 49760 typ host", "a=dtls-message:client abc", "a=end-of-candidates",
  "a=extmap:1 urn:x", "a=extmap-allow-mixed",
  "a=fingerprint:sha-1 CD:34:D1:62:16:95:7B:B7:EB:74:E2:39:27:97:EB:0B:23:73:AC:BC", "a=fmtp:0 max-fs=3600", "a=framerate:25", "a=group:BUNDLE 0",
  "a=ice-lite", "a=ice-mismatch", "a=ice-options:trickle", "a=ice-pacing:50", "a=ice-pwd:abc", "a=ice-ufrag:abc", "a=identity:abc",
  "a=imageattr:0 send *", "a=inactive", "a=label:1", "a=max-message-size:1", "a=maxptime:60", "a=mid:0", "a=msid:a b", "a=msid-semantic:WMS *",
  "a=ptime:20", "a=rid:1 send", "a=recvonly", "a=remote-candidates:1 10.0.0.1 5555", "a=rtpmap:0 PCMU/8000", "a=rtcp:9 IN IP4 0.0.0.0",
  "a=rtcp-fb:0 nack", "a=rtcp-mux", "a=rtcp-rsize", "a=sctpmap:5000 webrtc-datachannel 256", "a=sctp-port:5000", "a=sendonly",
  "a=sendrecv", "a=setup:actpass", "a=ssrc:1 cname:x", "a=ssrc-group:FID 1 2", "a=rtcp-mux-only", "a=simulcast:send 1" >>

\* A second (and third) value of many kinds.
Variants == <<
  "a=candidate:1 1 TCP 5 ::1 9 typ relay raddr h.x rport 7 tcptype so foo Bar", "a=candidate:0 2 UDP 1 10.0.0.1 0 typ prflx ufrag x generation 0",
  "a=extmap:1/sendonly urn:x", "a=extmap:2 urn:x a=b", "a=fingerprint:sha-1 00:34:D1:62:16:95:7B:B7:EB:74:E2:39:27:97:EB:0B:23:73:AC:BC",
  "a=fmtp:0 stereo=1", "a=fmtp:97 apt=0", "a=fmtp:97 0/8", "a=fmtp:101 0-15", "a=fmtp:0 x;y=1", "a=framerate:29.97", "a=group:LS a b", "a=group:BUNDLE",
  "a=ice-options:a b", "a=ice-pwd:abd", "a=ice-ufrag:abd", "a=imageattr:* recv [x=1,y=2]", "a=label:2", "a=mid:", "a=mid:1", "a=msid:-", "a=msid-semantic:WMS a",
  "a=rid:1 recv", "a=rid:2 send pt=0", "a=rtpmap:0 PCMU/8000/2", "a=rtpmap:97 rtx/90000", "a=rtcp:10", "a=rtcp-fb:* nack", "a=rtcp-fb:0 nack pli", "a=rtcp-fb:0 ccm fir",
  "a=sctpmap:5001 x 1", "a=sctp-port:5001", "a=setup:active", "a=ssrc:1 msid:a b", "a=ssrc:2 cname:x", "a=ssrc-group:FID 2 1", "a=simulcast:recv 1", "a=simulcast:send 2;1",
  "m=audio 0 RTP/AVP 0", "m=audio 9 RTP/AVP 8", "m=video 9 RTP/AVP 0 97", "m=application 9 UDP/DTLS/SCTP webrtc-datachannel", "m=application 0 DTLS/SCTP 5000",
  "c=IN IP4 0.0.0.0", "c=IN IP4 224.0.0.1/1/2", "c=IN IP6 ::1", "b=AS:1", "b=AS:2", "b=TIAS:1", "b=x:1", "t=0 0", "t=1 2",
  "a=x", "a=x:1", "a=rtcp-fb:0 x", "zz", "m=text 9 RTP/AVP 0", " ", " a=mid:2",
  "s=", "s= \t", "s=x", "v=0", "v= 0", "o=x 3 4 IN IP6 ::1" >>

\* Further forms of attributes whose value comes in several kinds.
MoreForms == <<
  "a=rtcp-fb:0 ack", "a=rtcp-fb:0 ack rpsi", "a=rtcp-fb:0 ack app x", "a=rtcp-fb:0 ccm tmmbr", "a=rtcp-fb:0 ccm tstr", "a=rtcp-fb:0 ccm vbcm", "a=rtcp-fb:0 nack sli",
  "a=rtcp-fb:0 nack rpsi", "a=rtcp-fb:0 trr-int 100", "a=rtcp-fb:0 goog-remb", "a=rtcp-fb:0 transport-cc", "a=rtcp-fb:* ccm fir", "a=rtcp-fb:* transport-cc", "a=rtcp-fb:* goog-remb",
  "a=rtpmap:127 telephone-event/8000", "a=rtpmap:97 red/48000/2", "a=fmtp:97 111/111", "a=fmtp:127 0-15,66", "a=sctpmap:0 webrtc-datachannel 0", "a=sctp-port:0",
  "a=max-message-size:0", "a=max-message-size:100000", "a=candidate:1 1 UDP 5 h.x 9 typ host network-cost 10", "a=candidate:1 1 UDP 5 h.x 9 typ host network-id 1", "a=dtls-message:server x", "a=setup:passive", "a=setup:holdconn",
  "a=extmap:3/inactive urn:y", "a=imageattr:97 recv * send *", "a=ssrc:1 cname", "a=ssrc:1", "a=ssrc-group:SIM 1", "a=ssrc-group:DUP 1 2", "a=ssrc-group:FEC 1 2", "a=group:FID a",
  "a=rtcp:9", "a=rtcp:9 IN IP6 ::1", "a=msid:a", "a=msid-semantic:x", "a=rid:3 recv max-fps=30", "a=simulcast:send 1 recv 2" >>

Alphabet(g) ==
  CASE g = "raw" -> << V0, O0, S0, "s=", T0, C0, "b=AS:1", "m=audio 9 RTP/AVP 0", "a=sendrecv", "a=ice-lite", "a=mid:0", "a=foo:bar", "a=ptime:x", "", " " >>
    [] g \in {"body", "media"} ->
       << C0, "c=IN IP6 ::1", "b=AS:1", "b=X:2", "m=audio 9 RTP/AVP 0", "m=application 9 UDP/DTLS/SCTP webrtc-datachannel", "m=text 9 RTP/AVP 0",
          "a=sendrecv", "a=ice-lite", "a=mid:0", "a=dtls-message:client x", "a=foo", "zzz", "t=1 2", V0, O0, S0, " \t", "  ", "e=x@y" >>
    [] g \in {"constraint", "noconn"} ->
       << "m=audio 9 RTP/AVP 0", "m=video 9 RTP/AVP 96", C0, "a=extmap:1 urn:a", "a=extmap:2 urn:b", "a=rtcp-mux", "a=rtcp-mux-only" >>
    [] g \in {"rid", "rid2"} ->
       << "a=rid:a send", "a=rid:a recv", "a=rid:b send pt=97", "a=rid:b recv pt=96,97", "a=rid:c send pt=99", "a=rid:c recv pt=96,353", "a=simulcast:send a", "a=simulcast:recv a",
          "a=simulcast:send a;b recv a", "a=simulcast:send a,~b", "a=simulcast:recv ~b;a", "m=video 9 RTP/AVP 99", "m=application 9 DTLS/SCTP 97 x" >>
    [] g \in {"pairs", "spairs"} -> OneOfEach \o Variants \o MoreForms
    [] g \in {"levels", "levelm"} -> OneOfEach \o << "m=audio 9 RTP/AVP 0" >>
    [] g = "conns" ->
       << "m=audio 0 RTP/AVP 0", "m=video 9/2 RTP/AVP 96", "m=application 9 UDP/DTLS/SCTP webrtc-datachannel", C0, "c=IN IP6 ::", "c=IN IP4 224.1.1.1/1/2",
          "a=bundle-only", "a=inactive", "a=end-of-candidates", "a=rtcp:9 IN IP4 0.0.0.0", "a=rtcp-mux-only", "a=rtcp-mux" >>
    [] g = "ridapp" ->
       << "m=application 9 DTLS/SCTP 97 970 x", "m=application 9 UDP/DTLS/SCTP 9 096", "m=audio 9 RTP/AVP 9 96", "a=rid:a send pt=97", "a=rid:a send pt=9",
          "a=rid:A recv pt=96", "a=rid:b send pt=97,970", "a=rid:b recv pt=265", "a=rid:ab recv", "a=simulcast:send a", "a=simulcast:recv A,ab", "a=simulcast:recv ab send a", "a=simulcast:send b;~a" >>
    [] g = "diag" -> << "a=foo:1", "a=group:X a", "b=1", " m=text 9 RTP/AVP 0 ", "\ta=ptime: ", "x", "", "  ", " ", "　a = mid:1 ", "a=foo:é ", "a=mid:1", "a=ice-lite", "m=audio 9 RTP/AVP 0", "c=IN IP4 0.0.0.0" >>
    [] g = "order" -> << "m=audio 0 RTP/AVP 0", "m=audio 9 RTP/AVP 0", "m=video 0/2 RTP/AVP 0", "m=application 0 DTLS/SCTP 5000", "a=msid:a b", "a=mid:0", "b=AS:1" >>
    [] g = "again" -> << "a=mid:0", "a=mid:1", "a=ssrc:1 cname:x", "a=ssrc:1 cname:X", "a=rtpmap:0 PCMU/8000", "a=rtpmap:0 pcmu/8000", "a=rtcp-fb:0 nack", "a=rtcp-fb:0 nack pli", "m=audio 9 RTP/AVP 0 0 8", "c=IN IP4 0.0.0.0" >>
    [] g = "wide" -> << "a=rtpmap:0 PCMU/8000", "a=fmtp:0 a=b;c=d", "a=fmtp:0 stereo=0", "b=TIAS:9", "c=IN IP4 224.0.0.1/3/4", "m=audio 0/2 RTP/AVP 0 8", "m=video 9 UDP/TLS/RTP/SAVPF 96",
                        "a=candidate:1 1 TCP 5 ::1 9 typ relay raddr H.x rport 7 tcptype so foo Bar", "s=x", "a=msid-semantic:WMS" >>

Prefix(g) ==
  CASE g = "raw" -> <<>>
    [] g \in {"body", "noconn", "conns", "diag", "wide"} -> << V0, O0, S0, T0 >>
    [] g = "media" -> << V0, O0, S0, T0, "m=video 9 RTP/AVP 96" >>
    [] g = "again" -> << V0, O0, S0, T0, C0, "a=group:BUNDLE 0", "a=group:BUNDLE 0", "m=audio 9 RTP/AVP 0 0 8" >>
    [] g \in {"constraint", "levels", "ridapp", "order"} -> << V0, O0, S0, T0, C0 >>
    [] g = "rid" -> << V0, O0, S0, T0, C0, "m=video 9 RTP/AVP 96 97" >>
    [] g = "spairs" -> << V0, O0, S0, T0 >>
    [] g = "pairs" -> << V0, O0, S0, T0, C0, "a=group:BUNDLE 0", "m=video 9 RTP/AVP 0", "a=mid:0", "a=rtpmap:0 x/1", "a=rid:1 recv", "a=ssrc:1 cname:x", "m=audio 9/2 RTP/AVP 0 97 101" >>
    [] g = "rid2" -> << V0, O0, S0, T0, C0, "m=video 9 RTP/AVP 96 97", "a=rid:a send", "a=simulcast:send a" >>
    [] g = "levelm" -> << V0, O0, S0, T0, C0, "m=audio 9 RTP/AVP 0" >>
=============================================================================
