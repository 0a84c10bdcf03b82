------------------------------ MODULE ShortVocab ------------------------------
(***************************************************************************)
(* Beginnings of lines and the pieces that may follow them: every word over  *)
(* the pieces up to a length is tried after each beginning, so short texts   *)
(* of every shape (empty fields, doubled or dangling separators, unbalanced  *)
(* brackets, repeated keys) are covered without being thought of.            *)
(***************************************************************************)
EXTENDS Text

ShortGroups == <<"S09", "S10", "S11", "S12", "S13", "S14", "S15", "S16", "S17", "S18">>

Begin(g) ==
  CASE g = "S09" -> << "m=", "m=audio ", "m=video 9", "m=application 9 ", "m=audio 9 RTP/AVP", "m=application 0 DTLS/SCTP " >>
    [] g = "S10" -> << "", "v=", "o=", "o=- 1 2 IN ", "s=", "t=", "c=", "c=IN IP4 1.2.3.4", "b=" >>
    [] g = "S11" -> << "c=IN IP6 ", "c=IN IP4 ", "a=rtcp:9 IN IP6 ", "a=remote-candidates:1 " >>
    [] g = "S12" -> << "a=", "a=sendrecv", "a=ice-lite", "a=rtcp-mux", "a=mid", "a=x" >>
    [] g = "S13" -> << "a=candidate:0 1 UDP 5 ::1 9 typ host", "a=candidate:", "a=candidate:0 1 tcp 5 ::1 9 typ relay generation 0 ", "a=remote-candidates:", "a=ice-options:",
                       "a=setup:", "a=dtls-message:", "a=fingerprint:sha-1 ", "a=ice-pacing:" >>
    [] g = "S14" -> << "a=fmtp:", "a=fmtp:96", "a=fmtp:96 max-fs=1", "a=fmtp:96 apt=1", "a=fmtp:101 0", "a=fmtp:97 1/", "a=fmtp:96 stereo=0;" >>
    [] g = "S15" -> << "a=rtpmap:", "a=rtpmap:0 x", "a=rtcp-fb:", "a=rtcp-fb:96 ", "a=rtcp-fb:* trr-int", "a=rtcp-fb:1 ccm", "a=sctpmap:", "a=rtcp:", "a=ptime:", "a=sctpmap:5 webrtc-datachannel" >>
    [] g = "S16" -> << "a=msid:", "a=msid-semantic:", "a=group:", "a=ssrc:", "a=ssrc:1 ", "a=ssrc-group:", "a=extmap:", "a=extmap:1/", "a=extmap:1 u", "a=mid:" >>
    [] g = "S17" -> << "a=rid:", "a=rid:1 ", "a=rid:1 send ", "a=rid:1 send pt=", "a=rid:1 recv max-fs=", "a=simulcast:", "a=simulcast:send ", "a=simulcast:recv 1 send ", "a=simulcast:send 1;2" >>
    [] g = "S18" -> << "a=imageattr:", "a=imageattr:* ", "a=imageattr:* send ", "a=imageattr:* send [", "a=imageattr:1 recv [x=", "a=imageattr:1 recv [x=1,y=", "a=imageattr:* send [x=1,y=1,", "a=imageattr:* send [x=1,y=1] ",
                       "a=imageattr:* send [x=1,y=1,sar=[", "a=imageattr:* send [x=1,y=1,par=[", "a=imageattr:* send [x=[1", "a=framerate:" >>

Piece(g) ==
  CASE g = "S09" -> << " ", "/", "9", "0", "x", "*", "-", "RTP/AVP", "audio", "\t", "18 ", "DTLS/SCTP" >>
    [] g = "S10" -> << " ", "/", ":", "=", "0", "1", "-", "IN", "IP6", "x", "AS", "\t" >>
    [] g = "S11" -> << ":", ".", "1", "0", "a", "g", "[", "]", "/", "::", "255", "x.y" >>
    [] g = "S12" -> << ":", " ", "a", "rtcp-mux", "-", "only", "=", "S", "mid", "x", ";", "\t" >>
    [] g = "S13" -> << " ", "1", ":", "ufrag ", "raddr ", "rport", "tcptype", "active", "x", "\t", "typ", "client", "CD" >>
    [] g = "S14" -> << ";", "=", " ", "1", "/", ",", "-", "max-br", "rtx-time=", "apt=", "cbr=1", "x" >>
    [] g = "S15" -> << " ", "/", "1", "0", "*", "nack", "pli", "ack", "rpsi", "x", "-", "trr-int" >>
    [] g = "S16" -> << " ", ":", "/", "1", "x", "FID", "sendonly", "*", "-", "\t", "BUNDLE", "=" >>
    [] g = "S17" -> << " ", ";", ",", "=", "~", "1", "send", "recv", "pt=", "depends=", "max-br=", "x" >>
    [] g = "S18" -> << "[", "]", ",", "=", ":", "-", " ", "1", "*", "x=", "y=1", "sar=", "0.5", "recv" >>
=============================================================================
