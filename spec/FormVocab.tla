------------------------------ MODULE FormVocab ------------------------------
(***************************************************************************)
(* Forms: constructs whose slots are all varied independently (the full      *)
(* product).  Three sorts:                                                   *)
(*   products  every combination of the valid alternatives of a construct;   *)
(*   words     every free-text place with many words in it, and every list   *)
(*             with pairs and triples of related words;                      *)
(*   repeats   every list with many different lengths.                       *)
(***************************************************************************)
EXTENDS Text, Integers

---------------------------------------------------------------------------
Lengths == [i \in 1..20 |-> i] \o << 31, 32, 33, 63, 64, 65, 95, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513 >>
LongLengths == << 16, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097 >>

Punct == << "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "@", "[", "\\", "]", "^", "_", "`", "{", "|", "}", "~" >>
PlainWords == << "a", "A", "aB", "Ab", "AB", "z", "0", "1", "01", "00", "10", "255", "256", "65536", "4294967296", "-1", "+1", "1.0", "0.5", "1e3", "inf", "NaN", "0x1f", "deadBEEF",
   "--", "**", "~~", "..", "::", "//", ";;", ",,", "==", "[]", "[a]", "{a}", "\"a\"", "'a'", "(a)", "<a>", "%20", "a%3Ab", "a@b.c", "a.b", "a.b.", "a-b_c", "urn:x:y", "http://h/p?q=r&s#f", "+/9=", "abc==",
   "send", "recv", "SEND", "IN", "IP4", "ip6", "typ", "host", "raddr", "rport", "ufrag", "generation", "tcptype", "none", "null", "any", "true", "default", "nil", "undefined",
   "BUNDLE", "FID", "WMS", "cname", "CNAME", "msid", "mid", "rid", "rid=", "pt=", "pt=1", "depends", "apt", "apt=1", "x=", "nack", "pli", "app", "trr-int", "client", "sha-1", "rtx", "RTX", "opus", "H264",
   "v=0", "a=b", "m=", "s=-", "a:b:c", "a;b", "a,b", "a/b", "a~b", "a|b", "a=b=c", "=a", "a=", ":a", "a:", ";a", "a;", ",a", "a,", "/a", "a/", "~a", "a~", "*a", "a*", "-a", "a-", ".a", "a.", "_a", "a_", "+a", "a+", "[a", "a]", "]a", "a[", "@a", "#a", "?a", "!a", "\\n", "a\\", "a\tb" >>
LongWords == [i \in 1..Len(LongLengths) |-> Rep("w", LongLengths[i])]
\* Beyond graphic ASCII: letters with and without case, wide and combining
\* characters, blanks of several sorts, controls, digits that are not ASCII.
WideWords == << "é", "É", "ñoño", "日本語", "😀", "a😀b", "ÿ", "́a", "Ω", "ω", "Σ", "ς", "Я", "я", "﷽", "‍", "﻿", "﻿a", "a b", " a", "a ", " ", "a　b", "ab", " a", "a ", "a b", "", "ab", "a", "ab", "ab", "٣", "１２", "Ａ", Nul, "a" \o Nul \o "b" >>
WordTexts == Punct \o PlainWords \o LongWords \o WideWords

\* <<group, prefix, suffix>>: every free-text place.
WordHoles == <<
  <<"S10", "s=", "">>, <<"S10", "o=", " 1 2 IN IP4 1.2.3.4">>, <<"S10", "o=- 1 2 IN IP4 ", "">>, <<"S10", "c=IN IP6 ", "">>, <<"S10", "c=IN IP4 ", "/3">>, <<"S10", "b=", ":1">>, <<"S10", "", "=x">>,
  <<"S09", "m=application 9 DTLS/SCTP ", "">>, <<"S09", "m=application 9 UDP/DTLS/SCTP a ", " b">>, <<"S09", "m=audio 9 RTP/AVP 0 ", "">>, <<"S09", "m=", " 9 RTP/AVP 0">>, <<"S09", "m=audio 9 ", " 0">>,
  <<"S12", "a=", "">>, <<"S12", "a=", ":x">>, <<"S12", "a=sendrecv", "">>, <<"S12", "a=mid", "x">>,
  <<"S16", "a=mid:", "">>, <<"S16", "a=label:", "">>, <<"S16", "a=identity:", "">>, <<"S13", "a=ice-ufrag:", "">>, <<"S13", "a=ice-pwd:", "">>, <<"S13", "a=ice-options:", "">>, <<"S13", "a=ice-options:a ", " b">>,
  <<"S13", "a=candidate:", " 1 UDP 5 1.2.3.4 9 typ host">>, <<"S13", "a=candidate:0 1 UDP 5 ", " 9 typ host">>, <<"S13", "a=candidate:0 1 UDP 5 ::1 9 typ host ", " x">>, <<"S13", "a=candidate:0 1 UDP 5 ::1 9 typ host x ", "">>,
  <<"S13", "a=candidate:0 1 UDP 5 ::1 9 typ host ufrag ", " generation 0">>, <<"S13", "a=candidate:0 1 UDP 5 ::1 9 typ host raddr ", "">>, <<"S13", "a=candidate:0 1 ", " 5 ::1 9 typ host">>, <<"S13", "a=candidate:0 1 UDP 5 ::1 9 ", " host">>,
  <<"S13", "a=candidate:0 1 UDP 5 ::1 9 typ ", "">>, <<"S13", "a=candidate:0 1 TCP 5 ::1 9 typ host tcptype ", "">>,
  <<"S13", "a=dtls-message:client ", "">>, <<"S13", "a=dtls-message:", " x">>, <<"S13", "a=remote-candidates:1 ", " 9">>, <<"S13", "a=setup:", "">>, <<"S13", "a=fingerprint:", " 00">>,
  <<"S16", "a=extmap:1 ", "">>, <<"S16", "a=extmap:1/sendonly ", " e f">>, <<"S16", "a=extmap:1 u ", "">>, <<"S16", "a=extmap:1 u v ", " w">>, <<"S16", "a=extmap:1/", " u">>,
  <<"S14", "a=fmtp:96 x=", "">>, <<"S14", "a=fmtp:96 ", "=1">>, <<"S14", "a=fmtp:96 max-fs=1;", "=2;y=3">>, <<"S14", "a=fmtp:96 apt=1;z=", ";rtx-time=4">>, <<"S14", "a=fmtp:96 ", "">>, <<"S14", "a=fmtp:96 x=1;", ";y=2">>, <<"S14", "a=fmtp:", " x=1">>,
  <<"S16", "a=group:BUNDLE ", "">>, <<"S16", "a=group:LS a ", " b">>, <<"S16", "a=group:", " a">>, <<"S16", "a=msid:", "">>, <<"S16", "a=msid:", " b">>, <<"S16", "a=msid:a ", "">>, <<"S16", "a=msid-semantic:", "">>, <<"S16", "a=msid-semantic:", " a">>,
  <<"S16", "a=msid-semantic:WMS ", "">>, <<"S16", "a=msid-semantic:WMS a ", " b">>, <<"S16", "a=ssrc:1 ", "">>, <<"S16", "a=ssrc:1 ", ":x">>, <<"S16", "a=ssrc:1 cname:", "">>, <<"S16", "a=ssrc:1 msid:a ", "">>, <<"S16", "a=ssrc-group:", " 1 2">>,
  <<"S17", "a=rid:", " send">>, <<"S17", "a=rid:", " recv pt=96;max-fs=1">>, <<"S17", "a=rid:1 ", "">>, <<"S17", "a=rid:1 send ", "">>, <<"S17", "a=rid:1 send max-fs=1;", "">>, <<"S17", "a=rid:1 send depends=", "">>, <<"S17", "a=rid:1 send depends=a,", ";foo=1">>,
  <<"S17", "a=rid:1 send foo=", ";max-br=2">>, <<"S17", "a=rid:1 send ", "=1;bar">>,
  <<"S17", "a=simulcast:send ", "">>, <<"S17", "a=simulcast:send 1;", ",2">>, <<"S17", "a=simulcast:recv 1 send ", "">>, <<"S17", "a=simulcast:send ~", "">>, <<"S17", "a=simulcast:", " 1">>, <<"S17", "a=simulcast:send rid=", "">>, <<"S17", "a=simulcast:send 1 ", " 2">>,
  <<"S15", "a=rtpmap:0 ", "/8000">>, <<"S15", "a=rtpmap:0 ", "/8000/2">>, <<"S15", "a=rtpmap:0 x/8000/1", "">>, <<"S15", "a=rtcp-fb:* nack pli ", "">>, <<"S15", "a=rtcp-fb:1 ccm tmmbr smaxpr=120 ", "">>, <<"S15", "a=rtcp-fb:1 trr-int 5 ", " a">>,
  <<"S15", "a=rtcp-fb:1 ", "">>, <<"S15", "a=rtcp-fb:1 nack ", "">>, <<"S15", "a=rtcp-fb:1 ack ", " z">>, <<"S15", "a=rtcp-fb:1 ccm ", "">>, <<"S15", "a=rtcp:9 IN IP6 ", "">>, <<"S15", "a=sctpmap:5 ", " 1">>,
  <<"S18", "a=imageattr:* send [x=1,y=2,", "=3]">>, <<"S18", "a=imageattr:* send [x=1,y=2,q=", "]">>, <<"S18", "a=imageattr:* ", " *">>, <<"S18", "a=imageattr:* send ", "">>, <<"S18", "a=imageattr:* recv * ", " *">>, <<"S18", "a=imageattr:* send [x=1,", "]">>, <<"S18", "a=framerate:", "">> >>

---------------------------------------------------------------------------
\* <<group, prefix, first separator..., suffix>>: every list of words.
Related == << "a", "A", "b", "ab", "-", "1", "01", "10", "*" >>
ListHoles == <<
  <<"S16", "a=group:BUNDLE ", " ", "">>, <<"S13", "a=ice-options:", " ", "">>, <<"S16", "a=msid-semantic:WMS ", " ", "">>, <<"S17", "a=simulcast:send ", ";", "">>, <<"S17", "a=simulcast:recv x send ", ",", "">>, <<"S17", "a=rid:1 send depends=", ",", "">>,
  <<"S17", "a=rid:1 send ", ";", "">>, <<"S17", "a=rid:1 recv pt=96;", "=1;", "=2">>, <<"S17", "a=rid:1 send pt=", ",", "">>, <<"S16", "a=ssrc-group:FID ", " ", "">>, <<"S14", "a=fmtp:96 ", "=1;", "=1">>, <<"S14", "a=fmtp:96 z=", ";z=", "">>, <<"S16", "a=extmap:1 u ", " ", "">>,
  <<"S13", "a=candidate:0 1 UDP 5 ::1 9 typ host ", " v ", " v">>, <<"S13", "a=candidate:0 1 UDP 5 ::1 9 typ host n ", " n ", "">>, <<"S09", "m=application 9 UDP/DTLS/SCTP ", " ", "">>, <<"S09", "m=video 9 RTP/AVP 0 ", " ", "">>,
  <<"S15", "a=rtcp-fb:* nack pli ", " ", "">>, <<"S10", "s=", " ", "">> >>

\* <<group, prefix, repeated, last>>: every list, with a number of entries.
RepeatHoles == <<
  <<"S16", "a=group:BUNDLE", " t", " u">>, <<"S13", "a=ice-options:o", " o", " p">>, <<"S16", "a=msid-semantic:WMS", " i", " j">>, <<"S17", "a=simulcast:send 0", ";1", ";~2">>, <<"S17", "a=simulcast:send 0", ",1", ",~2">>, <<"S17", "a=simulcast:recv 0", ";1,2", " send 3">>,
  <<"S17", "a=rid:1 send depends=d", ",d", ",e">>, <<"S17", "a=rid:1 send max-fs=1", ";f", ";g=h">>, <<"S17", "a=rid:1 send pt=1", ",2", ",65535">>, <<"S16", "a=ssrc-group:SIM 1", " 2", " 4294967295">>, <<"S14", "a=fmtp:96 max-fs=1", ";q=1", ";w=2">>, <<"S14", "a=fmtp:63 1/2", "/3", "/4">>,
  <<"S14", "a=fmtp:96 apt=1", ";rtx-time=1", ";rtx-time=2">>, <<"S14", "a=fmtp:101 0", ",1", ",2-3">>, <<"S14", "a=fmtp:96 max-br=1", ";max-br=2", ";MAX-BR=3">>,
  <<"S16", "a=extmap:1 u", " e", " f=g">>, <<"S13", "a=candidate:0 1 UDP 5 ::1 9 typ host", " x y", " ufrag z">>, <<"S13", "a=candidate:0 1 UDP 5 ::1 9 typ host raddr ::2", " generation 1", " rport 2">>, <<"S13", "a=remote-candidates:1 ::1 9", " 2 ::2 8", " 3">>,
  <<"S09", "m=application 9 UDP/DTLS/SCTP a", " b", " c">>, <<"S09", "m=video 9 RTP/AVP 0", " 96", " 127">>, <<"S15", "a=rtcp-fb:* nack pli x", " y", " z">>, <<"S15", "a=rtpmap:0 x/8000/2", "/3", "/4">>, <<"S18", "a=imageattr:1 send [x=1,y=2]", " [x=3,y=4]", " recv *">>, <<"S18", "a=imageattr:1 send [x=[1,2", ",3", "],y=4]">>,
  <<"S18", "a=imageattr:1 send [x=1,y=2,sar=[0.1,0.2", ",0.2", ",0.3]]">>, <<"S18", "a=imageattr:1 send [x=1,y=2", ",q=0.5", ",k=[v,w]]">>, <<"S10", "s=n", " ", "m">>, <<"S10", "s=n", "x y ", "">>, <<"S10", "b=", "Z", ":1">>, <<"S10", "c=IN IP4 h", ".h", "/1/2">>, <<"S10", "c=IN IP4 h/1/2", "/3", "/4">>,
  <<"S10", "o=", "u", " 1 2 IN IP4 ::1">>, <<"S10", "o=- 1 2 IN IP6 h", ".i", "">>, <<"S12", "a=x", "-y", ":z">>, <<"S12", "a=sendrecv", " ", "">>, <<"S12", " ", " ", "a=rtcp-mux">>, <<"S12", "a=label:", " ", "x">>, <<"S16", "a=ssrc:1 cname:c", ":d", "">> >>

---------------------------------------------------------------------------
\* Every combination of valid alternatives.
OrNot(s) == << "", s >>
FmtpValid == << "profile-level-id=42e01f", "profile-level-id=42000A", "level-asymmetry-allowed=1", "level-asymmetry-allowed=0", "packetization-mode=1", "packetization-mode=0", "max-fs=3600", "max-cpb=5", "max-dpb=6", "max-br=7", "max-mbps=8", "max-fr=30",
   "profile=0", "profile=2", "level-idx=5", "tier=1", "maxplaybackrate=44100", "maxplaybackrate=48000", "maxaveragebitrate=1", "ptime=20", "minptime=10", "maxptime=40", "usedtx=1", "stereo=1", "stereo=0", "useinbandfec=1", "cbr=1", "apt=96", "rtx-time=5", "foo=bar", "Baz=1=2" >>
RidMax == << OrNot("max-width=1280;"), OrNot("max-height=720;"), OrNot("max-fps=30;"), OrNot("max-fs=3600;"), OrNot("max-br=64000;"), OrNot("max-pps=5;") >>
SimLists == << "1", "1;2", "1,2", "~1", "1,~2;~3,4", "rid=1;~2", "~a,b,c", "x;y;z" >>
XVals == << "800", "[1:5]", "[1:2:5]", "[1,3,2]" >>
FbForms == << "nack", "nack sli", "nack pli", "nack rpsi", "nack app", "ack rpsi", "ack app", "ccm", "ccm fir", "ccm tmmbr", "ccm tstr", "ccm vbcm", "trr-int 0", "trr-int 5", "trr-int 4294967295", "goog-remb", "transport-cc" >>
Addrs == << "IP4 1.2.3.4", "IP4 a.Example", "IP4 Ex_1", "IP6 ::", "IP6 2001:DB8::0:1", "IP6 h6.x", "ip4 0.0.0.0", "Ip6 ::FFFF:1.2.3.4" >>
ProductForms == <<
  << "S09", << <<"m=">>, <<"audio ", "video ", "application ">>, <<"9 ", "0 ", "65535 ", "9/1 ", "0/2 ", "5/4294967295 ", "65535/0 ">>,
     <<"RTP/AVP ", "RTP/AVPF ", "RTP/SAVP ", "RTP/SAVPF ", "TCP/DTLS/RTP/SAVP ", "TCP/DTLS/RTP/SAVPF ", "UDP/TLS/RTP/SAVP ", "UDP/TLS/RTP/SAVPF ", "DTLS/SCTP ", "UDP/DTLS/SCTP ", "TCP/DTLS/SCTP ">>,
     <<"0", "8 0 127", "96 96", "webrtc-datachannel", "5000", "65535", "0 a", "*", "64", "127 x 128">> >> >>,
  << "S10", << <<"o=">>, <<"- ", "alice ", "A.b@c ">>, <<"0 ", "18446744073709551615 ", "7 ">>, <<"0 ", "18446744073709551615 ", "7 ">>, <<"IN ", "in ">>, Addrs >> >>,
  << "S10", << <<"c=">>, <<"IN ", "in ">>, Addrs, <<"", "/0", "/1", "/127", "/255">>, <<"", "/0", "/1", "/2", "/3", "/4294967295">> >> >>,
  << "S10", << <<"b=">>, <<"AS", "CT", "TIAS", "RS", "X-a", "as", "Tias", "ct", "rr">>, <<":">>, <<"0", "1", "128", "4294967295", "0009">> >> >>,
  << "S10", << <<"t=">>, <<"0", "1", "3724394400", "18446744073709551615">>, <<" ">>, <<"0", "1", "3724394400", "18446744073709551615">> >> >>,
  << "S13", << <<"a=candidate:f/1 2 ">>, <<"UDP 5 10.0.0.1 9 typ host", "tcp 18446744073709551615 h.Ex 0 typ SRFLX", "UDP 0 ::1 65535 typ prflx", "TCP 1 FE80::A 9 typ relay">>, << "", " raddr 10.0.0.2", " raddr h2.X" >>, << "", " rport 0", " rport 65535" >>,
     << "", " tcptype active", " tcptype PASSIVE", " tcptype so" >>, << "", " generation 0", " generation 3" >>, OrNot(" ufrag u+/"), << "", " network-cost 0", " network-cost 50" >>, << "", " foo bar", " Foo bar Foo baz" >> >> >>,
  << "S13", << <<"a=remote-candidates:">>, <<"0 ", "1 ", "4294967295 ">>, <<"10.0.0.1 ", "FE80::A ", "h.Ex ">>, <<"0", "9", "65535">>, <<"", " 2 10.0.0.2 10">> >> >>,
  << "S13", << <<"a=setup:", "a=SETUP:">>, <<"active", "passive", "actpass", "holdconn", "ActPass", "HOLDCONN">> >> >>,
  << "S14", << <<"a=fmtp:96 ">>, FmtpValid, <<";">>, FmtpValid, <<";">>, FmtpValid >> >>,
  << "S14", << <<"a=fmtp:">>, <<"0", "101", "127">>, <<" ">>, <<"", "apt=0", "apt=255", "APT=7">>, <<"", ";rtx-time=0", ";rtx-time=3000", ";max-fs=0">>, <<"", ";stereo=1", ";foo=bar">>, <<"", ";apt=9", ";rtx-time=1">> >> >>,
  << "S15", << <<"a=rtpmap:">>, <<"0 ", "96 ", "127 ">>, <<"opus", "VP8", "telephone-event", "G7221", "L16">>, <<"/0", "/8000", "/4294967295">>, <<"", "/0", "/1", "/2", "/4294967295">> >> >>,
  << "S15", << <<"a=rtcp-fb:">>, <<"* ", "0 ", "101 ", "255 ">>, FbForms, <<"", " a", " a b", " -", " a  b", " 5", " 5 a b c">> >> >>,
  << "S15", << <<"a=rtcp:">>, <<"0", "9", "65535">>, <<" IN ">>, Addrs, <<"", " x">> >> >>,
  << "S15", << <<"a=sctpmap:">>, <<"0 ", "5000 ", "65535 ">>, <<"webrtc-datachannel ", "WEBRTC-datachannel ">>, <<"0", "256", "4294967295">> >> >>,
  << "S15", << <<"a=sctp-port:", "a=max-message-size:", "a=ptime:", "a=maxptime:">>, <<"0", "1", "20", "65535">> >> >>,
  << "S16", << <<"a=ssrc:">>, <<"0", "1", "4294967295">>, <<"", " cname", " CNAME", " msid", " label", " mslabel", " foo">>, <<"", ":x", ":a b", ":", ":a:b", ":-">> >> >>,
  << "S16", << <<"a=ssrc-group:">>, <<"DUP", "FID", "FEC", "FEC-FR", "SIM", "sim">>, <<" 1", " 0", " 4294967295">>, <<"", " 2", " 1">>, <<"", " 3", " 2", " 1">> >> >>,
  << "S16", << <<"a=group:">>, <<"LS", "FID", "SRF", "ANAT", "FEC", "DDP", "BUNDLE", "bundle">>, <<"", " a", " 0">>, <<"", " b", " a">>, <<"", " c", " a", " b">> >> >>,
  << "S16", << <<"a=msid:">>, <<"a", "-", "{1}">>, <<"", " -", " b", " a">> >> >>,
  << "S16", << <<"a=msid-semantic:">>, <<"WMS", "wms", "X">>, <<"", " *", " a", " b c", " * a", " a *">> >> >>,
  << "S16", << <<"a=extmap:">>, <<"0", "1", "14", "4096", "65535">>, <<"", "/sendonly", "/recvonly", "/sendrecv", "/SendRecv">>, <<" ">>, <<"urn:x", "http://a/b?c#d", "-">>, <<"", " e", " e f", " e=f g=h i", " 1">> >> >>,
  << "S17", << <<"a=rid:">>, <<"1 ", "a-B_c ">>, <<"send ", "recv ">>, <<"", "pt=96;", "pt=96,0,65535;">> >> \o RidMax \o << <<"", "depends=a;", "depends=a,b;">>, <<"", "foo=bar;", "foo=bar;baz;">>, <<"max-fs=1">> >> >>,
  << "S17", << <<"a=rid:1 ">>, <<"send ", "recv ">>, <<"", "pt=96;">>, <<"", "x=y;">>, <<"", "depends=a;">>, <<"max-width=1", "max-height=2", "max-fps=3", "max-fs=4", "max-br=5", "max-pps=6", "depends=b", "z", "z=">>, <<"", ";w=v", ";max-fs=9", ";depends=c">> >> >>,
  << "S17", << <<"a=simulcast:", "a=simulcast: ">>, <<"send ">>, SimLists, <<"">> >> >>, << "S17", << <<"a=simulcast:">>, <<"recv ">>, SimLists, <<" send ">>, SimLists >> >>, << "S17", << <<"a=simulcast:">>, <<"send ">>, SimLists, <<" recv ">>, SimLists >> >>,
  << "S18", << <<"a=imageattr:">>, <<"* ", "0 ", "127 ">>, <<"send ", "recv ">>, <<"[x=">>, XVals, <<",y=">>, <<"640", "[2:7]", "[7,3]">>, <<"", ",sar=1.1", ",sar=[0.5-1.5]", ",sar=[0.5,1,1.5]">>, <<"", ",par=[1.2-1.3]">>, <<"", ",q=0.6", ",q=1">>, <<"", ",k=v">>, <<"]">> >> >>,
  << "S18", << <<"a=imageattr:1 ">>, <<"send ">>, <<"*", "[x=1,y=2]", "[x=1,y=2] [x=3,y=4]", "[x=[1,2],y=2,q=0.1] [x=3,y=[4:5]] [x=6,y=7]">>, <<"", " recv *", " recv [x=5,y=6]", " recv [x=5,y=6,sar=2] [x=7,y=8]">> >> >>,
  << "S18", << <<"a=imageattr:1 ">>, <<"recv ">>, <<"*", "[x=1,y=2]", "[x=1,y=2] [x=3,y=4]", "[x=[1,2],y=2,q=0.1] [x=3,y=[4:5]] [x=6,y=7]">>, <<"", " send *", " send [x=5,y=6]", " send [x=5,y=6,sar=2] [x=7,y=8]">> >> >>,
  << "S18", << <<"a=framerate:">>, <<"1", "25", "29.97", "0.5", "120.0", "1000000", "0.001", "59.94005994", "0.00001", "0.0000001", "20000000000", "123456789012345", "100000000000000000000", "1000000.5", "1e12", "2.5e-9", "33333.3333333333">> >> >> >>

---------------------------------------------------------------------------
\* The forms of a group ("ALL": of every group).
In(g, h) == g = "ALL" \/ h[1] = g
Triples(h) == << <<h[2]>>, Related, <<h[3]>>, Related, <<h[3]>>, Related, <<h[4]>> >>
Pairs(h) == << <<h[2]>>, Related, <<h[3]>>, Related, <<h[4]>> >>
Repeats(h) == << <<h[2]>>, [i \in 1..Len(Lengths) |-> Rep(h[3], Lengths[i])], <<"", h[4]>> >>
Of(g, hs, F(_)) == Map(SelectSeq(hs, LAMBDA h : In(g, h)), F)
Forms(g) ==
  Of(g, ProductForms, LAMBDA h : h[2]) \o Of(g, WordHoles, LAMBDA h : << <<h[2]>>, WordTexts, <<h[3]>> >>)
  \o Of(g, ListHoles, Pairs) \o Of(g, ListHoles, Triples) \o Of(g, RepeatHoles, Repeats)
=============================================================================
