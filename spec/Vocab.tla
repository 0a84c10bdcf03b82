-------------------------------- MODULE Vocab --------------------------------
(***************************************************************************)
(* Grammar derivations.  A construct is a sequence of slots, a slot is a     *)
(* sequence of alternative texts whose first element is the regular one.     *)
(* A derivation concatenates one alternative per slot; Gen_Lines enumerates  *)
(* all derivations with at most two irregular slots.                         *)
(***************************************************************************)
EXTENDS Text

One(s) == <<s>>
Sp == << " ", "  ", "\t", "" >>
SpEnd == << "", " ", "\t " >>

\* Candidate texts for numeric fields: every power-of-two bound and its neighbours.
AnyNum == << "1", "0", "2", "5", "31", "32", "63", "64", "95", "96", "99", "100", "101", "126", "127", "128", "129",
             "254", "255", "256", "257", "511", "512", "65534", "65535", "65536", "65537", "131072",
             "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967297", "8589934592",
             "9999999999", "10000000000", "10000000001", "9223372036854775807", "9223372036854775808",
             "18446744073709551614", "18446744073709551615", "18446744073709551616",
             "99999999999999999999999999", "340282366920938463463374607431768211456",
             "-1", "-0", "+1", "+", "-", "007", "00000000000000000000000005", "x", "1x", "x1", "0x10", "1.0", "1e3", "1_0", "" >>
SmallNum == << "1", "0", "3", "255", "256", "65535", "65536", "4294967295", "4294967296", "18446744073709551616", "-1", "+7", "08", "x", "" >>

---------------------------------------------------------------------------
AddrTexts == << "127.0.0.1", "0.0.0.0", "255.255.255.255", "10.0.0.256", "256.1.1.1", "1.2.3", "1.2.3.4.5", "1.2.3.4.", "01.2.3.4",
   "1.2.3.04", "-1.2.3.4", "1.2.3.x", "1..3.4", ".1.2.3.4", "192.168.001.1", "192.0.2.5",
   "::", "::1", "1::", "1::2", "2001:db8::1", "2001:DB8:0:0:0:0:0:1", "2001:db8:0:1:0:0:0:1", "2001:0:0:1:0:0:0:1",
   "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:0:3:4:5:6:7:8", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9",
   "::ffff:1.2.3.4", "::ffff:0102:0304", "::1.2.3.4", "1:2:3:4:5:6:1.2.3.4", "64:ff9b::192.0.2.33", "1:2:3:4:5:6:7:1.2.3.4",
   "FE80::A:b", "fe80::1%eth0", "12345::", "1:::2", ":::", "::1::", "g::1", ":1:2:3:4:5:6:7", "1:2:3:4:5:6:7:", "00001::", "0:0:0:0:0:0:0:0",
   "1:0:0:2:0:0:0:3", "0:0:1:2:3:4:5:6", "1:2:0:0:3:4:0:0", "::ffff:0:1.2.3.4", "::ffff", "::1.2.3", "::1.2.3.256",
   "[::1]", "[1:2::3]", "[::1", "::1]", "[]", "[:]", "[1.2.3.4]",
   "example.com", "EXAMPLE.Com", "localhost", "a", "A-b.C", "x_y", "host1", "1host", "a.b.c.d.e", "-", "a..b", "example.com.", ".", "..",
   "a/b", "a:b", "a@b", "a#b", "a?b", "a b", "a\\b", "a^b", "a|b", "a<b", "a>b", "a[b", "a]b", "%41", "xn--bcher-kva", "123", "0x7f000001", "1.0x2", "12345678901",
   "a!b", "a$b", "a&b", "a'b", "a(b", "a)b", "a*b", "a+b", "a,b", "a;b", "a=b", "a~b", "a`b", "a{b", "a}b", "a\"b", "*", "~", "" >>

AddrHoles == <<
   << <<"o=- 1 2 IN IP4 ">>, <<"o=- 1 2 IN IP6 ">> >>, << <<"c=IN IP4 ">>, <<"c=IN IP6 ">> >> >>
AddrConstructs == <<
   << <<"o=- 1 2 IN IP4 ", "o=- 1 2 in ip6 ", "o=- 1 2 In Ip4 ", "o=- 1 2 IN IP6 ", "o=- 1 2 IN IP5 ", "o=- 1 2 IX IP4 ">>, AddrTexts, <<"">> >>,
   << <<"c=IN IP4 ", "c=IN IP6 ", "c=in ip4 ", "c=iN iP6 ", "c=IN IP ", "c=IN ">>, AddrTexts, <<"", "/127", "/1/2", "/">> >>,
   << <<"a=rtcp:9 IN IP4 ", "a=rtcp:9 IN IP6 ", "a=rtcp:9 in Ip6 ", "a=rtcp:9 XX IP4 ">>, AddrTexts, <<"">> >>,
   << <<"a=candidate:0 1 UDP 5 ", "a=candidate:f 2 tcp 6 ">>, AddrTexts, <<" 9 typ host", " 9 typ relay raddr ::1 rport 1">> >>,
   << <<"a=candidate:0 1 UDP 5 192.0.2.1 9 typ srflx raddr ", "a=candidate:0 1 UDP 5 192.0.2.1 9 typ relay RADDR ">>, AddrTexts, <<"", " rport 9", " generation 0">> >>,
   << <<"a=remote-candidates:1 ", "a=remote-candidates:2 ">>, AddrTexts, <<" 9", " 65535 2 1.2.3.4 5">> >> >>

---------------------------------------------------------------------------
MediaConstructs == <<
   << <<"m=", "M=", " m =", "m= ">>,
      <<"audio", "video", "application", "AUDIO", "Video", "text", "message", "image", "audi", "audioo", "">>, Sp,
      <<"9", "0", "1", "65535", "65536", "4294967295", "4294967296", "-1", "9/0", "9/1", "9/2", "9/4294967295", "9/4294967296", "9/", "/2", "9/2/3", "9/x", "", "09", "+9">>, Sp,
      <<"RTP/SAVPF", "RTP/AVP", "RTP/AVPF", "RTP/SAVP", "TCP/DTLS/RTP/SAVP", "TCP/DTLS/RTP/SAVPF", "UDP/TLS/RTP/SAVP",
        "UDP/TLS/RTP/SAVPF", "DTLS/SCTP", "UDP/DTLS/SCTP", "TCP/DTLS/SCTP", "udp/tls/rtp/savpf", "tcp/Dtls/sctp", "rtp/avp", "RTP/SAVPFF", "UDP/SCTP", "TCP/TLS/RTP/SAVPF", "">>, Sp,
      <<"0", "1", "2", "3", "18", "19", "20", "34", "35", "63", "64", "72", "76", "95", "96", "127", "128", "255", "256", "4294967296", "-1", "x", "*", "webrtc-datachannel", "5000", "0 8", "96 97 98", "8 0", "0 0", "0 1", "0 64", "96\t97", "0 x", "65535 a", "">>,
      SpEnd >>,
   << <<"m=application 9 ">>, <<"UDP/DTLS/SCTP", "DTLS/SCTP", "TCP/DTLS/SCTP", "RTP/AVP">>, <<" ">>, <<"webrtc-datachannel", "5000", "0", "64", "1", "5000 5001", "a b c", "*", "~", "-1">> >>,
   << <<"m=video 9 RTP/SAVPF ", "m=audio 9 RTP/SAVPF ", "m=application 9 RTP/SAVPF ">>, [i \in 1..131 |-> ToString(i - 1)] >> >>

---------------------------------------------------------------------------
CommonConstructs == <<
   << <<"v=", "V=", "v =", "x=", "vv=", "=", "">>, <<"0", "00", "1", "2", "-0", "+0", "0 0", "0x0", "", "18446744073709551616", "v">>, SpEnd >>,
   << <<"o=", "O=">>, <<"mozilla", "-", "", "a.b@c">>, Sp, <<"506705521068071134", "0", "18446744073709551615", "18446744073709551616", "x", "-1", "">>, Sp,
      <<"0", "1", "18446744073709551615", "18446744073709551616", "a">>, Sp, <<"IN", "in", "In", "IX", "INN", "">>, Sp, <<"IP4", "ip4", "IP6", "ip6", "IP5", "IPv4", "">>, Sp,
      <<"0.0.0.0", "::1", "example.com", "256.0.0.1", "">>, <<"", " extra", " ">> >>,
   << <<"s=", "S=", " s=", "s =">>, <<"-", "", " ", "  ", "SIP Call", " lead", "trail ", "a=b", "=", "\t", "s", "v=0", "x  y", "a:b;c">> >>,
   << <<"t=", "T=">>, <<"0", "1", "18446744073709551615", "18446744073709551616", "-1", "x", "+1", "001", "">>, Sp, <<"0", "2", "18446744073709551615", "18446744073709551616", "-1", "y", "">>, <<"", " ", " 0", " x">> >>,
   << <<"c=", "C=">>, <<"IN", "in", "IX", "">>, Sp, <<"IP4", "ip4", "IP6", "Ip6", "IP", "4", "">>, Sp,
      <<"0.0.0.0", "::", "FE80::1", "Example.Com", "1.2.3.256", "">>, <<"", "/127", "/0", "/255", "/256", "/-1", "/x", "/">>, <<"", "/3", "/0", "/4294967295", "/4294967296", "/x", "/", "/1/2">>, <<"", " ", " extra">> >>,
   << <<"b=", "B=">>, <<"AS", "as", "As", "CT", "ct", "TIAS", "tias", "TiAs", "X-YZ", "RS", "RR", "asx", "a s", "">>, <<":", "", "::", " : ", "=">>, <<"1", "0", "4294967295", "4294967296", "-1", "x", "+1", "1.5", "", " 1", "1 ">>, <<"", " ", ":1", " 1">> >>,
   << <<"e", "i", "k", "p", "r", "u", "z", "E", "Z", "d", "f", "g", "h", "j", "l", "n", "q", "w", "x", "y", "0", "-", "vs", " ", "", "a a">>, <<"=", "", " = ", "==">>, <<"x", "", " ", "a=b">> >> >>

---------------------------------------------------------------------------
\* Names x spelling x value forms.
NamePre == <<"a=", "A=", " a =", "a= ", "a=x-", "a=  \t">>
NameSuf == <<"", "s", "-", " ", "\t">>
ValueForms == << "", ":", ": ", ":1", ":x", ":1 2", ":*", ": 1 ", "=1", ":1 send", ":0 1", ":a b c", ":96 x=1", ":sha-1 00", ":BUNDLE a", ":FID 1", ":send", ":actpass", ":1/x u" >>
NameConstructs == <<
   << NamePre, <<"bundle-only", "BUNDLE-ONLY", "Bundle-only", "bundle-onl", "undle-only", "bu_ndle-only">>, NameSuf, ValueForms >>,
   << NamePre, <<"end-of-candidates", "END-OF-CANDIDATES", "End-of-candidates", "end-of-candidate", "nd-of-candidates", "en_d-of-candidates">>, NameSuf, ValueForms >>,
   << NamePre, <<"extmap-allow-mixed", "EXTMAP-ALLOW-MIXED", "Extmap-allow-mixed", "extmap-allow-mixe", "xtmap-allow-mixed", "ex_tmap-allow-mixed">>, NameSuf, ValueForms >>,
   << NamePre, <<"ice-lite", "ICE-LITE", "Ice-lite", "ice-lit", "ce-lite", "ic_e-lite">>, NameSuf, ValueForms >>,
   << NamePre, <<"ice-mismatch", "ICE-MISMATCH", "Ice-mismatch", "ice-mismatc", "ce-mismatch", "ic_e-mismatch">>, NameSuf, ValueForms >>,
   << NamePre, <<"inactive", "INACTIVE", "Inactive", "inactiv", "nactive", "in_active">>, NameSuf, ValueForms >>,
   << NamePre, <<"recvonly", "RECVONLY", "Recvonly", "recvonl", "ecvonly", "re_cvonly">>, NameSuf, ValueForms >>,
   << NamePre, <<"rtcp-mux", "RTCP-MUX", "Rtcp-mux", "rtcp-mu", "tcp-mux", "rt_cp-mux">>, NameSuf, ValueForms >>,
   << NamePre, <<"rtcp-mux-only", "RTCP-MUX-ONLY", "Rtcp-mux-only", "rtcp-mux-onl", "tcp-mux-only", "rt_cp-mux-only">>, NameSuf, ValueForms >>,
   << NamePre, <<"rtcp-rsize", "RTCP-RSIZE", "Rtcp-rsize", "rtcp-rsiz", "tcp-rsize", "rt_cp-rsize">>, NameSuf, ValueForms >>,
   << NamePre, <<"sendonly", "SENDONLY", "Sendonly", "sendonl", "endonly", "se_ndonly">>, NameSuf, ValueForms >>,
   << NamePre, <<"sendrecv", "SENDRECV", "Sendrecv", "sendrec", "endrecv", "se_ndrecv">>, NameSuf, ValueForms >>,
   << NamePre, <<"ice-pwd", "ICE-PWD", "Ice-pwd", "ice-pw", "ce-pwd", "ic_e-pwd">>, NameSuf, ValueForms >>,
   << NamePre, <<"ice-ufrag", "ICE-UFRAG", "Ice-ufrag", "ice-ufra", "ce-ufrag", "ic_e-ufrag">>, NameSuf, ValueForms >>,
   << NamePre, <<"identity", "IDENTITY", "Identity", "identit", "dentity", "id_entity">>, NameSuf, ValueForms >>,
   << NamePre, <<"label", "LABEL", "Label", "labe", "abel", "la_bel">>, NameSuf, ValueForms >>,
   << NamePre, <<"mid", "MID", "Mid", "mi", "id", "mi_d">>, NameSuf, ValueForms >>,
   << NamePre, <<"max-message-size", "MAX-MESSAGE-SIZE", "Max-message-size", "max-message-siz", "ax-message-size", "ma_x-message-size">>, NameSuf, ValueForms >>,
   << NamePre, <<"maxptime", "MAXPTIME", "Maxptime", "maxptim", "axptime", "ma_xptime">>, NameSuf, ValueForms >>,
   << NamePre, <<"ptime", "PTIME", "Ptime", "ptim", "time", "pt_ime">>, NameSuf, ValueForms >>,
   << NamePre, <<"candidate", "CANDIDATE", "Candidate", "candidat", "andidate", "ca_ndidate">>, NameSuf, ValueForms >>,
   << NamePre, <<"dtls-message", "DTLS-MESSAGE", "Dtls-message", "dtls-messag", "tls-message", "dt_ls-message">>, NameSuf, ValueForms >>,
   << NamePre, <<"extmap", "EXTMAP", "Extmap", "extma", "xtmap", "ex_tmap">>, NameSuf, ValueForms >>,
   << NamePre, <<"fingerprint", "FINGERPRINT", "Fingerprint", "fingerprin", "ingerprint", "fi_ngerprint">>, NameSuf, ValueForms >>,
   << NamePre, <<"fmtp", "FMTP", "Fmtp", "fmt", "mtp", "fm_tp">>, NameSuf, ValueForms >>,
   << NamePre, <<"framerate", "FRAMERATE", "Framerate", "framerat", "ramerate", "fr_amerate">>, NameSuf, ValueForms >>,
   << NamePre, <<"group", "GROUP", "Group", "grou", "roup", "gr_oup">>, NameSuf, ValueForms >>,
   << NamePre, <<"ice-options", "ICE-OPTIONS", "Ice-options", "ice-option", "ce-options", "ic_e-options">>, NameSuf, ValueForms >>,
   << NamePre, <<"ice-pacing", "ICE-PACING", "Ice-pacing", "ice-pacin", "ce-pacing", "ic_e-pacing">>, NameSuf, ValueForms >>,
   << NamePre, <<"imageattr", "IMAGEATTR", "Imageattr", "imageatt", "mageattr", "im_ageattr">>, NameSuf, ValueForms >>,
   << NamePre, <<"msid", "MSID", "Msid", "msi", "sid", "ms_id">>, NameSuf, ValueForms >>,
   << NamePre, <<"msid-semantic", "MSID-SEMANTIC", "Msid-semantic", "msid-semanti", "sid-semantic", "ms_id-semantic">>, NameSuf, ValueForms >>,
   << NamePre, <<"remote-candidates", "REMOTE-CANDIDATES", "Remote-candidates", "remote-candidate", "emote-candidates", "re_mote-candidates">>, NameSuf, ValueForms >>,
   << NamePre, <<"rid", "RID", "Rid", "ri", "id", "ri_d">>, NameSuf, ValueForms >>,
   << NamePre, <<"rtcp", "RTCP", "Rtcp", "rtc", "tcp", "rt_cp">>, NameSuf, ValueForms >>,
   << NamePre, <<"rtcp-fb", "RTCP-FB", "Rtcp-fb", "rtcp-f", "tcp-fb", "rt_cp-fb">>, NameSuf, ValueForms >>,
   << NamePre, <<"rtpmap", "RTPMAP", "Rtpmap", "rtpma", "tpmap", "rt_pmap">>, NameSuf, ValueForms >>,
   << NamePre, <<"sctp-port", "SCTP-PORT", "Sctp-port", "sctp-por", "ctp-port", "sc_tp-port">>, NameSuf, ValueForms >>,
   << NamePre, <<"sctpmap", "SCTPMAP", "Sctpmap", "sctpma", "ctpmap", "sc_tpmap">>, NameSuf, ValueForms >>,
   << NamePre, <<"setup", "SETUP", "Setup", "setu", "etup", "se_tup">>, NameSuf, ValueForms >>,
   << NamePre, <<"simulcast", "SIMULCAST", "Simulcast", "simulcas", "imulcast", "si_mulcast">>, NameSuf, ValueForms >>,
   << NamePre, <<"ssrc", "SSRC", "Ssrc", "ssr", "src", "ss_rc">>, NameSuf, ValueForms >>,
   << NamePre, <<"ssrc-group", "SSRC-GROUP", "Ssrc-group", "ssrc-grou", "src-group", "ss_rc-group">>, NameSuf, ValueForms >>,
   << <<"a=">>, << "foo", "cname", "rtcp-xr", "crypto", "quality", "sdplang", "lang", "tool", "type", "charset", "cat", "keywds", "orient",
                         "rtcpmux", "sctp_port", "candidates", "ssrcgroup", "sendrecvonly", "-", ":", "1", "maxmessagesize", "max-ptime", "rtpmaps", "frame-rate", "bundleonly", "icelite" >>, ValueForms >> >>

---------------------------------------------------------------------------
\* Names with letters replaced by a character that folds to them.
Unfolded(n) ==
  SetToSeq({SubSeq(n, 1, p[1] - 1) \o p[2] \o SubSeq(n, p[1] + Len(PeculiarFold[p[2]]), Len(n)) :
              p \in {q \in (1..Len(n)) \X PeculiarChars : q[1] + Len(PeculiarFold[q[2]]) - 1 <= Len(n) /\ SubSeq(n, q[1], q[1] + Len(PeculiarFold[q[2]]) - 1) = PeculiarFold[q[2]]}})
PeculiarNames == Map(NameConstructs, LAMBDA c : << <<"a=">>, <<c[2][1]>> \o Unfolded(c[2][1]), <<"">>, <<":1", "">> >>)
\* ICE / DTLS.
CandExtTexts == << "", " raddr 192.168.1.1 rport 9", " rport 9 raddr FE80::1", " RADDR a.Example RPORT 65535", " raddr 10.0.0.1", " rport 1",
   " tcptype active", " tcptype passive", " tcptype so", " TCPTYPE SO", " tcptype x", " generation 0", " generation 4294967295", " generation 4294967296", " generation x",
   " ufrag Abc+/1", " UFRAG x", " network-cost 10", " network-cost 4294967296", " Network-Cost 0", " foo bar", " Foo Bar baz QUX", " foo", " raddr", " rport", " tcptype", " ufrag", " generation",
   " rport 65536", " rport 70000", " rport -1", " rport x", " raddr a:b", " raddr 1.2.3.999", " generation 1 generation 2", " foo 1 foo 2", " rport 1 rport 2",
   " typ host", " raddr raddr", " rport rport", " ufrag ufrag", " a generation", " generation 3 foo raddr raddr 1.1.1.1", "\tgeneration  7 ", " network-id 1 network-cost 50" >>
FpByte == "AB"
RECURSIVE FpN(_, _)
FpN(n, b) == IF n = 0 THEN "" ELSE IF n = 1 THEN b ELSE b \o ":" \o FpN(n - 1, b)
Sha1Fp == "7B:E1:26:F8:54:5C:BD:20:68:E5:65:16:8E:8E:2C:1E:3D:BE:2B:88"
FpVals(n) == << FpN(n, "AB"), FpN(n, "ab"), FpN(n, "0f"), FpN(n - 1, "AB"), FpN(n + 1, "AB"), FpN(n, "GG"), FpN(n, "A"), FpN(n, "ABC"), FpN(n, "+1"), FpN(n, "-1"), FpN(n, ""),
   FpN(n - 1, "AB") \o ":", ":" \o FpN(n - 1, "AB"), FpN(n - 1, "00") \o ":01", FpN(n - 1, "ff") \o ":FF", FpN(n-1, "AB") \o ":G1", FpN(n-1, "AB") \o ":1G", FpN(n-1, "AB") \o "::AB" >>
IceConstructs == <<
   << <<"a=candidate:", "a=CANDIDATE:", "a=candidate: ">>, <<"0", "abc+/9", "">>, Sp, <<"1", "0", "2", "256", "4294967295", "4294967296", "-1", "x">>, Sp, <<"UDP", "TCP", "udp", "tCp", "TLS", "">>, Sp,
      <<"2122252543", "0", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "x", "-1">>, Sp, <<"172.16.156.106", "::1", "Host.Example", "1.2.3.400", "[::2]">>, Sp,
      <<"49760", "0", "65535", "65536", "65537", "4294967296", "-1", "x">>, Sp, <<"typ", "TYP", "tyq", "">>, Sp, <<"host", "srflx", "prflx", "relay", "HOST", "SrFlx", "local", "">>, CandExtTexts >>,
   << <<"a=candidate:1 1 UDP 5 10.0.0.1 9 typ host">>, CandExtTexts, CandExtTexts, CandExtTexts >>,
   << <<"a=remote-candidates:">>, <<"1", "0", "4294967295", "4294967296", "x", "-1">>, Sp, <<"10.0.0.1", "::1", "A.b", "1.2.3.256">>, Sp, <<"9", "0", "65535", "65536", "x", "">>, <<"", " ", " 2 10.0.0.2 10", " 2", " x y z">> >>,
   << <<"a=ice-ufrag:", "a=ice-pwd:", "a=ICE-UFRAG:", "a=Ice-Pwd:">>, <<"abc", "", " ", "a b", " x ", "a:b", "0", "+/", "\t">> >>,
   << <<"a=ice-options:">>, <<"trickle", "trickle ice2", "a  b\tc", "", " ", " x", "a,b">> >>,
   << <<"a=ice-pacing:">>, AnyNum, SpEnd >>,
   << <<"a=fingerprint:", "a=FINGERPRINT: ">>, <<"sha-1", "SHA-1", "sha1", "md5", "sha-3", "sha-2567", "sha-224", "sha-256", "">>, Sp, FpVals(20) \o <<Sha1Fp>>, <<"", " ", " x">> >>,
   << <<"a=fingerprint:sha-224 ">>, FpVals(28) >>,
   << <<"a=fingerprint:sha-256 ">>, FpVals(32) >>,
   << <<"a=fingerprint:sha-384 ">>, FpVals(48) >>,
   << <<"a=fingerprint:sha-512 ">>, FpVals(64) >>,
   << <<"a=setup:">>, <<"actpass", "active", "passive", "holdconn", "ACTPASS", "Active", "act", "passively", "", " passive ", "active passive">> >>,
   << <<"a=dtls-message:", "a=DTLS-MESSAGE:">>, <<"client", "server", "CLIENT", "peer", "">>, <<" ", "", "  ", "\t">>, <<"abc=", "", "a b", "FgH", "x:y">>, <<"", " ", " z">> >> >>

---------------------------------------------------------------------------
\* Format parameters.
FmtpOne == << "max-fs=3600", "profile-level-id=42e01f", "profile-level-id=42000a", "PROFILE-LEVEL-ID=42E01F", "profile-level-id=1", "profile-level-id=ffffff", "profile-level-id=1000000", "profile-level-id=xyz", "profile-level-id=",
   "packetization-mode=0", "packetization-mode=1", "packetization-mode=2", "packetization-mode=3", "level-asymmetry-allowed=1", "level-asymmetry-allowed=0", "level-asymmetry-allowed=2", "level-asymmetry-allowed=x",
   "max-mbps=46000", "max-fs=0", "max-fs=4294967295", "max-fs=4294967296", "max-cpb=5", "max-dpb=6", "max-br=7", "max-fr=60", "Max-FR=30",
   "profile=0", "profile=2", "profile=3", "level-idx=0", "level-idx=5", "level-idx=31", "level-idx=32", "tier=0", "tier=1", "tier=2",
   "maxplaybackrate=44100", "maxplaybackrate=48000", "maxplaybackrate=0", "maxaveragebitrate=64000", "ptime=20", "minptime=10", "maxptime=60", "usedtx=1", "usedtx=0", "stereo=1", "stereo=0", "useinbandfec=1", "useinbandfec=0", "cbr=1", "cbr=0", "cbr=2",
   "apt=97", "apt=255", "apt=256", "apt=0", "rtx-time=3000", "foo=bar", "Foo=Bar=Baz", "foo=", "=x", "=", "sprop-parameter-sets=Z0IACpZTBYmI,aMljiA==", "foo", "", " ", "a b=c", "x-google-min-bitrate=1", "sprop-stereo=1" >>
FmtpSep == << ";", "; ", " ;", ";;", " ; ", ",", " ", "" >>
FmtpConstructs == <<
   << <<"a=fmtp:", "a=FMTP:", "a=fmtp: ">>, <<"96", "0", "127", "128", "255", "256", "-1", "x", "*", "">>, Sp, FmtpOne, FmtpSep, FmtpOne, <<"", ";", "; ", " ", ";apt=98;rtx-time=5", ";rtx-time=5;apt=98">> >>,
   << <<"a=fmtp:100 apt=97">>, <<"", ";rtx-time=3000", ";rtx-time=0", ";rtx-time=4294967295", ";rtx-time=4294967296", ";rtx-time=x", "; rtx-time=7", ";RTX-TIME=7">>, <<"", ";max-fs=1", ";foo=bar", ";apt=98", ";stereo=1">>, <<"", ";rtx-time=9", ";baz=1">> >>,
   << <<"a=fmtp:101 ">>, << "0-15", "0-15,66,70", "0", "100", "101", "15-0", "5-5", "0-100", "0-101", "1,2,3", "1,2-4", "2-4,x", "", "x", "-", "0-", "-1", "0-1-2", "1,,2", "1, 2", ",", "1,", "0,1-16,32", "007", "+1", "0-15 " >> >>,
   << <<"a=fmtp:63 ">>, << "111/111", "96/97/98", "0/127", "128/128", "129/1", "255/255", "1/256", "/", "1/", "/1", "1", "1/x", "1/ 2", "111/111;x=1", "1//2", "+1/02" >> >>,
   << <<"a=fmtp:96">>, <<"", " ", "  ", " a", " =", " ;", " a=b;c", " a=b;=;c=d", "/97 a=b", "\ta=b", " a=b c=d", " A=B", ": a=b", " max-fs=1;max-fs=2", " foo=1;foo=2", " foo=1;max-fs=2;bar=3" >> >>,
   << <<"a=fmtp:96 ">>, <<"profile-level-id", "PROFILE-LEVEL-ID", "profile-level-id ", "profile-level-idx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"packetization-mode", "PACKETIZATION-MODE", "packetization-mode ", "packetization-modex">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"level-asymmetry-allowed", "LEVEL-ASYMMETRY-ALLOWED", "level-asymmetry-allowed ", "level-asymmetry-allowedx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"max-mbps", "MAX-MBPS", "max-mbps ", "max-mbpsx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"max-fs", "MAX-FS", "max-fs ", "max-fsx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"max-cpb", "MAX-CPB", "max-cpb ", "max-cpbx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"max-dpb", "MAX-DPB", "max-dpb ", "max-dpbx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"max-br", "MAX-BR", "max-br ", "max-brx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"max-fr", "MAX-FR", "max-fr ", "max-frx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"profile", "PROFILE", "profile ", "profilex">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"level-idx", "LEVEL-IDX", "level-idx ", "level-idxx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"tier", "TIER", "tier ", "tierx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"maxplaybackrate", "MAXPLAYBACKRATE", "maxplaybackrate ", "maxplaybackratex">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"maxaveragebitrate", "MAXAVERAGEBITRATE", "maxaveragebitrate ", "maxaveragebitratex">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"ptime", "PTIME", "ptime ", "ptimex">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"minptime", "MINPTIME", "minptime ", "minptimex">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"maxptime", "MAXPTIME", "maxptime ", "maxptimex">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"usedtx", "USEDTX", "usedtx ", "usedtxx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"stereo", "STEREO", "stereo ", "stereox">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"useinbandfec", "USEINBANDFEC", "useinbandfec ", "useinbandfecx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"cbr", "CBR", "cbr ", "cbrx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >>,
   << <<"a=fmtp:96 ">>, <<"apt", "APT", "apt ", "aptx">>, <<"=">>, AnyNum, <<"", ";foo=1", "; max-fr=9">> >> >>

---------------------------------------------------------------------------
\* Codecs, feedback, SCTP, packet time.
CodecConstructs == <<
   << <<"a=rtpmap:", "a=RTPMAP: ">>, <<"109", "0", "127", "128", "255", "256", "-1", "x", "*", "">>, Sp, <<"opus", "VP8", "G722", "telephone-event", "", "a b">>, <<"/", "", "//", " /">>, <<"48000", "0", "4294967295", "4294967296", "x", "-1", "">>,
      <<"", "/2", "/0", "/4294967295", "/4294967296", "/x", "/", "/1/2", "/ 2">>, <<"", " ", " extra", "/">> >>,
   << <<"a=rtcp-fb:", "a=RTCP-FB:", "a=rtcp-fb: ">>, <<"*", "101", "0", "255", "256", "x", "", "**">>, <<" ", "  ", "", "\t">>,
      <<"nack", "ack", "ccm", "trr-int", "goog-remb", "transport-cc", "NACK", "nak", "app", "">>, <<"", " pli", " sli", " rpsi", " app", " fir", " tmmbr", " tstr", " vbcm", " PLI", " 5", " 0", " 4294967295", " 4294967296", " x", " ", "  pli">>, <<"", " extra", " 4 5", " ", "  ", " a=b">> >>,
   << <<"a=rtcp:", "a=RTCP: ">>, <<"9", "0", "65535", "65536", "-1", "x", "">>, <<" ", "", "  ">>, <<"IN", "", "in", "IX">>, <<" ", "", "\t">>, <<"IP4", "IP6", "ip6", "IP", "">>, <<" ", "", "  ">>, <<"192.0.2.1", "::1", "A.example", "1.2.3.256", "">>, <<"", " x", " ">> >>,
   << <<"a=sctpmap:">>, <<"5000", "0", "65535", "65536", "x", "-1">>, Sp, <<"webrtc-datachannel", "WebRTC-DataChannel", "webrtc", "x", "">>, Sp, <<"256", "0", "4294967295", "4294967296", "x", "">>, <<"", " ", " 1">> >>,
   << <<"a=sctp-port:", "a=Sctp-Port: ">>, AnyNum, SpEnd >>,
   << <<"a=max-message-size:", "a=MAX-MESSAGE-SIZE:">>, AnyNum, SpEnd >>,
   << <<"a=ptime:", "a=PTIME: ">>, AnyNum, SpEnd >>,
   << <<"a=maxptime:", "a=MaxPtime: ">>, AnyNum, SpEnd >> >>

---------------------------------------------------------------------------
\* Identification.
IdConstructs == <<
   << <<"a=ssrc:", "a=SSRC: ">>, <<"2655508255", "0", "4294967295", "4294967296", "-1", "x", "">>, Sp, <<"cname", "CNAME", "msid", "label", "foo", "">>, <<":", "", "::", " : ">>, <<"{735484ea-4f6c-f74a-bd66-7425f8476c2e}", "a b", "", "a:b", ":", " lead", "x=y">>, SpEnd >>,
   << <<"a=ssrc-group:", "a=SSRC-GROUP: ">>, <<"FID", "DUP", "FEC", "FEC-FR", "SIM", "fid", "Sim", "fec-fr", "XYZ", "FECFR", "">>, Sp, <<"1", "0", "4294967295", "4294967296", "x", "-1", "1:2", "">>, <<"", " 2", " 2 3", "  2", " x", " 4294967296", " 1 1">>, SpEnd >>,
   << <<"a=msid:">>, <<"{5a990edd-0568-ac40-8d97-310fc33f3411}", "-", "a", "">>, Sp, <<"{218cfa1c-617d-2249-9997-60929ce4c405}", "b", "">>, <<"", " ", " c">> >>,
   << <<"a=msid-semantic:", "a=MSID-SEMANTIC: ">>, <<"WMS", "wms", "X", "*", "">>, Sp, <<"*", "a", "a b", "a  b c", "", "* *">>, SpEnd >>,
   << <<"a=group:", "a=GROUP: ">>, <<"BUNDLE", "LS", "FID", "SRF", "ANAT", "FEC", "DDP", "bundle", "Ls", "fid", "srf", "anat", "fec", "ddp", "XYZ", "BUNDLES", "">>, Sp, <<"audio", "a b c", "a\tb", "", "sdparta_0 sdparta_1">>, SpEnd >>,
   << <<"a=mid:", "a=label:", "a=identity:", "a=MID:", "a=Label: ", "a=IDENTITY:">>, <<"sdparta_0", "1", "a b", "", " ", "a:b", "x=y;z", " lead", "eyJpZHAiOnsiZG9tYWluIjoiZXhhbXBsZS5vcmciLCJwcm90b2NvbCI6ImJvZ3VzIn0=">>, SpEnd >>,
   << <<"a=extmap:", "a=EXTMAP: ">>, <<"1", "0", "14", "255", "4096", "65535", "65536", "x", "-1", "">>, <<"", "/sendonly", "/recvonly", "/sendrecv", "/SENDONLY", "/inactive", "/", "/x", "/sendonly/x", "/send">>, Sp, <<"urn:ietf:params:rtp-hdrext:ssrc-audio-level", "http://x/y?z#a", "u", "">>, <<"", " ext_attributes", " a b  c", " ", "\tx", " vad=on">>, SpEnd >> >>

---------------------------------------------------------------------------
\* rid / simulcast.
RidParams == << "", "max-width=1280", "max-height=720", "max-fps=30", "max-fs=3600", "max-br=64000", "max-pps=5", "max-width=0", "max-width=4294967295", "max-width=4294967296", "max-fs=x", "max-br=-1", "max-pps=", "MAX-FS=1",
   "depends=1", "depends=1,2", "depends=", "depends=a,,b", "foo=bar", "foo=bar=baz", "foo=", "=x", "foo", "pt=97", "max-fs=1;max-fs=2", "depends=1;depends=2", "a=1;b=2", "max-width=1;foo=1;max-height=2;bar=2", "max-width=1 ", " max-height=2" >>
RidConstructs == <<
   << <<"a=rid:", "a=RID: ">>, <<"foo", "1", "a-b_c", "", "~1">>, <<" ", "  ", "", "\t">>, <<"send", "recv", "SEND", "sendrecv", "">>, <<"", " ", "  ", "\t">>, <<"", "pt=97", "pt=97,98", "pt=0,65535", "pt=65536", "pt=x", "pt=", "pt=97, 98", "pt=97,", "PT=97", "pt=97;pt=98", "pt=-1", "pt=007">>, <<"", ";">>, RidParams, <<"", ";", " ">> >>,
   << <<"a=rid:1 send ">>, RidParams, <<";">>, RidParams, <<";">>, RidParams >>,
   << <<"a=rid:1 recv pt=96;">>, RidParams, <<";">>, RidParams >>,
   << <<"a=simulcast:", "a=SIMULCAST: ">>, <<"send", "recv", "SEND", "sendrecv", "">>, Sp, <<"1", "1;2", "1,2", "1,~2;~3", "~1", "a;b;c,d", ";", ",", "~", "1;;2", "1,,2", "1;", ";1", "rid=1", "rid=1;2,~3", "pt=1", "rid=", "RID=1", "rid=1=2", "=1", "", "~~1">>,
      <<"", " ", "  ">>, <<"", "recv", "send", "RECV", "x">>, <<"", " ", "\t">>, <<"", "4", "4;5,~6", "rid=4", "pt=4", "~4,5", "rid=~4;5">>, <<"", " ", " x", " send", " send 9", " x y">> >>,
   << <<"a=simulcast:recv 1 send ">>, <<"2", "2,3;4", "~2", "rid=5,~6", "2;;3">>, <<"", " ">> >>,
   << <<"a=simulcast: send 1;2 recv ">>, <<"3", "3,~4;5", "rid=3", "pt=3", "">>, <<"", " recv 1", " x">> >> >>

---------------------------------------------------------------------------
\* imageattr / framerate.
XyTexts == << "800", "0", "4294967295", "4294967296", "-1", "x", "", "[800:900]", "[800:16:900]", "[1:2:3:4]", "[800]", "[]", "[800,900]", "[1,2,3]", "[1,x]", "[1:x]", "[800:900", "800:900]", "[1,2:3]", "[900:800]", "+5", "007", "[ 1,2]", "[4294967295:4294967296]", "[0:0:0]" >>
SarTexts == << "", ",sar=1.1", ",sar=1", ",sar=0.5", ",sar=[0.8-1.2]", ",sar=[1.2-0.8]", ",sar=[1-1]", ",sar=[0.5,1,1.5]", ",sar=[1.5,1]", ",sar=[1,1]", ",sar=[0,1]", ",sar=[0.5]", ",sar=x", ",sar=[x-1]", ",sar=[1-x]", ",sar=[1,x]", ",sar=", ",sar=[", ",sar=[]", ",sar=[0.1-0.2-0.3]", ",sar=inf", ",sar=NaN", ",sar=-1", ",SAR=1", ",sar=01.50" >>
ParTexts == << "", ",par=[1.2-1.3]", ",par=[1-2]", ",par=[1.3-1.2]", ",par=[1-1]", ",par=1", ",par=[1,2]", ",par=[x-1]", ",par=[1]", ",par=", ",par=[", ",par=[0.0-0.1]", ",PAR=[1-2]" >>
QTexts == << "", ",q=0.6", ",q=1", ",q=0", ",q=10", ",q=x", ",q=", ",q=-0.5", ",q=0.60", ",foo=bar", ",foo", ",", ",q=0.1,q=0.2" >>
SetTexts == << "[x=800,y=640]", "[x=[800:16:1024],y=[600,700],sar=1.1,par=[1.2-1.3],q=0.6]", "*", "[x=1,y=2] [x=3,y=4]", "[y=640,x=800]", "[x=800]", "[x=800,y=640", "x=800,y=640]", "[]", "", "[x=800,y=640,q=0.1] [x=1]", "* *", "[x=1,y=2] *", "[x=1, y=2]", "[x=1,y=[1,2],foo=[a,b],q=0.3]", "send", "[x=[1:2],y=[3:4]]  [x=5,y=6]" >>
ImageConstructs == <<
   << <<"a=imageattr:", "a=IMAGEATTR: ">>, <<"97", "*", "0", "255", "256", "x", "">>, Sp, <<"send", "recv", "SEND", "both", "">>, Sp, SetTexts, <<"", " ">>, <<"", "recv", "send", "x">>, <<"", " ">>, <<"", "[x=330,y=250]", "*", "[x=1,y=2] [x=3,y=[4:5]]", "[x=1", "x">>, <<"", " ", " x", " recv", " send *">> >>,
   << <<"a=imageattr:97 send [x=">>, XyTexts, <<",y=", ",x=", " y=", ",">>, XyTexts, <<"]">> >>,
   << <<"a=imageattr:* recv [x=1,y=2">>, SarTexts, ParTexts, QTexts, <<"]", "", "]]">> >>,
   << <<"a=imageattr:* recv [x=1,y=2">>, ParTexts, QTexts, SarTexts, <<"] send *", "] send [x=3,y=4]", "] recv *">> >>,
   << <<"a=framerate:", "a=FrameRate: ">>, <<"25", "29.97", "0", "0.0", "-1", "1e3", "inf", "NaN", "x", "", ".5", "5.", ".", "+30", "030", "59.940", "1.5 ", "1,5", "0.001", "120", "-0", "1.2.3", "infinity", "1_0", "1e", "e3", "1e+2", "1.5E-2", "-2e1", ".e1", "1e1e1", "1e1.5", "0e5", "9007199254740993", "123456789012345", "20000000000", "100000000000000000000", "12345678901.5", "0.000001", "0.00000000000000000001", "1e10", "1e16", "1e-7", "29.97002997003">>, SpEnd >> >>

---------------------------------------------------------------------------
\* Numeric holes: <<prefix, suffix>> around every numeric field.
NumHoles == <<
   <<"v=", "">>, <<"o=- ", " 1 IN IP4 0.0.0.0">>, <<"o=- 1 ", " IN IP4 0.0.0.0">>, <<"t=", " 0">>, <<"t=0 ", "">>,
   <<"c=IN IP4 224.0.0.1/", "">>, <<"c=IN IP4 224.0.0.1/1/", "">>, <<"b=AS:", "">>, <<"b=CT:", "">>, <<"b=TIAS:", "">>, <<"b=X:", "">>,
   <<"m=audio ", " RTP/AVP 0">>, <<"m=audio 9/", " RTP/AVP 0">>, <<"m=audio 9 RTP/AVP ", "">>, <<"m=video 9 RTP/AVP 0 ", "">>, <<"m=application 9 DTLS/SCTP ", "">>,
   <<"a=candidate:0 ", " UDP 1 10.0.0.1 9 typ host">>, <<"a=candidate:0 1 UDP ", " 10.0.0.1 9 typ host">>, <<"a=candidate:0 1 UDP 1 10.0.0.1 ", " typ host">>,
   <<"a=candidate:0 1 UDP 1 10.0.0.1 9 typ host raddr 10.0.0.1 rport ", "">>, <<"a=candidate:0 1 UDP 1 10.0.0.1 9 typ host generation ", "">>, <<"a=candidate:0 1 UDP 1 10.0.0.1 9 typ host network-cost ", "">>,
   <<"a=remote-candidates:", " 10.0.0.1 9">>, <<"a=remote-candidates:1 10.0.0.1 ", "">>, <<"a=ice-pacing:", "">>,
   <<"a=extmap:", " u">>, <<"a=extmap:", "/sendonly u">>, <<"a=fmtp:", " x=1">>, <<"a=rtpmap:", " a/1">>, <<"a=rtpmap:1 a/", "">>, <<"a=rtpmap:1 a/1/", "">>,
   <<"a=rtcp-fb:", " nack">>, <<"a=rtcp-fb:1 trr-int ", "">>, <<"a=rtcp:", "">>, <<"a=rtcp:", " IN IP4 0.0.0.0">>, <<"a=sctpmap:", " webrtc-datachannel 1">>, <<"a=sctpmap:1 webrtc-datachannel ", "">>,
   <<"a=sctp-port:", "">>, <<"a=max-message-size:", "">>, <<"a=ptime:", "">>, <<"a=maxptime:", "">>, <<"a=ssrc:", "">>, <<"a=ssrc:", " cname:x">>, <<"a=ssrc-group:FID ", "">>, <<"a=ssrc-group:FID 1 ", "">>,
   <<"a=rid:1 send pt=", "">>, <<"a=rid:1 send pt=1,", ";max-fs=1">>, <<"a=rid:1 send max-width=", "">>, <<"a=rid:1 send max-height=", "">>, <<"a=rid:1 send max-fps=", "">>, <<"a=rid:1 send max-fs=", "">>, <<"a=rid:1 send max-br=", "">>, <<"a=rid:1 send max-pps=", "">>,
   <<"a=imageattr:", " send *">>, <<"a=imageattr:1 send [x=", ",y=1]">>, <<"a=imageattr:1 send [x=1,y=", "]">>, <<"a=imageattr:1 send [x=[", ":5],y=1]">>, <<"a=imageattr:1 send [x=[1:", "],y=1]">>, <<"a=imageattr:1 send [x=[1:", ":5],y=1]">>, <<"a=imageattr:1 send [x=1,y=[1,", "]]">>,
   <<"a=fmtp:96 profile-level-id=", "">>, <<"a=fmtp:96 packetization-mode=", "">>, <<"a=fmtp:96 level-asymmetry-allowed=", "">>, <<"a=fmtp:96 max-mbps=", "">>, <<"a=fmtp:96 max-fs=", "">>, <<"a=fmtp:96 max-cpb=", "">>, <<"a=fmtp:96 max-dpb=", "">>, <<"a=fmtp:96 max-br=", "">>, <<"a=fmtp:96 max-fr=", "">>,
   <<"a=fmtp:96 profile=", "">>, <<"a=fmtp:96 level-idx=", "">>, <<"a=fmtp:96 tier=", "">>, <<"a=fmtp:96 maxplaybackrate=", "">>, <<"a=fmtp:96 maxaveragebitrate=", "">>, <<"a=fmtp:96 ptime=", "">>, <<"a=fmtp:96 minptime=", "">>, <<"a=fmtp:96 maxptime=", "">>,
   <<"a=fmtp:96 usedtx=", "">>, <<"a=fmtp:96 stereo=", "">>, <<"a=fmtp:96 useinbandfec=", "">>, <<"a=fmtp:96 cbr=", "">>, <<"a=fmtp:96 apt=", "">>, <<"a=fmtp:96 apt=1;rtx-time=", "">>, <<"a=fmtp:96 1/", "">>, <<"a=fmtp:96 ", "/1">>, <<"a=fmtp:96 1,", "">>, <<"a=fmtp:96 0-", "">>, <<"a=fmtp:96 ", "-100">> >>
NumConstructs == [i \in 1..Len(NumHoles) |-> << <<NumHoles[i][1]>>, AnyNum \o [j \in 1..130 |-> ToString(j)] \o [j \in 1..10 |-> ToString(245 + j)], <<NumHoles[i][2]>> >>]

---------------------------------------------------------------------------
Constructs(g) ==
  CASE g = "S09" -> MediaConstructs
    [] g = "S10" -> CommonConstructs
    [] g = "S11" -> AddrConstructs
    [] g = "S12" -> NameConstructs \o PeculiarNames
    [] g = "S13" -> IceConstructs
    [] g = "S14" -> FmtpConstructs
    [] g = "S15" -> CodecConstructs
    [] g = "S16" -> IdConstructs
    [] g = "S17" -> RidConstructs
    [] g = "S18" -> ImageConstructs
    [] g = "S19" -> NumConstructs
    [] g = "BASE" -> MediaConstructs \o CommonConstructs \o AddrConstructs \o IceConstructs \o FmtpConstructs
                \o CodecConstructs \o IdConstructs \o RidConstructs \o ImageConstructs
=============================================================================
