------------------------------ MODULE AnonVocab ------------------------------
(***************************************************************************)
(* Operations on an anonymizer: masking a session read from a text, one of   *)
(* its media sections, a line's value, or a single value.                    *)
(***************************************************************************)
EXTENDS Text, Integers

Head1 == "v=0\r\no=alice 1 2 IN IP4 198.51.100.1\r\ns=-\r\nt=0 0\r\n"
Head2 == "v=0\r\no=bob 7 8 IN IP6 2001:db8::7\r\ns=x\r\nc=IN IP4 zq.example\r\nt=0 0\r\n"
Fp1 == "a=fingerprint:sha-1 CD:34:D1:62:16:95:7B:B7:EB:74:E2:39:27:97:EB:0B:23:73:AC:BC\r\n"
Fp2 == "a=fingerprint:sha-1 CD:34:D1:62:16:95:7B:B7:EB:74:E2:39:27:97:EB:0B:23:73:AC:BD\r\n"
Fp3 == "a=fingerprint:sha-224 CD:34:D1:62:16:95:7B:B7:EB:74:E2:39:27:97:EB:0B:23:73:AC:BC:01:02:03:04:05:06:07:08\r\n"
Sess == <<
  Head1 \o "c=IN IP4 198.51.100.1/12/3\r\na=ice-ufrag:alice\r\na=ice-pwd:alice\r\n" \o Fp1
    \o "m=audio 20001 RTP/AVP 0\r\na=candidate:0 1 UDP 5 198.51.100.2 20001 typ srflx raddr 198.51.100.1 rport 20002 generation 3 ufrag alice\r\na=ssrc:5 cname:alice\r\n",
  Head2 \o "a=group:BUNDLE 0 1\r\n" \o Fp2
    \o "m=video 20002 RTP/AVP 96\r\nc=IN IP6 2001:db8::7\r\na=mid:0\r\na=rtcp:20002 IN IP6 2001:db8::8\r\na=remote-candidates:1 zq.example 20003\r\na=ssrc:9 CNAME:bob\r\na=ssrc:9 msid:alice bob\r\n"
    \o "m=application 20003 UDP/DTLS/SCTP webrtc-datachannel\r\na=mid:1\r\na=ice-ufrag:bob\r\na=ice-pwd:alice\r\na=sctp-port:5000\r\n" \o Fp1,
  Head2 \o "m=audio 20003 RTP/AVP 0\r\na=rtcp:1\r\na=candidate:1 2 TCP 5 zq.example 20003 typ host tcptype active foo bar\r\na=ssrc:9 cname\r\na=sendonly\r\n" ,
  Head1 \o "c=IN IP6 zq.example\r\nb=AS:7\r\n" \o Fp3 \o "m=audio 1 RTP/AVP 0\r\na=candidate:0 1 UDP 5 2001:db8::8 20002 typ host\r\n",
  Head1 \o "m=audio 1 RTP/AVP 0\r\nc=IN IP4 198.51.100.1/5/1\r\nm=video 0 RTP/AVP 0\r\nc=IN IP4 zq.example/0/0\r\na=ssrc:1 cname: alice\r\na=ssrc:1 cname:Alice\r\nm=audio 0 RTP/AVP 0\r\nc=IN IP4 198.51.100.2/255/4294967295\r\na=candidate:0 1 UDP 5 zq.example 1 typ host raddr 198.51.100.2\r\n"
>>

SessOp(i) == [op |-> "s", text |-> Sess[i]]
MediaOp(i, k) == [op |-> "m", text |-> Sess[i], k |-> k]
LineOp(l) == [op |-> "line", l |-> l]
CallOp(c, v) == [op |-> "call", c |-> c, v |-> v]

Calls == << CallOp("host", "zq.example"), CallOp("host", "alice"), CallOp("v4", "198.51.100.1"), CallOp("v4", "198.51.100.2"),
            CallOp("v6", "2001:db8::7"), CallOp("v6", "2001:db8::8"), CallOp("port", "20001"), CallOp("port", "20002"),
            CallOp("ouser", "alice"), CallOp("ouser", "bob"), CallOp("iuser", "alice"), CallOp("iuser", "bob"), CallOp("pwd", "alice"), CallOp("pwd", "bob"),
            CallOp("fp", "CD:34:D1:62:16:95:7B:B7:EB:74:E2:39:27:97:EB:0B:23:73:AC:BC"), CallOp("fp", "CD:34:D1:62:16:95:7B:B7:EB:74:E2:39:27:97:EB:0B:23:73:AC:BD"),
            CallOp("cname", "alice"), CallOp("cname", "bob") >>
\* Values that differ in blanks, case, length or width only.
Near == << CallOp("host", "zq.example"), CallOp("host", "ZQ.example"), CallOp("host", "zq.example."), CallOp("host", " zq.example"), CallOp("v4", "198.51.100.1"), CallOp("v6", "::ffff:198.51.100.1"), CallOp("v6", "::198.51.100.1"),
           CallOp("port", "20001"), CallOp("port", "85537"), CallOp("ouser", "alice"), CallOp("ouser", "Alice"), CallOp("ouser", "alice "), CallOp("iuser", "alice"), CallOp("iuser", "ALICE"), CallOp("iuser", "alic"),
           CallOp("pwd", "alice"), CallOp("pwd", "alicE"), CallOp("pwd", " alice"), CallOp("fp", "CD:34"), CallOp("fp", "CD:34:00"), CallOp("fp", "00:CD:34"), CallOp("cname", "alice"), CallOp("cname", "Alice"), CallOp("cname", " alice"), CallOp("cname", "") >>
\* Masks fed back as values: the n-th mask issued for category c.
BackOp(c, n) == [op |-> "back", c |-> c, n |-> n]
BackCats == << "host", "v4", "v6", "port", "ouser", "iuser", "pwd", "fp", "cname" >>
Backs == Calls \o [i \in 1..27 |-> BackOp(BackCats[((i - 1) \div 3) + 1], ((i - 1) % 3) + 1)]
AnonOps(g) ==
  CASE g = "calls" -> Calls
    [] g = "near" -> Near
    [] g = "back" -> Backs
    [] g = "sessions" -> << SessOp(1), SessOp(2), SessOp(3), SessOp(4), SessOp(5), CallOp("v4", "198.51.100.2"), CallOp("host", "zq.example"), CallOp("iuser", "bob"), CallOp("port", "20003") >>
    [] g = "parts" -> << SessOp(1), SessOp(2), MediaOp(1, 1), MediaOp(2, 1), MediaOp(2, 2), MediaOp(5, 1), MediaOp(5, 2), LineOp("o=alice 1 2 IN IP6 zq.example"), LineOp("c=IN IP4 198.51.100.2/1"),
         LineOp("a=rtcp:5 IN IP4 198.51.100.2"), LineOp("a=candidate:0 1 UDP 5 198.51.100.2 20001 typ host ufrag bob"), LineOp("a=ice-ufrag:bob"),
         LineOp("a=remote-candidates:1 198.51.100.1 20002 2 198.51.100.9 20009"), LineOp("a=ssrc:1 CName:alice"), LineOp("a=mid:alice"), LineOp("a=identity:alice") >>
=============================================================================
