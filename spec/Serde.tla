-------------------------------- MODULE Serde --------------------------------
(***************************************************************************)
(* The serialized view: a structured document, here in a canonical text      *)
(* (object keys sorted, '..' text, ~ nothing, T/F, fractions in shortest     *)
(* decimal form, ~ for values that are not finite).                          *)
(***************************************************************************)
EXTENDS Values

RECURSIVE ArrFrom(_, _)
ArrFrom(ss, i) == IF i > Len(ss) THEN "" ELSE (IF i = 1 THEN "" ELSE ",") \o ss[i] \o ArrFrom(ss, i + 1)
JArr(ss) == "[" \o ArrFrom(ss, 1) \o "]"
\* Fields are <<key, value>> pairs in key order.
JObj(fs) == "{" \o ArrFrom([i \in 1..Len(fs) |-> fs[i][1] \o ":" \o fs[i][2]], 1) \o "}"
JVar(tag, x) == JObj(<< <<tag, x>> >>)
JStr(s) == "'" \o s \o "'"
JNum(n) == n
JFloat(s) == IF s \in {"inf", "-inf", "NaN"} THEN "~" ELSE s
JBool(b) == IF b THEN "T" ELSE "F"
JOpt(o, F(_)) == IF o = <<>> THEN "~" ELSE F(o[1])
JSeq(ss, F(_)) == JArr(Map(ss, F))
JStrs(ss) == JSeq(ss, JStr)
JNums(ss) == JSeq(ss, JNum)

JAddress(a) == IF a.k = "host" THEN JVar("Fqdn", JStr(a.a)) ELSE JVar("Ip", JStr(a.a))
JAddrType(at) == JStr(IF at = "IP4" THEN "IpV4" ELSE "IpV6")
JTyped(a) ==
  IF a.k = "host" THEN JVar("Fqdn", JObj(<< <<"address_type", JAddrType(a.at)>>, <<"domain", JStr(a.a)>> >>))
  ELSE JVar("Ip", JStr(a.a))
JDir1(d) == JStr(IF d = "send" THEN "Send" ELSE "Recv")
JPt(p) == IF p = "*" THEN JStr("Wildcard") ELSE JVar("PayloadType", p)

FlagTag(k) ==
  CASE k = "bundle-only" -> "BundleOnly" [] k = "end-of-candidates" -> "EndOfCandidates" [] k = "extmap-allow-mixed" -> "ExtmapAllowMixed"
    [] k = "ice-lite" -> "IceLite" [] k = "ice-mismatch" -> "IceMismatch" [] k = "inactive" -> "Inactive" [] k = "recvonly" -> "Recvonly"
    [] k = "rtcp-mux" -> "RtcpMux" [] k = "rtcp-mux-only" -> "RtcpMuxOnly" [] k = "rtcp-rsize" -> "RtcpRsize" [] k = "sendonly" -> "Sendonly"
    [] k = "sendrecv" -> "Sendrecv"
TextTag(k) == CASE k = "ice-pwd" -> "IcePwd" [] k = "ice-ufrag" -> "IceUfrag" [] k = "identity" -> "Identity" [] k = "label" -> "Label" [] k = "mid" -> "Mid"
NumNames == U64Names \cup {"ice-pacing", "sctp-port"}
NumTag(k) == CASE k = "max-message-size" -> "MaxMessageSize" [] k = "maxptime" -> "MaxPtime" [] k = "ptime" -> "Ptime"
               [] k = "ice-pacing" -> "IcePacing" [] k = "sctp-port" -> "SctpPort"
CandTypeTag(t) == CASE t = "host" -> "Host" [] t = "srflx" -> "Srflx" [] t = "prflx" -> "Prflx" [] t = "relay" -> "Relay"
TcpTypeTag(t) == CASE t = "active" -> "Active" [] t = "passive" -> "Passive" [] t = "so" -> "Simultaneous"
ExtDirTag(t) == CASE t = "recvonly" -> "Recvonly" [] t = "sendonly" -> "Sendonly" [] t = "sendrecv" -> "Sendrecv"
HashTag(t) == CASE t = "sha-1" -> "Sha1" [] t = "sha-224" -> "Sha224" [] t = "sha-256" -> "Sha256" [] t = "sha-384" -> "Sha384" [] t = "sha-512" -> "Sha512"
GroupTag(t) == CASE t = "LS" -> "LipSynchronization" [] t = "FID" -> "FlowIdentification" [] t = "SRF" -> "SingleReservationFlow"
                 [] t = "ANAT" -> "AlternateNetworkAddressType" [] t = "FEC" -> "ForwardErrorCorrection" [] t = "DDP" -> "DecodingDependency"
                 [] t = "BUNDLE" -> "Bundle"
SsrcGroupTag(t) == CASE t = "DUP" -> "Duplication" [] t = "FID" -> "FlowIdentification" [] t = "FEC" -> "ForwardErrorCorrection"
                     [] t = "FEC-FR" -> "ForwardErrorCorrectionFr" [] t = "SIM" -> "Sim"
FbTag(t) == CASE t = "ack" -> "Ack" [] t = "ccm" -> "Ccm" [] t = "nack" -> "Nack" [] t = "trr-int" -> "TrrInt" [] t = "goog-remb" -> "Remb" [] t = "transport-cc" -> "TransCc"
SetupTag(t) == CASE t = "active" -> "Active" [] t = "actpass" -> "Actpass" [] t = "holdconn" -> "Holdconn" [] t = "passive" -> "Passive"

\* The octets of a fingerprint text, as numbers.
JOctets(fp) == JArr(Map(SplitOn(fp, ":"), LAMBDA b : ToString(HexFrom(b, 1, 0))))

JCandidate(x) ==
  JObj(<< <<"address", JAddress(x.addr)>>, <<"c_type", JStr(CandTypeTag(x.ctype))>>, <<"component", x.component>>,
          <<"foundation", JStr(x.foundation)>>, <<"generation", JOpt(x.generation, JNum)>>, <<"networkcost", JOpt(x.cost, JNum)>>,
          <<"port", x.port>>, <<"priority", x.priority>>, <<"raddr", JOpt(x.raddr, JAddress)>>, <<"rport", JOpt(x.rport, JNum)>>,
          <<"tcp_type", JOpt(x.tcptype, LAMBDA t : JStr(TcpTypeTag(t)))>>, <<"transport", JStr(IF x.transport = "udp" THEN "Udp" ELSE "Tcp")>>,
          <<"ufrag", JOpt(x.ufrag, JStr)>>, <<"unknown_extensions", JSeq(x.ext, JStrs)>> >>)
JFmtp(p) ==
  JObj(<< <<"cbr", JBool(p.cbr)>>, <<"dtmf_tones", JStr(p.dtmf)>>, <<"encodings", JNums(p.enc)>>, <<"level_asymmetry_allowed", JBool(p.laa)>>,
          <<"level_idx", JOpt(p.level, JNum)>>, <<"max_br", p.maxbr>>, <<"max_cpb", p.maxcpb>>, <<"max_dpb", p.maxdpb>>, <<"max_fr", p.maxfr>>,
          <<"max_fs", p.maxfs>>, <<"max_mbps", p.maxmbps>>, <<"maxaveragebitrate", p.mabr>>, <<"maxplaybackrate", p.mpr>>, <<"maxptime", p.maxptime>>,
          <<"minptime", p.minptime>>, <<"packetization_mode", p.pm>>, <<"profile", JOpt(p.profile, JNum)>>,
          <<"profile_level_id", ToString(HexFrom(p.plid, 1, 0))>>, <<"ptime", p.ptime>>,
          <<"rtx", JOpt(p.rtx, LAMBDA r : JObj(<< <<"apt", r.apt>>, <<"rtx_time", JOpt(r.time, JNum)>> >>))>>,
          <<"stereo", JBool(p.stereo)>>, <<"tier", JOpt(p.tier, JNum)>>, <<"unknown_tokens", JStrs(p.unknown)>>, <<"usedtx", JBool(p.usedtx)>>,
          <<"useinbandfec", JBool(p.fec)>> >>)
JXy(r) ==
  IF r.t = "range" THEN JVar("Range", JArr(<<r.v[1], r.v[2], IF Len(r.v) = 3 THEN r.v[3] ELSE "~">>)) ELSE JVar("DiscreteValues", JNums(r.v))
JSar(r) == JVar(IF r.t = "range" THEN "Range" ELSE "DiscreteValues", JSeq(r.v, JFloat))
JImageSet(s) ==
  JObj(<< <<"par", JOpt(s.par, LAMBDA p : JObj(<< <<"max", JFloat(p[2])>>, <<"min", JFloat(p[1])>> >>))>>, <<"q", JOpt(s.q, JFloat)>>,
          <<"sar", JOpt(s.sar, JSar)>>, <<"x", JXy(s.x)>>, <<"y", JXy(s.y)>> >>)
JSetList(l) == IF l.w THEN JStr("Wildcard") ELSE JVar("Sets", JSeq(l.sets, JImageSet))
JSimList(l) ==
  JSeq(l, LAMBDA v : JVar("ids", JSeq(v, LAMBDA i : JObj(<< <<"id", JStr(i.id)>>, <<"paused", JBool(i.paused)>> >>))))
JSsrcId(id) == JObj(<< <<"attribute", "~">>, <<"id", id>>, <<"value", "~">> >>)

JAttr(x) ==
  LET k == x.k
  IN  CASE k \in FlagNames -> JStr(FlagTag(k))
        [] k \in TextNames -> JVar(TextTag(k), JStr(x.s))
        [] k \in NumNames -> JVar(NumTag(k), x.n)
        [] k = "candidate" -> JVar("Candidate", JCandidate(x))
        [] k = "dtls-message" -> JVar("DtlsMessage", JVar(IF x.role = "client" THEN "Client" ELSE "Server", JStr(x.msg)))
        [] k = "extmap" -> JVar("Extmap", JObj(<< <<"direction", JOpt(x.dir, LAMBDA d : JStr(ExtDirTag(d)))>>,
                                  <<"extension_attributes", JOpt(x.ext, JStr)>>, <<"id", x.id>>, <<"url", JStr(x.url)>> >>))
        [] k = "fingerprint" -> JVar("Fingerprint", JObj(<< <<"fingerprint", JOctets(x.fp)>>, <<"hash_algorithm", JStr(HashTag(x.hash))>> >>))
        [] k = "fmtp" -> JVar("Fmtp", JObj(<< <<"parameters", JFmtp(x.p)>>, <<"payload_type", x.pt>> >>))
        [] k = "framerate" -> JVar("FrameRate", JFloat(x.f))
        [] k = "group" -> JVar("Group", JObj(<< <<"semantics", JStr(GroupTag(x.semantics))>>, <<"tags", JStrs(x.tags)>> >>))
        [] k = "ice-options" -> JVar("IceOptions", JStrs(x.opts))
        [] k = "imageattr" -> JVar("ImageAttr", JObj(<< <<"pt", JPt(x.pt)>>, <<"recv", JSetList(x.recv)>>, <<"send", JSetList(x.send)>> >>))
        [] k = "msid" -> JVar("Msid", JObj(<< <<"appdata", JOpt(x.appdata, JStr)>>, <<"id", JStr(x.id)>> >>))
        [] k = "msid-semantic" -> JVar("MsidSemantic", JObj(<< <<"msids", JStrs(x.msids)>>, <<"semantic", JStr(x.semantic)>> >>))
        [] k = "remote-candidates" -> JVar("RemoteCandidate", JObj(<< <<"address", JAddress(x.addr)>>, <<"component", x.component>>, <<"port", x.port>> >>))
        [] k = "rid" -> JVar("Rid", JObj(<< <<"depends", JStrs(x.depends)>>, <<"direction", JDir1(x.dir)>>, <<"formats", JNums(x.formats)>>, <<"id", JStr(x.id)>>,
                          <<"params", JObj(<< <<"max_br", x.mbr>>, <<"max_fps", x.mfps>>, <<"max_fs", x.mfs>>, <<"max_height", x.mh>>, <<"max_pps", x.mpps>>,
                                              <<"max_width", x.mw>>, <<"unknown", JStrs(x.unknown)>> >>)>> >>))
        [] k = "rtpmap" -> JVar("Rtpmap", JObj(<< <<"channels", JOpt(x.ch, JNum)>>, <<"codec_name", JStr(x.codec)>>, <<"frequency", x.freq>>, <<"payload_type", x.pt>> >>))
        [] k = "rtcp" -> JVar("Rtcp", JObj(<< <<"port", x.port>>, <<"unicast_addr", JOpt(x.addr, JTyped)>> >>))
        [] k = "rtcp-fb" -> JVar("Rtcpfb", JObj(<< <<"extra", JStr(x.extra)>>, <<"feedback_type", JStr(FbTag(x.fb))>>, <<"parameter", JStr(x.param)>>, <<"payload_type", JPt(x.pt)>> >>))
        [] k = "sctpmap" -> JVar("Sctpmap", JObj(<< <<"channels", x.ch>>, <<"port", x.port>> >>))
        [] k = "setup" -> JVar("Setup", JStr(SetupTag(x.s)))
        [] k = "simulcast" -> JVar("Simulcast", JObj(<< <<"receive", JSimList(x.recv)>>, <<"send", JSimList(x.send)>> >>))
        [] k = "ssrc" -> JVar("Ssrc", JObj(<< <<"attribute", JOpt(x.attr, JStr)>>, <<"id", x.id>>, <<"value", JOpt(x.val, JStr)>> >>))
        [] k = "ssrc-group" -> JVar("SsrcGroup", JArr(<<JStr(SsrcGroupTag(x.semantics)), JSeq(x.ids, JSsrcId)>>))

JBandwidth(b) ==
  IF b.known THEN JVar(CASE b.bt = "AS" -> "As" [] b.bt = "CT" -> "Ct" [] b.bt = "TIAS" -> "Tias", b.n)
  ELSE JVar("Unknown", JArr(<<JStr(b.bt), b.n>>))
JConnection(c) == JObj(<< <<"address", JTyped(c.addr)>>, <<"amount", JOpt(c.amount, JNum)>>, <<"ttl", JOpt(c.ttl, JNum)>> >>)
JOrigin(o) == JObj(<< <<"session_id", o.sid>>, <<"session_version", o.sver>>, <<"unicast_addr", JTyped(o.addr)>>, <<"username", JStr(o.user)>> >>)
JTiming(t) == JObj(<< <<"start", t.start>>, <<"stop", t.stop>> >>)
MediaTag(m) == CASE m = "audio" -> "Audio" [] m = "video" -> "Video" [] m = "application" -> "Application"
ProtoTag(p) ==
  CASE p = "RTP/AVP" -> "RtpAvp" [] p = "RTP/AVPF" -> "RtpAvpf" [] p = "RTP/SAVP" -> "RtpSavp" [] p = "RTP/SAVPF" -> "RtpSavpf"
    [] p = "TCP/DTLS/RTP/SAVP" -> "TcpDtlsRtpSavp" [] p = "TCP/DTLS/RTP/SAVPF" -> "TcpDtlsRtpSavpf" [] p = "UDP/TLS/RTP/SAVP" -> "UdpTlsRtpSavp"
    [] p = "UDP/TLS/RTP/SAVPF" -> "UdpTlsRtpSavpf" [] p = "DTLS/SCTP" -> "DtlsSctp" [] p = "UDP/DTLS/SCTP" -> "UdpDtlsSctp"
    [] p = "TCP/DTLS/SCTP" -> "TcpDtlsSctp"
JMediaLine(m) ==
  JObj(<< <<"formats", IF m.ints THEN JVar("Integers", JNums(m.fmts)) ELSE JVar("Strings", JStrs(m.fmts))>>, <<"media", JStr(MediaTag(m.media))>>,
          <<"port", m.port>>, <<"port_count", m.count>>, <<"proto", JStr(ProtoTag(m.proto))>> >>)

\* A line value.
JLine(w) ==
  CASE w.ty = "a" -> JVar("Attribute", JAttr(w.x))
    [] w.ty = "b" -> JVar("Bandwidth", JBandwidth(w.x))
    [] w.ty = "c" -> JVar("Connection", JConnection(w.x))
    [] w.ty = "m" -> JVar("Media", JMediaLine(w.x))
    [] w.ty = "o" -> JVar("Origin", JOrigin(w.x))
    [] w.ty = "s" -> JVar("Session", JStr(w.x))
    [] w.ty = "t" -> JVar("Timing", JTiming(w.x))
    [] w.ty = "v" -> JVar("Version", w.x)

JClass(t) == JStr(CASE t = "err" -> "Line" [] t = "unsup" -> "Unsupported" [] t = "seq" -> "Sequence")
\* A diagnostic [t, line, text, msg].
JDiag(e) ==
  IF e.t = "seq" THEN JObj(<< <<"line_number", ToString(e.line)>>, <<"message", JStr(e.msg)>>, <<"type", JClass(e.t)>> >>)
  ELSE JObj(<< <<"line", JStr(e.text)>>, <<"line_number", ToString(e.line)>>, <<"message", JStr(e.msg)>>, <<"type", JClass(e.t)>> >>)

JMedia(m) ==
  JObj(<< <<"attribute", JSeq(m.attrs, JAttr)>>, <<"bandwidth", JSeq(m.bw, JBandwidth)>>, <<"connection", JOpt(m.conn, JConnection)>>,
          <<"media", JMediaLine(m.line)>> >>)
JSession(s, warns) ==
  JObj(<< <<"attribute", JSeq(s.attrs, JAttr)>>, <<"bandwidth", JSeq(s.bw, JBandwidth)>>, <<"connection", JOpt(s.conn, JConnection)>>,
          <<"media", JSeq(s.media, JMedia)>>, <<"origin", JOrigin(s.origin)>>, <<"session", JOpt(s.session, JStr)>>,
          <<"timing", JOpt(s.timing, JTiming)>>, <<"version", s.version>>, <<"warnings", JSeq(warns, JDiag)>> >>)
=============================================================================
