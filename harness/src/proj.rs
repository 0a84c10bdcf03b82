//! Projection of the crate's public values onto the specification's values
//! (spec/Attr.tla, spec/Line.tla).  Numbers are decimal strings, an optional
//! field is a list of length zero or one.
use serde_json::{json, Value};
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

fn n<T: ToString>(x: T) -> Value {
    Value::String(x.to_string())
}
fn opt<T>(o: &Option<T>, f: impl Fn(&T) -> Value) -> Value {
    match o {
        Some(x) => json!([f(x)]),
        None => json!([]),
    }
}
fn optn<T: ToString>(o: &Option<T>) -> Value {
    opt(o, |x| n(x.to_string()))
}
fn list<T: ToString>(v: &[T]) -> Value {
    Value::Array(v.iter().map(|x| n(x.to_string())).collect())
}

pub fn ip(a: &std::net::IpAddr) -> (&'static str, String) {
    match a {
        std::net::IpAddr::V4(x) => ("v4", x.to_string()),
        std::net::IpAddr::V6(x) => ("v6", x.to_string()),
    }
}
pub fn address(a: &Address) -> Value {
    match a {
        Address::Fqdn(s) => json!({"k": "host", "a": s}),
        Address::Ip(i) => {
            let (k, a) = ip(i);
            json!({"k": k, "a": a})
        }
    }
}
pub fn typed(a: &ExplicitlyTypedAddress) -> Value {
    let at = match a.address_type() {
        AddressType::IpV4 => "IP4",
        AddressType::IpV6 => "IP6",
    };
    match a {
        ExplicitlyTypedAddress::Fqdn { domain, .. } => json!({"at": at, "k": "host", "a": domain}),
        ExplicitlyTypedAddress::Ip(i) => {
            let (k, a) = ip(i);
            json!({"at": at, "k": k, "a": a})
        }
    }
}
fn dir1(d: &SdpSingleDirection) -> &'static str {
    match d {
        SdpSingleDirection::Send => "send",
        SdpSingleDirection::Recv => "recv",
    }
}
fn pt(p: &SdpAttributePayloadType) -> Value {
    match p {
        SdpAttributePayloadType::PayloadType(x) => n(x),
        SdpAttributePayloadType::Wildcard => n("*"),
    }
}
fn fmtp_params(p: &SdpAttributeFmtpParameters) -> Value {
    json!({
        "plid": format!("{:06x}", p.profile_level_id),
        "laa": p.level_asymmetry_allowed,
        "pm": n(p.packetization_mode),
        "maxfs": n(p.max_fs), "maxcpb": n(p.max_cpb), "maxdpb": n(p.max_dpb),
        "maxbr": n(p.max_br), "maxmbps": n(p.max_mbps), "maxfr": n(p.max_fr),
        "profile": optn(&p.profile), "level": optn(&p.level_idx), "tier": optn(&p.tier),
        "mpr": n(p.maxplaybackrate), "mabr": n(p.maxaveragebitrate),
        "usedtx": p.usedtx, "stereo": p.stereo, "fec": p.useinbandfec, "cbr": p.cbr,
        "ptime": n(p.ptime), "minptime": n(p.minptime), "maxptime": n(p.maxptime),
        "enc": list(&p.encodings), "dtmf": n(&p.dtmf_tones),
        "rtx": opt(&p.rtx, |r| json!({"apt": n(r.apt), "time": optn(&r.rtx_time)})),
        "unknown": list(&p.unknown_tokens),
    })
}
fn xy(r: &SdpAttributeImageAttrXyRange) -> Value {
    match r {
        SdpAttributeImageAttrXyRange::Range(a, b, step) => {
            let mut v = vec![n(a), n(b)];
            if let Some(s) = step {
                v.push(n(s));
            }
            json!({"t": "range", "v": v})
        }
        SdpAttributeImageAttrXyRange::DiscreteValues(v) => json!({"t": "vals", "v": list(v)}),
    }
}
fn srange(r: &SdpAttributeImageAttrSRange) -> Value {
    match r {
        SdpAttributeImageAttrSRange::Range(a, b) => json!({"t": "range", "v": [n(a), n(b)]}),
        SdpAttributeImageAttrSRange::DiscreteValues(v) => json!({"t": "vals", "v": list(v)}),
    }
}
fn setlist(l: &SdpAttributeImageAttrSetList) -> Value {
    match l {
        SdpAttributeImageAttrSetList::Wildcard => json!({"w": true, "sets": []}),
        SdpAttributeImageAttrSetList::Sets(s) => json!({"w": false, "sets": s.iter().map(|x| json!({
            "x": xy(&x.x), "y": xy(&x.y), "sar": opt(&x.sar, srange),
            "par": opt(&x.par, |p| json!([n(p.min), n(p.max)])), "q": optn(&x.q),
        })).collect::<Vec<_>>()}),
    }
}
fn simlist(l: &[SdpAttributeSimulcastVersion]) -> Value {
    Value::Array(
        l.iter()
            .map(|v| Value::Array(v.ids.iter().map(|i| json!({"id": i.id, "paused": i.paused})).collect()))
            .collect(),
    )
}

pub fn kind(a: &SdpAttribute) -> &'static str {
    use SdpAttribute::*;
    match a {
        BundleOnly => "bundle-only",
        Candidate(_) => "candidate",
        DtlsMessage(_) => "dtls-message",
        EndOfCandidates => "end-of-candidates",
        Extmap(_) => "extmap",
        ExtmapAllowMixed => "extmap-allow-mixed",
        Fingerprint(_) => "fingerprint",
        Fmtp(_) => "fmtp",
        FrameRate(_) => "framerate",
        Group(_) => "group",
        IceLite => "ice-lite",
        IceMismatch => "ice-mismatch",
        IceOptions(_) => "ice-options",
        IcePacing(_) => "ice-pacing",
        IcePwd(_) => "ice-pwd",
        IceUfrag(_) => "ice-ufrag",
        Identity(_) => "identity",
        ImageAttr(_) => "imageattr",
        Inactive => "inactive",
        Label(_) => "label",
        MaxMessageSize(_) => "max-message-size",
        MaxPtime(_) => "maxptime",
        Mid(_) => "mid",
        Msid(_) => "msid",
        MsidSemantic(_) => "msid-semantic",
        Ptime(_) => "ptime",
        Rid(_) => "rid",
        Recvonly => "recvonly",
        RemoteCandidate(_) => "remote-candidates",
        Rtpmap(_) => "rtpmap",
        Rtcp(_) => "rtcp",
        Rtcpfb(_) => "rtcp-fb",
        RtcpMux => "rtcp-mux",
        RtcpMuxOnly => "rtcp-mux-only",
        RtcpRsize => "rtcp-rsize",
        Sctpmap(_) => "sctpmap",
        SctpPort(_) => "sctp-port",
        Sendonly => "sendonly",
        Sendrecv => "sendrecv",
        Setup(_) => "setup",
        Simulcast(_) => "simulcast",
        Ssrc(_) => "ssrc",
        SsrcGroup(..) => "ssrc-group",
    }
}
pub const KIND_NAMES: [&str; 43] = [
    "bundle-only", "candidate", "dtls-message", "end-of-candidates", "extmap", "extmap-allow-mixed", "fingerprint", "fmtp", "framerate", "group", "ice-lite", "ice-mismatch", "ice-options", "ice-pacing", "ice-pwd", "ice-ufrag", "identity", "imageattr", "inactive", "label", "max-message-size", "maxptime", "mid", "msid", "msid-semantic", "ptime", "rid", "recvonly", "remote-candidates", "rtpmap", "rtcp", "rtcp-fb", "rtcp-mux", "rtcp-mux-only", "rtcp-rsize", "sctpmap", "sctp-port", "sendonly", "sendrecv", "setup", "simulcast", "ssrc", "ssrc-group",
];
pub fn kind_of_type(k: &str) -> Option<SdpAttributeType> {
    use SdpAttributeType::*;
    Some(match k {
        "bundle-only" => BundleOnly,
        "candidate" => Candidate,
        "dtls-message" => DtlsMessage,
        "end-of-candidates" => EndOfCandidates,
        "extmap" => Extmap,
        "extmap-allow-mixed" => ExtmapAllowMixed,
        "fingerprint" => Fingerprint,
        "fmtp" => Fmtp,
        "framerate" => FrameRate,
        "group" => Group,
        "ice-lite" => IceLite,
        "ice-mismatch" => IceMismatch,
        "ice-options" => IceOptions,
        "ice-pacing" => IcePacing,
        "ice-pwd" => IcePwd,
        "ice-ufrag" => IceUfrag,
        "identity" => Identity,
        "imageattr" => ImageAttr,
        "inactive" => Inactive,
        "label" => Label,
        "max-message-size" => MaxMessageSize,
        "maxptime" => MaxPtime,
        "mid" => Mid,
        "msid" => Msid,
        "msid-semantic" => MsidSemantic,
        "ptime" => Ptime,
        "rid" => Rid,
        "recvonly" => Recvonly,
        "remote-candidates" => RemoteCandidate,
        "rtpmap" => Rtpmap,
        "rtcp" => Rtcp,
        "rtcp-fb" => Rtcpfb,
        "rtcp-mux" => RtcpMux,
        "rtcp-mux-only" => RtcpMuxOnly,
        "rtcp-rsize" => RtcpRsize,
        "sctpmap" => Sctpmap,
        "sctp-port" => SctpPort,
        "sendonly" => Sendonly,
        "sendrecv" => Sendrecv,
        "setup" => Setup,
        "simulcast" => Simulcast,
        "ssrc" => Ssrc,
        "ssrc-group" => SsrcGroup,
        _ => return None,
    })
}

pub fn attribute(a: &SdpAttribute) -> Value {
    use SdpAttribute::*;
    let k = kind(a);
    match a {
        BundleOnly | EndOfCandidates | ExtmapAllowMixed | IceLite | IceMismatch | Inactive | Recvonly | RtcpMux
        | RtcpMuxOnly | RtcpRsize | Sendonly | Sendrecv => json!({ "k": k }),
        IcePwd(s) | IceUfrag(s) | Identity(s) | Label(s) | Mid(s) => json!({"k": k, "s": s}),
        MaxMessageSize(x) | MaxPtime(x) | Ptime(x) | IcePacing(x) | SctpPort(x) => json!({"k": k, "n": n(x)}),
        FrameRate(f) => json!({"k": k, "f": n(f)}),
        IceOptions(o) => json!({"k": k, "opts": list(o)}),
        Candidate(c) => json!({
            "k": k, "foundation": c.foundation, "component": n(c.component),
            "transport": match c.transport {
                SdpAttributeCandidateTransport::Udp => "udp",
                SdpAttributeCandidateTransport::Tcp => "tcp",
            },
            "priority": n(c.priority), "addr": address(&c.address), "port": n(c.port),
            "ctype": match c.c_type {
                SdpAttributeCandidateType::Host => "host",
                SdpAttributeCandidateType::Srflx => "srflx",
                SdpAttributeCandidateType::Prflx => "prflx",
                SdpAttributeCandidateType::Relay => "relay",
            },
            "raddr": opt(&c.raddr, address), "rport": optn(&c.rport),
            "tcptype": opt(&c.tcp_type, |t| n(match t {
                SdpAttributeCandidateTcpType::Active => "active",
                SdpAttributeCandidateTcpType::Passive => "passive",
                SdpAttributeCandidateTcpType::Simultaneous => "so",
            })),
            "generation": optn(&c.generation), "ufrag": optn(&c.ufrag), "cost": optn(&c.networkcost),
            "ext": c.unknown_extensions.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>(),
        }),
        DtlsMessage(d) => match d {
            SdpAttributeDtlsMessage::Client(m) => json!({"k": k, "role": "client", "msg": m}),
            SdpAttributeDtlsMessage::Server(m) => json!({"k": k, "role": "server", "msg": m}),
        },
        Extmap(e) => json!({
            "k": k, "id": n(e.id),
            "dir": opt(&e.direction, |d| n(match d {
                SdpAttributeDirection::Recvonly => "recvonly",
                SdpAttributeDirection::Sendonly => "sendonly",
                SdpAttributeDirection::Sendrecv => "sendrecv",
            })),
            "url": e.url, "ext": optn(&e.extension_attributes),
        }),
        Fingerprint(f) => json!({
            "k": k,
            "hash": match f.hash_algorithm {
                SdpAttributeFingerprintHashType::Sha1 => "sha-1",
                SdpAttributeFingerprintHashType::Sha224 => "sha-224",
                SdpAttributeFingerprintHashType::Sha256 => "sha-256",
                SdpAttributeFingerprintHashType::Sha384 => "sha-384",
                SdpAttributeFingerprintHashType::Sha512 => "sha-512",
            },
            "fp": bytes(&f.fingerprint),
        }),
        Fmtp(f) => json!({"k": k, "pt": n(f.payload_type), "p": fmtp_params(&f.parameters)}),
        Group(g) => json!({
            "k": k,
            "semantics": match g.semantics {
                SdpAttributeGroupSemantic::LipSynchronization => "LS",
                SdpAttributeGroupSemantic::FlowIdentification => "FID",
                SdpAttributeGroupSemantic::SingleReservationFlow => "SRF",
                SdpAttributeGroupSemantic::AlternateNetworkAddressType => "ANAT",
                SdpAttributeGroupSemantic::ForwardErrorCorrection => "FEC",
                SdpAttributeGroupSemantic::DecodingDependency => "DDP",
                SdpAttributeGroupSemantic::Bundle => "BUNDLE",
            },
            "tags": list(&g.tags),
        }),
        ImageAttr(i) => json!({"k": k, "pt": pt(&i.pt), "send": setlist(&i.send), "recv": setlist(&i.recv)}),
        Msid(m) => json!({"k": k, "id": m.id, "appdata": optn(&m.appdata)}),
        MsidSemantic(m) => json!({"k": k, "semantic": m.semantic, "msids": list(&m.msids)}),
        Rid(r) => json!({
            "k": k, "id": r.id, "dir": dir1(&r.direction), "formats": list(&r.formats),
            "mw": n(r.params.max_width), "mh": n(r.params.max_height), "mfps": n(r.params.max_fps),
            "mfs": n(r.params.max_fs), "mbr": n(r.params.max_br), "mpps": n(r.params.max_pps),
            "unknown": list(&r.params.unknown), "depends": list(&r.depends),
        }),
        RemoteCandidate(r) => {
            json!({"k": k, "component": n(r.component), "addr": address(&r.address), "port": n(r.port)})
        }
        Rtpmap(r) => json!({
            "k": k, "pt": n(r.payload_type), "codec": r.codec_name, "freq": n(r.frequency), "ch": optn(&r.channels),
        }),
        Rtcp(r) => json!({"k": k, "port": n(r.port), "addr": opt(&r.unicast_addr, typed)}),
        Rtcpfb(r) => json!({
            "k": k, "pt": pt(&r.payload_type),
            "fb": match r.feedback_type {
                SdpAttributeRtcpFbType::Ack => "ack",
                SdpAttributeRtcpFbType::Ccm => "ccm",
                SdpAttributeRtcpFbType::Nack => "nack",
                SdpAttributeRtcpFbType::TrrInt => "trr-int",
                SdpAttributeRtcpFbType::Remb => "goog-remb",
                SdpAttributeRtcpFbType::TransCc => "transport-cc",
            },
            "param": r.parameter, "extra": r.extra,
        }),
        Sctpmap(s) => json!({"k": k, "port": n(s.port), "ch": n(s.channels)}),
        Setup(s) => json!({"k": k, "s": match s {
            SdpAttributeSetup::Active => "active",
            SdpAttributeSetup::Actpass => "actpass",
            SdpAttributeSetup::Holdconn => "holdconn",
            SdpAttributeSetup::Passive => "passive",
        }}),
        Simulcast(s) => json!({"k": k, "send": simlist(&s.send), "recv": simlist(&s.receive)}),
        Ssrc(s) => json!({"k": k, "id": n(s.id), "attr": optn(&s.attribute), "val": optn(&s.value)}),
        SsrcGroup(sem, ids) => json!({
            "k": k,
            "semantics": match sem {
                SdpSsrcGroupSemantic::Duplication => "DUP",
                SdpSsrcGroupSemantic::FlowIdentification => "FID",
                SdpSsrcGroupSemantic::ForwardErrorCorrection => "FEC",
                SdpSsrcGroupSemantic::ForwardErrorCorrectionFr => "FEC-FR",
                SdpSsrcGroupSemantic::Sim => "SIM",
            },
            "ids": ids.iter().map(|s| {
                if s.attribute.is_none() && s.value.is_none() { n(s.id) } else { n(s) }
            }).collect::<Vec<_>>(),
        }),
    }
}
pub fn bytes(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(":")
}
pub fn bandwidth(b: &SdpBandwidth) -> Value {
    match b {
        SdpBandwidth::As(x) => json!({"known": true, "bt": "AS", "n": n(x)}),
        SdpBandwidth::Ct(x) => json!({"known": true, "bt": "CT", "n": n(x)}),
        SdpBandwidth::Tias(x) => json!({"known": true, "bt": "TIAS", "n": n(x)}),
        SdpBandwidth::Unknown(t, x) => json!({"known": false, "bt": t, "n": n(x)}),
    }
}
pub fn connection(c: &SdpConnection) -> Value {
    json!({"addr": typed(&c.address), "ttl": optn(&c.ttl), "amount": optn(&c.amount)})
}
pub fn origin(o: &SdpOrigin) -> Value {
    json!({"user": o.username, "sid": n(o.session_id), "sver": n(o.session_version), "addr": typed(&o.unicast_addr)})
}
pub fn timing(t: &SdpTiming) -> Value {
    json!({"start": n(t.start), "stop": n(t.stop)})
}
fn media_value(m: &SdpMediaValue) -> &'static str {
    match m {
        SdpMediaValue::Audio => "audio",
        SdpMediaValue::Video => "video",
        SdpMediaValue::Application => "application",
    }
}
fn proto(p: &SdpProtocolValue) -> &'static str {
    match p {
        SdpProtocolValue::RtpAvp => "RTP/AVP",
        SdpProtocolValue::RtpAvpf => "RTP/AVPF",
        SdpProtocolValue::RtpSavp => "RTP/SAVP",
        SdpProtocolValue::RtpSavpf => "RTP/SAVPF",
        SdpProtocolValue::TcpDtlsRtpSavp => "TCP/DTLS/RTP/SAVP",
        SdpProtocolValue::TcpDtlsRtpSavpf => "TCP/DTLS/RTP/SAVPF",
        SdpProtocolValue::UdpTlsRtpSavp => "UDP/TLS/RTP/SAVP",
        SdpProtocolValue::UdpTlsRtpSavpf => "UDP/TLS/RTP/SAVPF",
        SdpProtocolValue::DtlsSctp => "DTLS/SCTP",
        SdpProtocolValue::UdpDtlsSctp => "UDP/DTLS/SCTP",
        SdpProtocolValue::TcpDtlsSctp => "TCP/DTLS/SCTP",
    }
}
fn formats(f: &SdpFormatList) -> (bool, Value) {
    match f {
        SdpFormatList::Integers(v) => (true, list(v)),
        SdpFormatList::Strings(v) => (false, list(v)),
    }
}
fn mline(m: &SdpMediaValue, port: u32, count: u32, p: &SdpProtocolValue, f: &SdpFormatList) -> Value {
    let (ints, fmts) = formats(f);
    json!({"media": media_value(m), "port": n(port), "count": n(count), "proto": proto(p), "ints": ints, "fmts": fmts})
}
pub fn media_line(m: &SdpMediaLine) -> Value {
    mline(&m.media, m.port, m.port_count, &m.proto, &m.formats)
}
pub fn line_value(t: &SdpType) -> Value {
    match t {
        SdpType::Attribute(a) => json!({"ty": "a", "x": attribute(a)}),
        SdpType::Bandwidth(b) => json!({"ty": "b", "x": bandwidth(b)}),
        SdpType::Connection(c) => json!({"ty": "c", "x": connection(c)}),
        SdpType::Media(m) => json!({"ty": "m", "x": media_line(m)}),
        SdpType::Origin(o) => json!({"ty": "o", "x": origin(o)}),
        SdpType::Session(s) => json!({"ty": "s", "x": s}),
        SdpType::Timing(t) => json!({"ty": "t", "x": timing(t)}),
        SdpType::Version(v) => json!({"ty": "v", "x": n(v)}),
    }
}
pub fn line_text(t: &SdpType) -> String {
    match t {
        SdpType::Attribute(a) => a.to_string(),
        SdpType::Bandwidth(b) => b.to_string(),
        SdpType::Connection(c) => c.to_string(),
        SdpType::Media(m) => m.to_string(),
        SdpType::Origin(o) => o.to_string(),
        SdpType::Session(s) => s.clone(),
        SdpType::Timing(t) => t.to_string(),
        SdpType::Version(v) => v.to_string(),
    }
}
pub fn line_type_char(t: &SdpType) -> &'static str {
    match t {
        SdpType::Attribute(_) => "a",
        SdpType::Bandwidth(_) => "b",
        SdpType::Connection(_) => "c",
        SdpType::Media(_) => "m",
        SdpType::Origin(_) => "o",
        SdpType::Session(_) => "s",
        SdpType::Timing(_) => "t",
        SdpType::Version(_) => "v",
    }
}
pub fn media(m: &SdpMedia) -> Value {
    let mut v = json!({
        "line": mline(m.get_type(), m.get_port(), m.get_port_count(), m.get_proto(), m.get_formats()),
        "conn": opt(m.get_connection(), connection),
        "bw": m.get_bandwidth().iter().map(bandwidth).collect::<Vec<_>>(),
        "attrs": m.get_attributes().iter().map(attribute).collect::<Vec<_>>(),
    });
    // what the queries answer is what the lists hold
    let all = m.get_attributes();
    for (k, of) in by_kind(all) {
        let got = m.get_attributes_of_type(k.clone());
        let same = got.len() == of.len() && got.iter().zip(&of).all(|(a, b)| std::ptr::eq(*a, *b));
        let first = match (m.get_attribute(k.clone()), of.first()) {
            (Some(a), Some(b)) => std::ptr::eq(a, *b),
            (None, None) => true,
            _ => false,
        };
        if !same || !first {
            v["line"]["media"] = json!(format!("queries disagree on {k}"));
        }
    }
    v
}
thread_local! {
    static KINDS: Vec<(String, SdpAttributeType)> = KIND_NAMES.iter().map(|k| (k.to_string(), kind_of_type(k).unwrap())).collect();
}
/// The attributes of every kind, in order, by the names of their projections.
fn by_kind(all: &[SdpAttribute]) -> Vec<(SdpAttributeType, Vec<&SdpAttribute>)> {
    let names: Vec<String> = all.iter().map(|a| attribute(a)["k"].as_str().unwrap().to_string()).collect();
    KINDS.with(|ks| {
        ks.iter()
            .map(|(n, k)| (k.clone(), all.iter().zip(&names).filter(|(_, m)| *m == n).map(|(a, _)| a).collect()))
            .collect()
    })
}
/// The session as the specification's record (values, not line indices).
pub fn session(s: &SdpSession) -> Value {
    let mut v = json!({
        "version": n(s.version), "origin": origin(&s.origin), "session": optn(&s.session),
        "conn": opt(&s.connection, connection), "timing": opt(&s.timing, timing),
        "bw": s.bandwidth.iter().map(bandwidth).collect::<Vec<_>>(),
        "attrs": s.attribute.iter().map(attribute).collect::<Vec<_>>(),
        "media": s.media.iter().map(media).collect::<Vec<_>>(),
    });
    let mut bad: Vec<String> = vec![];
    if s.get_version() != s.version {
        bad.push("version".to_string());
    }
    if origin(s.get_origin()) != v["origin"] {
        bad.push("origin".to_string());
    }
    if s.get_session() != &s.session || s.get_session_text() != s.session.as_deref().unwrap_or(" ") {
        bad.push("session name".to_string());
    }
    if opt(s.get_connection(), connection) != v["conn"] {
        bad.push("connection".to_string());
    }
    for (k, of) in by_kind(&s.attribute) {
        let first = match (s.get_attribute(k.clone()), of.first()) {
            (Some(a), Some(b)) => std::ptr::eq(a, *b),
            (None, None) => true,
            _ => false,
        };
        if !first {
            bad.push(k.to_string());
        }
    }
    if !bad.is_empty() {
        v["version"] = json!(format!("queries disagree on {}", bad.join(", ")));
    }
    v
}
/// Class, line number and line text of a diagnostic, as its fields and its
/// message give them.
pub fn error(e: &SdpParserError) -> Value {
    let shown = e.to_string();
    match e {
        SdpParserError::Line { line, line_number, .. } | SdpParserError::Unsupported { line, line_number, .. } => {
            let t = if matches!(e, SdpParserError::Line { .. }) { "err" } else { "unsup" };
            let said = shown.contains(&line_number.to_string()) && shown.contains(line.as_str());
            json!({"t": t, "line": line_number, "text": if said { line.clone() } else { format!("not in the message: {line}") }})
        }
        SdpParserError::Sequence { line_number, message } => {
            let said = shown.contains(&line_number.to_string()) && shown.contains(message.as_str());
            json!({"t": "seq", "line": line_number, "text": if said { "" } else { "number not in the message" }})
        }
    }
}
