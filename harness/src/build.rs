//! Building media sections and sessions through the API.
use crate::docs;
use crate::lines::class;
use crate::proj;
use crate::report::Report;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use webrtc_sdp::address::ExplicitlyTypedAddress;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

fn s<'a>(o: &'a Value, k: &str) -> &'a str {
    o[k].as_str().unwrap_or_else(|| panic!("missing {k} in {o}"))
}
pub fn line_of(ty: &str, l: &str) -> SdpType {
    parse_sdp_line(&format!("{ty}={l}"), 0).unwrap_or_else(|e| panic!("unparsable argument {ty}={l}: {e}")).sdp_type
}
fn mline(l: &str) -> SdpMediaLine {
    match line_of("m", l) {
        SdpType::Media(m) => m,
        _ => unreachable!(),
    }
}
fn conn(l: &str) -> SdpConnection {
    match line_of("c", l) {
        SdpType::Connection(c) => c,
        _ => unreachable!(),
    }
}
fn bw(l: &str) -> SdpBandwidth {
    match line_of("b", l) {
        SdpType::Bandwidth(c) => c,
        _ => unreachable!(),
    }
}
fn attr(l: &str) -> SdpAttribute {
    SdpAttribute::from_str(l).unwrap_or_else(|e| panic!("unparsable argument {l}: {e}"))
}
fn kind(k: &str) -> SdpAttributeType {
    proj::kind_of_type(k).unwrap()
}
fn proto(p: &str) -> SdpProtocolValue {
    mline(&format!("application 1 {p} x")).proto
}
fn done<E>(r: Result<(), E>) -> Value {
    json!({"t": if r.is_ok() { "ok" } else { "err" }})
}
fn answer(a: Vec<&SdpAttribute>) -> Value {
    json!({"t": "val", "v": a.into_iter().map(proj::attribute).collect::<Vec<_>>()})
}

pub enum Obj {
    Media(SdpMedia),
    Session(SdpSession),
}
impl Obj {
    pub fn new(b: &Value) -> Obj {
        match s(b, "obj") {
            "media" => Obj::Media(SdpMedia::new(mline(s(b, "l")))),
            "session" => {
                let o = match line_of("o", s(b, "o")) {
                    SdpType::Origin(o) => o,
                    _ => unreachable!(),
                };
                Obj::Session(SdpSession::new(s(b, "v").parse().unwrap(), o, s(b, "name").to_string()))
            }
            "parsed" => Obj::Session(parse_sdp(s(b, "text"), false).unwrap()),
            x => panic!("unknown object {x}"),
        }
    }
    pub fn apply(&mut self, o: &Value) -> Value {
        match self {
            Obj::Media(m) => apply_media(m, o),
            Obj::Session(x) => apply_session(x, o),
        }
    }
    pub fn value(&self) -> Value {
        match self {
            Obj::Media(m) => proj::media(m),
            Obj::Session(x) => proj::session(x),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Obj::Media(m) => m.to_string(),
            Obj::Session(x) => x.to_string(),
        }
    }
}
fn apply_media(m: &mut SdpMedia, o: &Value) -> Value {
    match s(o, "op") {
        "add" => done(m.add_attribute(attr(s(o, "a")))),
        "set" => done(m.set_attribute(attr(s(o, "a")))),
        "remove" => {
            m.remove_attribute(kind(s(o, "k")));
            json!({"t": "ok"})
        }
        "get" => answer(m.get_attribute(kind(s(o, "k"))).into_iter().collect()),
        "all" => answer(m.get_attributes_of_type(kind(s(o, "k")))),
        "port" => {
            m.set_port(s(o, "n").parse().unwrap());
            json!({"t": "ok"})
        }
        "bw" => {
            m.add_bandwidth(bw(s(o, "l")));
            json!({"t": "ok"})
        }
        "conn" => {
            m.set_connection(conn(s(o, "l")));
            json!({"t": "ok"})
        }
        "codec" => match attr(s(o, "a")) {
            SdpAttribute::Rtpmap(r) => done(m.add_codec(r)),
            _ => panic!("codec"),
        },
        "rmcodecs" => {
            m.remove_codecs();
            json!({"t": "ok"})
        }
        "dc" => done(m.add_datachannel(
            s(o, "name").to_string(),
            s(o, "port").parse().unwrap(),
            s(o, "streams").parse().unwrap(),
            s(o, "msg").parse().unwrap(),
        )),
        x => panic!("unknown operation {x}"),
    }
}
fn apply_session(x: &mut SdpSession, o: &Value) -> Value {
    match s(o, "op") {
        "sattr" => done(x.add_attribute(attr(s(o, "a")))),
        "sget" => answer(x.get_attribute(kind(s(o, "k"))).into_iter().collect()),
        "sconn" => {
            x.set_connection(conn(s(o, "l")));
            json!({"t": "ok"})
        }
        "stime" => {
            match line_of("t", s(o, "l")) {
                SdpType::Timing(t) => x.set_timing(t),
                _ => unreachable!(),
            }
            json!({"t": "ok"})
        }
        "sbw" => {
            x.add_bandwidth(bw(s(o, "l")));
            json!({"t": "ok"})
        }
        "addmedia" => {
            let addr: ExplicitlyTypedAddress = conn(s(o, "l")).address;
            let media = match s(o, "media") {
                "audio" => SdpMediaValue::Audio,
                "video" => SdpMediaValue::Video,
                _ => SdpMediaValue::Application,
            };
            done(x.add_media(media, attr(s(o, "a")), s(o, "port").parse().unwrap(), proto(s(o, "proto")), addr))
        }
        "extend" => {
            x.extend_media(o["ls"].as_array().unwrap().iter().map(|l| SdpMedia::new(mline(l.as_str().unwrap()))).collect());
            json!({"t": "ok"})
        }
        "m" => {
            let i = o["i"].as_u64().unwrap() as usize;
            let i = if i == 0 { x.media.len() } else { i };
            if i == 0 || i > x.media.len() {
                return json!({"t": "ok"});
            }
            apply_media(&mut x.media[i - 1], &o["o"])
        }
        y => panic!("unknown operation {y}"),
    }
}

/// Replays enumerated histories; one case holds operations and starts.
pub fn replay(cases: &[Value], rep: &mut Report, aspects: &str) {
    let has = |a: &str| aspects.split(',').any(|x| x == a);
    let v = cases.iter().find(|c| !c["ops"].is_null()).expect("operations");
    let (ops, starts) = (v["ops"].as_array().unwrap(), v["starts"].as_array().unwrap());
    for c in cases.iter().filter(|c| c["ops"].is_null()) {
        let b = &starts[c["b"].as_u64().unwrap() as usize - 1];
        let d: Vec<&Value> = c["d"].as_array().unwrap().iter().map(|i| &ops[i.as_u64().unwrap() as usize - 1]).collect();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut x = Obj::new(b);
            let mut last = json!({"t": "ok"});
            for o in &d {
                last = x.apply(o);
            }
            let txt = x.text();
            (x.value(), last, txt)
        }));
        let mut bad = vec![];
        let mut observed = json!("panic");
        match r {
            Err(_) => bad.push("panic"),
            Ok((x, last, txt)) => {
                if has("value") && x != c["x"] {
                    bad.push("value");
                }
                if has("answer") && last != c["r"] {
                    bad.push("answer");
                }
                if has("text") && txt != c["txt"].as_str().unwrap() {
                    bad.push("printed text");
                }
                let mut rt = Value::Null;
                if has("reread") && c["rr"] == json!(true) {
                    rt = reread(&txt, &x);
                    if rt["t"] != json!("same") {
                        bad.push("re-reading the printed text");
                    }
                }
                rep.count(last["t"].as_str().unwrap());
                observed = json!({"x": x, "r": last, "txt": txt, "rt": rt});
            }
        }
        if !bad.is_empty() {
            rep.mismatch(json!({"what": bad, "input": json!([b, d]).to_string(), "expected": c, "observed": observed}));
        }
    }
}
/// Re-reads the text of a built session; format lists come back by media kind.
fn reread(txt: &str, x: &Value) -> Value {
    match parse_sdp(txt, true) {
        Err(e) => json!({"t": class(&e)}),
        Ok(q) => {
            let by_kind = |v: &Value| {
                let mut v = v.clone();
                for m in v["media"].as_array_mut().unwrap() {
                    m["line"]["ints"] = json!(m["line"]["media"] != json!("application"));
                }
                v
            };
            let same = docs::same_session(&by_kind(&proj::session(&q)), &by_kind(x)) && q.warnings.is_empty() && q.to_string() == txt;
            json!({"t": if same { "same" } else { "differs" }})
        }
    }
}

/// Records random histories for the specification to judge.
pub fn record(cases: &[Value], n: usize, len: usize, most: usize, seed: u64, stream: &str, out: &mut dyn std::io::Write, rep: &mut Report) {
    let mut r = Rng::new(seed, stream);
    let p = docs::Pools::new(cases);
    let of = |ty: &str| -> Vec<String> {
        cases.iter()
            .filter(|c| c["t"] == json!("ok") && c["v"]["ty"] == json!(ty) && !c["in"].as_str().unwrap().contains('\n'))
            .map(|c| c["in"].as_str().unwrap().trim().splitn(2, '=').nth(1).unwrap().trim().to_string())
            .collect()
    };
    let (attrs, ms, cs, bs, ts, os) = (of("a"), of("m"), of("c"), of("b"), of("t"), of("o"));
    let flags = ["bundle-only", "end-of-candidates", "extmap-allow-mixed", "ice-lite", "ice-mismatch", "inactive", "recvonly",
        "rtcp-mux", "rtcp-mux-only", "rtcp-rsize", "sendonly", "sendrecv"];
    let rtpmaps: Vec<String> = cases.iter().filter(|c| c["v"]["x"]["k"] == json!("rtpmap") && c["t"] == json!("ok"))
        .map(|c| c["in"].as_str().unwrap().trim().splitn(2, '=').nth(1).unwrap().trim().to_string()).collect();
    let kinds: Vec<String> = {
        let mut k: Vec<String> = cases.iter().filter(|c| c["t"] == json!("ok") && c["v"]["ty"] == json!("a")).map(|c| c["v"]["x"]["k"].as_str().unwrap().to_string()).collect();
        k.sort();
        k.dedup();
        k
    };
    let protos = ["RTP/AVP", "RTP/AVPF", "RTP/SAVP", "RTP/SAVPF", "TCP/DTLS/RTP/SAVP", "TCP/DTLS/RTP/SAVPF", "UDP/TLS/RTP/SAVP", "UDP/TLS/RTP/SAVPF",
        "DTLS/SCTP", "UDP/DTLS/SCTP", "TCP/DTLS/SCTP"];
    let u16s = ["0", "1", "9", "5000", "65535"];
    let u32s = ["0", "1", "65536", "4294967295"];
    for _ in 0..n {
        // a few attributes per history, so that kinds repeat
        let few: Vec<String> = (0..12).map(|i| if i < 3 { r.pick(&flags).to_string() } else { r.pick(&attrs).clone() }).collect();
        let fewk: Vec<String> = few.iter().map(|a| a.splitn(2, ':').next().unwrap().to_lowercase()).chain((0..3).map(|_| r.pick(&kinds).clone())).filter(|k| proj::kind_of_type(k).is_some()).collect();
        let media_op = |r: &mut Rng| -> Value {
            match r.below(14) {
                0..=3 => json!({"op": "add", "a": r.pick(&few)}),
                4 | 5 => json!({"op": "set", "a": r.pick(&few)}),
                6 => json!({"op": "remove", "k": r.pick(&fewk)}),
                7 => json!({"op": "get", "k": r.pick(&fewk)}),
                8 => json!({"op": "all", "k": r.pick(&fewk)}),
                9 => json!({"op": "port", "n": r.pick(&u16s)}),
                10 => json!({"op": "bw", "l": r.pick(&bs)}),
                11 => json!({"op": "conn", "l": r.pick(&cs)}),
                12 => if r.chance(1, 3) { json!({"op": "rmcodecs"}) } else { json!({"op": "codec", "a": r.pick(&rtpmaps)}) },
                _ => json!({"op": "dc", "name": r.pick(&["webrtc-datachannel", "x", "5000"]), "port": r.pick(&u16s), "streams": r.pick(&u16s), "msg": r.pick(&u32s)}),
            }
        };
        let session_op = |r: &mut Rng| -> Value {
            match r.below(16) {
                0 | 1 => json!({"op": "sattr", "a": r.pick(&few)}),
                2 => json!({"op": "sget", "k": r.pick(&fewk)}),
                3 => json!({"op": "sconn", "l": r.pick(&cs)}),
                4 => json!({"op": "stime", "l": r.pick(&ts)}),
                5 => json!({"op": "sbw", "l": r.pick(&bs)}),
                6 => json!({"op": "addmedia", "media": r.pick(&["audio", "video", "application"]), "a": if r.chance(2, 3) { r.pick(&["sendrecv", "sendonly", "recvonly", "inactive"]).to_string() } else { r.pick(&few).clone() },
                    "port": r.pick(&u16s), "proto": r.pick(&protos), "l": r.pick(&cs)}),
                7 => json!({"op": "extend", "ls": (0..r.below(3)).map(|_| r.pick(&ms).clone()).collect::<Vec<_>>()}),
                _ => json!({"op": "m", "i": r.below(4), "o": media_op(r)}),
            }
        };
        let start = match r.below(4) {
            0 => json!({"obj": "media", "l": r.pick(&ms)}),
            1 | 2 => json!({"obj": "session", "v": r.pick(&["0", "0", "0", "7"]), "o": r.pick(&os), "name": r.pick(&["-", "", " ", "a  b", " x\t", "v=0"])}),
            _ => {
                let l = p.description(&mut r, 5);
                let text = p.render(&mut r, &l);
                if parse_sdp(&text, false).is_ok() {
                    json!({"obj": "parsed", "text": text})
                } else {
                    continue;
                }
            }
        };
        let k = 1 + r.below(len);
        let ops: Vec<Value> = (0..k).map(|_| if start["obj"] == json!("media") { media_op(&mut r) } else { session_op(&mut r) }).collect();
        history(&start, &ops, 1, out, rep);
    }
    // long histories and large starting sessions
    let pick_some = |r: &mut Rng, what: usize, i: usize| -> Value {
        let o = match what {
            0 | 6 => json!({"op": "add", "a": r.pick(&attrs)}),
            1 | 7 => json!({"op": "codec", "a": if i % 4 == 3 { r.pick(&rtpmaps).clone() } else { format!("rtpmap:{} c{i}/{}", 96 + i % 32, 1000 + i) }}),
            2 | 8 => json!({"op": "bw", "l": if i % 3 == 0 { r.pick(&bs).clone() } else { format!("AS:{i}") }}),
            3 => return json!({"op": "addmedia", "media": r.pick(&["audio", "video", "application"]), "a": r.pick(&["sendrecv", "sendonly", "recvonly", "inactive"]), "port": i.to_string(), "proto": r.pick(&protos), "l": r.pick(&cs)}),
            4 => return json!({"op": "sattr", "a": if i % 3 == 0 { "group:BUNDLE a".to_string() } else { r.pick(&attrs).clone() }}),
            5 => return json!({"op": "sbw", "l": if i % 3 == 0 { r.pick(&bs).clone() } else { format!("AS:{i}") }}),
            _ => json!({"op": "add", "a": (["sendrecv", "mid:x", "rtcp-mux"][i % 3])}),
        };
        if what >= 6 { json!({"op": "m", "i": 1, "o": o}) } else { o }
    };
    for what in 0..10 {
        for len in [33, 65, 129, 257, 300] {
            if len > most || (len > 129 && most < 1000 && len != [257, 300][what % 2]) {
                continue;
            }
            let mut ops: Vec<Value> = vec![];
            let start = if [0, 1, 2].contains(&what) { json!({"obj": "media", "l": r.pick(&ms)}) } else { json!({"obj": "session", "v": "0", "o": r.pick(&os), "name": "x"}) };
            if what > 2 {
                ops.push(json!({"op": "stime", "l": r.pick(&ts)}));
                ops.push(json!({"op": "sconn", "l": r.pick(&cs)}));
            }
            if what >= 6 {
                ops.push(json!({"op": "extend", "ls": ["video 9 RTP/AVP 96"]}));
            }
            for i in 0..len {
                ops.push(pick_some(&mut r, what, i));
            }
            for _ in 0..4 {
                let o = match r.below(6) {
                    0 => json!({"op": "set", "a": r.pick(&attrs)}),
                    1 => json!({"op": "remove", "k": r.pick(&kinds)}),
                    2 => json!({"op": "all", "k": r.pick(&["rtpmap", "sendrecv", "mid"])}),
                    3 => json!({"op": "dc", "name": "x", "port": "1", "streams": "2", "msg": "3"}),
                    4 => json!({"op": "rmcodecs"}),
                    _ => json!({"op": "get", "k": r.pick(&kinds)}),
                };
                ops.push(if what > 2 { json!({"op": "m", "i": 1, "o": o}) } else { o });
            }
            history(&start, &ops, 16, out, rep);
        }
    }
    for what in 2..19 {
        for size in [65, 257, 513] {
            if size > most || [11, 12, 13, 15].contains(&what) {
                continue;
            }
            let l = p.mass(&mut r, what, size);
            let text = p.render(&mut r, &l);
            if parse_sdp(&text, false).is_err() {
                continue;
            }
            let ops: Vec<Value> = (0..5).map(|k| {
                let i = r.below(3);
                match (k + what) % 5 {
                    0 => json!({"op": "m", "i": i, "o": {"op": "set", "a": r.pick(&attrs)}}),
                    1 => json!({"op": "m", "i": i, "o": {"op": "remove", "k": r.pick(&kinds)}}),
                    2 => json!({"op": "m", "i": i, "o": {"op": "add", "a": r.pick(&attrs)}}),
                    3 => json!({"op": "sattr", "a": r.pick(&attrs)}),
                    _ => json!({"op": "extend", "ls": ["video 9 RTP/AVP 96"]}),
                }
            }).collect();
            history(&json!({"obj": "parsed", "text": text}), &ops, 1, out, rep);
        }
    }
}
/// Runs one history and records it, the value after every `every`-th step
/// and the last.
fn history(start: &Value, ops: &[Value], every: usize, out: &mut dyn std::io::Write, rep: &mut Report) {
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut x = Obj::new(start);
        let x0 = x.value();
        let mut ev = vec![];
        for (i, o) in ops.iter().enumerate() {
            let a = x.apply(o);
            ev.push(if (i + 1) % every == 0 || i + 5 >= ops.len() { json!({"o": o, "r": a, "seen": true, "x": x.value()}) } else { json!({"o": o, "r": a, "seen": false}) });
        }
        let txt = x.text();
        let rv = match (&x, parse_sdp(&txt, true)) {
            (Obj::Session(_), Ok(q)) => json!({"t": "ok", "v": [proj::session(&q)], "warns": q.warnings.len(), "again": q.to_string() == txt}),
            (_, Err(e)) => json!({"t": class(&e), "v": [], "warns": 0, "again": false}),
            _ => json!({"t": "ok", "v": [], "warns": 0, "again": false}),
        };
        json!({"b": start, "x0": x0, "ev": ev, "txt": txt, "rv": rv})
    }));
    match res {
        Ok(v) => {
            rep.count(start["obj"].as_str().unwrap());
            writeln!(out, "{v}").unwrap();
        }
        Err(_) => rep.mismatch(json!({"what": "panic", "input": json!([start, ops]).to_string()})),
    }
}
