//! Anonymization: replay of enumerated histories, recording of random ones.
use crate::docs;
use crate::proj;
use crate::report::Report;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::net::IpAddr;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use webrtc_sdp::address::{Address, ExplicitlyTypedAddress};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::media_type::SdpMedia;
use webrtc_sdp::*;

pub enum Thing {
    S(Box<SdpSession>),
    M(Box<SdpMedia>),
    Line(Box<SdpType>),
    Addr(Address),
    Typed(ExplicitlyTypedAddress),
    Call(String, String),
}
pub fn unhex(s: &str) -> Vec<u8> {
    s.split(':').filter(|x| !x.is_empty()).map(|x| u8::from_str_radix(x, 16).unwrap()).collect()
}
pub fn call(an: &mut StatefulSdpAnonymizer, c: &str, v: &str) -> String {
    match c {
        "v4" | "v6" => an.mask_ip(&IpAddr::from_str(v).unwrap()).to_string(),
        "host" => an.mask_host(v),
        "port" => an.mask_port(v.parse().unwrap()).to_string(),
        "ouser" => an.mask_origin_user(v),
        "iuser" => an.mask_ice_user(v),
        "pwd" => an.mask_ice_password(v),
        "fp" => proj::bytes(&an.mask_cert_finger_print(&unhex(v))),
        "cname" => an.mask_cname(v),
        x => panic!("unknown category {x}"),
    }
}
impl Thing {
    pub fn of_op(o: &Value) -> Thing {
        let s = |k: &str| o[k].as_str().unwrap().to_string();
        match o["op"].as_str().unwrap() {
            "s" => Thing::S(Box::new(parse_sdp(&s("text"), false).unwrap())),
            "m" => {
                let q = parse_sdp(&s("text"), false).unwrap();
                Thing::M(Box::new(q.media[o["k"].as_u64().unwrap() as usize - 1].clone()))
            }
            "line" => Thing::Line(Box::new(parse_sdp_line(&s("l"), 0).unwrap().sdp_type)),
            "call" => Thing::Call(s("c"), s("v")),
            x => panic!("unknown operation {x}"),
        }
    }
    pub fn ty(&self) -> String {
        match self {
            Thing::S(_) => "s".into(),
            Thing::M(_) => "m".into(),
            Thing::Line(l) => proj::line_type_char(l).into(),
            Thing::Addr(_) => "addr".into(),
            Thing::Typed(_) => "typed".into(),
            Thing::Call(c, _) => c.clone(),
        }
    }
    pub fn value(&self) -> Value {
        match self {
            Thing::S(s) => proj::session(s),
            Thing::M(m) => proj::media(m),
            Thing::Line(l) => proj::line_value(l)["x"].clone(),
            Thing::Addr(a) => proj::address(a),
            Thing::Typed(a) => proj::typed(a),
            Thing::Call(_, v) => json!(v),
        }
    }
    /// Result, diagnostics it carries, printed text (sessions).
    pub fn mask(&self, an: &mut StatefulSdpAnonymizer) -> (Value, usize, String) {
        match self {
            Thing::S(s) => {
                let r = s.masked_clone(an);
                (proj::session(&r), r.warnings.len(), r.to_string())
            }
            Thing::M(m) => (proj::media(&m.masked_clone(an)), 0, String::new()),
            Thing::Line(l) => {
                let r = match &**l {
                    SdpType::Attribute(a) => proj::attribute(&a.masked_clone(an)),
                    SdpType::Connection(c) => proj::connection(&c.masked_clone(an)),
                    SdpType::Origin(o) => proj::origin(&o.masked_clone(an)),
                    _ => panic!("not a maskable line"),
                };
                (r, 0, String::new())
            }
            Thing::Addr(a) => (proj::address(&an.mask_address(a)), 0, String::new()),
            Thing::Typed(a) => (proj::typed(&an.mask_typed_address(a)), 0, String::new()),
            Thing::Call(c, v) => (json!(call(an, c, v)), 0, String::new()),
        }
    }
}

/// Compares an observed value with one whose masks are symbolic.
fn agree(e: &Value, o: &Value, to: &mut HashMap<String, String>, from: &mut HashMap<(String, String), String>) -> bool {
    match (e, o) {
        (Value::String(t), Value::String(v)) if t.starts_with('$') => {
            let c = t.split(':').next().unwrap().to_string();
            let a = to.entry(t.clone()).or_insert_with(|| v.clone()).clone();
            let b = from.entry((c, v.clone())).or_insert_with(|| t.clone()).clone();
            a == *v && b == *t
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| agree(a, b, to, from)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).is_some_and(|b| agree(a, b, to, from)))
        }
        _ => e == o,
    }
}
/// Replays enumerated histories; one case holds the operations.
pub fn replay(cases: &[Value], rep: &mut Report, aspects: &str) {
    let has = |a: &str| aspects.split(',').any(|x| x == a);
    let v = cases.iter().find(|c| !c["ops"].is_null()).expect("operations");
    let ops = v["ops"].as_array().unwrap();
    // the prescribed result of every history
    let key = |d: &[usize]| d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut exp: HashMap<String, Value> = HashMap::new();
    let mut hs: Vec<Vec<usize>> = vec![];
    for c in cases.iter().filter(|c| c["ops"].is_null()) {
        let d: Vec<usize> = c["d"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        exp.insert(key(&d), c["r"].clone());
        hs.push(d);
    }
    let longest = hs.iter().map(|d| d.len()).max().unwrap_or(0);
    for d in hs.iter().filter(|d| d.len() == longest) {
        let mut bad: Vec<&str> = vec![];
        let mut observed = json!("panic");
        let mut step = 0;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut an = StatefulSdpAnonymizer::new();
            let (mut to, mut from) = (HashMap::<String, String>::new(), HashMap::new());
            let mut bad = vec![];
            for k in 0..d.len() {
                step = k;
                let o = &ops[d[k] - 1];
                let x = if o["op"] == json!("back") {
                    // a mask issued earlier is the value now
                    let c = o["c"].as_str().unwrap().to_string();
                    let m = to[&format!("${c}:{}", o["n"])].clone();
                    Thing::Call(c, m)
                } else {
                    Thing::of_op(o)
                };
                let before = x.value();
                let (r, warns, _) = x.mask(&mut an);
                observed = r.clone();
                if has("masks") && !agree(&exp[&key(&d[..=k])], &r, &mut to, &mut from) {
                    bad.push("masked value");
                }
                if has("original") && x.value() != before {
                    bad.push("the original changed");
                }
                if has("warns") && warns != 0 {
                    bad.push("diagnostics carried over");
                }
                if !bad.is_empty() {
                    break;
                }
            }
            bad
        }));
        match r {
            Ok(b) => bad.extend(b),
            Err(_) => bad.push("panic"),
        }
        rep.count("history");
        if !bad.is_empty() {
            let o: Vec<&Value> = d[..=step].iter().map(|i| &ops[i - 1]).collect();
            rep.mismatch(json!({"what": bad, "input": json!(o).to_string(), "expected": exp[&key(&d[..=step])], "observed": observed}));
        }
    }
}

// ---------------------------------------------------------------------------

/// Where sensitive values may be (which direct queries to make).
fn slots(v: &Value, out: &mut Vec<(String, String)>) {
    let s = |x: &Value| x.as_str().unwrap().to_string();
    match v {
        Value::Array(a) => a.iter().for_each(|x| slots(x, out)),
        Value::Object(o) => {
            if let (Some(k), Some(a)) = (o.get("k"), o.get("a")) {
                out.push((s(k), s(a)));
                return;
            }
            if let Some(u) = o.get("user") {
                out.push(("ouser".into(), s(u)));
            }
            match o.get("k").and_then(|k| k.as_str()) {
                Some("candidate") => {
                    out.push(("port".into(), s(&o["port"])));
                    o["rport"].as_array().unwrap().iter().for_each(|p| out.push(("port".into(), s(p))));
                    o["ufrag"].as_array().unwrap().iter().for_each(|p| out.push(("iuser".into(), s(p))));
                }
                Some("remote-candidates") => out.push(("port".into(), s(&o["port"]))),
                Some("ice-ufrag") => out.push(("iuser".into(), s(&o["s"]))),
                Some("ice-pwd") => out.push(("pwd".into(), s(&o["s"]))),
                Some("fingerprint") => out.push(("fp".into(), s(&o["fp"]))),
                Some("ssrc") => {
                    if o["attr"][0].as_str().is_some_and(|a| a.eq_ignore_ascii_case("cname")) {
                        o["val"].as_array().unwrap().iter().for_each(|p| out.push(("cname".into(), s(p))));
                    }
                }
                _ => {}
            }
            o.values().for_each(|x| slots(x, out));
        }
        _ => {}
    }
}

struct Names;
impl Names {
    fn v4(r: &mut Rng) -> String {
        format!("198.51.100.{}", 1 + r.below(5))
    }
    fn v6(r: &mut Rng) -> String {
        format!("2001:db8:7::{:x}", 1 + r.below(5))
    }
    fn host(r: &mut Rng) -> String {
        r.pick(&["zq1.example", "zq2.example", "ZQ1.example", "Zq1.Example", "zq1.example.", "zq1.exampl", "zq3", "zq", "zq-4.local"]).to_string()
    }
    fn addr(r: &mut Rng) -> String {
        match r.below(3) {
            0 => Names::v4(r),
            1 => Names::v6(r),
            _ => Names::host(r),
        }
    }
    fn typed(r: &mut Rng) -> String {
        match r.below(4) {
            0 => format!("IN IP4 {}", Names::v4(r)),
            1 => format!("IN IP6 {}", Names::v6(r)),
            2 => format!("IN IP4 {}", Names::host(r)),
            _ => format!("IN IP6 {}", Names::host(r)),
        }
    }
    fn port(r: &mut Rng) -> String {
        if r.chance(1, 6) { "65535".to_string() } else { (20000 + r.below(6)).to_string() }
    }
    /// A value on its own; related ones differ in blanks, case or length only.
    fn value(r: &mut Rng, c: &str) -> String {
        match c {
            "v4" => Names::v4(r),
            "v6" => match r.below(3) {
                0 => format!("::ffff:{}", Names::v4(r)),
                1 => format!("::{}", Names::v4(r)),
                _ => Names::v6(r),
            },
            "host" => r.pick(&["zq1.example", "ZQ1.example", " zq1.example", "zq1.example ", "zq1.example.", "zq1", "zq", "198.51.100.1", "[2001:db8:7::1]"]).to_string(),
            "port" => match r.below(3) {
                0 => (65536 + 20000 + r.below(3)).to_string(),
                1 => (4294967295 - r.below(2)).to_string(),
                _ => Names::port(r),
            },
            "fp" => {
                let t = Names::fp(r).splitn(2, ' ').nth(1).unwrap().to_string();
                let n = *r.pick(&[1, 8, 19, 20, 21, 64]);
                t.split(':').take(n).collect::<Vec<_>>().join(":")
            }
            _ => r.pick(&["zqA", "zqa", "ZQA", "zqA ", " zqA", "\tzqA", "zqA\n", "zq", "zqAA", "zq A", "z", "", " ", "zq\u{e9}", "zq\u{c9}"]).to_string(),
        }
    }
    fn word(r: &mut Rng) -> String {
        r.pick(&["zqA", "zqa", "ZQA", "zqB", "zq+/9", "-", "zqC", "zq", "zqAA"]).to_string()
    }
    fn fp(r: &mut Rng) -> String {
        let (h, n) = *r.pick(&[("sha-1", 20), ("sha-224", 28), ("sha-256", 32), ("sha-384", 48), ("sha-512", 64)]);
        let (base, last) = (r.below(3), r.below(4));
        let b: Vec<String> = (0..n).map(|i| format!("{:02X}", if i + 1 == n { 16 + last } else { (base * 50 + i * 7 + 3) % 256 })).collect();
        format!("a=fingerprint:{h} {}", b.join(":"))
    }
    fn conn(r: &mut Rng) -> String {
        let t = Names::typed(r);
        if t.starts_with("IN IP4") {
            format!("c={t}{}", r.pick(&["", "/5", "/1/2", "/1/1", "/0", "/127/1", "/255/0", "/0/0", "/7/4294967295"]))
        } else {
            format!("c={t}")
        }
    }
    fn attr(r: &mut Rng, media: bool) -> String {
        let n = if media { 10 } else { 5 };
        match r.below(n) {
            0 => format!("a=ice-ufrag:{}", Names::word(r)),
            1 => format!("a=ice-pwd:{}", Names::word(r)),
            2 => Names::fp(r),
            3 => r.pick(&["a=group:BUNDLE 0", "a=ice-options:x", "a=identity:zqA", "a=msid-semantic:WMS zqA"]).to_string(),
            4 => "a=sendrecv".to_string(),
            5 | 6 => {
                let mut l = format!("a=candidate:{} {} {} {} {} {} typ {}", Names::word(r), 1 + r.below(2), r.pick(&["UDP", "TCP"]), r.below(9),
                    Names::addr(r), Names::port(r), r.pick(&["host", "srflx", "prflx", "relay"]));
                if r.chance(1, 2) {
                    l += &format!(" raddr {}", Names::addr(r));
                }
                if r.chance(1, 2) {
                    l += &format!(" rport {}", Names::port(r));
                }
                if r.chance(1, 3) {
                    l += " tcptype passive";
                }
                if r.chance(1, 3) {
                    l += " generation 0";
                }
                if r.chance(1, 2) {
                    l += &format!(" ufrag {}", Names::word(r));
                }
                if r.chance(1, 3) {
                    l += " network-cost 50";
                }
                if r.chance(1, 3) {
                    l += " foo zqA bar 20001";
                }
                l
            }
            7 => format!("a=remote-candidates:1 {} {}", Names::addr(r), Names::port(r)),
            8 => if r.chance(1, 5) { "a=rtcp:9".to_string() } else { format!("a=rtcp:{} {}", Names::port(r), Names::typed(r)) },
            _ => format!("a=ssrc:{} {}{}", r.below(4), r.pick(&["cname", "CNAME", "msid", "cNaMe", "label"]), if r.chance(1, 6) { String::new() } else { format!(":{}{}", r.pick(&["", "", " ", "\t", ":"]), Names::word(r)) }),
        }
    }
    fn session(r: &mut Rng, size: usize) -> String {
        let mut l = vec!["v=0".to_string(), format!("o={} 1 {} {}", Names::word(r), r.below(3), Names::typed(r)), "s=-".to_string(), "t=0 0".to_string()];
        let c = r.chance(1, 2);
        if c {
            l.push(Names::conn(r));
        }
        for _ in 0..r.below(size) {
            l.push(Names::attr(r, false));
        }
        for k in 0..r.below(5) {
            l.push(format!("m={} {} RTP/AVP {}", r.pick(&["audio", "video"]), if r.chance(1, 4) { "0".to_string() } else { Names::port(r) }, 96 + k));
            if !c || r.chance(1, 2) {
                l.push(Names::conn(r));
            }
            for _ in 0..r.below(size) {
                l.push(Names::attr(r, true));
            }
        }
        l.join("\r\n") + "\r\n"
    }
}

/// Masks `x` and asks for the masks of its sensitive values.
fn masked(an: &mut StatefulSdpAnonymizer, n: usize, x: &Thing, clean: bool) -> Value {
    let before = x.value();
    let (m, warns, txt) = x.mask(an);
    let after = x.value();
    let mut ss = vec![];
    slots(&before, &mut ss);
    if let Thing::Call(..) = x {
        ss.clear();
    }
    ss.sort();
    ss.dedup();
    let pr: Vec<Value> = ss.iter().map(|(c, v)| json!([c, v, call(an, c, v)])).collect();
    json!({"n": n, "ty": x.ty(), "x": before, "y": after, "r": m, "warns": warns, "txt": txt, "pr": pr, "clean": clean})
}

/// Values of a category: small, large, typical and odd ones.
fn sorts(r: &mut Rng, c: &str) -> Vec<String> {
    let octets = [0u8, 1, 9, 10, 127, 192, 224, 255];
    let mut v: Vec<String> = vec![];
    match c {
        "port" => v.extend((0..=65535u32).rev().chain([65536, 70000, 1 << 20, u32::MAX]).map(|x| x.to_string())),
        "v4" => {
            for i in 0..octets.len().pow(4) {
                let o = |k: u32| octets[i / octets.len().pow(k) % octets.len()];
                v.push(std::net::Ipv4Addr::new(o(3), o(2), o(1), o(0)).to_string());
            }
            v.extend((0..3000).map(|_| std::net::Ipv4Addr::from(r.next() as u32).to_string()));
        }
        "v6" => {
            let w = [0u128, 1, 0xfe80, 0xffff];
            for i in 0..w.len().pow(6) {
                let g = |k: u32| w[i / w.len().pow(k) % w.len()];
                v.push(std::net::Ipv6Addr::from(g(5) << 112 | g(4) << 96 | g(3) << 64 | g(2) << 32 | g(1) << 16 | g(0)).to_string());
            }
            v.extend((0..1000).map(|_| std::net::Ipv6Addr::from((u128::from(r.next()) << 64) + u128::from(r.next())).to_string()));
        }
        "fp" => {
            for n in 0..65usize {
                for b in [0u8, 1, 0x7f, 0x80, 0xff] {
                    v.push(proj::bytes(&vec![b; n]));
                }
                for _ in 0..20 {
                    v.push(proj::bytes(&(0..n).map(|_| r.next() as u8).collect::<Vec<_>>()));
                }
            }
        }
        _ => {
            v.extend((0..400).map(|n| "q".repeat(n)));
            v.extend((33..127u8).map(|b| (b as char).to_string()));
            v.extend((33..127u8).map(|b| format!("q{}", b as char)));
            v.extend(["localhost", "a.local", "-", "", " ", "\u{e9}", "\u{1F600}", "user", "0", "00", "root", "0.0.0.0", "::", "fqdn", "cname", "anonymous", "none", "null"].map(String::from));
            v.extend((0..3000).map(|_| (0..1 + r.below(40)).map(|_| (33 + r.below(94) as u8) as char).collect::<String>()));
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

/// Records random histories; `many` more histories mask that many values.
pub fn record(cases: &[Value], n: usize, len: usize, many: usize, most: usize, seed: u64, stream: &str, out: &mut dyn std::io::Write, rep: &mut Report) {
    let mut r = Rng::new(seed, stream);
    let p = docs::Pools::new(cases);
    let maskable: Vec<String> = cases.iter()
        .filter(|c| c["t"] == json!("ok") && !c["in"].as_str().unwrap().contains('\n'))
        .filter(|c| {
            let v = &c["v"];
            ["c", "o"].contains(&v["ty"].as_str().unwrap())
                || ["candidate", "remote-candidates", "rtcp", "ice-ufrag", "ice-pwd", "fingerprint", "ssrc"].contains(&v["x"]["k"].as_str().unwrap_or(""))
        })
        .map(|c| c["in"].as_str().unwrap().to_string())
        .collect();
    for _ in 0..n {
        let clean = r.chance(2, 3);
        let len = 1 + r.below(len);
        // sessions recur within a history
        let mut texts: Vec<String> = vec![];
        while texts.len() < 3 {
            let t = if clean {
                Names::session(&mut r, 8)
            } else {
                let l = p.description(&mut r, 8);
                p.render(&mut r, &l)
            };
            if parse_sdp(&t, false).is_ok() {
                texts.push(t);
            }
        }
        let plan: Vec<(usize, Thing)> = (0..len).map(|_| {
            let a = 1 + r.below(3);
            let x = match r.below(8) {
                0..=3 => Thing::S(Box::new(parse_sdp(r.pick(&texts), false).unwrap())),
                4 => {
                    let q = parse_sdp(r.pick(&texts), false).unwrap();
                    if q.media.is_empty() { Thing::S(Box::new(q)) } else { Thing::M(Box::new(r.pick(&q.media).clone())) }
                }
                5 => {
                    let l = if clean {
                        match r.below(4) { 0 => Names::conn(&mut r), 1 => format!("o={} 1 2 {}", Names::word(&mut r), Names::typed(&mut r)), _ => Names::attr(&mut r, true) }
                    } else {
                        r.pick(&maskable).clone()
                    };
                    Thing::Line(Box::new(parse_sdp_line(&l, 0).unwrap().sdp_type))
                }
                6 => match r.below(2) {
                    0 => Thing::Addr(Address::from_str(&Names::addr(&mut r)).unwrap()),
                    _ => match parse_sdp_line(&format!("c={}", Names::typed(&mut r)), 0).unwrap().sdp_type {
                        SdpType::Connection(c) => Thing::Typed(c.address),
                        _ => unreachable!(),
                    },
                },
                _ if clean && r.chance(1, 2) => {
                    let c = *r.pick(&["v4", "v6", "host", "port", "ouser", "iuser", "pwd", "cname", "fp"]);
                    Thing::Call(c.to_string(), Names::value(&mut r, c))
                }
                _ => {
                    let (c, v) = match r.below(9) {
                        0 => ("v4", Names::v4(&mut r)),
                        1 => ("v6", Names::v6(&mut r)),
                        2 => ("host", Names::host(&mut r)),
                        3 => ("port", if clean { Names::port(&mut r) } else { r.below(5).to_string() }),
                        4 => ("ouser", Names::word(&mut r)),
                        5 => ("iuser", Names::word(&mut r)),
                        6 => ("pwd", Names::word(&mut r)),
                        7 => ("cname", Names::word(&mut r)),
                        _ => ("fp", Names::fp(&mut r).splitn(2, ' ').nth(1).unwrap().to_string()),
                    };
                    Thing::Call(c.to_string(), v)
                }
            };
            (a, x)
        }).collect();
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut an = [StatefulSdpAnonymizer::new(), StatefulSdpAnonymizer::new(), StatefulSdpAnonymizer::default()];
            let mut ev = vec![];
            for (a, x) in &plan {
                ev.push(masked(&mut an[a - 1], *a, x, clean));
            }
            json!({"ev": ev})
        }));
        match res {
            Ok(v) => {
                rep.count(if clean { "clean" } else { "any" });
                writeln!(out, "{v}").unwrap();
            }
            Err(_) => rep.mismatch(json!({"what": "panic", "input": texts.join("\n---\n")})),
        }
    }
    // large sessions
    let some_ports: Vec<String> = sorts(&mut r, "port").into_iter().rev().filter(|p| p.parse::<u32>().unwrap() <= 65535 && (p.len() < 3 || r.chance(1, 80))).collect();
    let some_v4 = sorts(&mut r, "v4");
    let some_hosts: Vec<String> = sorts(&mut r, "host").into_iter().filter(|h| h.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'.' || b == b'-') && !h.is_empty()).collect();
    for what in 0..27 {
        for size in [33, 65, 129, 257, 513, 1025] {
            if size > most || [11, 12, 13].contains(&what) || (what < 19 && size < 200) {
                continue;
            }
            let text = if what < 19 {
                let l = p.mass(&mut r, what, size);
                p.render(&mut r, &l)
            } else {
                let mut l = vec!["v=0".to_string(), format!("o=u 1 2 {}", Names::typed(&mut r)), "s=-".to_string(), "t=0 0".to_string(), Names::conn(&mut r)];
                if what != 19 {
                    l.push("m=audio 9 RTP/AVP 0".to_string());
                }
                for i in 0..size {
                    match what {
                        19 => l.push(Names::attr(&mut r, false)),
                        20 => l.push(Names::attr(&mut r, true)),
                        21 => l.push(format!("a=candidate:{i} 1 UDP {i} 172.{}.{}.9 {} typ host ufrag u{i}", i / 200, i % 200, 30000 + i)),
                        22 => l.push(format!("a=ssrc:{i} cname:c{i}")),
                        24 => l.push(format!("a=candidate:{i} 1 UDP {i} {} {} typ srflx raddr {} rport {}", r.pick(&some_v4), r.pick(&some_ports), r.pick(&some_v4), r.pick(&some_ports))),
                        25 => l.push(format!("a=remote-candidates:1 {} {}", r.pick(&some_hosts), r.pick(&some_ports))),
                        26 => l.push(match i % 4 {
                            0 => format!("a=rtcp:{i} IN IP4 {}", r.pick(&some_v4)),
                            1 => format!("a=ice-ufrag:{}", r.pick(&some_hosts)),
                            2 => format!("a=ice-pwd:{}", r.pick(&some_hosts)),
                            _ => format!("a=ssrc:{i} cname:{}", r.pick(&some_hosts)),
                        }),
                        _ => {
                            l.push(format!("m=video {i} RTP/AVP 96"));
                            l.push(Names::conn(&mut r));
                            l.push(Names::attr(&mut r, true));
                        }
                    }
                }
                l.join("\r\n") + "\r\n"
            };
            if parse_sdp(&text, false).is_err() {
                continue;
            }
            let res = catch_unwind(AssertUnwindSafe(|| {
                let mut an = StatefulSdpAnonymizer::new();
                let ev: Vec<Value> = (0..2).map(|_| {
                    let x = Thing::S(Box::new(parse_sdp(&text, false).unwrap()));
                    masked(&mut an, 1, &x, (19..24).contains(&what))
                }).collect();
                json!({"ev": ev})
            }));
            match res {
                Ok(v) => {
                    rep.count("large");
                    writeln!(out, "{v}").unwrap();
                }
                Err(_) => rep.mismatch(json!({"what": "panic", "input": text})),
            }
        }
    }
    // every port and all sorts of values of each category, then all again in another order
    for c in ["v4", "v6", "host", "port", "ouser", "iuser", "pwd", "fp", "cname"] {
        let mut vs = sorts(&mut r, c);
        let mut an = StatefulSdpAnonymizer::new();
        let mut pairs = vec![];
        for round in 0..3 {
            for v in &vs {
                let m = call(&mut an, c, v);
                pairs.push(json!([v, m]));
            }
            if round == 0 {
                // the masks issued are values too
                let known: std::collections::HashSet<String> = vs.iter().cloned().collect();
                let back: Vec<String> = pairs.iter().map(|p: &Value| p[1].as_str().unwrap().to_string()).filter(|m| !known.contains(m)).take(2000).collect();
                vs.extend(back);
                vs.reverse()
            } else {
                vs.sort_by_key(|v| v.len())
            }
        }
        rep.count("sorts");
        writeln!(out, "{}", json!({"ev": [{"ty": "many", "c": c, "clean": false, "pairs": pairs}]})).unwrap();
    }
    // many values of each category on one anonymizer, then all again
    for c in ["v4", "v6", "host", "port", "ouser", "iuser", "pwd", "fp", "cname"] {
        let mut an = StatefulSdpAnonymizer::new();
        // a session masked before and after
        let mut text = Names::session(&mut r, 8);
        while parse_sdp(&text, false).is_err() {
            text = Names::session(&mut r, 8);
        }
        let sess = |an: &mut StatefulSdpAnonymizer| {
            let x = Thing::S(Box::new(parse_sdp(&text, false).unwrap()));
            let before = x.value();
            let (m, warns, txt) = x.mask(an);
            json!({"n": 1, "ty": "s", "x": before, "y": x.value(), "r": m, "warns": warns, "txt": txt, "pr": [], "clean": true})
        };
        let first = sess(&mut an);
        let val = |i: usize| -> String {
            match c {
                "v4" => std::net::Ipv4Addr::from(0xC000_0000u32 + i as u32).to_string(),
                "v6" => std::net::Ipv6Addr::from((0x2001_0db8u128 << 96) + i as u128).to_string(),
                "host" => format!("h{i}.zq"),
                "port" => (1_000_000 + i).to_string(),
                "fp" => proj::bytes(&[&[0xAA; 4][..], &(i as u32).to_be_bytes()[..], &[0xBB; 12][..]].concat()),
                _ => format!("zq{i}"),
            }
        };
        let mut pairs = vec![];
        for i in (0..many).chain((0..many).step_by(97)) {
            let v = val(i);
            let m = call(&mut an, c, &v);
            pairs.push(json!([v, m]));
        }
        rep.count("many");
        writeln!(out, "{}", json!({"ev": [first, {"ty": "many", "c": c, "clean": true, "pairs": pairs}, sess(&mut an)]})).unwrap();
    }
}
