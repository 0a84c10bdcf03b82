//! Single lines: replay of enumerated derivations, recording of mutated lines.
use crate::mutate;
use crate::proj;
use crate::report::Report;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::*;
use webrtc_sdp::*;

pub fn class(e: &SdpParserError) -> &'static str {
    match e {
        SdpParserError::Line { .. } => "err",
        SdpParserError::Unsupported { .. } => "unsup",
        SdpParserError::Sequence { .. } => "seq",
    }
}

/// What the crate says about one line.
pub fn observe(line: &str, nr: usize) -> Value {
    catch_unwind(AssertUnwindSafe(|| observe_inner(line, nr)))
        .unwrap_or_else(|_| json!({"in": line, "t": "panic", "v": [], "txt": "", "nr": true, "text": true, "rt": "", "lv": [], "at": ""}))
}
fn observe_inner(line: &str, nr: usize) -> Value {
    match parse_sdp_line(line, nr) {
        Err(e) => {
            let d = proj::error(&e);
            let _ = format!("{e} {e:?}");
            json!({
                "in": line, "t": d["t"], "v": [], "txt": "", "rt": "", "lv": [], "at": attr_verdict(line, None),
                "nr": d["line"] == json!(nr), "text": d["text"] == json!(line),
            })
        }
        Ok(l) => {
            let v = proj::line_value(&l.sdp_type);
            let txt = proj::line_text(&l.sdp_type);
            let _ = format!("{:?}", l.sdp_type);
            let again = format!("{}={}", proj::line_type_char(&l.sdp_type), txt);
            let rt = match parse_sdp_line(&again, nr) {
                Err(e) => class(&e).to_string(),
                Ok(q) => {
                    let same = same_value(&proj::line_value(&q.sdp_type), &v);
                    let stable = proj::line_text(&q.sdp_type) == txt;
                    match (same, stable) {
                        (true, true) => "same",
                        (false, true) => "differs",
                        (true, false) => "unstable",
                        (false, false) => "differs, unstable",
                    }
                    .to_string()
                }
            };
            let lv = match &l.sdp_type {
                SdpType::Attribute(a) => json!([levels(a)]),
                _ => json!([]),
            };
            json!({
                "in": line, "t": "ok", "v": v, "txt": txt, "nr": l.line_number == nr, "text": l.text == line, "rt": rt,
                "lv": lv, "at": attr_verdict(line, Some(&v)),
            })
        }
    }
}
/// Equal values (an msid-semantic without ids means "all").
pub fn same_value(a: &Value, b: &Value) -> bool {
    canon(a) == canon(b)
}
fn canon(v: &Value) -> Value {
    let mut v = v.clone();
    if v["x"]["k"] == json!("msid-semantic") && v["x"]["msids"] == json!([]) {
        v["x"]["msids"] = json!(["*"]);
    }
    v
}
fn levels(a: &SdpAttribute) -> Value {
    let t = SdpAttributeType::from(a);
    json!({
        "name": t.to_string(),
        "session": a.allowed_at_session_level(),
        "media": a.allowed_at_media_level(),
    })
}
/// The attribute parser on its own agrees with the line parser: "" or what differs.
fn attr_verdict(line: &str, v: Option<&Value>) -> String {
    let mut p = line.splitn(2, '=');
    let (ty, val) = match (p.next(), p.next()) {
        (Some(a), Some(b)) => (a.trim(), b.trim()),
        _ => return String::new(),
    };
    if !ty.eq_ignore_ascii_case("a") || val.is_empty() {
        return String::new();
    }
    match (SdpAttribute::from_str(val), v) {
        (Ok(a), Some(v)) => {
            if proj::attribute(&a) == v["x"] {
                String::new()
            } else {
                "value".to_string()
            }
        }
        (Err(_), None) => String::new(),
        (Ok(_), None) => "accepted".to_string(),
        (Err(_), Some(_)) => "rejected".to_string(),
    }
}

pub fn agrees(e: &str, o: &str) -> bool {
    match e {
        "unk" => matches!(o, "ok" | "err" | "unsup"),
        "rej" => matches!(o, "err" | "unsup"),
        _ => e == o,
    }
}

/// Compares the crate with every enumerated derivation.
pub fn replay(cases: &[Value], rep: &mut Report, aspects: &str) {
    let all = aspects == "all";
    let has = |a: &str| all || aspects.split(',').any(|x| x == a);
    for (i, c) in cases.iter().enumerate() {
        let line = c["in"].as_str().unwrap();
        let o = observe(line, i % 211);
        let e = c["t"].as_str().unwrap();
        let t = o["t"].as_str().unwrap();
        rep.count(e);
        let mut bad: Vec<&str> = vec![];
        if has("verdict") && !agrees(e, t) {
            bad.push("verdict");
        }
        if t == "panic" {
            bad.push("panic");
        }
        if e == "ok" && t == "ok" {
            if has("value") && o["v"] != c["v"] {
                bad.push("value");
            }
            if has("text") && o["txt"] != c["txt"] {
                bad.push("text");
            }
            let rt = c["rt"].as_str().unwrap();
            if has("roundtrip") && rt != "unk" && rt != "rej" && o["rt"] != json!(rt) {
                bad.push("round trip");
            }
            if has("levels") && o["lv"] != c["lv"] {
                bad.push("levels");
            }
        }
        if has("diag") && (o["nr"] != json!(true) || o["text"] != json!(true)) {
            bad.push("line number or text");
        }
        if has("value") && o["at"] != json!("") {
            bad.push("attribute parser");
        }
        if !bad.is_empty() {
            rep.mismatch(json!({"what": bad, "input": line, "expected": c, "observed": o}));
        }
    }
}

/// Records observations of mutated lines.
pub fn record(cases: &[Value], pool: &[String], n: usize, seed: u64, stream: &str, out: &mut dyn std::io::Write, rep: &mut Report) {
    let mut r = Rng::new(seed, stream);
    let ok: Vec<&str> = cases.iter().filter(|c| c["t"] == json!("ok")).map(|c| c["in"].as_str().unwrap()).collect();
    let any: Vec<&str> = cases.iter().map(|c| c["in"].as_str().unwrap()).collect();
    let mut seen = std::collections::HashSet::new();
    for i in 0..n {
        let base = if !ok.is_empty() && r.chance(3, 4) { *r.pick(&ok) } else { *r.pick(&any) };
        let line = mutate::as_line(mutate::mutate(&mut r, base, pool, i % 16 == 0));
        if !seen.insert(line.clone()) {
            continue;
        }
        let o = observe(&line, i % 211);
        rep.count(o["t"].as_str().unwrap());
        writeln!(out, "{o}").unwrap();
    }
}

/// What the crate does today with the inputs of recorded findings.
pub fn known(cases: &[Value], rep: &mut Report) {
    for c in cases {
        let line = c["in"].as_str().unwrap();
        let o = observe(line, 0);
        rep.extra.insert(line.to_string(), json!([o["t"], o["rt"]]));
    }
}
