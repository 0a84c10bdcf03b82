//! The serialized view: replay of specified views, recording of views beside
//! the programmatic view and the results of the call.
use crate::docs::Pools;
use crate::mutate;
use crate::proj;
use crate::report::Report;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::io::Write;
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::error::*;
use webrtc_sdp::*;

#[cfg(feature = "serde_view")]
macro_rules! view {
    ($x:expr) => {
        match serde_json::to_value($x) {
            Ok(v) => (true, canon(&v, false)),
            Err(e) => (false, e.to_string()),
        }
    };
}
#[cfg(not(feature = "serde_view"))]
macro_rules! view {
    ($x:expr) => {{
        let _ = $x;
        (true, String::new())
    }};
}

/// spec/Serde.tla's canonical text of a document.
pub fn canon(v: &Value, double: bool) -> String {
    match v {
        Value::Null => "~".to_string(),
        Value::Bool(b) => if *b { "T" } else { "F" }.to_string(),
        Value::Number(n) => {
            if n.is_u64() || n.is_i64() {
                n.to_string()
            } else if double {
                format!("{}", n.as_f64().unwrap())
            } else {
                format!("{}", n.as_f64().unwrap() as f32)
            }
        }
        Value::String(s) => format!("'{s}'"),
        Value::Array(a) => format!("[{}]", a.iter().map(|x| canon(x, false)).collect::<Vec<_>>().join(",")),
        Value::Object(o) => {
            let mut k: Vec<_> = o.iter().collect();
            k.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
            format!("{{{}}}", k.iter().map(|(k, v)| format!("{k}:{}", canon(v, k.as_str() == "FrameRate"))).collect::<Vec<_>>().join(","))
        }
    }
}

fn diag(e: &SdpParserError) -> Value {
    let mut d = proj::error(e);
    d["msg"] = json!(match e {
        SdpParserError::Line { error, .. } | SdpParserError::Unsupported { error, .. } => error.to_string(),
        SdpParserError::Sequence { message, .. } => message.clone(),
    });
    d
}
fn event(kind: &str, input: &str, v: Value, warns: Value, txt: String, view: (bool, String)) -> Value {
    let res = json!([v, warns, txt]).to_string();
    json!({"kind": kind, "in": input, "v": [v], "warns": warns, "ok": view.0, "view": view.1, "res": res})
}
fn error_event(input: &str, e: &SdpParserError) -> Value {
    event("err", input, diag(e), json!([]), e.to_string(), view!(e))
}
const NUMBERS: [usize; 12] = [7, 0, 1, 255, 256, 999, 1000, 32768, 65535, 65536, 70000, 2147483647];
fn line_event(line: &str, number: usize) -> Value {
    match parse_sdp_line(line, number) {
        Ok(l) => event("line", line, proj::line_value(&l.sdp_type), json!([]), proj::line_text(&l.sdp_type), view!(&l.sdp_type)),
        Err(e) => error_event(line, &e),
    }
}
fn session_event(what: &str, s: &SdpSession) -> Value {
    let warns: Vec<Value> = s.warnings.iter().map(diag).collect();
    event("sess", what, proj::session(s), Value::Array(warns), s.to_string(), view!(s))
}
fn doc_events(text: &str, strict: bool, r: &mut Rng) -> Vec<Value> {
    match parse_sdp(text, strict) {
        Err(e) => vec![error_event(text, &e)],
        Ok(mut s) => {
            let mut out = vec![session_event(text, &s)];
            if r.chance(1, 4) {
                out.push(session_event(&format!("masked: {text}"), &s.masked_clone(&mut StatefulSdpAnonymizer::new())));
            }
            if r.chance(1, 4) {
                let a = |t: &str| t.parse::<attribute_type::SdpAttribute>().unwrap();
                let _ = s.add_attribute(a("ice-ufrag:x y"));
                for m in s.media.iter_mut() {
                    m.set_attribute(a("mid:0")).unwrap();
                    m.set_port(r.below(100000) as u32);
                    m.remove_codecs();
                }
                s.set_bandwidth_unknown(r);
                out.push(session_event(&format!("changed: {text}"), &s));
            }
            out
        }
    }
}
trait Touch {
    fn set_bandwidth_unknown(&mut self, r: &mut Rng);
}
impl Touch for SdpSession {
    fn set_bandwidth_unknown(&mut self, r: &mut Rng) {
        self.bandwidth.push(SdpBandwidth::Unknown("é=:".to_string(), r.below(9) as u32));
    }
}

fn guarded(input: &str, f: impl FnOnce() -> Vec<Value>) -> Vec<Value> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| {
        vec![json!({"kind": "err", "in": input, "v": [{"t": "err", "line": 0, "text": "", "msg": ""}], "warns": [], "ok": false, "view": "panic", "res": "panic"})]
    })
}

pub fn replay(cases: &[Value], rep: &mut Report) {
    for c in cases {
        let line = c["in"].as_str().unwrap();
        let o = guarded(line, || vec![line_event(line, 7)]).remove(0);
        rep.count(o["kind"].as_str().unwrap());
        if o["kind"] == json!("line") && c["t"] == json!("ok") && o["view"] != c["view"] {
            rep.mismatch(json!({"what": ["serialized view"], "input": line, "expected": c, "observed": o}));
        }
    }
}

pub fn record(cases: &[Value], n: usize, docs: usize, size: usize, most: usize, seed: u64, stream: &str, out: &mut dyn Write, rep: &mut Report) {
    let mut r = Rng::new(seed, stream);
    let pool: Vec<String> = cases.iter().filter(|c| c["t"] == json!("ok")).map(|c| c["in"].as_str().unwrap().to_string()).collect();
    let any: Vec<&str> = cases.iter().map(|c| c["in"].as_str().unwrap()).collect();
    for i in 0..n {
        let base = if r.chance(3, 4) { r.pick(&pool).as_str() } else { *r.pick(&any) };
        let line = mutate::as_line(mutate::mutate(&mut r, base, &pool, i % 8 == 0));
        for e in guarded(&line, || vec![line_event(&line, NUMBERS[i % 13 % 12])]) {
            rep.count(e["kind"].as_str().unwrap());
            writeln!(out, "{e}").unwrap();
        }
    }
    let p = Pools::new(cases);
    for i in 0..docs {
        let mut l = p.description(&mut r, size);
        if i % 3 == 0 {
            p.disturb(&mut r, &mut l, i % 12 == 0);
        }
        let text = p.render(&mut r, &l);
        let mut q = Rng::new(seed, &format!("{stream}{i}"));
        for e in guarded(&text, || doc_events(&text, i % 5 == 0, &mut q)) {
            rep.count(e["kind"].as_str().unwrap());
            writeln!(out, "{e}").unwrap();
        }
    }
    // diagnostics at every sort of line, with every sort of text
    for i in 0..n / 10 {
        let line = r.pick(&any).to_string();
        let number = NUMBERS[i % NUMBERS.len()];
        let e = SdpParserError::Sequence { message: format!("{} {i}", if i % 3 == 0 { "é" } else { "x" }), line_number: number };
        let es = match parse_sdp_line(&line, number) {
            Err(SdpParserError::Line { error, line, .. }) => vec![SdpParserError::Unsupported { error, line, line_number: number }, e],
            Err(SdpParserError::Unsupported { error, line, .. }) => vec![SdpParserError::Line { error, line, line_number: number }, e],
            _ => vec![e],
        };
        for e in es {
            rep.count("made diagnostic");
            writeln!(out, "{}", error_event(&line, &e)).unwrap();
        }
    }
    // large sessions
    for what in 0..19 {
        for n in [17, 33, 65, 129, 257, 513, 1025, 65537] {
            if (n > most || [12].contains(&what)) && (what, n) != (11, 65537) {
                continue;
            }
            let l = p.mass(&mut r, what, n);
            let text = p.render(&mut r, &l);
            let mut q = Rng::new(seed, &format!("{stream}{what}-{n}"));
            for e in guarded(&text, || doc_events(&text, false, &mut q)) {
                rep.count(&format!("large {}", e["kind"].as_str().unwrap()));
                writeln!(out, "{e}").unwrap();
            }
        }
    }
}
