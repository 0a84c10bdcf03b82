//! Whole descriptions: replay of enumerated line sequences, recording of
//! random descriptions.
use crate::lines::{class, same_value};
use crate::mutate;
use crate::proj;
use crate::report::Report;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::*;

/// What the crate says about a description.
pub fn observe(text: &str, strict: bool) -> Value {
    catch_unwind(AssertUnwindSafe(|| observe_inner(text, strict))).unwrap_or_else(|_| {
        json!({"in": text, "strict": strict, "t": "panic", "line": 0, "text": "", "sess": [], "warns": [], "txt": "", "rt": ""})
    })
}
fn observe_inner(text: &str, strict: bool) -> Value {
    match parse_sdp(text, strict) {
        Err(e) => {
            let d = proj::error(&e);
            let _ = format!("{e} {e:?}");
            json!({"in": text, "strict": strict, "t": d["t"], "line": d["line"], "text": d["text"], "sess": [], "warns": [], "txt": "", "rt": ""})
        }
        Ok(s) => {
            let sess = proj::session(&s);
            let warns: Vec<Value> = s.warnings.iter().map(proj::error).collect();
            let txt = s.to_string();
            let _ = s.masked_clone(&mut StatefulSdpAnonymizer::new()).to_string();
            let _ = format!("{s:?}");
            json!({"in": text, "strict": strict, "t": "ok", "line": 0, "text": "", "sess": [sess], "warns": warns, "rt": reparse(&txt, &sess), "txt": txt})
        }
    }
}
/// Re-reads printed text strictly.
pub fn reparse(txt: &str, sess: &Value) -> String {
    match parse_sdp(txt, true) {
        Err(e) => class(&e).to_string(),
        Ok(q) => {
            let mut bad = vec![];
            if !same_session(&proj::session(&q), sess) {
                bad.push("differs");
            }
            if q.to_string() != txt {
                bad.push("unstable");
            }
            if !q.warnings.is_empty() {
                bad.push("warnings");
            }
            if bad.is_empty() {
                "same".to_string()
            } else {
                bad.join(", ")
            }
        }
    }
}
fn attrs(v: &Value) -> Vec<Value> {
    v.as_array().unwrap().iter().filter(|a| !no_text(a)).cloned().collect()
}
/// An all-default fmtp has no printed form.
fn no_text(a: &Value) -> bool {
    a["k"] == json!("fmtp") && {
        let d = json!({"plid":"42000a","laa":false,"pm":"0","maxfs":"0","maxcpb":"0","maxdpb":"0","maxbr":"0","maxmbps":"0","maxfr":"0",
            "profile":[],"level":[],"tier":[],"mpr":"48000","mabr":"0","usedtx":false,"stereo":false,"fec":false,"cbr":false,
            "ptime":"0","minptime":"0","maxptime":"0","enc":[],"dtmf":"","rtx":[],"unknown":[]});
        a["p"] == d
    }
}
pub fn same_session(a: &Value, b: &Value) -> bool {
    let same_list = |x: &Value, y: &Value| {
        let (x, y) = (attrs(x), attrs(y));
        x.len() == y.len()
            && x.iter().zip(&y).all(|(p, q)| same_value(&json!({"ty": "a", "x": p}), &json!({"ty": "a", "x": q})))
    };
    let keys = ["version", "origin", "session", "conn", "timing", "bw"];
    keys.iter().all(|k| a[k] == b[k])
        && same_list(&a["attrs"], &b["attrs"])
        && a["media"].as_array().unwrap().len() == b["media"].as_array().unwrap().len()
        && a["media"].as_array().unwrap().iter().zip(b["media"].as_array().unwrap()).all(|(m, q)| {
            ["line", "conn", "bw"].iter().all(|k| m[k] == q[k]) && same_list(&m["attrs"], &q["attrs"])
        })
}

pub const TERMS: [(&str, bool); 4] = [("\r\n", true), ("\n", true), ("\r\n", false), ("\n", false)];
fn join(lines: &[&str], term: (&str, bool)) -> String {
    let mut t = lines.join(term.0);
    if term.1 && !lines.is_empty() {
        t.push_str(term.0);
    }
    t
}

struct Vocab {
    lines: Vec<String>,
    vals: Vec<Value>,
}
impl Vocab {
    fn x(&self, d: &[usize], n: &Value) -> Value {
        self.vals[d[n.as_u64().unwrap() as usize - 1] - 1][0]["x"].clone()
    }
    fn seq(&self, d: &[usize], ns: &Value) -> Value {
        Value::Array(ns.as_array().unwrap().iter().map(|n| self.x(d, n)).collect())
    }
    fn opt(&self, d: &[usize], n: &Value) -> Value {
        if n == &json!(0) {
            json!([])
        } else {
            json!([self.x(d, n)])
        }
    }
    fn session(&self, d: &[usize], o: &Value) -> Value {
        let b = &o["body"];
        let name = self.x(d, &o["session"]);
        let name = name.as_str().unwrap().trim();
        json!({
            "version": self.x(d, &o["version"]), "origin": self.x(d, &o["origin"]),
            "session": if name.is_empty() { json!([]) } else { json!([name]) },
            "conn": self.opt(d, &b["conn"]), "timing": self.opt(d, &b["timing"]), "bw": self.seq(d, &b["bw"]), "attrs": self.seq(d, &b["attrs"]),
            "media": b["media"].as_array().unwrap().iter().map(|m| json!({
                "line": self.x(d, &m["line"]), "conn": self.opt(d, &m["conn"]), "bw": self.seq(d, &m["bw"]), "attrs": self.seq(d, &m["attrs"]),
            })).collect::<Vec<_>>(),
        })
    }
}

/// Replays enumerated descriptions; the first case is the vocabulary.
pub fn replay(cases: &[Value], rep: &mut Report, aspects: &str, all_terms: bool) {
    let has = |a: &str| aspects.split(',').any(|x| x == a);
    let v = cases.iter().find(|c| !c["vocab"].is_null()).expect("vocabulary");
    let v = Vocab {
        lines: v["vocab"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect(),
        vals: v["vals"].as_array().unwrap().clone(),
    };
    for (i, c) in cases.iter().enumerate() {
        if c["d"].is_null() {
            continue;
        }
        let d: Vec<usize> = c["d"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let lines: Vec<&str> = d.iter().map(|k| v.lines[k - 1].as_str()).collect();
        for (ti, term) in TERMS.iter().enumerate() {
            if !all_terms && ti != i % 4 {
                continue;
            }
            let text = join(&lines, *term);
            for strict in [false, true] {
                let e = if strict { &c["s"] } else { &c["l"] };
                let o = observe(&text, strict);
                let short = text.len() < 29;
                let et = if short { "err" } else { e["t"].as_str().unwrap() };
                let t = o["t"].as_str().unwrap();
                rep.count(et);
                let mut bad = vec![];
                if t == "panic" {
                    bad.push("panic");
                }
                if has("accept") && (et == "ok") != (t == "ok") {
                    bad.push("accepted or rejected");
                }
                if has("class") && et != t {
                    bad.push("class of the outcome");
                }
                if has("diag") && et == t && et != "ok" {
                    let line = if short { json!(0) } else { json!(e["line"].as_u64().unwrap() - 1) };
                    let txt = match (short, et) {
                        (true, _) => text.as_str(),
                        (_, "seq") => "",
                        _ => lines[e["line"].as_u64().unwrap() as usize - 1],
                    };
                    if o["line"] != line || o["text"] != json!(txt) {
                        bad.push("line number or text of the error");
                    }
                }
                if et == "ok" && t == "ok" {
                    let warns: Vec<Value> = e["warn"].as_array().unwrap().iter().map(|n| {
                        let n = n.as_u64().unwrap() as usize;
                        json!({"t": "unsup", "line": n - 1, "text": lines[n - 1]})
                    }).collect();
                    let warns = Value::Array(warns);
                    if (has("diag") && o["warns"] != warns)
                        || (has("warn") && o["warns"].as_array().unwrap().len() != warns.as_array().unwrap().len())
                    {
                        bad.push("warnings");
                    }
                    if has("value") && o["sess"][0] != v.session(&d, &e["s"]) {
                        bad.push("session");
                    }
                    if has("text") && o["txt"] != c["txt"] {
                        bad.push("printed text");
                    }
                    if has("roundtrip") && c["faithful"] == json!(true) && o["rt"] != json!("same") {
                        bad.push("round trip");
                    }
                }
                if !bad.is_empty() {
                    rep.mismatch(json!({"what": bad, "input": text, "strict": strict, "expected": c, "observed": o}));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------

pub struct Pools {
    session: Vec<String>,
    media: Vec<String>,
    bw: Vec<String>,
    conn: Vec<String>,
    mline: Vec<String>,
    bad: Vec<String>,
    unsup: Vec<String>,
    head: [Vec<String>; 4],
    all: Vec<String>,
}
impl Pools {
    pub fn new(cases: &[Value]) -> Pools {
        let of = |f: &dyn Fn(&Value) -> bool| -> Vec<String> {
            cases.iter().filter(|c| f(c)).map(|c| c["in"].as_str().unwrap().to_string()).filter(|s| !s.contains('\n')).collect()
        };
        let ok = |c: &Value, ty: &str| c["t"] == json!("ok") && c["v"]["ty"] == json!(ty);
        let special = |c: &Value| ["rid", "simulcast", "extmap", "rtcp-mux-only"].contains(&c["v"]["x"]["k"].as_str().unwrap_or(""));
        let mut media = of(&|c| ok(c, "a") && c["lv"][0]["media"] == json!(true) && !special(c));
        let mut session = of(&|c| ok(c, "a") && c["lv"][0]["session"] == json!(true) && !special(c));
        for f in ["sendrecv", "end-of-candidates", "inactive", "recvonly", "sendonly", "extmap-allow-mixed"] {
            media.push(format!("a={f}"));
            session.push(format!("a={f}"));
        }
        for f in ["rtcp-mux", "rtcp-rsize", "bundle-only", "ice-mismatch"] {
            media.push(format!("a={f}"));
        }
        session.push("a=ice-lite".to_string());
        Pools {
            session,
            media,
            bw: of(&|c| ok(c, "b")),
            conn: of(&|c| ok(c, "c")),
            mline: of(&|c| ok(c, "m")),
            bad: of(&|c| c["t"] == json!("err") && !c["in"].as_str().unwrap().trim().is_empty()),
            unsup: of(&|c| c["t"] == json!("unsup")),
            head: [of(&|c| ok(c, "v")), of(&|c| ok(c, "o")), of(&|c| ok(c, "s")), of(&|c| ok(c, "t"))],
            all: of(&|c| c["t"] == json!("ok")),
        }
    }
    /// A description that is mostly well-formed.
    pub fn description(&self, r: &mut Rng, size: usize) -> Vec<String> {
        let mut l: Vec<String> = vec![];
        for h in &self.head {
            l.push(r.pick(h).clone());
        }
        if r.chance(3, 4) {
            l.push(r.pick(&self.conn).clone());
        }
        for _ in 0..r.below(3) {
            l.push(r.pick(&self.bw).clone());
        }
        for _ in 0..r.below(size) {
            l.push(r.pick(&self.session).clone());
        }
        let ext_at_session = r.chance(1, 2);
        if ext_at_session && r.chance(1, 2) {
            l.push(format!("a=extmap:{} urn:{}", 1 + r.below(14), r.below(3)));
        }
        if r.chance(1, 6) {
            l.push(r.pick(&self.head[3]).clone());
        }
        let sections = if r.chance(1, 6) { r.below(9) } else { r.below(4) };
        let mut mlines: Vec<String> = vec![];
        let mut seen: Vec<String> = vec![];
        for _ in 0..sections {
            let app = r.chance(1, 4);
            if !mlines.is_empty() && r.chance(1, 5) {
                l.push(r.pick(&mlines).clone());
            } else if r.chance(1, 3) {
                l.push(r.pick(&self.mline).clone());
            } else if app {
                let port = if r.chance(1, 4) { 0 } else { r.below(70000) };
                l.push(format!("m=application {port} UDP/DTLS/SCTP webrtc-datachannel {}", 96 + r.below(5)));
            } else {
                let port = if r.chance(1, 4) { 0 } else { r.below(66000) };
                l.push(format!("m=video {port} UDP/TLS/RTP/SAVPF 96 97 98"));
            }
            mlines.push(l[l.len() - 1].clone());
            let mut b: Vec<String> = vec![];
            // lines that occurred before, exactly or nearly
            while !seen.is_empty() && r.chance(1, 3) {
                let x = r.pick(&seen).clone();
                b.push(if r.chance(1, 4) { mutate::as_line(mutate::once(r, &x, &x, false)) } else { x });
            }
            if r.chance(2, 3) {
                b.push(r.pick(&self.conn).clone());
            }
            for _ in 0..r.below(3) {
                b.push(r.pick(&self.bw).clone());
            }
            for _ in 0..r.below(size) {
                b.push(r.pick(&self.media).clone());
            }
            if r.chance(1, 3) {
                b.push("a=rtcp-mux-only".to_string());
                if r.chance(5, 6) {
                    b.push("a=rtcp-mux".to_string());
                }
            }
            if !ext_at_session && r.chance(1, 2) {
                b.push(format!("a=extmap:{}/recvonly urn:{} vad=on", 1 + r.below(14), r.below(3)));
            }
            if r.chance(1, 2) {
                self.rids(r, &mut b);
            }
            // order within the section is free
            for i in (1..b.len()).rev() {
                b.swap(i, r.below(i + 1));
            }
            seen.extend(b.iter().cloned());
            l.append(&mut b);
        }
        l
    }
    /// A well-formed description around the session-wide constraints: `what`
    /// is "constraint" or "rid".
    pub fn focused(&self, r: &mut Rng, what: &str, sections: usize) -> Vec<String> {
        let mut l: Vec<String> = self.head.iter().map(|h| r.pick(h).clone()).collect();
        let sconn = r.chance(1, 3) || what == "rid";
        if sconn {
            l.push(r.pick(&self.conn).clone());
        }
        if r.chance(1, 12) {
            l.remove(3);
        }
        let ext = r.below(4);
        if ext == 1 {
            l.push("a=extmap:1 urn:a".to_string());
        }
        for _ in 0..r.below(3) {
            l.push(r.pick(&self.session).clone());
        }
        let n = r.below(sections + 1);
        let odd = r.below(n + 1); // the section that may lack something
        for k in 0..n {
            let port = *r.pick(&["0", "0/2", "9", "9/0", "9/3", "5000", "65535"]);
            let mut fmts: Vec<&str> = vec![];
            let app = r.chance(1, 2);
            for _ in 0..1 + r.below(3) {
                fmts.push(if app { *r.pick(&["9", "96", "97", "970", "x", "096", "5000", "webrtc-datachannel", "97x"]) } else { *r.pick(&["0", "9", "96", "97", "98", "101"]) });
            }
            l.push(if app {
                format!("m=application {port} {} {}", r.pick(&["UDP/DTLS/SCTP", "DTLS/SCTP", "TCP/DTLS/SCTP"]), fmts.join(" "))
            } else {
                format!("m={} {port} {} {}", r.pick(&["audio", "video"]), r.pick(&["RTP/AVP", "RTP/SAVPF", "UDP/TLS/RTP/SAVPF"]), fmts.join(" "))
            });
            let mut b: Vec<String> = vec![];
            if !sconn && (k != odd || r.chance(1, 2)) || r.chance(1, 3) {
                b.push(r.pick(&self.conn).clone());
            }
            if r.chance(1, 3) {
                b.push("a=rtcp-mux".to_string());
            }
            if r.chance(1, 4) && (k == odd || b.contains(&"a=rtcp-mux".to_string())) {
                b.push("a=rtcp-mux-only".to_string());
            }
            if (ext == 2 && k != odd) || (ext == 1 && k == odd && r.chance(1, 2)) {
                b.push(format!("a=extmap:{} urn:b", 1 + r.below(3)));
            }
            for _ in 0..r.below(3) {
                b.push(r.pick(&["a=bundle-only", "a=inactive", "a=sendrecv", "a=end-of-candidates", "a=mid:a", "a=rtcp:9", "a=rtcp:9 IN IP4 0.0.0.0", "a=rtcp-rsize", "b=AS:0", "a=setup:holdconn"]).to_string());
            }
            if what == "rid" {
                let known: Vec<&str> = fmts.iter().copied().filter(|f| f.parse::<u16>().is_ok() && !f.starts_with("09")).collect();
                let ids = ["a", "b", "A", "ab", "1", "10"];
                let mut have: Vec<(&str, &str)> = vec![];
                for _ in 0..r.below(4) {
                    let id = *r.pick(&ids);
                    let dir = *r.pick(&["send", "recv"]);
                    let mut pts: Vec<String> = vec![];
                    for _ in 0..r.below(3) {
                        if r.chance(1, 10) || known.is_empty() {
                            pts.push(r.pick(&["9", "96", "97", "970", "0", "65535", "10"]).to_string());
                        } else if r.chance(1, 12) {
                            // congruent to a format
                            let f: u32 = r.pick(&known).parse().unwrap();
                            pts.push(((f + r.pick(&[64, 128, 256, 512, 1024, 32768, 65280])) % 65536).to_string());
                        } else {
                            pts.push(r.pick(&known).to_string());
                        }
                    }
                    let pt = if pts.is_empty() { String::new() } else { format!("pt={}", pts.join(",")) };
                    let rest = r.pick(&["", "max-fs=7", "max-width=1;max-br=2", "depends=a", "foo"]).to_string();
                    let sep = if pt.is_empty() || rest.is_empty() { "" } else { ";" };
                    let blank = if pt.is_empty() && rest.is_empty() { "" } else { " " };
                    b.push(format!("a=rid:{id} {dir}{blank}{pt}{sep}{rest}"));
                    have.push((id, dir));
                }
                for _ in 0..r.below(3) {
                    let mut side = |dir: &str| -> String {
                        let mine: Vec<&str> = have.iter().filter(|h| h.1 == dir).map(|h| h.0).collect();
                        let k = 1 + r.below(3);
                        (0..k).map(|i| {
                            let id = if mine.is_empty() || r.chance(1, 12) { *r.pick(&ids) } else { *r.pick(&mine) };
                            let pre = if r.chance(1, 3) { "~" } else { "" };
                            format!("{}{pre}{id}", if i == 0 { "" } else { [",", ";"][r.below(2)] })
                        }).collect::<String>()
                    };
                    let (s, v) = (side("send"), side("recv"));
                    let (hs, hv) = (have.iter().any(|h| h.1 == "send"), have.iter().any(|h| h.1 == "recv"));
                    match (hs, hv) {
                        (true, false) => b.push(format!("a=simulcast:send {s}")),
                        (false, true) => b.push(format!("a=simulcast:recv {v}")),
                        (true, true) => b.push(match r.below(4) {
                            0 => format!("a=simulcast:send {s}"),
                            1 => format!("a=simulcast:recv {v}"),
                            2 => format!("a=simulcast:send {s} recv {v}"),
                            _ => format!("a=simulcast:recv {v} send {s}"),
                        }),
                        _ => if r.chance(1, 8) { b.push(format!("a=simulcast:send {s}")) },
                    }
                }
            }
            for i in (1..b.len()).rev() {
                b.swap(i, r.below(i + 1));
            }
            l.append(&mut b);
        }
        l
    }
    fn rids(&self, r: &mut Rng, b: &mut Vec<String>) {
        let ids = ["a", "b", "1", "hi"];
        let mut send = vec![];
        let mut recv = vec![];
        for _ in 0..1 + r.below(4) {
            let id = *r.pick(&ids);
            let dir = *r.pick(&["send", "recv"]);
            let pt = r.pick(&["", " pt=96", " pt=97,98", " max-fs=7", " pt=96;max-width=5;foo=x", " pt=99", " depends=a,b"]).to_string();
            b.push(format!("a=rid:{id} {dir}{pt}"));
            if dir == "send" { send.push(id) } else { recv.push(id) }
        }
        for _ in 0..r.below(3) {
            let mut list = |known: &Vec<&str>| -> String {
                let n = 1 + r.below(3);
                (0..n)
                    .map(|_| {
                        let k = 1 + r.below(2);
                        (0..k)
                            .map(|_| {
                                let id = if known.is_empty() || r.chance(1, 12) { *r.pick(&ids) } else { *r.pick(known) };
                                format!("{}{}", if r.chance(1, 4) { "~" } else { "" }, id)
                            })
                            .collect::<Vec<_>>()
                            .join(",")
                    })
                    .collect::<Vec<_>>()
                    .join(";")
            };
            let (s, v) = (list(&send), list(&recv));
            match (send.is_empty(), recv.is_empty()) {
                (false, true) => b.push(format!("a=simulcast:send {s}")),
                (true, false) => b.push(format!("a=simulcast: recv {v}")),
                _ => b.push(format!("a=simulcast:send {s} recv rid={v}")),
            }
        }
    }
    /// A description in which one thing occurs `n` times, followed by some
    /// other lines.
    pub fn mass(&self, r: &mut Rng, what: usize, n: usize) -> Vec<String> {
        let mut l: Vec<String> = self.head.iter().map(|h| r.pick(h).clone()).collect();
        l.push(r.pick(&self.conn).clone());
        let in_media = [1, 3, 5, 6, 11, 12, 15, 16, 17, 18].contains(&what) || (what < 2 || what > 12) && r.chance(1, 2);
        if in_media {
            l.push("m=video 9 UDP/TLS/RTP/SAVPF 96 97 98".to_string());
        }
        let mut all_sends: Vec<String> = vec![];
        let level = |m: bool| if m { &self.media } else { &self.session };
        let one = |r: &mut Rng, m: bool| loop {
            let x = r.pick(level(m)).clone();
            if x.len() < 90 && !x.to_lowercase().starts_with("a=simulcast") && !x.to_lowercase().starts_with("a=rid") && !x.contains("extmap:") {
                break x;
            }
        };
        let fixed = one(r, in_media);
        let bw = r.pick(&self.bw).clone();
        let un = r.pick(&self.unsup).clone();
        let ml = r.pick(&["m=audio 9 RTP/AVP 0", "m=video 0 RTP/AVP 96", "m=application 9 UDP/DTLS/SCTP x"]).to_string();
        if what > 18 {
            // lines of about n characters
            let word: String = (0..n).map(|k| if k % 64 == 63 && what == 20 { ' ' } else { *r.pick(&['a', 'b', '7', '-', 'x']) }).collect();
            let wide = "\u{e9}".repeat(n / 2);
            l.push(match what {
                19 => format!("a=foo:{word}"),
                20 => format!("a=foo-{word} "),
                21 => format!("a=group:{word} a"),
                22 => format!("a=ptime:{word}"),
                23 => format!("x={word}"),
                24 => format!("a=rtcp-fb:96 {word}"),
                25 => format!("a=foo:{wide}"),
                26 => format!("a=ptime:{wide}"),
                27 => format!("m=text 9 RTP/AVP {word}"),
                28 => format!("a=msid-semantic:{word} a"),
                29 => format!("a={}:{word}", if in_media { ["mid", "label"][r.below(2)] } else { ["identity", "ice-pwd"][r.below(2)] }),
                30 => word,
                _ => format!("b={word}:5"),
            });
        }
        for i in 0..if what > 18 { 0 } else { n } {
            match what {
                0 | 1 => l.push(if n < 200 { r.pick(&self.unsup).clone() } else { un.clone() }),
                2 | 3 => l.push(if r.chance(1, 2) { bw.clone() } else { r.pick(&self.bw).clone() }),
                4 | 5 => l.push(fixed.clone()),
                6 | 7 => l.push(one(r, in_media)),
                8 => l.push(ml.clone()),
                9 => {
                    l.push(format!("m=audio {i} RTP/AVP {}", i % 60 + 3));
                    l.push(format!("a=mid:{i}"));
                    if i % 3 == 0 {
                        l.push(format!("b=AS:{i}"));
                    }
                    if i % 2 == 0 {
                        l.push(format!("c=IN IP4 10.0.{}.{}", i / 256 % 256, i % 256));
                    }
                }
                10 => l.push(format!("{}={i} {}", ["t", "T"][i % 2], i + 1)),
                11 => l.push(String::new()),
                12 => l.push(r.pick(&["", " ", "\t", "\u{a0}", "\u{3000} ", " \u{2028}", "\u{b}"]).to_string()),
                13 => l.push(r.pick(&self.bad).clone()),
                14 => l.push(format!("c=IN IP4 10.0.{}.{}", i / 256 % 256, i % 256)),
                15 => {
                    l.push(format!("a=rid:{i} send pt=9{}", 6 + i % 3));
                    all_sends.push(format!("{}{i}", if i % 5 == 0 { "~" } else { "" }));
                }
                16 => l.push(format!("a=candidate:{i} 1 UDP {i} 10.0.0.{} {i} typ host", i % 256)),
                17 => l.push(if i % 2 == 0 { un.clone() } else { fixed.clone() }),
                _ => l.push(format!("a={}:{} urn:{i}", ["extmap", "EXTMAP"][i % 2], i + 1)),
            }
        }
        if what == 15 {
            if r.chance(1, 5) {
                all_sends.push(n.to_string());
            }
            l.push(format!("a=simulcast:send {}", all_sends.join(if r.chance(1, 2) { ";" } else { "," })));
        }
        if what == 11 {
            l.push(match r.below(3) {
                0 => un,
                1 => r.pick(&self.bad).clone(),
                _ => r.pick(&self.head[1]).clone(),
            });
        }
        for _ in 0..r.below(if what > 18 { 2 } else { 4 }) {
            let m = in_media || what == 8 || what == 9;
            l.push(match r.below(8) {
                0 => r.pick(&self.unsup).clone(),
                1 if r.chance(1, 3) => r.pick(&self.bad).clone(),
                2 => r.pick(&self.bw).clone(),
                _ => one(r, m),
            });
        }
        l
    }
    pub fn disturb(&self, r: &mut Rng, l: &mut Vec<String>, unicode: bool) {
        let k = if r.chance(1, 2) { r.below(4) } else { 0 };
        for _ in 0..k {
            let at = r.below(l.len() + 1);
            match r.below(10) {
                0 => l.insert(at, r.pick(&self.bad).clone()),
                1 | 2 | 3 => l.insert(at, r.pick(&self.unsup).clone()),
                4 => l.insert(at, r.pick(&["", " ", "\t", "  \t ", "\u{a0}", "\u{2003} ", "\u{b}", "\u{85}", "\u{200b}", "\u{feff}"]).to_string()),
                5 => {
                    if !l.is_empty() {
                        let i = r.below(l.len());
                        l.remove(i);
                    }
                }
                6 => {
                    if !l.is_empty() {
                        let i = r.below(l.len());
                        let j = r.below(l.len());
                        l.swap(i, j);
                    }
                }
                7 => {
                    if !l.is_empty() {
                        let x = l[r.below(l.len())].clone();
                        l.insert(at, x);
                    }
                }
                8 => l.insert(at, r.pick(&self.all).clone()),
                _ => {
                    if !l.is_empty() {
                        let i = r.below(l.len());
                        let m = mutate::mutate(r, &l[i], &self.all, unicode);
                        l[i] = mutate::as_line(m);
                    }
                }
            }
        }
    }
    pub fn render(&self, r: &mut Rng, l: &[String]) -> String {
        let v: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
        if r.chance(1, 6) {
            let mut t = String::new();
            for x in v {
                t.push_str(x);
                t.push_str(r.pick(&["\n", "\r\n", "\r\n", "\n\n", "\r\n\r\n", "\r\r\n"]));
            }
            t
        } else {
            join(&v, TERMS[r.below(4)])
        }
    }
}

pub fn record(cases: &[Value], n: usize, size: usize, focus: &str, mass: usize, seed: u64, stream: &str, out: &mut dyn std::io::Write, rep: &mut Report) {
    let p = Pools::new(cases);
    let mut r = Rng::new(seed, stream);
    let mut seen = std::collections::HashSet::new();
    for i in 0..n {
        let mut l = if focus != "any" && i % 3 != 0 {
            let k = if i % 50 == 1 { 20 } else { 6 };
            p.focused(&mut r, focus, k)
        } else {
            let mut l = p.description(&mut r, size);
            p.disturb(&mut r, &mut l, i % 20 == 0);
            l
        };
        if focus != "any" && r.chance(1, 10) {
            p.disturb(&mut r, &mut l, false);
        }
        let text = if r.chance(1, 40) {
            l.truncate(r.below(4));
            p.render(&mut r, &l)
        } else {
            p.render(&mut r, &l)
        };
        if !seen.insert(text.clone()) {
            continue;
        }
        let o = observe(&text, i % 3 == 0);
        rep.count(o["t"].as_str().unwrap());
        writeln!(out, "{o}").unwrap();
    }
    for (i, (what, n)) in masses(mass, &mut r).into_iter().enumerate() {
        let l = p.mass(&mut r, what, n);
        let v: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
        let text = join(&v, TERMS[if n > 5000 { 1 } else { r.below(4) }]);
        let o = observe(&text, i % 3 == 0);
        rep.count(&format!("mass {}", o["t"].as_str().unwrap()));
        writeln!(out, "{o}").unwrap();
    }
}
/// What is repeated, and how often: sizes around powers of two.
fn masses(most: usize, r: &mut Rng) -> Vec<(usize, usize)> {
    let sizes: Vec<usize> = [9, 17, 33, 65, 101, 129, 257, 513, 1001, 1025, 2049, 4097, 8193, 16385].iter().copied().filter(|&s| s <= most).collect();
    let mut v: Vec<(usize, usize)> = vec![];
    for what in 0..19 {
        for &s in &sizes {
            if s <= 1200 || r.chance(1, 6) {
                v.push((what, s));
            }
        }
    }
    for what in 19..32 {
        for &s in [41, 65, 81, 101, 129, 201, 257, 513, 1025, 4097].iter().filter(|&&s| s <= 1100 || most > 2000) {
            v.push((what, s));
        }
    }
    // many more, of the lines that cost nothing
    if most > 1000 {
        v.extend([(11, 65537), (11, 65536), (11, 70000), (12, 66000)]);
    }
    v
}
