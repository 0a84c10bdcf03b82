//! Calls and their results under different histories, interleavings and
//! threads.  A job is {op, text} or {op: "script", texts}; its result is a
//! digest of everything observable.
use crate::docs::Pools;
use crate::mutate;
use crate::proj;
use crate::report::Report;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Mutex};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::attribute_type::SdpAttribute;
use webrtc_sdp::*;

fn hash(s: &str) -> String {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    let head: String = s.chars().take(60).collect();
    format!("{h:016x} {}", head.escape_debug())
}
fn sdp(text: &str, strict: bool) -> Result<SdpSession, error::SdpParserError> {
    parse_sdp(text, strict)
}
fn shown(s: &SdpSession) -> String {
    format!("{} {} {:?}", proj::session(s), s, s)
}
/// The observable result of a job; `noise` runs between the steps of a script.
pub fn perform(job: &Value, noise: &mut dyn FnMut()) -> String {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform_inner(job, noise)));
    r.unwrap_or_else(|_| "panic".to_string())
}
fn perform_inner(job: &Value, noise: &mut dyn FnMut()) -> String {
    let text = job["text"].as_str().unwrap_or("");
    match job["op"].as_str().unwrap() {
        op @ ("strict" | "lenient") => match sdp(text, op == "strict") {
            Ok(s) => hash(&shown(&s)),
            Err(e) => hash(&format!("{e} {e:?}")),
        },
        "line" => match parse_sdp_line(text, 4) {
            Ok(l) => hash(&format!("{} {} {:?}", proj::line_value(&l.sdp_type), proj::line_text(&l.sdp_type), l)),
            Err(e) => hash(&format!("{e} {e:?}")),
        },
        "attr" => match SdpAttribute::from_str(text.trim_start_matches("a=")) {
            Ok(a) => hash(&format!("{} {a} {a:?}", proj::attribute(&a))),
            Err(e) => hash(&format!("{e} {e:?}")),
        },
        "mask" => match sdp(text, false) {
            Ok(s) => hash(&shown(&s.masked_clone(&mut StatefulSdpAnonymizer::new()))),
            Err(e) => hash(&format!("{e}")),
        },
        "change" => match sdp(text, false) {
            Ok(mut s) => {
                let mut out = String::new();
                for m in s.media.iter_mut() {
                    out.push_str(&format!("{:?}", m.add_attribute(SdpAttribute::Sendonly).is_ok()));
                    m.remove_codecs();
                    out.push_str(&format!("{:?}", m.add_codec(attribute_type::SdpAttributeRtpmap::new(99, "x".to_string(), 5)).is_ok()));
                }
                hash(&format!("{out} {}", shown(&s)))
            }
            Err(e) => hash(&format!("{e}")),
        },
        "script" => {
            let mut an = StatefulSdpAnonymizer::new();
            let mut out = String::new();
            for t in job["texts"].as_array().unwrap() {
                let t = t.as_str().unwrap();
                match sdp(t, false) {
                    Ok(s) => out.push_str(&s.masked_clone(&mut an).to_string()),
                    Err(_) => {
                        if let Ok(a) = SdpAttribute::from_str(t.trim_start_matches("a=")) {
                            out.push_str(&format!("{}", a.masked_clone(&mut an)));
                        } else {
                            out.push_str(&an.mask_host(t));
                            out.push_str(&an.mask_port(out.len() as u32 % 7).to_string());
                        }
                    }
                }
                out.push('|');
                noise();
            }
            hash(&out)
        }
        o => panic!("unknown op {o}"),
    }
}

/// Makes the jobs: lines, near variants of lines, descriptions, scripts.
pub fn jobs(cases: &[Value], n: usize, seed: u64, out: &mut dyn Write) -> usize {
    let mut r = Rng::new(seed, "jobs");
    let p = Pools::new(cases);
    let pool: Vec<String> = cases.iter().map(|c| c["in"].as_str().unwrap().to_string()).filter(|s| !s.contains('\n')).collect();
    let mut v: Vec<Value> = vec![];
    let doc = |r: &mut Rng, bad: bool| -> String {
        let mut l = p.description(r, 5);
        if bad {
            p.disturb(r, &mut l, false);
        }
        p.render(r, &l)
    };
    for i in 0..n {
        match i % 6 {
            0 => v.push(json!({"op": if i % 4 == 0 { "attr" } else { "line" }, "text": r.pick(&pool)})),
            1 => {
                // differs a little from an earlier line
                let prev: Vec<String> = v.iter().rev().take(30).filter(|j| j["op"] == json!("line")).map(|j| j["text"].as_str().unwrap().to_string()).collect();
                let base = if prev.is_empty() { r.pick(&pool).clone() } else { r.pick(&prev).clone() };
                let t = mutate::as_line(mutate::once(&mut r, &base, &base, false));
                v.push(json!({"op": "line", "text": t}));
            }
            2 => {
                let t = doc(&mut r, true);
                v.push(json!({"op": "lenient", "text": t}));
                v.push(json!({"op": "strict", "text": t}));
            }
            3 => {
                let t = doc(&mut r, false);
                v.push(json!({"op": "lenient", "text": t}));
                v.push(json!({"op": "mask", "text": t}));
                // one line of it changed
                let mut ls: Vec<String> = t.lines().map(|x| x.to_string()).collect();
                let k = r.below(ls.len());
                ls[k] = mutate::as_line(mutate::once(&mut r, &ls[k], &ls[k], false));
                v.push(json!({"op": "lenient", "text": ls.join("\r\n") + "\r\n"}));
            }
            4 => {
                let t = doc(&mut r, false);
                v.push(json!({"op": "change", "text": t}));
            }
            _ => {
                let texts: Vec<String> = (0..1 + r.below(4)).map(|_| if r.chance(1, 2) { doc(&mut r, false) } else { r.pick(&pool).clone() }).collect();
                v.push(json!({"op": "script", "texts": texts}));
            }
        }
    }
    // lines of every kind, each followed by near duplicates
    let mut kinds: std::collections::BTreeMap<String, Vec<&str>> = Default::default();
    for c in cases.iter().filter(|c| c["t"] == json!("ok") && !c["in"].as_str().unwrap().contains('\n')) {
        kinds.entry(format!("{} {}", c["v"]["ty"], c["v"]["x"]["k"])).or_default().push(c["in"].as_str().unwrap());
    }
    for ls in kinds.values() {
        for k in 0..4 {
            let l = r.pick(ls).to_string();
            let mut near = vec![l.clone()];
            let val = l.find([':', '=']).map_or(0, |i| i + 1);
            near.push(l[..val].to_string() + &l[val..].to_ascii_lowercase());
            near.push(l[..val].to_string() + &l[val..].to_ascii_uppercase());
            near.push(mutate::as_line(mutate::once(&mut r, &l, &l, false)));
            near.push(l[..l.len() - 1].to_string());
            near.push(format!("{l}1"));
            near.push(if l.contains("IP4") { l.replace("IP4", "IP6") } else { l.replace("IP6", "IP4") });
            near.dedup();
            if k % 2 == 1 {
                near.reverse();
            }
            for t in near {
                v.push(json!({"op": "line", "text": t}));
            }
        }
    }
    for j in &v {
        writeln!(out, "{j}").unwrap();
    }
    v.len()
}

/// One job in this process (text on standard input).
pub fn one() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    println!("{}", perform(&serde_json::from_str(&s).unwrap(), &mut || {}));
}
/// Every job in a process of its own.
pub fn reference(jobs: &[Value], out: &mut dyn Write, rep: &mut Report) {
    let exe = std::env::current_exe().unwrap();
    let next = AtomicUsize::new(0);
    let res: Mutex<Vec<String>> = Mutex::new(vec![String::new(); jobs.len()]);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= jobs.len() {
                    break;
                }
                let mut c = std::process::Command::new(&exe)
                    .args(["pure-one", "--report", "/dev/null"])
                    .stdin(std::process::Stdio::piped())
                    .stdout(std::process::Stdio::piped())
                    .spawn()
                    .unwrap();
                c.stdin.take().unwrap().write_all(jobs[i].to_string().as_bytes()).unwrap();
                let o = c.wait_with_output().unwrap();
                let t = String::from_utf8_lossy(&o.stdout).trim_end_matches('\n').to_string();
                res.lock().unwrap()[i] = if o.status.success() { t } else { "died".to_string() };
            });
        }
    });
    for r in res.into_inner().unwrap() {
        rep.count("alone");
        writeln!(out, "{}", json!({ "res": r })).unwrap();
    }
}

/// Random histories, repeated calls, interleaved scripts and threads.
pub fn record(jobs: &[Value], n: usize, seed: u64, out: &mut dyn Write, rep: &mut Report) {
    let mut emit = |job: usize, phase: &str, res: String| {
        rep.count(phase);
        writeln!(out, "{}", json!({"job": job + 1, "phase": phase, "res": res})).unwrap();
    };
    for (i, j) in jobs.iter().enumerate().rev() {
        emit(i, "reversed", perform(j, &mut || {}));
    }
    for (i, j) in jobs.iter().enumerate() {
        emit(i, "twice", perform(j, &mut || {}));
        emit(i, "twice", perform(j, &mut || {}));
    }
    let mut r = Rng::new(seed, "history");
    for _ in 0..n {
        let i = r.below(jobs.len());
        let mut q = r.clone();
        let mut noise = || {
            for _ in 0..1 + q.below(2) {
                perform(&jobs[q.below(jobs.len())], &mut || {});
            }
        };
        let res = perform(&jobs[i], &mut noise);
        emit(i, "history", res);
    }
    // the same few jobs again and again
    for i in 0..6.min(jobs.len()) {
        let k = r.below(jobs.len());
        for _ in 0..60 + i {
            emit(k, "again", perform(&jobs[k], &mut || {}));
        }
    }
    let got: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for t in 0..8 {
            let got = &got;
            sc.spawn(move || {
                let mut r = Rng::new(seed, &format!("thread{}", t / 2)); // pairs run the same calls
                let mut mine = vec![];
                for _ in 0..n / 4 {
                    let i = r.below(jobs.len());
                    let mut q = r.clone();
                    let res = perform(&jobs[i], &mut || {
                        perform(&jobs[q.below(jobs.len())], &mut || {});
                    });
                    mine.push((i, res));
                }
                got.lock().unwrap().append(&mut mine);
            });
        }
    });
    for (i, res) in got.into_inner().unwrap() {
        emit(i, "threads", res);
    }
}

/// Replays enumerated schedules of overlapping calls: s is a list of
/// [client, job] (begin) and [client, 0] (end).
pub fn replay(cases: &[Value], jobs: &[Value], refs: &[Value], rep: &mut Report) {
    std::thread::scope(|sc| {
        let clients: Vec<(mpsc::Sender<usize>, mpsc::Receiver<String>)> = (0..3)
            .map(|_| {
                let (tx, rx) = mpsc::channel::<usize>();
                let (back, res) = mpsc::channel::<String>();
                sc.spawn(move || {
                    for j in rx {
                        let _ = back.send(perform(&jobs[j], &mut std::thread::yield_now));
                    }
                });
                (tx, res)
            })
            .collect();
        for c in cases {
            let mut running = [0usize; 3];
            let mut bad = vec![];
            for e in c["s"].as_array().unwrap() {
                let k = e[0].as_u64().unwrap() as usize - 1;
                let j = e[1].as_u64().unwrap() as usize;
                if j > 0 {
                    running[k] = j;
                    clients[k].0.send(j - 1).unwrap();
                } else {
                    let got = clients[k].1.recv().unwrap();
                    let j = running[k];
                    running[k] = 0;
                    if json!(got) != refs[j - 1]["res"] {
                        bad.push(json!({"client": k + 1, "job": jobs[j - 1], "result": got, "alone": refs[j - 1]["res"]}));
                    }
                }
            }
            for k in 0..3 {
                if running[k] > 0 {
                    let _ = clients[k].1.recv().unwrap();
                }
            }
            rep.count("schedules");
            if !bad.is_empty() {
                rep.mismatch(json!({"what": ["result depends on history or schedule"], "input": c["s"].to_string(), "observed": bad}));
            }
        }
        drop(clients);
    });
}
