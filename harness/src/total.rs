//! Totality: very many calls on arbitrary texts.  Each call's history is a
//! list of [step, outcome]; every distinct history is recorded with a count
//! and an example, and a call that does not come back is recorded as such.
use crate::docs::Pools;
use crate::mutate;
use crate::report::Report;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::attribute_type::SdpAttribute;
use webrtc_sdp::error::*;
use webrtc_sdp::*;

/// Formats every log message, as an embedding application would.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(format!("{}", r.args()));
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

type History = Vec<(&'static str, &'static str)>;
fn step<T>(h: &mut History, name: &'static str, f: impl FnOnce() -> (T, &'static str)) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok((x, o)) => {
            h.push((name, o));
            Some(x)
        }
        Err(_) => {
            h.push((name, "panic"));
            None
        }
    }
}
fn class(e: &SdpParserError) -> &'static str {
    crate::lines::class(e)
}
fn failed<E: std::error::Error>(h: &mut History, e: &E) {
    step(h, "print", || (std::hint::black_box(e.to_string()), "done"));
    step(h, "debug", || (std::hint::black_box(format!("{e:?}")), "done"));
    step(h, "source", || {
        let mut s = e.source();
        while let Some(x) = s {
            std::hint::black_box(x.to_string());
            s = x.source();
        }
        ((), "done")
    });
}
macro_rules! used {
    ($h:expr, $v:expr, $print:expr) => {{
        let h = $h;
        let v = $v;
        step(h, "print", || (std::hint::black_box($print(v)), "done"));
        let a = step(h, "debug", || (format!("{v:?}"), "done"));
        let c = step(h, "clone", || {
            let c = v.clone();
            let same = Some(format!("{c:?}")) == a;
            (c, if same { "same" } else { "differs" })
        });
        drop(c);
    }};
}

/// One call of an entry point and every use of what it returned.
pub fn history(entry: &'static str, text: &str) -> History {
    let mut h: History = vec![];
    match entry {
        "lenient" | "strict" => {
            match step(&mut h, entry, || {
                let r = parse_sdp(text, entry == "strict");
                let o = r.as_ref().map_or_else(class, |_| "ok");
                (r, o)
            }) {
                Some(Ok(s)) => {
                    used!(&mut h, &s, |s: &SdpSession| s.to_string());
                    if let Some(m) = step(&mut h, "mask", || (s.masked_clone(&mut StatefulSdpAnonymizer::new()), "done")) {
                        step(&mut h, "print masked", || (std::hint::black_box(m.to_string()), "done"));
                    }
                }
                Some(Err(e)) => failed(&mut h, &e),
                None => {}
            }
        }
        "line" => {
            match step(&mut h, entry, || {
                let r = parse_sdp_line(text, 3);
                let o = r.as_ref().map_or_else(class, |_| "ok");
                (r, o)
            }) {
                Some(Ok(l)) => {
                    used!(&mut h, &l.sdp_type, |l: &SdpType| crate::proj::line_text(l));
                    step(&mut h, "mask", || {
                        let mut a = StatefulSdpAnonymizer::new();
                        match &l.sdp_type {
                            SdpType::Attribute(x) => drop(x.masked_clone(&mut a)),
                            SdpType::Origin(x) => drop(x.masked_clone(&mut a)),
                            SdpType::Connection(x) => drop(x.masked_clone(&mut a)),
                            _ => {}
                        }
                        ((), "done")
                    });
                    step(&mut h, "print masked", || ((), "done"));
                }
                Some(Err(e)) => failed(&mut h, &e),
                None => {}
            }
        }
        "attr" => {
            match step(&mut h, entry, || {
                let r = SdpAttribute::from_str(text);
                let o = r.as_ref().map_or("err", |_| "ok");
                (r, o)
            }) {
                Some(Ok(x)) => {
                    used!(&mut h, &x, |x: &SdpAttribute| x.to_string());
                    if let Some(m) = step(&mut h, "mask", || (x.masked_clone(&mut StatefulSdpAnonymizer::new()), "done")) {
                        step(&mut h, "print masked", || (std::hint::black_box(m.to_string()), "done"));
                    }
                }
                Some(Err(e)) => failed(&mut h, &e),
                None => {}
            }
        }
        e => panic!("{e}"),
    }
    h
}

const HEAD: &str = "v=0\r\no=- 1 2 IN IP4 0.0.0.0\r\ns=-\r\nt=0 0\r\nc=IN IP4 0.0.0.0\r\n";
/// Every entry point on a line.
fn of_line(line: &str, mut call: impl FnMut(&'static str, &str)) {
    call("line", line);
    call("attr", line.strip_prefix("a=").unwrap_or(line));
    call("lenient", &format!("{HEAD}{line}"));
    call("strict", &format!("{HEAD}m=video 9 RTP/AVP 96\r\n{line}\r\n"));
}

fn special_chars() -> Vec<char> {
    let mut v: Vec<char> = (0u32..0x180).filter_map(char::from_u32).collect();
    v.extend("\u{131}\u{17f}\u{212a}\u{2028}\u{3000}\u{feff}\u{fb03}\u{ff11}\u{1f600}\u{10ffff}\u{301}\u{200b}\u{1e9e}\u{661}\u{df}\u{130}".chars());
    v
}
/// Random text of any characters, biased towards the separators.
fn noise(r: &mut Rng, chars: &[char], n: usize) -> String {
    (0..n).map(|_| if r.chance(1, 2) { *r.pick(&[' ', ':', ';', ',', '/', '=', '[', ']', '-', '.', '*', '~', '\t', '\r', '1', '0', 'a']) } else { *r.pick(chars) }).collect()
}
/// A line blown up to about n bytes.
fn huge(r: &mut Rng, line: &str, n: usize) -> String {
    let cuts: Vec<usize> = line.char_indices().map(|(i, _)| i).chain(std::iter::once(line.len())).collect();
    let (a, b) = (*r.pick(&cuts), *r.pick(&cuts));
    let (a, b) = (a.min(b), a.max(b));
    let piece = if a == b { r.pick(&["0", "[", "]", ",", ";", " ", "=", "/", ":", "\u{e9}", "9", "1,", "[[", "x=1;"]).to_string() } else { line[a..b].to_string() };
    format!("{}{}{}", &line[..b], piece.repeat(n / piece.len() + 1), &line[b..])
}

pub struct Plan {
    pub mutated: usize,
    pub docs: usize,
    pub insert: usize,
    pub huge: usize,
    pub size: usize,
}
enum Item {
    Insert(usize),
    Mutated(usize),
    Noise(usize),
    Doc(usize),
    Cut(usize),
    Huge(usize),
}

pub fn run(cases: &[Value], plan: &Plan, seed: u64, limit_s: u64, curdir: &str, out: &mut dyn Write, rep: &mut Report) {
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Trace);
    let pools = Pools::new(cases);
    let pool: Vec<String> = cases.iter().map(|c| c["in"].as_str().unwrap().to_string()).filter(|s| !s.contains('\n')).collect();
    let ok: Vec<&String> = {
        let s: std::collections::HashSet<&str> = cases.iter().filter(|c| c["t"] == json!("ok")).map(|c| c["in"].as_str().unwrap()).collect();
        pool.iter().filter(|x| s.contains(x.as_str())).collect()
    };
    let chars = special_chars();
    let items: Vec<Item> = (0..plan.huge).map(Item::Huge)
        .chain((0..plan.insert).map(Item::Insert))
        .chain((0..plan.mutated).map(Item::Mutated))
        .chain((0..plan.mutated / 8).map(Item::Noise))
        .chain((0..plan.docs).map(Item::Doc))
        .chain((0..plan.docs / 40).map(Item::Cut))
        .collect();
    const W: usize = 8;
    let t0 = Instant::now();
    let started: Vec<AtomicU64> = (0..W).map(|_| AtomicU64::new(0)).collect();
    let slowest = Mutex::new((Duration::ZERO, String::new()));
    let next = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    let seen: Mutex<BTreeMap<(History, usize), (u64, String)>> = Mutex::new(BTreeMap::new());
    let hung: Mutex<Option<usize>> = Mutex::new(None);
    let cur = |w: usize| format!("{curdir}/current-{w}");
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for w in 0..W {
            let (items, pool, ok, chars, pools, started, seen, slowest, next) = (&items, &pool, &ok, &chars, &pools, &started, &seen, &slowest, &next);
            let f = File::create(cur(w)).unwrap();
            hs.push(sc.spawn(move || {
                let mut mine: BTreeMap<(History, usize), (u64, String)> = BTreeMap::new();
                let mut slow = (Duration::ZERO, String::new());
                {
                    let mut call = |entry: &'static str, text: &str| {
                        let note = format!("{entry}\n{text}");
                        let _ = f.set_len(note.len() as u64);
                        let _ = f.write_all_at(note.as_bytes(), 0);
                        started[w].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let t = Instant::now();
                        let h = history(entry, text);
                        let d = t.elapsed();
                        started[w].store(0, Ordering::Relaxed);
                        if d > slow.0 {
                            slow = (d, format!("{entry}, {} bytes: {}", text.len(), text.chars().take(80).collect::<String>()));
                        }
                        let size = match text.len() { 0..=99 => 0, 100..=9_999 => 1, _ => 2 };
                        let e = mine.entry((h, size)).or_insert_with(|| (0, text.chars().take(3000).collect()));
                        e.0 += 1;
                    };
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= items.len() {
                            break;
                        }
                        match items[i] {
                            Item::Insert(k) => {
                                // every position of a line x every special character, in turn
                                let line = ok[(k * 7919) % ok.len()];
                                let mut r = Rng::new(seed, &format!("ins{k}"));
                                for (p, _) in line.char_indices().chain(std::iter::once((line.len(), ' '))) {
                                    let c = *r.pick(chars);
                                    let mut t = line.clone();
                                    t.insert(p, c);
                                    of_line(&t, &mut call);
                                    let mut t: String = line[..p].to_string();
                                    t.push(c);
                                    of_line(&t, &mut call);
                                }
                            }
                            Item::Mutated(k) => {
                                let mut r = Rng::new(seed, &format!("mut{k}"));
                                let base = r.pick(pool).clone();
                                let t = mutate::mutate(&mut r, &base, pool, k % 2 == 0);
                                of_line(&t, &mut call);
                            }
                            Item::Noise(k) => {
                                let mut r = Rng::new(seed, &format!("noise{k}"));
                                let n = r.below(40);
                                let base = r.pick(pool).clone();
                                let cut: Vec<usize> = base.char_indices().map(|(i, _)| i).collect();
                                let at = if cut.is_empty() { 0 } else { *r.pick(&cut) };
                                let t = format!("{}{}", &base[..at], noise(&mut r, chars, n));
                                of_line(&t, &mut call);
                                let n = r.below(200);
                                call("lenient", &noise(&mut r, chars, n));
                            }
                            Item::Doc(k) => {
                                let mut r = Rng::new(seed, &format!("doc{k}"));
                                let mut l = if k % 3 == 0 { pools.focused(&mut r, "rid", 6) } else { pools.description(&mut r, 8) };
                                pools.disturb(&mut r, &mut l, k % 2 == 0);
                                let t = pools.render(&mut r, &l);
                                call("lenient", &t);
                                call("strict", &t);
                            }
                            Item::Cut(k) => {
                                // every prefix and every single deletion
                                let mut r = Rng::new(seed, &format!("cut{k}"));
                                let l = pools.description(&mut r, 3);
                                let t = pools.render(&mut r, &l);
                                for (p, c) in t.char_indices() {
                                    call("lenient", &t[..p]);
                                    call(if p % 2 == 0 { "lenient" } else { "strict" }, &format!("{}{}", &t[..p], &t[p + c.len_utf8()..]));
                                }
                            }
                            Item::Huge(k) => {
                                let mut r = Rng::new(seed, &format!("huge{k}"));
                                let n = if k % 4 == 0 { plan.size } else { plan.size / 16 };
                                let line = ok[(k * 7919) % ok.len()];
                                if k % 8 == 7 {
                                    // a very long description
                                    let one = pools.description(&mut r, 8);
                                    let mut l = one.clone();
                                    while l.len() * 40 < n {
                                        let x = if one.len() > 4 { r.pick(&one[4..]).clone() } else { r.pick(ok).to_string() };
                                        l.push(x);
                                    }
                                    let t = pools.render(&mut r, &l);
                                    call("lenient", &t);
                                } else {
                                    let t = huge(&mut r, line, n);
                                    of_line(&t, &mut call);
                                }
                            }
                        }
                    }
                }
                let mut s = seen.lock().unwrap();
                for (k, v) in mine {
                    let e = s.entry(k).or_insert_with(|| (0, v.1));
                    e.0 += v.0;
                }
                let mut b = slowest.lock().unwrap();
                if slow.0 > b.0 {
                    *b = slow;
                }
            }));
        }
        let (started, done, hung) = (&started, &done, &hung);
        sc.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let now = t0.elapsed().as_millis() as u64;
                for (w, s) in started.iter().enumerate() {
                    let s = s.load(Ordering::Relaxed);
                    if s > 0 && now > s + limit_s * 1000 {
                        *hung.lock().unwrap() = Some(w);
                        let t = std::fs::read(cur(w)).unwrap_or_default();
                        let t = String::from_utf8_lossy(&t).to_string();
                        println!("HUNG {}", json!(t.chars().take(4000).collect::<String>()));
                        std::process::exit(4);
                    }
                }
            }
        });
        let failed: Vec<String> = hs.into_iter().filter_map(|h| h.join().err()).map(|e| {
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        }).collect();
        done.store(true, Ordering::Relaxed);
        // every call of the crate is caught: this is a fault of the generator
        assert!(failed.is_empty(), "generator: {failed:?}");
    });
    for ((h, size), (n, example)) in seen.into_inner().unwrap() {
        let steps: Vec<Value> = h.iter().map(|(a, b)| json!([a, b])).collect();
        *rep.classes.entry(format!("{}:{}:{}", h[0].0, h[0].1, ["short", "long", "huge"][size])).or_insert(0) += n;
        rep.evaluations += n;
        writeln!(out, "{}", json!({"h": steps, "n": n.to_string(), "example": example})).unwrap();
    }
    let s = slowest.into_inner().unwrap();
    rep.extra.insert("slowest call (ms)".to_string(), json!([s.0.as_millis() as u64, s.1]));
    for w in 0..W {
        let _ = std::fs::remove_file(cur(w));
    }
}
