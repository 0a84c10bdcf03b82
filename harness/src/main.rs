//! Conformance harness: replays behaviours enumerated from the TLA+
//! specification into webrtc-sdp and records behaviours of webrtc-sdp for the
//! specification to judge.
mod addr;
mod anon;
mod build;
mod docs;
mod lines;
mod mutate;
mod proj;
mod pure;
mod report;
mod rng;
mod serde_view;
mod total;

use report::Report;
use serde_json::Value;
use std::collections::HashMap;
use std::fs;
use std::io::{BufWriter, Write};

struct Args {
    cmd: String,
    kv: HashMap<String, String>,
}
impl Args {
    fn get(&self, k: &str) -> &str {
        self.kv.get(k).unwrap_or_else(|| panic!("missing --{k}"))
    }
    fn opt(&self, k: &str, d: &str) -> String {
        self.kv.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn num(&self, k: &str, d: usize) -> usize {
        self.kv.get(k).map_or(d, |x| x.parse().unwrap())
    }
}
fn args() -> Args {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut kv = HashMap::new();
    while let (Some(k), Some(v)) = (it.next(), it.next()) {
        kv.insert(k.trim_start_matches("--").to_string(), v);
    }
    Args { cmd, kv }
}
fn cases(path: &str) -> Vec<Value> {
    fs::read_to_string(path)
        .unwrap()
        .lines()
        .filter(|l| !l.is_empty())
        .map(|l| serde_json::from_str(l).unwrap())
        .collect()
}
fn pool(path: &str) -> Vec<String> {
    fs::read_to_string(path).unwrap().lines().filter(|l| !l.is_empty()).map(|s| s.to_string()).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = args();
    let seed: u64 = a.opt("seed", "1").parse().unwrap_or(1);
    let mut rep = Report::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&a, seed, &mut rep)));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("harness error: {m}");
        std::process::exit(3);
    }
    fs::write(a.get("report"), rep.json().to_string()).unwrap();
}

fn run(a: &Args, seed: u64, rep: &mut Report) {
    match a.cmd.as_str() {
        "lines-replay" => lines::replay(&cases(a.get("cases")), rep, &a.opt("aspects", "all")),
        "lines-known" => lines::known(&cases(a.get("cases")), rep),
        "lines-record" => {
            let c = cases(a.get("cases"));
            let p = pool(a.get("pool"));
            let mut w = BufWriter::new(fs::File::create(a.get("out")).unwrap());
            lines::record(&c, &p, a.num("n", 10000), seed, a.get("stream"), &mut w, rep);
            w.flush().unwrap();
        }
        "addr-replay" => addr::replay(&cases(a.get("cases")), rep),
        "addr-record" => {
            let mut w = BufWriter::new(fs::File::create(a.get("out")).unwrap());
            addr::record(&cases(a.get("cases")), a.num("n", 1000), seed, a.get("stream"), &mut w, rep);
            w.flush().unwrap();
        }
        "docs-replay" => docs::replay(&cases(a.get("cases")), rep, a.get("aspects"), a.opt("terms", "one") == "all"),
        "docs-record" => {
            let c = cases(a.get("cases"));
            let mut w = BufWriter::new(fs::File::create(a.get("out")).unwrap());
            docs::record(&c, a.num("n", 1000), a.num("size", 8), &a.opt("focus", "any"), a.num("mass", 0), seed, a.get("stream"), &mut w, rep);
            w.flush().unwrap();
        }
        "build-replay" => build::replay(&cases(a.get("cases")), rep, a.get("aspects")),
        "build-record" => {
            let c = cases(a.get("cases"));
            let mut w = BufWriter::new(fs::File::create(a.get("out")).unwrap());
            build::record(&c, a.num("n", 200), a.num("len", 30), a.num("most", 0), seed, a.get("stream"), &mut w, rep);
            w.flush().unwrap();
        }
        "anon-replay" => anon::replay(&cases(a.get("cases")), rep, a.get("aspects")),
        "anon-record" => {
            let c = cases(a.get("cases"));
            let mut w = BufWriter::new(fs::File::create(a.get("out")).unwrap());
            anon::record(&c, a.num("n", 200), a.num("len", 12), a.num("many", 1000), a.num("most", 0), seed, a.get("stream"), &mut w, rep);
            w.flush().unwrap();
        }
        "serde-replay" => serde_view::replay(&cases(a.get("cases")), rep),
        "serde-record" => {
            let c = cases(a.get("cases"));
            let mut w = BufWriter::new(fs::File::create(a.get("out")).unwrap());
            serde_view::record(&c, a.num("n", 1000), a.num("docs", 500), a.num("size", 8), a.num("most", 0), seed, a.get("stream"), &mut w, rep);
            w.flush().unwrap();
        }
        "pure-jobs" => {
            let c = cases(a.get("cases"));
            let mut w = BufWriter::new(fs::File::create(a.get("out")).unwrap());
            let n = pure::jobs(&c, a.num("n", 500), seed, &mut w);
            rep.extra.insert("jobs".to_string(), n.into());
            w.flush().unwrap();
        }
        "pure-one" => pure::one(),
        "pure-ref" => {
            let mut w = BufWriter::new(fs::File::create(a.get("out")).unwrap());
            pure::reference(&cases(a.get("jobs")), &mut w, rep);
            w.flush().unwrap();
        }
        "pure-replay" => {
            let (o, n) = (a.num("offset", 0), a.num("count", 4));
            let j: Vec<Value> = cases(a.get("jobs")).into_iter().skip(o).take(n).collect();
            let r: Vec<Value> = cases(a.get("alone")).into_iter().skip(o).take(n).collect();
            pure::replay(&cases(a.get("cases")), &j, &r, rep);
        }
        "pure-record" => {
            let mut w = BufWriter::new(fs::File::create(a.get("out")).unwrap());
            pure::record(&cases(a.get("jobs")), a.num("n", 1000), seed, &mut w, rep);
            w.flush().unwrap();
        }
        "total-record" => {
            let c = cases(a.get("cases"));
            let plan = total::Plan {
                mutated: a.num("mutated", 10000),
                docs: a.num("docs", 1000),
                insert: a.num("insert", 100),
                huge: a.num("huge", 40),
                size: a.num("size", 100_000),
            };
            let mut w = BufWriter::new(fs::File::create(a.get("out")).unwrap());
            total::run(&c, &plan, seed, a.num("limit", 30) as u64, a.get("cur"), &mut w, rep);
            w.flush().unwrap();
        }
        c => panic!("unknown command {c}"),
    }
}
