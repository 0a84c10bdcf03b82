//! Address texts on their own: reading, printing, comparing.
use crate::mutate;
use crate::proj;
use crate::report::Report;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use webrtc_sdp::address::*;
use webrtc_sdp::network::*;

fn typed(at: AddressType, s: &str) -> Option<ExplicitlyTypedAddress> {
    ExplicitlyTypedAddress::try_from((at, s)).ok()
}
fn untyped(s: &str) -> Option<Address> {
    Address::from_str(s).ok()
}
fn t<T>(o: &Option<T>) -> &'static str {
    if o.is_some() {
        "ok"
    } else {
        "err"
    }
}
fn v<T>(o: &Option<T>, f: impl Fn(&T) -> Value) -> Value {
    o.as_ref().map_or(json!([]), |x| json!([f(x)]))
}
/// What the crate makes of a text.
fn observe(s: &str) -> Value {
    let (a, p, q) = (untyped(s), typed(AddressType::IpV4, s), typed(AddressType::IpV6, s));
    let ty: Vec<String> = AddressType::from_str(s).ok().map(|t| t.to_string()).into_iter().collect();
    json!({"t": t(&a), "v": v(&a, proj::address), "t4": t(&p), "v4": v(&p, proj::typed), "t6": t(&q), "v6": v(&q, proj::typed),
        "ty": ty, "net": parse_network_type(s).is_ok()})
}
/// The other ways to the same answers agree: "" or the one that does not.
fn agree(s: &str) -> String {
    let a = untyped(s);
    if parse_unicast_address(s).ok() != a {
        return "parse_unicast_address".to_string();
    }
    if parse_address_type(s).ok() != AddressType::from_str(s).ok() {
        return "parse_address_type".to_string();
    }
    if let Some(a) = &a {
        if proj::address(a)["a"] != json!(a.to_string()) {
            return "printed address".to_string();
        }
        if untyped(&a.to_string()).as_ref() != Some(a) {
            return "re-reading the printed address".to_string();
        }
    }
    for at in [AddressType::IpV4, AddressType::IpV6] {
        if let Some(x) = typed(at, s) {
            let text = format!("IN {} {}", at, a.as_ref().map(|a| a.to_string()).unwrap_or_default());
            if x.to_string() != text {
                return "printed typed address".to_string();
            }
            if x.address_type() != at {
                return "address_type".to_string();
            }
            if Some(Address::from(x.clone())) != a {
                return "conversion".to_string();
            }
            if let ExplicitlyTypedAddress::Ip(i) = x {
                if ip_address_to_string(i) != text || ExplicitlyTypedAddress::from(i) != x || i.address_type() != at {
                    return "ip_address_to_string".to_string();
                }
            }
        }
    }
    String::new()
}

pub fn replay(cases: &[Value], rep: &mut Report) {
    let keys = ["t", "v", "t4", "v4", "t6", "v6", "ty", "net"];
    for c in cases {
        let s = c["in"].as_str().unwrap();
        rep.count(c["t"].as_str().unwrap());
        let r = catch_unwind(AssertUnwindSafe(|| (observe(s), agree(s))));
        let Ok((o, w)) = r else {
            rep.mismatch(json!({"what": "panic", "input": s, "expected": c}));
            continue;
        };
        let unk = c["t"] == json!("unk");
        let bad: Vec<&str> = keys.iter().copied().filter(|k| !(unk && k.len() == 1 + usize::from(k.ends_with('4') || k.ends_with('6'))) && o[*k] != c[*k]).collect();
        if !bad.is_empty() || !w.is_empty() {
            rep.mismatch(json!({"what": [bad.join(","), w], "input": s, "expected": c, "observed": o}));
        }
    }
}

/// Mutated address texts, each compared with another.
pub fn record(cases: &[Value], n: usize, seed: u64, stream: &str, out: &mut dyn std::io::Write, rep: &mut Report) {
    let mut r = Rng::new(seed, stream);
    let mut pool: Vec<String> = cases.iter().filter(|c| c["t"] == json!("ok")).map(|c| c["in"].as_str().unwrap().to_string()).collect();
    pool.extend(["192.168.0.1", "10.0.0.255", "fe80::1:2", "2001:db8::8:800:200c:417a", "::ffff:10.1.2.3", "1:2:3:4:5:6:7:8", "[::1]", "::",
        "host.example.org", "A.b-C_d.", "0x7f.1", "017700000001", "4294967295", "a%2Eb", "64:ff9b::192.0.2.33", "2001:0db8:0:0:1:0:0:1", "x.1", "1.x"].map(String::from));
    let mut seen = std::collections::HashSet::new();
    for i in 0..n {
        let b = r.pick(&pool).clone();
        let s = match i % 4 {
            0 => {
                let k = 1 + r.below(8);
                let mut g: Vec<String> = (0..k).map(|_| if r.chance(1, 3) { "0".to_string() } else { format!("{:x}", r.below(65536) >> r.below(16)) }).collect();
                if r.chance(2, 3) {
                    let at = r.below(g.len());
                    g[at] = String::new();
                    if at == 0 || at + 1 == k {
                        g.insert(at, String::new());
                    }
                }
                if r.chance(1, 6) {
                    g.push(format!("{}.{}.{}.{}", r.below(260), r.below(256), r.below(256), r.below(256)));
                }
                g.join(":")
            }
            1 => (0..1 + r.below(4)).map(|_| match r.below(4) { 0 => format!("0x{:X}", r.below(700)), 1 => format!("0{:o}", r.below(300)), 2 => r.next().to_string(), _ => r.below(300).to_string() }).collect::<Vec<_>>().join("."),
            _ => mutate::as_line(mutate::mutate(&mut r, &b, &pool, i % 16 == 2)),
        };
        let other = match r.below(4) {
            0 => s.to_uppercase(),
            1 => untyped(&s).map_or(s.clone(), |a| a.to_string()),
            2 => mutate::as_line(mutate::mutate(&mut r, &s, &pool, false)),
            _ => r.pick(&pool).clone(),
        };
        if !seen.insert((s.clone(), other.clone())) {
            continue;
        }
        let res = catch_unwind(AssertUnwindSafe(|| {
            let eq = |a: Option<bool>| json!(a.into_iter().collect::<Vec<bool>>());
            let two = |at| typed(at, &s).and_then(|x| typed(at, &other).map(|y| x == y && y == x));
            let mut w = agree(&s);
            if let (Some(x), Some(y)) = (typed(AddressType::IpV4, &s), typed(AddressType::IpV6, &other)) {
                if x == y {
                    w = "addresses of different types are equal".to_string();
                }
            }
            json!({"in": s, "other": other, "o": observe(&s), "eq": eq(untyped(&s).and_then(|x| untyped(&other).map(|y| x == y && y == x))),
                "eq4": eq(two(AddressType::IpV4)), "eq6": eq(two(AddressType::IpV6)), "ok": w})
        }));
        match res {
            Ok(e) => {
                rep.count(e["o"]["t"].as_str().unwrap());
                writeln!(out, "{e}").unwrap();
            }
            Err(_) => rep.mismatch(json!({"what": "panic", "input": s, "other": other})),
        }
    }
}
