//! Mutations of single lines and whole descriptions.
use crate::rng::Rng;

const CHARS: &[char] = &[
    ' ', ' ', '\t', ':', ';', ',', '/', '=', '-', '.', '*', '~', '[', ']', '+', '0', '1', '2', '5', '9', 'a', 'A', 'f',
    'F', 'g', 'x', 'z', 'Z', '@', '%', '#', '!', '(', '_', '"', '\\', '{', '\r', '\x0c',
];
const NON_ASCII: &[&str] = &[
    "\u{e9}", "\u{c9}", "\u{df}", "\u{130}", "\u{131}", "\u{212a}", "\u{17f}", "\u{a0}", "\u{85}", "\u{2028}", "\u{3000}",
    "\u{1f600}", "\u{301}", "\u{200b}", "\u{feff}", "\u{0}", "\u{7f}", "\u{b}", "\u{fb03}", "\u{661}", "\u{ff11}", "\u{b2}",
];
pub const NUMS: &[&str] = &[
    "0", "1", "2", "19", "63", "64", "95", "96", "127", "128", "255", "256", "65535", "65536", "4294967295", "4294967296",
    "9999999999", "10000000000", "18446744073709551615", "18446744073709551616", "-1", "007", "+5", "1.5", "0.5",
    "340282366920938463463374607431768211456",
];

fn boundary(r: &mut Rng, s: &str) -> usize {
    let v: Vec<usize> = s.char_indices().map(|(i, _)| i).chain(std::iter::once(s.len())).collect();
    *r.pick(&v)
}
fn char_range(r: &mut Rng, s: &str) -> Option<(usize, usize)> {
    let v: Vec<(usize, char)> = s.char_indices().collect();
    if v.is_empty() {
        return None;
    }
    let (i, c) = *r.pick(&v);
    Some((i, i + c.len_utf8()))
}
fn is_sep(c: char) -> bool {
    matches!(c, ' ' | ':' | ';' | ',' | '/' | '=' | '[' | ']' | '-' | '.')
}
/// Token spans: maximal runs of non-separators.
fn tokens(s: &str) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut st = None;
    for (i, c) in s.char_indices() {
        if is_sep(c) {
            if let Some(b) = st.take() {
                out.push((b, i));
            }
        } else if st.is_none() {
            st = Some(i);
        }
    }
    if let Some(b) = st {
        out.push((b, s.len()));
    }
    out
}
fn swap_case(c: char) -> char {
    if c.is_ascii_lowercase() {
        c.to_ascii_uppercase()
    } else {
        c.to_ascii_lowercase()
    }
}

pub fn once(r: &mut Rng, s: &str, other: &str, unicode: bool) -> String {
    let mut t = s.to_string();
    match r.below(if unicode { 16 } else { 14 }) {
        0 => {
            if let Some((a, b)) = char_range(r, s) {
                t.replace_range(a..b, "");
            }
        }
        1 => {
            let p = boundary(r, s);
            t.insert(p, *r.pick(CHARS));
        }
        2 => {
            if let Some((a, b)) = char_range(r, s) {
                t.replace_range(a..b, &r.pick(CHARS).to_string());
            }
        }
        3 => {
            if let Some((a, b)) = char_range(r, s) {
                let c = swap_case(s[a..b].chars().next().unwrap());
                t.replace_range(a..b, &c.to_string());
            }
        }
        4 => {
            // the case of a whole token
            let v = tokens(s);
            if !v.is_empty() {
                let (a, b) = *r.pick(&v);
                let n: String = s[a..b].chars().map(swap_case).collect();
                t.replace_range(a..b, &n);
            }
        }
        5 => {
            // duplicate a token (with the separator before it)
            let v = tokens(s);
            if !v.is_empty() {
                let (a, b) = *r.pick(&v);
                let sep = if a > 0 && s.is_char_boundary(a - 1) { &s[a - 1..a] } else { " " };
                let ins = format!("{}{}", sep, &s[a..b]);
                t.insert_str(b, &ins);
            }
        }
        6 => {
            // drop a token with its preceding separator
            let v = tokens(s);
            if !v.is_empty() {
                let (a, b) = *r.pick(&v);
                let a = if a > 0 && s.is_char_boundary(a - 1) { a - 1 } else { a };
                t.replace_range(a..b, "");
            }
        }
        7 => {
            // swap two tokens
            let v = tokens(s);
            if v.len() > 1 {
                let i = r.below(v.len());
                let j = r.below(v.len());
                let (i, j) = (i.min(j), i.max(j));
                if i != j {
                    let (a, b) = v[i];
                    let (c, d) = v[j];
                    t = format!("{}{}{}{}{}", &s[..a], &s[c..d], &s[b..c], &s[a..b], &s[d..]);
                }
            }
        }
        8 | 9 => {
            // a numeric-looking token becomes an interesting number
            let v: Vec<(usize, usize)> = tokens(s)
                .into_iter()
                .filter(|&(a, b)| s[a..b].chars().any(|c| c.is_ascii_digit()))
                .collect();
            if !v.is_empty() {
                let (a, b) = *r.pick(&v);
                let n = if r.chance(1, 3) { r.next().to_string() } else { r.pick(NUMS).to_string() };
                t.replace_range(a..b, &n);
            }
        }
        10 => {
            // a token from another line
            let v = tokens(s);
            let w = tokens(other);
            if !v.is_empty() && !w.is_empty() {
                let (a, b) = *r.pick(&v);
                let (c, d) = *r.pick(&w);
                t.replace_range(a..b, &other[c..d]);
            }
        }
        11 => {
            // splice
            let a = boundary(r, s);
            let b = boundary(r, other);
            t = format!("{}{}", &s[..a], &other[b..]);
        }
        12 => {
            // append the tail of another line
            let b = boundary(r, other);
            t = format!("{}{}{}", s, r.pick(&["", " ", ";", ","]), &other[b..]);
        }
        13 => {
            // exchange the value part
            if let (Some(a), Some(b)) = (s.find(|c| c == ':' || c == ' '), other.find(|c| c == ':' || c == ' ')) {
                t = format!("{}{}", &s[..a], &other[b..]);
            }
        }
        14 => {
            let p = boundary(r, s);
            t.insert_str(p, r.pick(NON_ASCII));
        }
        _ => {
            if let Some((a, b)) = char_range(r, s) {
                t.replace_range(a..b, r.pick(NON_ASCII));
            }
        }
    }
    t
}

pub fn mutate(r: &mut Rng, s: &str, pool: &[String], unicode: bool) -> String {
    let k = 1 + r.below(3);
    let mut t = s.to_string();
    for _ in 0..k {
        let o = r.pick(pool).clone();
        t = once(r, &t, &o, unicode);
    }
    t
}
/// A line never contains a line feed.
pub fn as_line(s: String) -> String {
    s.replace('\n', " ")
}
