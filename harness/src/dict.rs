//! A fuzzing dictionary: numbers and strings that the code under test mentions. It only steers the
//! generators towards values the code may treat specially; what is right is decided elsewhere.
use proptest::prelude::*;
use proptest::sample::select;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    ints: BTreeSet<u64>,
    words: BTreeSet<Vec<u8>>,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] != b'\\' || i + 1 == s.len() {
            o.push(s[i]);
            i += 1;
            continue;
        }
        i += 2;
        match s[i - 1] {
            b'n' => o.push(b'\n'),
            b'r' => o.push(b'\r'),
            b't' => o.push(b'\t'),
            b'0' => o.push(0),
            b'x' => {
                let h = s.get(i..i + 2).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
                if let Some(h) = h {
                    o.push(h);
                    i += 2;
                }
            }
            b'\n' => {
                while s.get(i).is_some_and(|c| c.is_ascii_whitespace()) {
                    i += 1;
                }
            }
            c => o.push(c),
        }
    }
    o
}

impl Dict {
    /// Reads the part of a source file before its tests.
    fn scan(&mut self, t: &[u8]) {
        let end = t.windows(12).position(|w| w == b"#[cfg(test)]").unwrap_or(t.len());
        let t = &t[..end];
        let mut i = 0;
        // the last two tokens, to work out products and shifts
        let mut num: Option<u64> = None;
        let mut op = 0u8;
        while i < t.len() {
            let c = t[i];
            let rest = &t[i..];
            if rest.starts_with(b"//") {
                i += rest.iter().position(|c| *c == b'\n').unwrap_or(rest.len());
            } else if c == b'"' {
                let mut j = i + 1;
                while j < t.len() && t[j] != b'"' {
                    j += if t[j] == b'\\' { 2 } else { 1 };
                }
                self.word(unescape(&t[i + 1..j.min(t.len())]));
                i = j + 1;
            } else if c == b'\'' {
                // a character, or a lifetime
                let j = if t.get(i + 1) == Some(&b'\\') { (i + 3..t.len().min(i + 6)).find(|j| t[*j] == b'\'') } else { (t.get(i + 2) == Some(&b'\'')).then_some(i + 2) };
                if let Some(j) = j {
                    self.word(unescape(&t[i + 1..j]));
                    i = j;
                }
                i += 1;
            } else if c.is_ascii_digit() {
                let mut j = i;
                while j < t.len() && (t[j].is_ascii_alphanumeric() || t[j] == b'_') {
                    j += 1;
                }
                let s: String = t[i..j].iter().filter(|c| **c != b'_').map(|c| *c as char).collect();
                let n = match s.strip_prefix("0x") {
                    Some(h) => u64::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok(),
                    None => s.split(|c: char| !c.is_ascii_digit()).next().and_then(|d| d.parse().ok()),
                };
                if let Some(n) = n {
                    self.int(n);
                    match (num, op) {
                        (Some(a), b'*') => self.int(a.saturating_mul(n)),
                        (Some(a), b'<') if n < 40 => self.int(a.saturating_mul(1 << n)),
                        (Some(a), b'+') => self.int(a.saturating_add(n)),
                        (Some(a), b'-') => self.int(a.saturating_sub(n)),
                        _ => (),
                    }
                }
                num = n;
                op = 0;
                i = j;
                continue;
            } else if c.is_ascii_alphabetic() || c == b'_' {
                while i < t.len() && (t[i].is_ascii_alphanumeric() || t[i] == b'_') {
                    i += 1;
                }
                // b"..." and b'.'
                if i < t.len() && (t[i] == b'"' || t[i] == b'\'') {
                    continue;
                }
                num = None;
            } else {
                if !c.is_ascii_whitespace() {
                    op = c;
                }
                i += 1;
            }
        }
    }
    fn int(&mut self, n: u64) {
        if (2..=80_000_000).contains(&n) {
            self.ints.insert(n);
        }
    }
    fn word(&mut self, w: Vec<u8>) {
        // format strings and messages are of no interest
        if !w.is_empty() && w.len() <= 80 && !w.windows(2).any(|x| x == b"{}") {
            self.words.insert(w);
        }
    }
    fn dir(&mut self, p: &Path) {
        let Ok(d) = std::fs::read_dir(p) else { return };
        for e in d.flatten() {
            let p = e.path();
            if p.is_dir() {
                self.dir(&p);
            } else if p.extension().is_some_and(|e| e == "rs") {
                if let Ok(t) = std::fs::read(&p) {
                    self.scan(&t);
                }
            }
        }
    }
}

struct All {
    now: Dict,
    /// mentioned now, but not when this was written
    new: Dict,
}
fn load() -> Dict {
    let repo = std::env::var("YV_REPO").unwrap_or_else(|_| "/repo".into());
    let mut d = Dict::default();
    for c in ["smtp-message", "smtp-server", "smtp-queue"] {
        d.dir(&Path::new(&repo).join(c).join("src"));
    }
    d
}
fn all() -> &'static All {
    static ALL: OnceLock<All> = OnceLock::new();
    ALL.get_or_init(|| {
        let now = load();
        let mut new = Dict::default();
        let (ints, words): (BTreeSet<u64>, BTreeSet<Vec<u8>>) = serde_json::from_str(include_str!("dict.json")).unwrap();
        new.ints = now.ints.difference(&ints).copied().collect();
        new.words = now.words.difference(&words).cloned().collect();
        All { now, new }
    })
}
/// `yv dict`: what goes into dict.json
pub fn dump() -> String {
    let d = load();
    serde_json::to_string(&(d.ints, d.words)).unwrap()
}
pub fn summary() -> (usize, usize, usize, usize) {
    let a = all();
    (a.now.ints.len(), a.now.words.len(), a.new.ints.len(), a.new.words.len())
}

/// Numbers of the dictionary and their neighbours within lo..=hi, sometimes, instead of `dflt`.
pub fn len(dflt: impl Strategy<Value = usize> + 'static, lo: usize, hi: usize) -> BoxedStrategy<usize> {
    let near = |d: &Dict| -> Vec<usize> {
        let mut v: Vec<usize> = d.ints.iter().flat_map(|n| [n - 1, *n, n + 1]).map(|n| n as usize).filter(|n| (lo..=hi).contains(n)).collect();
        v.dedup();
        v
    };
    let (now, new) = (near(&all().now), near(&all().new));
    let dflt = dflt.boxed();
    match (now.is_empty(), new.is_empty()) {
        (true, _) => dflt,
        (false, true) => prop_oneof![30 => dflt, 1 => select(now)].boxed(),
        (false, false) => prop_oneof![14 => dflt, 1 => select(now), 4 => select(new)].boxed(),
    }
}

/// Large numbers that the code did not mention when this was written, and their neighbours.
pub fn new_large(lo: u64) -> Vec<usize> {
    all().new.ints.iter().filter(|n| **n >= lo).take(8).flat_map(|n| [*n as usize - 1, *n as usize, *n as usize + 1]).collect()
}

fn spelt(words: Vec<Vec<u8>>, ok: fn(&[u8]) -> bool) -> BoxedStrategy<Vec<u8>> {
    (select(words), 0u8..9)
        .prop_map(move |(w, k)| {
            let v = match k {
                0 => w.to_ascii_lowercase(),
                1 => w.to_ascii_uppercase(),
                2 => [&w[..], b"x"].concat(),
                3 => [b"x", &w[..]].concat(),
                _ => w.clone(),
            };
            if ok(&v) {
                v
            } else {
                w
            }
        })
        .boxed()
}
/// Words of the dictionary that pass `ok`, sometimes, instead of `dflt`.
pub fn word(dflt: impl Strategy<Value = Vec<u8>> + 'static, ok: fn(&[u8]) -> bool) -> BoxedStrategy<Vec<u8>> {
    let pick = |d: &Dict| -> Vec<Vec<u8>> {
        let parts = |w: &Vec<u8>| -> Vec<Vec<u8>> {
            let mut v = vec![w.clone()];
            // what is in front of and behind an @, and the line without its end
            v.extend(w.split(|c| b"@\r\n ".contains(c)).map(|p| p.to_vec()));
            v
        };
        let s: BTreeSet<Vec<u8>> = d.words.iter().flat_map(parts).filter(|w| !w.is_empty() && ok(w)).collect();
        s.into_iter().collect()
    };
    let (now, new) = (pick(&all().now), pick(&all().new));
    let dflt = dflt.boxed();
    match (now.is_empty(), new.is_empty()) {
        (true, _) => dflt,
        (false, true) => prop_oneof![24 => dflt, 1 => spelt(now, ok)].boxed(),
        (false, false) => prop_oneof![12 => dflt, 1 => spelt(now, ok), 4 => spelt(new, ok)].boxed(),
    }
}
