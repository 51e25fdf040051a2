//! Structured generators for command lines and their parts.
use crate::dict;
use crate::engine::B;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

pub const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
pub const LDH: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789---";
pub const ATEXT: &[u8] =
    b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-/=?^_`{|}~";

pub type Bs = BoxedStrategy<B>;

pub fn b(s: &[u8]) -> B {
    B(s.to_vec())
}

fn bytes_of(class: &'static [u8], len: impl Into<proptest::collection::SizeRange>) -> impl Strategy<Value = Vec<u8>> {
    vec(select(class), len)
}

fn all_in(class: &[u8], w: &[u8]) -> bool {
    !w.is_empty() && w.iter().all(|c| class.contains(c))
}
/// Exactly so many bytes of a class.
fn exactly(class: &'static [u8], n: impl Strategy<Value = usize> + 'static) -> BoxedStrategy<Vec<u8>> {
    n.prop_flat_map(move |n| vec(select(class), n)).boxed()
}
pub fn atom() -> BoxedStrategy<Vec<u8>> {
    let d = prop_oneof![
        8 => bytes_of(ATEXT, 1..8),
        1 => exactly(ATEXT, dict::len(8usize..30, 1, 64)),
        1 => number_text().prop_map(|n| if all_in(ATEXT, &n) && n.len() < 65 { n } else { b"65536".to_vec() }),
        1 => select(crate::lits![b"root", b"Postmaster", b"=", b"-", b"RCPT", b"TO", b"a", b"0", b"+", b"null"].to_vec()).prop_map(|s| s.to_vec()),
    ];
    dict::word(d, |w| all_in(ATEXT, w))
}

fn join(parts: Vec<Vec<u8>>, sep: &[u8]) -> Vec<u8> {
    parts.join(sep)
}

pub fn dot_string() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => vec(atom(), 1..4).prop_map(|p| join(p, b".")),
        1 => dict::len(1usize..30, 1, 32).prop_flat_map(|n| vec(bytes_of(ATEXT, 1..2), n)).prop_map(|p| join(p, b".")),
        1 => exactly(ATEXT, dict::len(60usize..65, 1, 64)),
    ]
    .boxed()
}

pub fn quoted_token() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => (32u8..127).prop_filter_map("qtext", |c| if c == b'"' || c == b'\\' { None } else { Some(vec![c]) }),
        3 => (32u8..127).prop_map(|c| vec![b'\\', c]),
        3 => select(crate::lits![b"\\\"", b"\\\\", b" ", b">", b"<", b"@", b",", b":", b".", b"> ", b"@a:", b"\\ ", b"  "].to_vec())
            .prop_map(|s| s.to_vec()),
    ]
    .boxed()
}

pub fn quoted() -> BoxedStrategy<Vec<u8>> {
    let word = dict::word(Just(b"a".to_vec()), |w| w.iter().all(|c| (32..127).contains(c) && !b"\"\\".contains(c)));
    let token = || prop_oneof![16 => quoted_token(), 1 => word.clone()];
    prop_oneof![9 => vec(token(), 0..8), 1 => dict::len(8usize..26, 1, 60).prop_flat_map(|n| vec(quoted_token(), n))]
        .prop_map(|t| [&b"\""[..], &t.concat(), b"\""].concat())
        .boxed()
}

pub fn local() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![3 => dot_string(), 2 => quoted()].boxed()
}

pub fn label() -> BoxedStrategy<Vec<u8>> {
    let gen = |n: std::ops::Range<usize>| {
        (select(ALNUM), bytes_of(LDH, n), select(ALNUM), any::<bool>()).prop_map(|(a, m, z, short)| {
            let mut v = vec![a];
            if !short || !m.is_empty() {
                v.extend(m);
                v.push(z);
            }
            v
        })
    };
    let d = prop_oneof![8 => gen(0..6), 1 => gen(6..30), 1 => gen(58..62), 1 => exactly(ALNUM, dict::len(1usize..64, 1, 63))];
    dict::word(d, |w| all_in(LDH, w) && w[0] != b'-' && w[w.len() - 1] != b'-' && w.len() < 64)
}

pub fn host() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        8 => vec(label(), 1..4).prop_map(|p| join(p, b".")),
        1 => dict::len(1usize..40, 1, 126).prop_flat_map(|n| vec(bytes_of(ALNUM, 1..2), n)).prop_map(|p| join(p, b".")),
        1 => dict::word(Just(b"b".to_vec()), |w| w.split(|c| *c == b'.').all(|l| all_in(LDH, l) && l[0] != b'-' && l[l.len() - 1] != b'-' && l.len() < 64)),
        1 => select(crate::lits![b"localhost", b"example.org", b"1.2.3.4", b"0", b"xn--e1afmkfd.xn--p1ai", b"IPv6", b"1", b"a.b.c.d.e.f", b"127.0.0.1", b"dead--beef.example"].to_vec()).prop_map(|s| s.to_vec()),
    ]
    .boxed()
}

pub fn octet() -> BoxedStrategy<u8> {
    prop_oneof![3 => any::<u8>(), 2 => select(&[0u8, 1, 9, 10, 19, 99, 100, 127, 128, 192, 199, 200, 249, 250, 254, 255][..])].boxed()
}

pub fn v4_text() -> BoxedStrategy<Vec<u8>> {
    [octet(), octet(), octet(), octet()]
        .prop_map(|o| format!("{}.{}.{}.{}", o[0], o[1], o[2], o[3]).into_bytes())
        .boxed()
}

#[derive(Clone, Debug)]
pub struct V6 {
    pub groups: [u16; 8],
    /// zero run to compress: start and length (0 = none)
    pub run: (usize, usize),
    pub v4_tail: bool,
    /// 0 lower, 1 upper, 2 padded, 3 mixed
    pub style: u8,
}

pub fn v6() -> BoxedStrategy<V6> {
    let group = prop_oneof![
        3 => Just(0u16),
        2 => any::<u16>(),
        2 => select(&[1u16, 9, 10, 15, 16, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0xabcd, 0x2001, 0xdb8, 0xfe80, 0xfc00, 0xff02, 0x64, 0xff9b][..]),
    ];
    let groups = [group.clone(), group.clone(), group.clone(), group.clone(), group.clone(), group.clone(), group.clone(), group];
    (groups, 0usize..9, 0usize..9, prop_oneof![2 => Just(false), 1 => Just(true)], 0u8..4)
        .prop_map(|(mut groups, s, l, v4_tail, style)| {
            let s = s.min(7);
            let max = (if v4_tail { 6usize } else { 8 }).saturating_sub(s);
            let mut l = l.min(max);
            if l < 2 {
                l = 0;
            }
            for g in &mut groups[s..s + l] {
                *g = 0;
            }
            V6 { groups, run: (s, l), v4_tail, style }
        })
        .boxed()
}

impl V6 {
    pub fn num(&self) -> u128 {
        self.groups.iter().fold(0, |a, g| a << 16 | u128::from(*g))
    }
    pub fn text(&self) -> Vec<u8> {
        let g = |i: usize| -> String {
            let x = self.groups[i];
            match self.style {
                0 => format!("{x:x}"),
                1 => format!("{x:X}"),
                2 => format!("{x:04x}"),
                _ => {
                    if i % 2 == 0 {
                        format!("{x:03X}")
                    } else {
                        format!("{x:x}")
                    }
                }
            }
        };
        let end = if self.v4_tail { 6 } else { 8 };
        let tail = |from: usize| -> Vec<String> {
            let mut v: Vec<String> = (from..end).map(g).collect();
            if self.v4_tail {
                let (a, b) = (self.groups[6].to_be_bytes(), self.groups[7].to_be_bytes());
                v.push(format!("{}.{}.{}.{}", a[0], a[1], b[0], b[1]));
            }
            v
        };
        let (s, l) = self.run;
        if l == 0 {
            return tail(0).join(":").into_bytes();
        }
        let right = tail(s + l).join(":");
        let left: Vec<String> = (0..s).map(g).collect();
        format!("{}::{}", left.join(":"), right).into_bytes()
    }
}

pub fn dom() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        5 => host(),
        1 => v4_text().prop_map(|t| [&b"["[..], &t, b"]"].concat()),
        1 => v6().prop_map(|t| [&b"[IPv6:"[..], &t.text(), b"]"].concat()),
    ]
    .boxed()
}

pub fn ws(min: usize, max: usize) -> Bs {
    prop_oneof![
        4 => Just(vec![b' '; min]),
        2 => vec(select(&b" \t"[..]), min..=max),
        1 => (dict::len(min..=max + 5, min, 300), any::<bool>()).prop_map(|(n, t)| vec![if t { b'\t' } else { b' ' }; n]),
    ]
    .prop_map(B)
    .boxed()
}

pub fn text() -> Bs {
    prop_oneof![
        6 => vec(prop_oneof![8 => 32u8..127, 1 => Just(b'\t')], 0..30),
        1 => dict::len(0usize..500, 0, 505).prop_flat_map(|n| vec(32u8..127, n)),
        1 => dict::word(Just(b"x".to_vec()), |w| w.iter().all(|c| *c == 9 || (32..127).contains(c))),
        1 => number_text(),
        1 => select(crate::lits![b"", b" ", b"\t", b"MAIL FROM:<a@b>", b"\"quoted string\"", b"a b", b" a", b"a ", b".", b"<>", b"=", b"HELP"].to_vec()).prop_map(|s| s.to_vec()),
    ]
    .prop_map(B)
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Param {
    pub sep: B,
    pub key: B,
    pub val: Option<B>,
}

pub fn param_key() -> Bs {
    prop_oneof![
        3 => (select(ALNUM), bytes_of(LDH, 0..6)).prop_map(|(a, m)| [&[a][..], &m].concat()),
        2 => select(crate::lits![b"SIZE", b"BODY", b"size", b"SMTPUTF8", b"RET", b"ENVID", b"NOTIFY", b"ORCPT", b"AUTH", b"X-", b"X", b"0", b"a-b-c"].to_vec()).prop_map(|s| s.to_vec()),
        1 => (select(ALNUM), exactly(LDH, dict::len(20usize..60, 0, 400))).prop_map(|(a, m)| [&[a][..], &m].concat()),
        1 => dict::word(Just(b"SIZE".to_vec()), |w| all_in(LDH, w) && w[0] != b'-'),
    ]
    .prop_map(B)
    .boxed()
}

fn param_val_byte() -> BoxedStrategy<u8> {
    (33u8..127).prop_filter_map("no =", |c| if c == b'=' { None } else { Some(c) }).boxed()
}

/// Numbers as texts: small ones, those around the limits of machine words, long ones, and what some
/// readers of numbers take for one.
pub fn number_text() -> BoxedStrategy<Vec<u8>> {
    let power = (0u32..128, -2i8..3).prop_map(|(n, d)| (1u128 << n).wrapping_add(i128::from(d) as u128).to_string().into_bytes());
    prop_oneof![
        2 => (0u32..2000).prop_map(|n| n.to_string().into_bytes()),
        3 => power,
        1 => Just(b"340282366920938463463374607431768211456".to_vec()),
        2 => exactly(b"0123456789", dict::len(1usize..60, 1, 400)),
        1 => (1usize..45).prop_map(|n| vec![b'9'; n]),
        1 => (1usize..45).prop_map(|n| [&b"1"[..], &vec![b'0'; n]].concat()),
        1 => (1usize..30, 0u8..10).prop_map(|(n, d)| [vec![b'0'; n], vec![b'0' + d]].concat()),
        1 => select(crate::lits![b"-1", b"+1", b"-0", b"1.5", b"1e9", b"1e999", b"0x10", b"1_000", b"1,000", b"1k", b"inf", b"NaN", b"-", b"+", b"-9223372036854775809"].to_vec()).prop_map(|s| s.to_vec()),
    ]
    .boxed()
}
/// xtext (RFC 3461), also cut short, with other digits, or of bytes that are no text
fn xtext() -> BoxedStrategy<Vec<u8>> {
    let piece = prop_oneof![
        4 => bytes_of(ALNUM, 1..6),
        3 => any::<u8>().prop_map(|b| format!("+{b:02X}").into_bytes()),
        1 => select(crate::lits![b"+", b"+4", b"+ZZ", b"+3d", b"+3D", b"++", b"+C3+28", b"+F0", b"+00", b"@", b"+E2+82", b"%41", b"\\", b"+0D+0A"].to_vec()).prop_map(|s| s.to_vec()),
    ];
    vec(piece, 1..5).prop_map(|p| p.concat()).boxed()
}
fn one_of(list: &'static [&'static [u8]]) -> BoxedStrategy<Vec<u8>> {
    select(list.to_vec()).prop_map(|s| s.to_vec()).boxed()
}
fn listed(list: &'static [&'static [u8]], sep: &'static [u8]) -> BoxedStrategy<Vec<u8>> {
    vec(one_of(list), 1..5).prop_map(move |p| p.join(sep)).prop_filter("empty", |v| !v.is_empty()).boxed()
}
/// The parameters that extensions of SMTP define, with the values they take, and with odd ones.
fn known_param() -> BoxedStrategy<(Vec<u8>, Option<Vec<u8>>)> {
    let k = |k: &'static [u8], v: BoxedStrategy<Vec<u8>>| v.prop_map(move |v| (k.to_vec(), Some(v))).boxed();
    let addr = (one_of(crate::lits![b"rfc822;", b"RFC822;", b"utf-8;", b"x400;", b"", b";", b"rfc822"]), prop_oneof![xtext(), pool()])
        .prop_map(|(a, b)| [a, b].concat())
        .prop_filter("=", |v| !v.is_empty() && !v.contains(&b'='))
        .boxed();
    let by = (number_text(), one_of(crate::lits![b";R", b";N", b";RT", b";", b"", b";;", b";r"])).prop_map(|(a, b)| [a, b].concat()).boxed();
    let all: BoxedStrategy<(Vec<u8>, Option<Vec<u8>>)> = prop_oneof![
        4 => k(b"SIZE", number_text()),
        2 => k(b"BODY", one_of(crate::lits![b"7BIT", b"8BITMIME", b"BINARYMIME", b"8bitmime", b"8BIT", b"x"])),
        1 => k(b"RET", one_of(crate::lits![b"FULL", b"HDRS", b"full", b"x"])),
        2 => k(b"ENVID", xtext()),
        2 => k(b"NOTIFY", listed(crate::lits![b"NEVER", b"SUCCESS", b"FAILURE", b"DELAY", b"", b"x"], b",")),
        2 => k(b"ORCPT", addr.clone()),
        2 => k(b"AUTH", prop_oneof![1 => Just(b"<>".to_vec()), 2 => xtext()].boxed()),
        1 => k(b"BY", by),
        1 => k(b"HOLDFOR", number_text()),
        1 => k(b"MT-PRIORITY", number_text()),
        1 => k(b"HOLDUNTIL", one_of(crate::lits![b"2026-11-20T05:00:00Z", b"2026-02-30T25:61:61Z", b"0000-00-00", b"T"])),
        1 => k(b"RRVS", one_of(crate::lits![b"2014-04-03T23:01:00Z;C", b"2014-04-03T23:01:00Z;R", b";"])),
        1 => k(b"SUBMITTER", addr),
        1 => k(b"TRANSID", xtext()),
        1 => Just((b"SMTPUTF8".to_vec(), None)),
        1 => Just((b"REQUIRETLS".to_vec(), None)),
        1 => select(vec![&b"SIZE"[..], b"BODY", b"RET", b"NOTIFY", b"ORCPT", b"AUTH"]).prop_map(|s| (s.to_vec(), None)),
    ]
    .boxed();
    (all, any::<bool>(), case())
        .prop_map(|((k, v), plain, c)| (if plain { k } else { with_case(&k, c) }, v))
        .boxed()
}
fn pool() -> BoxedStrategy<Vec<u8>> {
    mbox().prop_map(|b| b.0.into_iter().filter(|c| (33..127).contains(c) && *c != b'=').collect()).boxed()
}

pub fn param_val() -> Bs {
    prop_oneof![
        6 => vec(param_val_byte(), 1..8),
        1 => dict::len(8usize..100, 1, 450).prop_flat_map(|n| vec(param_val_byte(), n)),
        1 => dict::len(0usize..100_000_000, 0, usize::MAX).prop_map(|n| n.to_string().into_bytes()),
        1 => number_text().prop_map(|n| if n.contains(&b'=') { b"0".to_vec() } else { n }),
        1 => xtext(),
        1 => dict::word(Just(b"1".to_vec()), |w| w.iter().all(|c| (33..127).contains(c) && *c != b'=')),
        2 => select(crate::lits![b"1000000", b"8BITMIME", b"FULL", b"rfc822;a@b", b"SUCCESS,FAILURE", b"<>", b"\"", b"0", b"+3D", b">", b"7BIT"].to_vec()).prop_map(|s| s.to_vec()),
    ]
    .prop_map(B)
    .boxed()
}

pub fn params(max: usize) -> BoxedStrategy<Vec<Param>> {
    let one = prop_oneof![
        2 => (ws(1, 4), param_key(), proptest::option::of(param_val())).prop_map(|(sep, key, val)| Param { sep, key, val }),
        1 => (ws(1, 2), known_param()).prop_map(|(sep, (k, v))| Param { sep, key: B(k), val: v.map(B) }),
    ]
    .boxed();
    prop_oneof![3 => Just(vec![]), 5 => vec(one.clone(), 0..4), 1 => dict::len(0..max, 0, 2 * max).prop_flat_map(move |n| vec(one.clone(), n))]
        .prop_map(|ps| {
            let mut seen = std::collections::HashSet::new();
            ps.into_iter().filter(|p| seen.insert(p.key.clone())).collect()
        })
        .boxed()
}

pub fn params_text(ps: &[Param]) -> Vec<u8> {
    let mut o = Vec::new();
    for p in ps {
        o.extend_from_slice(&p.sep);
        o.extend_from_slice(&p.key);
        if let Some(v) = &p.val {
            o.push(b'=');
            o.extend_from_slice(v);
        }
    }
    o
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Path {
    pub null: bool,
    pub bracket: bool,
    pub route: Vec<B>,
    pub mbox: B,
}

pub fn mbox() -> Bs {
    (local(), proptest::option::weighted(0.85, dom()))
        .prop_map(|(l, d)| {
            let mut v = l;
            if let Some(d) = d {
                v.push(b'@');
                v.extend(d);
            }
            B(v)
        })
        .boxed()
}

pub fn path() -> BoxedStrategy<Path> {
    (
        prop_oneof![9 => Just(false), 1 => Just(true)],
        prop_oneof![3 => Just(true), 1 => Just(false)],
        prop_oneof![6 => Just(vec![]), 1 => vec(host().prop_map(B), 1..4), 1 => dict::len(1usize..4, 1, 60).prop_flat_map(|n| vec(label().prop_map(B), n))],
        mbox(),
    )
        .prop_map(|(null, bracket, route, mbox)| Path { null, bracket, route, mbox })
        .boxed()
}

impl Path {
    pub fn text(&self, allow_null: bool) -> Vec<u8> {
        if self.null && allow_null {
            return b"<>".to_vec();
        }
        let mut o = Vec::new();
        if self.bracket {
            o.push(b'<');
        }
        if !self.route.is_empty() {
            let hops: Vec<Vec<u8>> = self.route.iter().map(|h| [&b"@"[..], h].concat()).collect();
            o.extend(hops.join(&b","[..]));
            o.push(b':');
        }
        o.extend_from_slice(&self.mbox);
        if self.bracket {
            o.push(b'>');
        }
        o
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum CmdSpec {
    Bare { verb: u8, case: u16, end: B },
    Hello { helo: bool, case: u16, sep: B, dom: B, end: B },
    Text { verb: u8, case: u16, arg: Option<(u8, B)> },
    Path { rcpt: bool, case: u16, after: B, path: Path, params: Vec<Param>, end: B },
}

pub fn with_case(verb: &[u8], mask: u16) -> Vec<u8> {
    let mut i = 0;
    verb.iter()
        .map(|c| {
            if c.is_ascii_alphabetic() {
                let up = mask >> i & 1 == 0;
                i += 1;
                if up {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            } else {
                *c
            }
        })
        .collect()
}

pub const BARE: [&[u8]; 3] = [b"DATA", b"QUIT", b"RSET"];
pub const TEXT: [&[u8]; 4] = [b"EXPN", b"VRFY", b"HELP", b"NOOP"];

impl CmdSpec {
    pub fn render(&self) -> Vec<u8> {
        let mut o = self.body();
        o.extend_from_slice(b"\r\n");
        o
    }
    pub fn body(&self) -> Vec<u8> {
        match self {
            CmdSpec::Bare { verb, case, end } => [&with_case(BARE[*verb as usize % 3], *case)[..], end].concat(),
            CmdSpec::Hello { helo, case, sep, dom, end } => {
                let v: &[u8] = if *helo { b"HELO" } else { b"EHLO" };
                [&with_case(v, *case)[..], sep, dom, end].concat()
            }
            CmdSpec::Text { verb, case, arg } => {
                let mut o = with_case(TEXT[*verb as usize % 4], *case);
                if let Some((s, a)) = arg {
                    o.push(*s);
                    o.extend_from_slice(a);
                }
                o
            }
            CmdSpec::Path { rcpt, case, after, path, params, end } => {
                let v: &[u8] = if *rcpt { b"RCPT TO:" } else { b"MAIL FROM:" };
                [&with_case(v, *case)[..], after, &path.text(!rcpt), &params_text(params), end].concat()
            }
        }
    }
}

pub fn case() -> BoxedStrategy<u16> {
    prop_oneof![3 => Just(0u16), 1 => Just(0xffff), 2 => any::<u16>()].boxed()
}

pub fn cmd_bare() -> BoxedStrategy<CmdSpec> {
    (0u8..3, case(), ws(0, 4)).prop_map(|(verb, case, end)| CmdSpec::Bare { verb, case, end }).boxed()
}
pub fn cmd_hello() -> BoxedStrategy<CmdSpec> {
    (any::<bool>(), case(), ws(1, 4), dom().prop_map(B), ws(0, 4))
        .prop_map(|(helo, case, sep, dom, end)| CmdSpec::Hello { helo, case, sep, dom, end })
        .boxed()
}
pub fn cmd_text() -> BoxedStrategy<CmdSpec> {
    (0u8..4, case(), proptest::option::weighted(0.9, (prop_oneof![4 => Just(b' '), 1 => Just(b'\t')], text())))
        // EXPN and VRFY need an argument
        .prop_map(|(verb, case, arg)| CmdSpec::Text { verb: if arg.is_none() { verb | 2 } else { verb }, case, arg })
        .boxed()
}
pub fn cmd_path() -> BoxedStrategy<CmdSpec> {
    (any::<bool>(), case(), ws(0, 4), path(), params(10), ws(0, 4))
        .prop_map(|(rcpt, case, after, path, params, end)| CmdSpec::Path { rcpt, case, after, path, params, end })
        .boxed()
}
pub fn cmd() -> BoxedStrategy<CmdSpec> {
    prop_oneof![1 => cmd_bare(), 2 => cmd_hello(), 2 => cmd_text(), 5 => cmd_path()].boxed()
}

// ---- edits ----

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Edit {
    Del(u16),
    Ins(u16, B),
    Set(u16, u8),
    Dup(u16, u8),
    Swap(u16),
    Trunc(u16),
}

pub const TOKENS: &[&[u8]] = &[
    b"\r\n", b"\r", b"\n", b" ", b"\t", b"<", b">", b"@", b".", b",", b":", b"\"", b"\\", b"[", b"]", b"=", b"-", b"+",
    b"a", b"0", b"\x00", b"\x7f", b"\x80", b"\xff", b"(", b")", b";", b"..", b"@a", b"@a:", b"@a,@b:", b"[1.2.3.4]",
    b"[IPv6:::1]", b"IPv6:", b"MAIL FROM:", b"RCPT TO:", b"DATA", b"EHLO ", b"\"a\"", b"<>", b" X=Y", b" X", b" =", b"==",
    b"_", b"%", b"/", b"\x0b", b"\x0c", b"\xc3\xa9", b"  ", b"::", b"256", b"1.2.3", b"HELP", b"NOOP", b"FROM:", b"TO:", b"x=", b"\x01",
];

pub fn token() -> Bs {
    prop_oneof![4 => select(TOKENS).prop_map(b), 1 => dict::word(any::<u8>().prop_map(|c| vec![c]), |_| true).prop_map(B)].boxed()
}

pub fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        2 => any::<u16>().prop_map(Edit::Del),
        4 => (any::<u16>(), token()).prop_map(|(p, t)| Edit::Ins(p, t)),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(p, t)| Edit::Set(p, t)),
        2 => (any::<u16>(), select(TOKENS)).prop_map(|(p, t)| Edit::Set(p, t[0])),
        1 => (any::<u16>(), 1u8..6).prop_map(|(p, n)| Edit::Dup(p, n)),
        1 => any::<u16>().prop_map(Edit::Swap),
        1 => any::<u16>().prop_map(Edit::Trunc),
    ]
    .boxed()
}

pub fn apply(v: &mut Vec<u8>, e: &Edit) {
    let idx = |p: u16, n: usize| if n == 0 { 0 } else { p as usize % n };
    let n = v.len();
    match e {
        Edit::Del(p) => {
            if n > 0 {
                v.remove(idx(*p, n));
            }
        }
        Edit::Ins(p, t) => {
            let i = idx(*p, n + 1);
            v.splice(i..i, t.iter().copied());
        }
        Edit::Set(p, c) => {
            if n > 0 {
                v[idx(*p, n)] = *c;
            }
        }
        Edit::Dup(p, k) => {
            let i = idx(*p, n + 1);
            let e = (i + *k as usize).min(n);
            let s = v[i..e].to_vec();
            v.splice(i..i, s);
        }
        Edit::Swap(p) => {
            if n >= 2 {
                let i = idx(*p, n - 1);
                v.swap(i, i + 1);
            }
        }
        Edit::Trunc(p) => v.truncate(idx(*p, n + 1)),
    }
}

/// Concatenation of dictionary tokens and random bytes, usually ending in CRLF.
pub fn soup() -> Bs {
    (vec(token(), 0..14), prop_oneof![3 => Just(true), 1 => Just(false)])
        .prop_map(|(t, crlf)| {
            let mut o: Vec<u8> = t.iter().flat_map(|x| x.0.clone()).collect();
            if crlf {
                o.extend_from_slice(b"\r\n");
            }
            B(o)
        })
        .boxed()
}

/// Line-level strategy: a well-formed command, sometimes with a few edits.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Mutant {
    pub base: CmdSpec,
    pub edits: Vec<Edit>,
}
impl Mutant {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.base.render();
        for e in &self.edits {
            apply(&mut v, e);
        }
        v
    }
}
pub fn mutant() -> BoxedStrategy<Mutant> {
    (cmd(), prop_oneof![5 => vec(edit(), 1..2), 2 => vec(edit(), 2..4)])
        .prop_map(|(base, edits)| Mutant { base, edits })
        .boxed()
}

// ---- large values ----

/// Sizes from a hundred to a hundred thousand, evenly spread over their orders of magnitude.
pub fn large() -> BoxedStrategy<usize> {
    let near = |n: usize, d: usize| (n + d).saturating_sub(2).max(1);
    let round = prop_oneof![2 => (6u32..17).prop_map(|b| 1usize << b), 1 => select(&[100usize, 200, 500, 1_000, 2_000, 5_000, 10_000, 20_000, 50_000, 100_000][..])];
    prop_oneof![
        3 => (6u32..16, 0usize..1 << 16).prop_map(|(b, r)| (1 << b) + (r & ((1 << b) - 1))),
        1 => dict::len((round, 0usize..5).prop_map(move |(n, d)| near(n, d)), 60, 200_000),
    ]
    .boxed()
}
fn times(unit: Bs, n: BoxedStrategy<usize>) -> BoxedStrategy<Vec<u8>> {
    (unit, n).prop_map(|(u, n)| u.repeat((n / u.len().max(1)).max(1))).boxed()
}
fn of(list: &[&[u8]]) -> Bs {
    select(list.iter().map(|s| B(s.to_vec())).collect::<Vec<_>>()).boxed()
}
pub fn large_mbox() -> Bs {
    let local = times(of(&[b"a", b"a.", b"ab.c+d.", b"!", b"9", b"\"", b"\\\"", b"\\\\", b"q ", b"q"]), large()).prop_map(|v| {
        if v.iter().any(|c| b"\"\\ ".contains(c)) {
            // inside quotes, every quote escaped
            let mut o = b"\"".to_vec();
            if v[0] == b'"' {
                o.extend(b"\\\"".repeat(v.len() / 2));
            } else {
                o.extend(v);
            }
            o.push(b'"');
            o
        } else {
            [&v[..], b"z"].concat()
        }
    });
    let host = times(of(&[b"h", b"h.", b"a-b.", b"12.", b"a.b-c.d."]), large()).prop_map(|v| [&v[..], b"x"].concat());
    prop_oneof![
        3 => (local, proptest::option::of(dom())).prop_map(|(l, d)| match d {
            Some(d) => [&l[..], b"@", &d].concat(),
            None => l,
        }),
        3 => (local_(), host).prop_map(|(l, h)| [&l[..], b"@", &h].concat()),
    ]
    .prop_map(B)
    .boxed()
}
fn local_() -> BoxedStrategy<Vec<u8>> {
    local().prop_map(|l| l.to_vec()).boxed()
}
pub fn large_params() -> BoxedStrategy<Vec<Param>> {
    let many = (large(), any::<bool>(), ws(1, 3)).prop_map(|(n, val, sep)| {
        (0..(n / 8).max(1)).map(|i| Param { sep: B(sep.to_vec()), key: B(format!("k{i}").into_bytes()), val: if val { Some(B(format!("{}", i % 7).into_bytes())) } else { None } }).collect()
    });
    let one = |key: Bs, val: BoxedStrategy<Option<B>>, sep: Bs| (key, val, sep).prop_map(|(key, val, sep)| vec![Param { sep, key, val }]);
    let long_val = times(of(&[b"v", b"+3D", b"8B", b"<>"]), large()).prop_map(|v| Some(B(v))).boxed();
    let long_key = times(of(&[b"k", b"K-k", b"0"]), large()).prop_map(B).boxed();
    let long_sep = times(of(&[b" ", b"\t", b" \t"]), large()).prop_map(B).boxed();
    let opt = || proptest::option::of(param_val()).boxed();
    prop_oneof![2 => many, 2 => one(param_key(), long_val, ws(1, 3)), 2 => one(long_key, opt(), ws(1, 3)), 1 => one(param_key(), opt(), long_sep)].boxed()
}
/// A well-formed command of which one part is large.
pub fn large_cmd() -> BoxedStrategy<CmdSpec> {
    let blanks = || times(of(&[b" ", b"\t", b"\t "]), large()).prop_map(B);
    let host = || times(of(&[b"h", b"h.", b"a-b.", b"12."]), large()).prop_map(|v| B([&v[..], b"x"].concat()));
    let txt = times(of(&[b"x", b" ", b"\t", b"word ", b"MAIL FROM:<a@b> "]), large()).prop_map(|v| B([&v[..], b"."].concat()));
    let routes = prop_oneof![
        2 => (large(), label()).prop_map(|(n, l)| vec![B(l); (n / 8).max(1)]),
        1 => host().prop_map(|h| vec![h]),
    ];
    let short = || (any::<bool>(), case(), ws(0, 2), path(), params(4), ws(0, 3));
    prop_oneof![
        1 => (0u8..3, case(), blanks()).prop_map(|(verb, case, end)| CmdSpec::Bare { verb, case, end }),
        2 => (any::<bool>(), case(), ws(1, 3), host(), ws(0, 2)).prop_map(|(helo, case, sep, dom, end)| CmdSpec::Hello { helo, case, sep, dom, end }),
        1 => (any::<bool>(), case(), blanks(), dom().prop_map(B), ws(0, 2)).prop_map(|(helo, case, sep, dom, end)| CmdSpec::Hello { helo, case, sep, dom, end }),
        2 => (0u8..4, case(), select(&b" \t"[..]), txt).prop_map(|(verb, case, s, t)| CmdSpec::Text { verb, case, arg: Some((s, t)) }),
        3 => (short(), large_mbox()).prop_map(|((rcpt, case, after, path, params, end), mbox)| CmdSpec::Path { rcpt, case, after, path: Path { null: false, mbox, ..path }, params, end }),
        3 => (short(), large_params()).prop_map(|((rcpt, case, after, path, _, end), params)| CmdSpec::Path { rcpt, case, after, path, params, end }),
        2 => (short(), routes).prop_map(|((rcpt, case, after, path, params, end), route)| CmdSpec::Path { rcpt, case, after, path: Path { null: false, route, ..path }, params, end }),
        1 => (short(), blanks(), any::<bool>()).prop_map(|((rcpt, case, after, path, params, end), b, front)| {
            if front { CmdSpec::Path { rcpt, case, after: b, path, params, end } } else { CmdSpec::Path { rcpt, case, after, path, params, end: b } }
        }),
    ]
    .boxed()
}
pub fn large_mutant() -> BoxedStrategy<Mutant> {
    (large_cmd(), vec(edit(), 1..3)).prop_map(|(base, edits)| Mutant { base, edits }).boxed()
}
