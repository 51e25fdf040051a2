//! C40: comparing addresses.
use crate::cmds::build_email;
use crate::engine::*;
use crate::gen;
use crate::grammar::{self, Dom, Mbox, V};
use bytes::Bytes;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use smtp_message::{Command, Email};

type R = Result<(), String>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Pair {
    a: B,
    b: B,
    repr: u8,
}

/// The address as the library understands it, from each place it can come from.
fn sources(text: &[u8], repr: u8) -> Vec<(&'static str, Option<Email>)> {
    let mut v = vec![
        ("parsed", Email::parse_slice(text).ok()),
        ("built", build_email(text, repr).ok()),
    ];
    let line = [b"MAIL FROM:<", text, b"> SIZE=1\r\n"].concat();
    if let Ok(Command::Mail(m)) = Command::parse(Bytes::from(&line[..])) {
        v.push(("the sender of a command", m.from));
    }
    let line = [b"RCPT TO:", text, b"\r\n"].concat();
    if let Ok(Command::Rcpt(m)) = Command::parse(Bytes::from(line)) {
        v.push(("the recipient of a command", Some(m.to)));
    }
    v
}
fn meaning(text: &[u8]) -> Option<Mbox> {
    match grammar::mailbox(text) {
        V::Must(m) | V::May(m) => Some(m),
        _ => None,
    }
}
/// Whether both have to be equal (true), have to differ (false), or may be either: spellings of one address that
/// the library may or may not tell apart.
fn equal_domains(a: &Option<Dom>, b: &Option<Dom>) -> Option<bool> {
    match (a, b) {
        _ if a == b => Some(true),
        (Some(Dom::Host(a)), Some(Dom::Host(b))) if a.eq_ignore_ascii_case(b) => None,
        _ => Some(false),
    }
}
fn equal(a: &Mbox, b: &Mbox) -> Option<bool> {
    let d = equal_domains(&a.dom, &b.dom);
    let (x, y) = (grammar::unquote(&a.local), grammar::unquote(&b.local));
    if a.local == b.local || d == Some(false) {
        d
    } else if x == y || x.eq_ignore_ascii_case(b"postmaster") && y.eq_ignore_ascii_case(b"postmaster") {
        None
    } else {
        Some(false)
    }
}
fn c40(c: &Pair, ctx: &mut Ctx) -> R {
    let (Some(ma), Some(mb)) = (meaning(&c.a), meaning(&c.b)) else {
        return Ok(());
    };
    let (sa, sb) = (sources(&c.a, c.repr), sources(&c.b, c.repr / 4));
    // refused: a matter for C11
    if sa.iter().chain(&sb).any(|s| s.1.is_none()) {
        return Ok(());
    }
    if c.a != c.b {
        ctx.nontrivial();
    }
    ctx.label(match (equal(&ma, &mb), c.a == c.b) {
        (Some(true), true) => "the same text",
        (Some(true), false) => "the same address written differently",
        (None, _) => "spellings that may be told apart",
        _ => "different addresses",
    });
    let all: Vec<_> = sa.iter().map(|s| (&c.a, &ma, s)).chain(sb.iter().map(|s| (&c.b, &mb, s))).collect();
    for (t, m, (from, e)) in &all {
        if e.is_some() != true || *e == None || None == *e {
            return Err(format!("mailbox {} ({from}) equals no mailbox at all", show(t)));
        }
        for (u, n, (to, f)) in &all {
            let (e, f) = (e.as_ref().unwrap(), f.as_ref().unwrap());
            // spellings of one address: free, but the same wherever they come from
            let want = equal(m, n).unwrap_or(sa[0].1 == sb[0].1);
            if (e == f) != want || (e != f) == want {
                return Err(format!("mailbox {} ({from}) compares {} {} ({to})", show(t), if want { "as different from" } else { "as equal to" }, show(u)));
            }
            let want = equal_domains(&m.dom, &n.dom).unwrap_or(sa[0].1.as_ref().unwrap().hostname() == sb[0].1.as_ref().unwrap().hostname());
            if (e.hostname() == f.hostname()) != want || (e.hostname() != f.hostname()) == want || (e.hostname().clone() == *f.hostname()) != want {
                return Err(format!(
                    "the domain of {} ({from}) compares {} that of {} ({to})",
                    show(t),
                    if want { "as different from" } else { "as equal to" },
                    show(u)
                ));
            }
        }
    }
    // domains in greetings are the same kind of value
    if let (Some(d), Some(x)) = (&ma.dom, sa[0].1.as_ref().unwrap().hostname()) {
        for verb in [&b"EHLO "[..], b"HELO "] {
            let line = [verb, &grammar::dom_text(d), b"\r\n"].concat();
            let got = match Command::parse(Bytes::from(line)) {
                Ok(Command::Ehlo(e)) => e.domain().clone(),
                Ok(Command::Helo(e)) => e.domain().clone(),
                _ => continue,
            };
            if got != *x {
                return Err(format!("the domain of {} differs from the same one in {}", show(&c.a), show(verb)));
            }
            let y = sb[0].1.as_ref().unwrap().hostname();
            if y.as_ref().is_some_and(|y| equal_domains(&ma.dom, &mb.dom).is_some_and(|w| (got == *y) != w)) {
                return Err(format!("a greeting from the domain of {} compares wrongly with the domain of {}", show(&c.a), show(&c.b)));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Other {
    Same,
    Edited(Vec<gen::Edit>),
    Case(u8),
    Quoted,
    Unquoted,
    Foreign(B),
    NoDomain,
    Domain(Vec<u8>),
    Local(Vec<u8>),
    Mapped,
    Address(gen::V6),
    Cut(u8),
    Doubled,
    Swapped,
}
fn other() -> BoxedStrategy<Other> {
    prop_oneof![
        1 => Just(Other::Same),
        4 => vec(gen::edit(), 1..3).prop_map(Other::Edited),
        2 => any::<u8>().prop_map(Other::Case),
        1 => Just(Other::Quoted),
        1 => Just(Other::Unquoted),
        1 => gen::mbox().prop_map(Other::Foreign),
        1 => Just(Other::NoDomain),
        2 => gen::dom().prop_map(Other::Domain),
        2 => gen::local().prop_map(Other::Local),
        1 => Just(Other::Mapped),
        1 => gen::v6().prop_map(Other::Address),
        1 => any::<u8>().prop_map(Other::Cut),
        1 => Just(Other::Doubled),
        1 => Just(Other::Swapped),
    ]
    .boxed()
}
fn apply(a: &[u8], o: &Other) -> Vec<u8> {
    let n = grammar::local_len(a).unwrap_or(a.len());
    let (local, rest) = a.split_at(n);
    let mut v = a.to_vec();
    match o {
        Other::Same => {}
        Other::Edited(e) => e.iter().for_each(|e| gen::apply(&mut v, e)),
        Other::Case(k) => {
            let letters: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_alphabetic()).collect();
            if !letters.is_empty() {
                v[letters[usize::from(*k) % letters.len()]] ^= 0x20;
            }
        }
        Other::Quoted => v = [b"\"", &grammar::unquote(local)[..], b"\"", rest].concat(),
        Other::Unquoted => v = [&grammar::unquote(local)[..], rest].concat(),
        Other::Foreign(b) => v = b.0.clone(),
        Other::NoDomain => v = local.to_vec(),
        Other::Domain(d) => v = [local, b"@", d].concat(),
        Other::Local(l) => v = [l, rest].concat(),
        Other::Mapped => match meaning(a).and_then(|m| m.dom) {
            Some(Dom::V4(x)) => v = [local, b"@[IPv6:::ffff:", std::net::Ipv4Addr::from(x).to_string().as_bytes(), b"]"].concat(),
            Some(Dom::V6(x)) => v = [local, b"@[", std::net::Ipv4Addr::from(x as u32).to_string().as_bytes(), b"]"].concat(),
            _ => v.push(b'x'),
        },
        Other::Address(w) => {
            // the same address written in another way, if it is one
            let mut w = w.clone();
            if let Some(Dom::V6(x)) = meaning(a).and_then(|m| m.dom) {
                for i in 0..8 {
                    w.groups[i] = (x >> (112 - 16 * i)) as u16;
                }
                let (s, l) = w.run;
                if w.groups[s..s + l].iter().any(|g| *g != 0) {
                    w.run = (0, 0);
                }
            }
            v = [local, b"@[IPv6:", &w.text(), b"]"].concat();
        }
        Other::Cut(k) => v.truncate(v.len().saturating_sub(usize::from(*k) % 4 + 1)),
        Other::Doubled => v = [local, rest, b".", &rest[1.min(rest.len())..]].concat(),
        Other::Swapped => {
            if let (Some(m), true) = (meaning(a), rest.len() > 1) {
                let _ = m;
                v = [&rest[1..], b"@", local].concat();
            }
        }
    }
    v
}
fn pair() -> BoxedStrategy<Pair> {
    let a = prop_oneof![
        5 => gen::mbox(),
        2 => (gen::local(), gen::v6()).prop_map(|(l, w)| B([&l[..], b"@[IPv6:", &w.text(), b"]"].concat())),
        1 => (gen::local(), gen::v4_text()).prop_map(|(l, w)| B([&l[..], b"@[", &w, b"]"].concat())),
    ];
    (a, other(), any::<u8>()).prop_map(|(a, o, repr)| Pair { b: B(apply(&a, &o)), a, repr }).boxed()
}
fn large_pair() -> BoxedStrategy<Pair> {
    (gen::large_mbox(), other(), any::<u8>()).prop_map(|(a, o, repr)| Pair { b: B(apply(&a, &o)), a, repr }).boxed()
}
/// All pairs from a set of addresses that are close to each other.
fn close(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(Pair) -> bool) {
    let mut locals: Vec<Vec<u8>> = vec![];
    let some: &[&[u8]] = &[b"a", b"A", b"ab", b"b", b"a.b", b"\"a\"", b"\"\\a\"", b"\"a.b\"", b"\"\"", b"\"a@b\"", b"a+b", b"a-b", b"postmaster", b"Postmaster"];
    locals.extend(some.iter().map(|l| l.to_vec()));
    let mut doms: Vec<Vec<u8>> = vec![vec![]];
    let some: &[&[u8]] = &[
        b"b", b"B", b"b.c", b"c.b", b"bc", b"1.2.3.4", b"[1.2.3.4]", b"[1.2.3.5]", b"[4.3.2.1]", b"[IPv6:::1.2.3.4]", b"[IPv6:::ffff:1.2.3.4]", b"[IPv6:::ffff:102:304]",
        b"[IPv6:::1]", b"[IPv6:0:0:0:0:0:0:0:1]", b"[IPv6:1::]", b"[IPv6:1::1]", b"[IPv6:fe80::A]", b"[IPv6:FE80::a]", b"[0.0.0.0]", b"[IPv6:::]", b"[127.0.0.1]", b"localhost", b"a.b", b"a",
    ];
    doms.extend(some.iter().map(|d| d.to_vec()));
    if tier == Tier::Thorough {
        for l in 1..=40usize {
            locals.push(vec![b'x'; l]);
            doms.push(vec![b'x'; l]);
        }
    }
    let all: Vec<Vec<u8>> = locals.iter().flat_map(|l| doms.iter().map(move |d| if d.is_empty() { l.clone() } else { [&l[..], b"@", d].concat() })).collect();
    let mut n = 0usize;
    for (i, a) in all.iter().enumerate() {
        for b in &all[i..] {
            n += 1;
            if n % shards == shard && !f(Pair { a: B(a.clone()), b: B(b.clone()), repr: (n % 16) as u8 }) {
                return;
            }
        }
    }
}
/// Addresses of every length that differ in one byte at every place.
fn one_byte(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(Pair) -> bool) {
    let most = if tier == Tier::Quick { 150 } else { 400 };
    let mut n = 0usize;
    for len in 1..=most {
        for form in 0..3 {
            let a = match form {
                0 => vec![b'k'; len],
                1 => [b"u@", &vec![b'k'; len][..]].concat(),
                _ => [b"\"", &vec![b' '; len][..], b"\"@h"].concat(),
            };
            for at in 0..a.len() {
                n += 1;
                if n % shards != shard || a[at] == b'@' || a[at] == b'"' {
                    continue;
                }
                for with in [b'K', b'j', b'x'] {
                    let mut b = a.clone();
                    b[at] = with;
                    if !f(Pair { a: B(a.clone()), b: B(b), repr: (n % 16) as u8 }) {
                        return;
                    }
                }
            }
        }
    }
}

pub fn subs(id: &str) -> Vec<Box<dyn Sub>> {
    match id {
        "C40" => vec![
            Box::new(Exh { name: "close", rule: "all pairs from addresses close to each other; non-trivial when the texts differ", gen: close, check: c40 }),
            Box::new(Exh { name: "one byte", rule: "addresses of every length up to 150 (400), differing in one byte at every place; all non-trivial", gen: one_byte, check: c40 }),
            Box::new(Prop { name: "pairs", rule: "a mailbox and a variation of it (edit, case, quoting, domain, IP address written otherwise, mapped, cut); non-trivial when the texts differ", strat: pair, check: c40, quick: 300_000, thorough: 8_000_000 }),
            Box::new(Prop { name: "large", rule: "the same of up to 130 kB; non-trivial when the texts differ", strat: large_pair, check: c40, quick: 500, thorough: 20_000 }),
        ],
        _ => vec![],
    }
}
