//! C15-C17, C28-C30: replies, writers, byte views, strings, push-back streams.
use crate::cmds::{build_email, reply_bytes, smtp_string};
use crate::dict;
use crate::engine::*;
use crate::gen;
use crate::grammar::{self, V};
use crate::io::{Staller, Stalls};
use crate::obs::*;
use bytes::Bytes;
use futures::stream::Stream;
use nom::{Compare, CompareResult, FindSubstring, InputIter, InputLength, Slice};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use smtp_message::*;
use std::collections::{HashMap, VecDeque};
use std::pin::Pin;
use std::task::{Context, Poll};

type R = Result<(), String>;

fn sharded<C>(shard: usize, shards: usize, f: &mut dyn FnMut(C) -> bool) -> impl FnMut(C) -> bool + '_ {
    let mut n = 0usize;
    move |c| {
        n += 1;
        if n % shards == shard {
            f(c)
        } else {
            true
        }
    }
}

// ---------------------------------------------------------------- C15

const NAMED: &[(ReplyCode, u16, &str)] = &[
    (ReplyCode::SYSTEM_STATUS, 211, "SYSTEM_STATUS"),
    (ReplyCode::HELP_MESSAGE, 214, "HELP_MESSAGE"),
    (ReplyCode::SERVICE_READY, 220, "SERVICE_READY"),
    (ReplyCode::CLOSING_CHANNEL, 221, "CLOSING_CHANNEL"),
    (ReplyCode::OKAY, 250, "OKAY"),
    (ReplyCode::USER_NOT_LOCAL_WILL_FORWARD, 251, "USER_NOT_LOCAL_WILL_FORWARD"),
    (ReplyCode::CANNOT_VRFY_BUT_PLEASE_TRY, 252, "CANNOT_VRFY_BUT_PLEASE_TRY"),
    (ReplyCode::START_MAIL_INPUT, 354, "START_MAIL_INPUT"),
    (ReplyCode::SERVICE_NOT_AVAILABLE, 421, "SERVICE_NOT_AVAILABLE"),
    (ReplyCode::MAILBOX_TEMPORARILY_UNAVAILABLE, 450, "MAILBOX_TEMPORARILY_UNAVAILABLE"),
    (ReplyCode::LOCAL_ERROR, 451, "LOCAL_ERROR"),
    (ReplyCode::INSUFFICIENT_STORAGE, 452, "INSUFFICIENT_STORAGE"),
    (ReplyCode::UNABLE_TO_ACCEPT_PARAMETERS, 455, "UNABLE_TO_ACCEPT_PARAMETERS"),
    (ReplyCode::COMMAND_UNRECOGNIZED, 500, "COMMAND_UNRECOGNIZED"),
    (ReplyCode::SYNTAX_ERROR, 501, "SYNTAX_ERROR"),
    (ReplyCode::COMMAND_UNIMPLEMENTED, 502, "COMMAND_UNIMPLEMENTED"),
    (ReplyCode::BAD_SEQUENCE, 503, "BAD_SEQUENCE"),
    (ReplyCode::PARAMETER_UNIMPLEMENTED, 504, "PARAMETER_UNIMPLEMENTED"),
    (ReplyCode::MAILBOX_UNAVAILABLE, 550, "MAILBOX_UNAVAILABLE"),
    (ReplyCode::POLICY_REASON, 550, "POLICY_REASON"),
    (ReplyCode::USER_NOT_LOCAL, 551, "USER_NOT_LOCAL"),
    (ReplyCode::EXCEEDED_STORAGE, 552, "EXCEEDED_STORAGE"),
    (ReplyCode::MAILBOX_NAME_INCORRECT, 553, "MAILBOX_NAME_INCORRECT"),
    (ReplyCode::TRANSACTION_FAILED, 554, "TRANSACTION_FAILED"),
    (ReplyCode::MAIL_OR_RCPT_PARAMETER_UNIMPLEMENTED, 555, "MAIL_OR_RCPT_PARAMETER_UNIMPLEMENTED"),
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Rep {
    /// below 1000: a custom code; from 1000 on: a named code
    code: u16,
    last: bool,
    text: B,
    repr: u8,
}
fn code_of(c: u16) -> (ReplyCode, u16) {
    if c < 1000 {
        (ReplyCode::custom(c), c)
    } else {
        let n = NAMED[(c - 1000) as usize % NAMED.len()];
        (n.0, n.1)
    }
}
fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect()
}
fn legal(b: u8) -> bool {
    b == 9 || (32..=126).contains(&b)
}
fn c15(c: &Rep, ctx: &mut Ctx) -> R {
    let (code, num) = code_of(c.code);
    if code.code() != num {
        return Err(format!("code {} announces itself as {}", num, code.code()));
    }
    let is_last = if c.last { IsLastLine::Yes } else { IsLastLine::No };
    let bad = c.text.iter().position(|b| !legal(*b));
    let long = c.text.len() > 506;
    let r = ReplyLine::build(code, is_last, smtp_string(&c.text, c.repr));
    ctx.label(if long || bad.is_some() { "illegal text" } else { "legal text" });
    if ReplyLine::MAX_LEN != 506 {
        return Err(format!("MAX_LEN is {}", ReplyLine::MAX_LEN));
    }
    match r {
        Ok(r) => {
            if long || bad.is_some() {
                return Err(format!("illegal reply text {} ({} bytes) accepted", show(&c.text), c.text.len()));
            }
            let want = [format!("{:03}{}", num, if c.last { ' ' } else { '-' }).as_bytes(), &c.text, b"\r\n"].concat();
            for r in [r.clone(), r] {
                let w = write_reply(&r)?;
                if w != want {
                    return Err(format!("reply line {} written as {}", show(&want), show(&w)));
                }
                if r.byte_len() != w.len() {
                    return Err(format!("reply line {}: announced length {}, written {}", show(&want), r.byte_len(), w.len()));
                }
                if w.len() > 512 {
                    return Err(format!("reply line of {} bytes", w.len()));
                }
                // what can be built can be read back
                let back = ReplyLine::parse(Bytes::from(w.clone())).map_err(|e| format!("reply line {} refused: {e}", show(&w)))?;
                if write_reply(&back)? != w {
                    return Err(format!("reply line {} read back as {}", show(&w), show(&write_reply(&back)?)));
                }
            }
            Ok(())
        }
        Err(e) => {
            if !long && bad.is_none() {
                return Err(format!("legal reply text {} ({} bytes) refused: {e}", show(&c.text), c.text.len()));
            }
            let ns = [numbers(&e.to_string()), numbers(&format!("{e:?}"))];
            let names = |a: usize, b: usize| {
                ns.iter().any(|n| {
                    let mut n = n.clone();
                    match n.iter().position(|x| *x == a) {
                        Some(i) => {
                            n.remove(i);
                            n.contains(&b)
                        }
                        None => false,
                    }
                })
            };
            let ok = long && names(c.text.len(), 506) || bad.map_or(false, |p| names(p, c.text[p] as usize));
            if !ok {
                return Err(format!("text of {} bytes, first illegal byte at {:?}: the error says {:?} / {:?}", c.text.len(), bad.map(|p| (p, c.text[p])), e.to_string(), e));
            }
            Ok(())
        }
    }
}
fn c15_nt(c: &Rep, ctx: &mut Ctx) -> R {
    ctx.nontrivial();
    c15(c, ctx)
}
/// No code of more than three digits can be put into a reply, let alone under another number.
fn c15_far(c: &u16, ctx: &mut Ctx) -> R {
    ctx.nontrivial();
    match catch(|| ReplyCode::custom(*c)) {
        Err(_) => Ok(()),
        Ok(r) => match ReplyLine::build(r, IsLastLine::Yes, smtp_string(b"x", 0)) {
            Err(_) => Ok(()),
            Ok(l) => {
                let mut w = vec![];
                match catch(|| l.send_to(&mut w)) {
                    Ok(Ok(())) => Err(format!("a reply with code {c} can be built and is written as {}", show(&w))),
                    _ => Ok(()),
                }
            }
        },
    }
}
fn gen_c15_far(_: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(u16) -> bool) {
    let mut f = sharded(shard, shards, f);
    for c in (1000..1300).chain((1300..65_500).step_by(97)).chain(65_500..=65_535) {
        if !f(c) {
            return;
        }
    }
}

/// A value of the program's own that writes some pieces and then fails, or not.
struct Own<'a>(&'a [B], bool);
impl smtp_message::Sendable for Own<'_> {
    fn send_to(&self, w: &mut dyn std::io::Write) -> std::io::Result<()> {
        for p in self.0 {
            w.write_all(p)?;
        }
        if self.1 {
            Err(std::io::ErrorKind::Other.into())
        } else {
            Ok(())
        }
    }
}
fn c29_own(c: &(Vec<B>, bool), ctx: &mut Ctx) -> R {
    ctx.nontrivial();
    let want: Vec<u8> = c.0.iter().flat_map(|p| p.iter().copied()).collect();
    ctx.label(if c.1 { "failing value" } else { "whole value" });
    match (SmtpString::from_sendable(&Own(&c.0, c.1)), c.1) {
        (Ok(s), false) if s.bytes()[..] == want[..] => Ok(()),
        (Ok(s), false) => Err(format!("a value written as {} becomes the string {}", show(&want), show(s.bytes()))),
        (Err(e), false) => Err(format!("a value written as {} becomes no string: {e}", show(&want))),
        (Ok(s), true) => Err(format!("a value that cannot be written becomes the string {}", show(s.bytes()))),
        (Err(_), true) => Ok(()),
    }
}
fn gen_c15(_: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(Rep) -> bool) {
    let mut f = sharded(shard, shards, f);
    for code in 0..1000 + NAMED.len() as u16 {
        for last in [false, true] {
            for text in [&b""[..], b"Okay", b"a\tb ~"] {
                if !f(Rep { code, last, text: B(text.to_vec()), repr: code as u8 }) {
                    return;
                }
            }
        }
    }
    for n in 0..=1100usize {
        for c in [b'x', b'\t', b'\r'] {
            for last in [false, true] {
                if !f(Rep { code: 250, last, text: B(vec![c; n]), repr: n as u8 }) {
                    return;
                }
            }
        }
    }
    for c in 0..=255u8 {
        for (n, p) in [(1, 0), (5, 0), (5, 2), (5, 4), (40, 39), (40, 20), (506, 0), (506, 505), (506, 250), (507, 506), (507, 0), (600, 599)] {
            for rest in [b'x', c] {
                let mut t = vec![b'x'; n];
                for b in &mut t[p..] {
                    *b = rest;
                }
                t[p] = c;
                if !f(Rep { code: 554, last: true, text: B(t), repr: c }) {
                    return;
                }
            }
        }
    }
}
fn rep() -> BoxedStrategy<Rep> {
    let text = prop_oneof![
        3 => gen::text(),
        2 => vec(any::<u8>(), 0..40).prop_map(B),
        2 => (490usize..520, vec((any::<u16>(), any::<u8>()), 0..3)).prop_map(|(n, es)| {
            let mut v = vec![b'a'; n];
            for (p, b) in es { v[p as usize % n] = b }
            B(v)
        }),
        1 => dict::len(0usize..3000, 0, 100_000).prop_map(|n| B(vec![b' '; n])),
        1 => dict::word(Just(vec![]), |_| true).prop_map(B),
    ];
    (prop_oneof![3 => dict::len(0usize..1000, 0, 999).prop_map(|n| n as u16), 1 => 1000u16..1025], any::<bool>(), text, any::<u8>())
        .prop_map(|(code, last, text, repr)| Rep { code, last, text, repr })
        .boxed()
}

// ---------------------------------------------------------------- C16

fn c16_bytes(s: &[u8], repr: u8, ctx: &mut Ctx) -> R {
    let want = grammar::reply(s);
    ctx.label(match &want {
        V::Must(_) => "must accept",
        V::Reject => "must refuse",
        _ => "may accept",
    });
    judge_reply(s, &want, &ReplyLine::parse(as_bytes(s, repr)))
}
fn c16(c: &(B, Vec<gen::Edit>, u8), ctx: &mut Ctx) -> R {
    let mut v = c.0 .0.clone();
    for e in &c.1 {
        gen::apply(&mut v, e);
    }
    if v.len() > 4 {
        ctx.nontrivial();
    }
    c16_bytes(&v, c.2, ctx)
}
/// Long lines, sometimes with something about a CRLF or the end that makes them no reply.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct LongReply {
    head: B,
    unit: B,
    n: u32,
    mid: Option<(u16, B)>,
    end: B,
}
fn long_reply() -> BoxedStrategy<LongReply> {
    let head = (0u16..1000, any::<bool>()).prop_map(|(c, l)| format!("{c:03}{}", if l { ' ' } else { '-' }).into_bytes());
    let unit = prop_oneof![2 => select(crate::lits![b"x", b" ", b"\r", b"\n", b"250 ", b"word "].to_vec()).prop_map(|u| u.to_vec()), 1 => vec(any::<u8>(), 1..9)];
    let mid = prop_oneof![3 => Just(None), 1 => (any::<u16>(), select(crate::lits![b"\r\n", b"\r", b"\n", b"\0", b"\xff", b"\r\n250 x"].to_vec())).prop_map(|(p, m)| Some((p, B(m.to_vec()))))];
    let end = select(crate::lits![b"\r\n", b"\r\n", b"\r\n", b"\n", b"\r", b"", b"\r\n\r\n", b"\r\nx", b"\n\r"].to_vec()).prop_map(|e| B(e.to_vec()));
    (head, unit, gen::large(), mid, end)
        .prop_map(|(head, unit, n, mid, end)| LongReply { head: B(head), n: (n / unit.len()) as u32, unit: B(unit), mid, end })
        .boxed()
}
fn c16_long(c: &LongReply, ctx: &mut Ctx) -> R {
    let mut v = [&c.head[..], &c.unit.repeat(c.n as usize)].concat();
    if let Some((p, m)) = &c.mid {
        let p = 4 + *p as usize * (v.len() - 4) / 65_536;
        v.splice(p..p, m.iter().copied());
    }
    v.extend_from_slice(&c.end);
    ctx.nontrivial();
    c16_bytes(&v, c.n as u8 % 4, ctx)
}
fn c16_b(c: &B, ctx: &mut Ctx) -> R {
    if c.len() > 4 {
        ctx.nontrivial();
    }
    c16_bytes(c, 0, ctx)
}
fn gen_c16(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(B) -> bool) {
    let mut f = sharded(shard, shards, f);
    for code in 0..1000 {
        for sep in [" ", "-"] {
            for t in ["", "x", "Okay then"] {
                if !f(B(format!("{code:03}{sep}{t}\r\n").into_bytes())) {
                    return;
                }
            }
        }
        for t in ["{}\r\n", "{}", "{}\n", "{} a\r\n", "{}- a\r\n", "{}+a\r\n", "{}_a\r\n"] {
            for c in [format!("{code}"), format!("{code:03}"), format!("{code:04}"), format!("0x{code:x}"), format!("+{code:02}"), format!("-{code:02}"), format!(" {code:02}")] {
                if !f(B(t.replace("{}", &c).into_bytes())) {
                    return;
                }
            }
        }
    }
    for base in [&b"250 Okay\r\n"[..], b"220-x\r\n", b"000 \r\n", b"999-\r\n", b"354 a b\tc\r\n"] {
        for p in 0..=base.len() {
            for c in 0..=255u8 {
                let mut v = base.to_vec();
                v.insert(p, c);
                if !f(B(v)) {
                    return;
                }
                for d in [b'\r', b'\n', b' ', b'0'] {
                    let mut v = base.to_vec();
                    v.splice(p..p, [c, d]);
                    if !f(B(v)) {
                        return;
                    }
                }
                if p < base.len() {
                    let mut v = base.to_vec();
                    v[p] = c;
                    if !f(B(v)) {
                        return;
                    }
                }
            }
            if !f(B(base[..p].to_vec())) || !f(B(base[p..].to_vec())) || !f(B([base, &base[..p]].concat())) {
                return;
            }
            for q in p..base.len() {
                let mut v = base.to_vec();
                v.drain(p..=q);
                if !f(B(v)) {
                    return;
                }
            }
        }
    }
    // every triple of bytes from a wide alphabet as the code
    let alpha: Vec<u8> = if tier == Tier::Quick { b"0159+- .aA\xff\x00\r\n/:".to_vec() } else { (0..=255u8).step_by(3).chain(b"0123456789+- /:".iter().copied()).collect() };
    for a in &alpha {
        for b in &alpha {
            for c in &alpha {
                for t in [&b" x\r\n"[..], b"-\r\n"] {
                    if !f(B([&[*a, *b, *c][..], t].concat())) {
                        return;
                    }
                }
            }
        }
    }
    for code in 0..1000 {
        for t in [" ok\r\n", "-ok\r\n", " \r\n"] {
            if !f(B(format!("{code:03}{t}").into_bytes())) {
                return;
            }
        }
    }
    // UTF-8 digits of other scripts
    for c in ["\u{661}00", "\u{ff11}", "1\u{b2}", "\u{b2}5", "25\u{2070}"] {
        if !f(B(format!("{c} x\r\n").into_bytes())) {
            return;
        }
    }
    for n in 0..=1100usize {
        if !f(B([&b"250 "[..], &vec![b'x'; n], b"\r\n"].concat())) || !f(B([&b"250-"[..], &vec![b'\r'; n], b"\r\n"].concat())) || !f(B([&b"250-"[..], &vec![b'x'; n]].concat())) {
            return;
        }
    }
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
enum Thing {
    Cmd(gen::CmdSpec),
    Mbox(B),
    Str(B),
    Reply(Rep),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Writing {
    thing: Thing,
    sizes: Vec<u8>,
    kind: u8,
    once: bool,
}
fn writing() -> BoxedStrategy<Writing> {
    let rep = (0u16..1025, any::<bool>(), gen::text(), any::<u8>()).prop_map(|(code, last, text, repr)| {
        let mut t = text.0;
        t.truncate(506);
        Rep { code, last, text: B(t), repr }
    });
    let thing = prop_oneof![
        5 => gen::cmd().prop_map(Thing::Cmd),
        2 => gen::mbox().prop_map(Thing::Mbox),
        1 => vec(any::<u8>(), 0..100).prop_map(|v| Thing::Str(B(v))),
        2 => rep.prop_map(Thing::Reply),
    ];
    (thing, vec(prop_oneof![1 => Just(0u8), 3 => 1u8..5, 1 => 5u8..100], 1..6), 0u8..3, any::<bool>())
        .prop_map(|(thing, sizes, kind, once)| Writing { thing, sizes, kind, once })
        .boxed()
}
fn large_writing() -> BoxedStrategy<Writing> {
    let thing = prop_oneof![
        4 => gen::large_cmd().prop_map(Thing::Cmd),
        2 => gen::large_mbox().prop_map(Thing::Mbox),
        1 => (gen::large(), vec(any::<u8>(), 1..9)).prop_map(|(n, u)| Thing::Str(B(u.repeat(n / u.len())))),
    ];
    let sizes = prop_oneof![1 => Just(vec![255u8]), 2 => vec(100u8..=255, 1..4)];
    (thing, sizes, 0u8..3, any::<bool>()).prop_map(|(thing, sizes, kind, once)| Writing { thing, sizes, kind, once }).boxed()
}
fn c17(c: &Writing, ctx: &mut Ctx) -> R {
    type W<'a> = Box<dyn Fn(&mut dyn std::io::Write) -> std::io::Result<()> + 'a>;
    let mut writers: Vec<W> = Vec::new();
    match &c.thing {
        Thing::Cmd(s) => {
            let line = s.render();
            match parse_cmd(&line, 0) {
                Ok(cmd) => {
                    match parse_cmd(&line, 0) {
                        Ok(Command::Mail(m)) => {
                            writers.push(Box::new(move |w| m.send_to(w)));
                        }
                        Ok(Command::Rcpt(m)) => {
                            writers.push(Box::new(move |w| m.send_to(w)));
                        }
                        Ok(Command::Ehlo(m)) => {
                            writers.push(Box::new(move |w| m.domain().send_to(w)));
                        }
                        _ => {}
                    }
                    writers.push(Box::new(move |w| cmd.send_to(w)));
                }
                Err(_) => {
                    ctx.skip();
                    return Ok(());
                }
            }
        }
        Thing::Mbox(m) => {
            let e = build_email(m, 0)?;
            let o = Some(build_email(m, 1)?);
            writers.push(Box::new(move |w| e.send_to(w)));
            writers.push(Box::new(move |w| o.send_to(w)));
        }
        Thing::Str(s) => {
            let s = smtp_string(s, c.kind);
            writers.push(Box::new(move |w| s.send_to(w)));
        }
        Thing::Reply(r) => {
            let l = ReplyLine::build(code_of(r.code).0, if r.last { IsLastLine::Yes } else { IsLastLine::No }, smtp_string(&r.text, r.repr))
                .map_err(|e| format!("legal reply refused: {e}"))?;
            writers.push(Box::new(move |w| l.send_to(w)));
        }
    }
    for wr in &writers {
        let mut full = Vec::new();
        wr(&mut full).map_err(|e| format!("writing to memory failed: {e}"))?;
        if full.len() > 1 {
            ctx.nontrivial();
        }
        let mut b = BadWriter { sizes: c.sizes.clone(), ..BadWriter::default() };
        wr(&mut b).map_err(|e| format!("{}: writing a few bytes at a time fails: {e}", show(&full)))?;
        if b.got != full {
            return Err(format!("{} written a few bytes at a time becomes {}", show(&full), show(&b.got)));
        }
        let step = (full.len() / 80).max(1);
        for f in (0..full.len()).step_by(step).chain(full.len().checked_sub(1)) {
            let mut b = BadWriter { sizes: c.sizes.clone(), fail_after: Some(f), fail_kind: c.kind, once: c.once, ..BadWriter::default() };
            let r = wr(&mut b);
            ctx.add("failure points", 1);
            if r.is_ok() {
                return Err(format!("{}: the output failed after {f} bytes, but writing reports success (written: {})", show(&full), show(&b.got)));
            }
            if !full.starts_with(&b.got) {
                return Err(format!("{}: the output failed after {f} bytes; written: {}", show(&full), show(&b.got)));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C28

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
enum Cutting {
    Range(u32, u32),
    To(u32),
    From(u32),
    Full,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct View {
    buf: B,
    /// leading bytes of the allocation hidden from the buffer
    offset: u8,
    ops: Vec<Cutting>,
    needle: B,
    far: bool,
}
fn cutting(most: u32) -> BoxedStrategy<Cutting> {
    prop_oneof![
        4 => (0..most, 0..most).prop_map(|(a, b)| Cutting::Range(a.min(b), a.max(b))),
        1 => (0..most, 0..most).prop_map(|(a, b)| Cutting::Range(a, b)),
        2 => (0..most).prop_map(Cutting::To),
        2 => (0..most).prop_map(Cutting::From),
        1 => Just(Cutting::Full),
    ]
    .boxed()
}
fn large_view() -> BoxedStrategy<View> {
    let unit = prop_oneof![1 => vec(any::<u8>(), 1..4), 2 => vec(select(&b"abAB\r\n."[..]), 1..9), 1 => Just("é€".to_string().into_bytes())];
    let needle = prop_oneof![1 => vec(select(&b"abAB\r\n"[..]), 1..4), 1 => vec(any::<u8>(), 1..3)];
    (gen::large(), unit, needle, any::<u16>(), 0u8..5)
        .prop_flat_map(|(n, u, needle, at, offset)| {
            let mut buf = u.repeat((n / u.len()).max(1));
            // what is looked for occurs somewhere far inside, or not
            if at % 3 > 0 {
                let p = at as usize * buf.len() / 65_536;
                buf.splice(p..p, needle.iter().copied());
            }
            let most = buf.len() as u32 + 2;
            vec(prop_oneof![3 => cutting(most), 1 => cutting(9)], 0..5).prop_map(move |ops| View { buf: B(buf.clone()), offset, ops, needle: B(needle.clone()), far: false })
        })
        .boxed()
}
fn view() -> BoxedStrategy<View> {
    let op = cutting(40);
    let buf = prop_oneof![
        3 => vec(select(&b"abAB\r\n.\xc3\xa9\xff"[..]), 0..40),
        1 => vec(any::<u8>(), 0..60),
        1 => "[a-zé€]{0,20}".prop_map(|s: String| s.into_bytes()),
    ];
    let needle = prop_oneof![vec(select(&b"abAB\r\n"[..]), 0..4), vec(any::<u8>(), 0..3)];
    (buf, 0u8..5, vec(op, 0..6), needle, prop_oneof![19 => Just(false), 1 => Just(true)])
        .prop_map(|(buf, offset, ops, needle, far)| View { buf: B(buf), offset, ops, needle: B(needle), far })
        .boxed()
}
fn cmp_slice(a: &[u8], b: &[u8], ci: bool) -> CompareResult {
    let n = a.len().min(b.len());
    let eq = if ci { a[..n].eq_ignore_ascii_case(&b[..n]) } else { a[..n] == b[..n] };
    if !eq {
        CompareResult::Error
    } else if a.len() < b.len() {
        CompareResult::Incomplete
    } else {
        CompareResult::Ok
    }
}
fn check_view(v: ByteSlice, m: &[u8], needle: &[u8]) -> R {
    let bad = |what: &str| Err(format!("{what} of a view onto {} is wrong", show(m)));
    if v.len() != m.len() || v.input_len() != m.len() {
        return bad("length");
    }
    if &v[..] != m || v.demote() != m || v.iter().copied().collect::<Vec<_>>() != m {
        return bad("content");
    }
    if v.promote() != m {
        return bad("owned copy");
    }
    if v.into_utf8().ok() != std::str::from_utf8(m).ok() {
        return bad("UTF-8 reading");
    }
    if v.iter_elements().collect::<Vec<_>>() != m || v.iter_indices().collect::<Vec<_>>() != m.iter().copied().enumerate().collect::<Vec<_>>() {
        return bad("iteration");
    }
    for b in needle.iter().chain(m.last()).chain(m.first()) {
        if v.position(|x| x == *b) != m.iter().position(|x| x == b) {
            return bad("search");
        }
    }
    if v.position(|_| false).is_some() {
        return bad("search");
    }
    for n in [0, 1, m.len().saturating_sub(1), m.len(), m.len() + 1, usize::MAX] {
        let want = if n <= m.len() { Some(n) } else { None };
        if v.slice_index(n) != want {
            return bad("slice_index");
        }
    }
    // nom's search in an ordinary slice finds no empty needle and rejects by panic one that is
    // longer than the slice: nothing to compare with there
    let searchable = !needle.is_empty() && needle.len() <= m.len();
    if v.compare(needle) != cmp_slice(m, needle, false) {
        return bad("comparison");
    }
    let mut longer = m.to_vec();
    if v.compare(&longer[..]) != CompareResult::Ok {
        return bad("comparison");
    }
    longer.push(b'x');
    if v.compare(&longer[..]) != CompareResult::Incomplete {
        return bad("comparison");
    }
    if let Ok(s) = std::str::from_utf8(needle) {
        if v.compare(s) != cmp_slice(m, needle, false) {
            return bad("comparison");
        }
        if needle.is_ascii() && v.compare_no_case(s) != cmp_slice(m, needle, true) {
            return bad("case-insensitive comparison");
        }
        if searchable && v.find_substring(s) != m.windows(needle.len()).position(|w| w == needle) {
            return bad("substring search");
        }
    }
    if needle.is_ascii() && v.compare_no_case(needle) != cmp_slice(m, needle, true) {
        return bad("case-insensitive comparison");
    }
    if searchable && v.find_substring(needle) != m.windows(needle.len()).position(|w| w == needle) {
        return bad("substring search");
    }
    Ok(())
}
fn c28(c: &View, ctx: &mut Ctx) -> R {
    let mut all = b"SECRET"[..c.offset as usize % 6].to_vec();
    let o = all.len();
    all.extend_from_slice(&c.buf);
    all.extend_from_slice(b"HIDDEN TAIL");
    let owner = Bytes::from(all);
    let buf = owner.slice(o, o + c.buf.len());
    let mut v = ByteSlice::from(&buf);
    let mut m: &[u8] = &c.buf;
    check_view(v, m, &c.needle)?;
    let far = |x: u32| if c.far && x > 20 { usize::MAX - (x as usize - 21) } else { x as usize };
    for op in &c.ops {
        if m.len() < c.buf.len() {
            ctx.nontrivial();
        }
        let (want, got) = match op {
            Cutting::Range(a, b) => {
                let (a, b) = (far(*a), far(*b));
                (m.get(a..b), catch(|| v.slice(a..b)))
            }
            Cutting::To(b) => (m.get(..far(*b)), catch(|| v.slice(..far(*b)))),
            Cutting::From(a) => (m.get(far(*a)..), catch(|| v.slice(far(*a)..))),
            Cutting::Full => (Some(m), catch(|| v.slice(..))),
        };
        match (want, got) {
            (Some(w), Ok(g)) => {
                check_view(g, w, &c.needle).map_err(|e| format!("{e} (after {op:?} on {} bytes)", m.len()))?;
                if g != g.slice(..) {
                    return Err("a view is unequal to itself".into());
                }
                if (w.len() != m.len()) && g == v {
                    return Err(format!("views of {} and {} bytes compare equal", m.len(), w.len()));
                }
                m = w;
                v = g;
            }
            (None, Err(_)) => ctx.label("refused: out of range"),
            (Some(_), Err(e)) => return Err(format!("{op:?} within a view of {} bytes fails: {e}", m.len())),
            (None, Ok(g)) => {
                return Err(format!("{op:?} reaches beyond a view of {} bytes, and yields {}", m.len(), catch(|| show(&g[..])).unwrap_or_else(|_| "a broken view".into())))
            }
        }
    }
    Ok(())
}
fn gen_c28(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(View) -> bool) {
    let mut f = sharded(shard, shards, f);
    let n = if tier == Tier::Quick { 4u32 } else { 6 };
    let mut ops = vec![Cutting::Full];
    for a in 0..=n + 1 {
        ops.push(Cutting::To(a));
        ops.push(Cutting::From(a));
        for b in 0..=n + 1 {
            ops.push(Cutting::Range(a, b));
        }
    }
    for x in &ops {
        for y in &ops {
            for z in &ops {
                let v = View { buf: B(b"abcdefg"[..n as usize].to_vec()), offset: 3, ops: vec![x.clone(), y.clone(), z.clone()], needle: gen::b(b"c"), far: false };
                if !f(v) {
                    return;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C29

static STATIC: [u8; 300] = {
    let mut a = [0u8; 300];
    let mut i = 0;
    while i < 300 {
        a[i] = (i % 256) as u8;
        i += 1;
    }
    a
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
enum SOp {
    New(B, u8),
    Static(u16, u16),
    Clone(u8),
    Add(u8, u8),
    Chunks(u8, u16),
    Drop(u8),
    Unshare(u8),
}
fn large_sops() -> BoxedStrategy<Vec<SOp>> {
    let bytes = prop_oneof![
        2 => (gen::large(), any::<u8>()).prop_map(|(n, b)| (0..n).map(|i| (i as u8 ^ (i >> 8) as u8).wrapping_add(b)).collect::<Vec<u8>>()),
        1 => vec(any::<u8>(), 0..40),
    ]
    .prop_map(B);
    let op = prop_oneof![
        4 => (bytes, 0u8..20).prop_map(|(b, r)| SOp::New(b, r)),
        2 => any::<u8>().prop_map(SOp::Clone),
        5 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| SOp::Add(a, b)),
        3 => (any::<u8>(), prop_oneof![1 => 1u16..8, 3 => 8u16..3_000, 3 => 3_000u16..65_535]).prop_map(|(a, n)| SOp::Chunks(a, n)),
        1 => any::<u8>().prop_map(SOp::Drop),
        1 => any::<u8>().prop_map(SOp::Unshare),
    ];
    vec(op, 2..12).boxed()
}
fn sops() -> BoxedStrategy<Vec<SOp>> {
    let bytes = prop_oneof![
        3 => vec(select(&b"ab.\r\n"[..]), 0..6),
        2 => vec(any::<u8>(), 0..40),
        2 => (28usize..36, any::<u8>()).prop_map(|(n, b)| vec![b; n]),
        1 => dict::word(Just(vec![b'a']), |_| true),
        1 => (dict::len(0usize..600, 0, 5000), any::<u8>()).prop_map(|(n, b)| (0..n).map(|i| (i as u8).wrapping_add(b)).collect()),
    ]
    .prop_map(B);
    let op = prop_oneof![
        4 => (bytes, 0u8..20).prop_map(|(b, r)| SOp::New(b, r)),
        1 => (0u16..300, 0u16..300).prop_map(|(a, b)| SOp::Static(a.min(b), a.max(b))),
        3 => any::<u8>().prop_map(SOp::Clone),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| SOp::Add(a, b)),
        3 => (any::<u8>(), prop_oneof![4 => 1u16..8, 2 => 1u16..40, 1 => dict::len(1usize..700, 1, 6000).prop_map(|n| n as u16)]).prop_map(|(a, n)| SOp::Chunks(a, n)),
        1 => any::<u8>().prop_map(SOp::Drop),
        1 => any::<u8>().prop_map(SOp::Unshare),
    ];
    vec(op, 1..14).boxed()
}
fn hash(s: &SmtpString) -> u64 {
    use std::hash::{Hash, Hasher};
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    s.hash(&mut h);
    h.finish()
}
fn check_string(s: &SmtpString, m: &[u8]) -> R {
    if s.byte_len() != m.len() || s.bytes()[..] != *m || s.iter_bytes().copied().collect::<Vec<_>>() != m {
        return Err(format!("string should hold {}, holds {} ({} bytes announced)", show(m), show(s.bytes()), s.byte_len()));
    }
    for (i, b) in m.iter().enumerate() {
        if s.byte(i) != *b {
            return Err(format!("byte {i} of {} is {}", show(m), s.byte(i)));
        }
    }
    let mut w = Vec::new();
    s.send_to(&mut w).map_err(|e| e.to_string())?;
    if w != m || s_bytes(&SmtpString::from_sendable(s).map_err(|e| e.to_string())?) != m {
        return Err(format!("{} written as {}", show(m), show(&w)));
    }
    Ok(())
}
fn c29(ops: &Vec<SOp>, ctx: &mut Ctx) -> R {
    let mut pool: Vec<(SmtpString, Vec<u8>)> = vec![(SmtpString::from(&b""[..]), vec![])];
    for op in ops {
        let n = pool.len();
        match op {
            SOp::New(b, r) => {
                let s = match (r, std::str::from_utf8(b)) {
                    (0..=3, Ok(t)) => SmtpString::from(t),
                    _ => smtp_string(b, *r),
                };
                pool.push((s, b.0.clone()));
            }
            SOp::Static(a, b) => {
                let t: &'static [u8] = &STATIC[*a as usize..*b as usize];
                pool.push((SmtpString::from_static(t), t.to_vec()));
            }
            SOp::Clone(i) => {
                let x = pool[*i as usize % n].clone();
                pool.push(x);
            }
            SOp::Add(i, j) => {
                let a = pool[*i as usize % n].clone();
                let b = pool[*j as usize % n].clone();
                if !a.1.is_empty() && !b.1.is_empty() {
                    ctx.nontrivial();
                }
                pool.push((a.0 + b.0, [a.1, b.1].concat()));
            }
            SOp::Unshare(i) => {
                // append to the original itself, not to a copy
                let i = *i as usize % n;
                let (s, m) = pool.swap_remove(i);
                pool.push((s + SmtpString::from("+"), [&m[..], b"+"].concat()));
            }
            SOp::Drop(i) => {
                if n > 1 {
                    pool.remove(*i as usize % n);
                }
            }
            SOp::Chunks(i, k) => {
                let (s, m) = pool[*i as usize % n].clone();
                let k = *k as usize;
                let parts: Vec<SmtpString> = s.byte_chunks(k).take(m.len() + 2).collect();
                let want: Vec<&[u8]> = m.chunks(k).collect();
                let got: Vec<Vec<u8>> = parts.iter().map(s_bytes).collect();
                // an empty string may be split into nothing or into one empty piece
                if got != want && !(m.is_empty() && got.len() == 1 && got[0].is_empty()) {
                    return Err(format!("{} split into pieces of {k}: {:?}", show(&m), got.iter().map(|g| show(g)).collect::<Vec<_>>()));
                }
                if m.len() > k {
                    ctx.nontrivial();
                }
                for (p, w) in parts.into_iter().zip(want).take(3) {
                    pool.push((p, w.to_vec()));
                }
            }
        }
        for (s, m) in &pool {
            check_string(s, m).map_err(|e| format!("after {op:?}: {e}"))?;
        }
        if pool.len() > 40 {
            pool.drain(..20);
        }
    }
    let mut map: HashMap<SmtpString, Vec<u8>> = HashMap::new();
    for (s, m) in &pool {
        for (t, o) in &pool {
            if (s == t) != (m == o) {
                return Err(format!("{} and {} compare {}", show(m), show(o), s == t));
            }
            if m == o && hash(s) != hash(t) {
                return Err(format!("two strings holding {} hash differently", show(m)));
            }
        }
        map.insert(s.clone(), m.clone());
    }
    for (s, m) in &pool {
        if map.get(s) != Some(m) {
            return Err(format!("{} not found in a map under its own key", show(m)));
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Split {
    len: u16,
    size: u16,
}
fn gen_split(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(Split) -> bool) {
    let mut f = sharded(shard, shards, f);
    let (n, k) = if tier == Tier::Quick { (1100u16, 60u16) } else { (2100, 600) };
    for len in 0..=n {
        for size in (1..=k).chain([255, 256, 257, 505, 506, 507, 511, 512, 513, 1012, 1024]) {
            if !f(Split { len, size }) {
                return;
            }
        }
    }
}
fn c29_split(c: &Split, ctx: &mut Ctx) -> R {
    let m: Vec<u8> = (0..c.len).map(|i| (i % 251) as u8).collect();
    let s = smtp_string(&m, (c.len % 12) as u8);
    if c.len > c.size {
        ctx.nontrivial();
    }
    let got: Vec<SmtpString> = s.byte_chunks(c.size as usize).take(m.len() + 2).collect();
    let want: Vec<&[u8]> = m.chunks(c.size as usize).collect();
    if got.iter().map(|g| &g.bytes()[..]).ne(want.iter().copied()) && !(m.is_empty() && got.len() == 1 && got[0].byte_len() == 0) {
        return Err(format!("{} bytes split into pieces of {}: sizes {:?}", c.len, c.size, got.iter().map(|g| g.byte_len()).collect::<Vec<_>>()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C30

struct Items {
    left: VecDeque<u32>,
    st: Staller,
    ended: bool,
}
impl Stream for Items {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        if self.ended {
            return Poll::Ready(None);
        }
        if self.st.stall(cx) {
            return Poll::Pending;
        }
        let x = self.left.pop_front();
        self.ended = x.is_none();
        Poll::Ready(x)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Push {
    items: u8,
    stalls: Stalls,
    nested: bool,
    /// false: read once; true: push back
    ops: Vec<bool>,
}
struct NoWake(std::sync::atomic::AtomicUsize);
impl std::task::Wake for NoWake {
    fn wake(self: std::sync::Arc<Self>) {
        self.0.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
}
fn c30(c: &Push, ctx: &mut Ctx) -> R {
    let src = || Items { left: (0..c.items as u32).collect(), st: Staller::new(&c.stalls), ended: false };
    let wk = std::sync::Arc::new(NoWake(Default::default()));
    let waker = std::task::Waker::from(wk.clone());
    let mut cx = Context::from_waker(&waker);
    // model
    let mut slot: Option<u32> = None;
    let mut model = src();
    let mut next_id = 1000;
    let mut a;
    let mut b;
    let s: &mut dyn PStream = if c.nested {
        a = StreamExt::prependable(StreamExt::prependable(src()));
        &mut a
    } else {
        b = Prependable::new(src());
        &mut b
    };
    let mut refused = false;
    for (i, op) in c.ops.iter().enumerate() {
        if *op {
            next_id += 1;
            let r = s.push(next_id);
            match (r, slot) {
                (Ok(()), None) => slot = Some(next_id),
                (Err(()), Some(_)) => refused = true,
                (Ok(()), Some(_)) => return Err(format!("step {i}: a second item was accepted while one is waiting")),
                (Err(()), None) => return Err(format!("step {i}: pushing back refused although nothing is waiting")),
            }
        } else {
            let want = match slot.take() {
                Some(x) => Poll::Ready(Some(x)),
                None => Pin::new(&mut model).poll_next(&mut cx),
            };
            let before = wk.0.load(std::sync::atomic::Ordering::Relaxed);
            crate::clock::stall(i);
            let got = s.poll(&mut cx);
            if got != want {
                return Err(format!("step {i}: read {got:?}, expected {want:?}"));
            }
            if got.is_pending() && wk.0.load(std::sync::atomic::Ordering::Relaxed) == before {
                return Err(format!("step {i}: pending without passing on the waker"));
            }
        }
    }
    if refused || c.ops.iter().filter(|o| **o).count() > 1 {
        ctx.nontrivial();
    }
    Ok(())
}
trait PStream {
    fn push(&mut self, x: u32) -> Result<(), ()>;
    fn poll(&mut self, cx: &mut Context) -> Poll<Option<u32>>;
}
impl<S: Stream<Item = u32> + Unpin> PStream for Prependable<S> {
    fn push(&mut self, x: u32) -> Result<(), ()> {
        self.prepend(x)
    }
    fn poll(&mut self, cx: &mut Context) -> Poll<Option<u32>> {
        Pin::new(self).poll_next(cx)
    }
}
fn gen_c30(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(Push) -> bool) {
    let mut f = sharded(shard, shards, f);
    let n = if tier == Tier::Quick { 11 } else { 15 };
    for len in 0..=n {
        for bits in 0..1u32 << len {
            for items in 0..4 {
                for st in [vec![], vec![1, 0], vec![2]] {
                    for nested in [false, true] {
                        let p = Push { items, stalls: Stalls(st.clone()), nested, ops: (0..len).map(|i| bits >> i & 1 == 1).collect() };
                        if !f(p) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

pub fn subs(id: &str) -> Vec<Box<dyn Sub>> {
    match id {
        "C15" => vec![
            Box::new(Exh { name: "codes out of range", rule: "codes of more than three digits; all non-trivial", gen: gen_c15_far, check: c15_far }),
            Box::new(Exh { name: "enumerated", rule: "every code, every length up to 1100, every byte value at first, middle and last positions; all non-trivial", gen: gen_c15, check: c15_nt }),
            Box::new(Prop { name: "texts", rule: "random code, flag and text around the limits; all non-trivial", strat: rep, check: c15_nt, quick: 200_000, thorough: 5_000_000 }),
        ],
        "C16" => vec![
            Box::new(Exh { name: "enumerated", rule: "every code, malformed codes, every single-byte edit of representative lines, every length up to 1100; non-trivial when longer than 4 bytes", gen: gen_c16, check: c16_b }),
            Box::new(Prop {
                name: "edited",
                rule: "reply line with 0-3 edits; non-trivial when longer than 4 bytes",
                strat: || (reply_bytes(), vec(gen::edit(), 0..4), 0u8..4).boxed(),
                check: c16,
                quick: 400_000,
                thorough: 8_000_000,
            }),
            Box::new(Prop { name: "long", rule: "lines of up to 130 kB, well-formed or not; all non-trivial", strat: long_reply, check: c16_long, quick: 1_000, thorough: 60_000 }),
        ],
        "C17" => vec![Box::new(Prop { name: "large", rule: "the same of up to 130 kB, failing at about 80 points; all non-trivial", strat: large_writing, check: c17, quick: 200, thorough: 10_000 }), Box::new(Prop {
            name: "writers",
            rule: "command, mailbox, string or reply written to an output that takes a few bytes at a time, is interrupted, and fails after every possible number of bytes; non-trivial when longer than one byte",
            strat: writing,
            check: c17,
            quick: 80_000,
            thorough: 2_500_000,
        })],
        "C28" => vec![
            Box::new(Exh { name: "all chains", rule: "all chains of three range operations over a buffer of 4 (6) bytes; non-trivial when an operation is applied to a proper sub-view", gen: gen_c28, check: c28 }),
            Box::new(Prop { name: "views", rule: "buffer inside a larger allocation, up to five range operations in and out of range; non-trivial when an operation is applied to a proper sub-view", strat: view, check: c28, quick: 300_000, thorough: 8_000_000 }),
            Box::new(Prop { name: "large views", rule: "the same over buffers of up to 130 kB", strat: large_view, check: c28, quick: 500, thorough: 40_000 }),
        ],
        "C29" => vec![
            Box::new(Prop { name: "own values", rule: "strings made from a value that writes itself in pieces and may fail; all non-trivial", strat: || (vec(crate::gen::soup(), 0..5), any::<bool>()).boxed(), check: c29_own, quick: 4_000, thorough: 400_000 }),
            Box::new(Exh { name: "splitting", rule: "all lengths up to 1100 and many sizes; non-trivial when there is more than one piece", gen: gen_split, check: c29_split }),
            Box::new(Prop { name: "operations", rule: "sequence of constructions, copies, concatenations and splits over a pool of strings; non-trivial when something non-empty is concatenated or split", strat: sops, check: c29, quick: 80_000, thorough: 2_000_000 }),
            Box::new(Prop { name: "large", rule: "the same with strings of up to 130 kB and their concatenations", strat: large_sops, check: c29, quick: 150, thorough: 10_000 }),
        ],
        "C30" => vec![
            Box::new(Exh { name: "all histories", rule: "all sequences of reads and push-backs up to a length, over streams of 0-3 items with three stall patterns; non-trivial when two push-backs occur", gen: gen_c30, check: c30 }),
            Box::new(Prop {
                name: "histories",
                rule: "long random sequences of reads and push-backs; non-trivial when two push-backs occur",
                strat: || (0u8..30, crate::io::stalls(), any::<bool>(), vec(any::<bool>(), 0..80)).prop_map(|(items, stalls, nested, ops)| Push { items, stalls, nested, ops }).boxed(),
                check: c30,
                quick: 100_000,
                thorough: 3_000_000,
            }),
            Box::new(Prop {
                name: "very long histories",
                rule: "up to 6000 reads and push-backs; non-trivial when two push-backs occur",
                strat: || (0u8..=255, crate::io::stalls(), any::<bool>(), (gen::large(), vec(any::<bool>(), 1..30)).prop_map(|(n, u)| u.iter().cycle().take(n.min(6_000)).copied().collect())).prop_map(|(items, stalls, nested, ops)| Push { items, stalls, nested, ops }).boxed(),
                check: c30,
                quick: 200,
                thorough: 20_000,
            }),
        ],
        _ => vec![],
    }
}
