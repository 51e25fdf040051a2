//! C01-C05: message content on the wire.
use crate::dict;
use crate::engine::*;
use crate::exec;
use crate::io::{self, Chunks, Out, Source, Stalls};
use crate::obs::as_bytes;
use bytes::BytesMut;
use futures::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use smtp_message::{DataSink, DataStream, Prependable};

type R = Result<(), String>;

// ---------------------------------------------------------------- reference

/// (content, bytes consumed including the terminator; None if there is none)
pub fn ref_decode(raw: &[u8]) -> (Vec<u8>, Option<usize>) {
    let mut out = Vec::new();
    let mut pos = 0;
    loop {
        let line = &raw[pos..];
        if line.starts_with(b".\r\n") {
            return (out, Some(pos + 3));
        }
        let mut i = 0;
        if line.first() == Some(&b'.') {
            i = 1;
        }
        match line[i..].windows(2).position(|w| w == b"\r\n") {
            Some(p) => {
                out.extend_from_slice(&line[i..i + p + 2]);
                pos += i + p + 2;
            }
            None => {
                out.extend_from_slice(&line[i..]);
                return (out, None);
            }
        }
    }
}

pub fn ref_encode(msg: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut rest = msg;
    while !rest.is_empty() {
        let n = rest.windows(2).position(|w| w == b"\r\n").map(|p| p + 2).unwrap_or(rest.len());
        if rest[0] == b'.' {
            out.push(b'.');
        }
        out.extend_from_slice(&rest[..n]);
        rest = &rest[n..];
    }
    if !msg.is_empty() && !msg.ends_with(b"\r\n") {
        out.extend_from_slice(b"\r\n");
    }
    out.extend_from_slice(b".\r\n");
    out
}

pub fn with_crlf(msg: &[u8]) -> Vec<u8> {
    let mut v = msg.to_vec();
    if !v.is_empty() && !v.ends_with(b"\r\n") {
        v.extend_from_slice(b"\r\n");
    }
    v
}

// ---------------------------------------------------------------- running the decoder

#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Decoded {
    pub msgs: Vec<(Vec<u8>, bool)>,
    pub left: Vec<u8>,
}

/// Decodes up to `n` messages (stopping at one without terminator), then reads the rest.
/// With `hang`, the source never yields anything after its chunks (and never wakes).
pub fn decode(chunks: Vec<BytesMut>, stalls: &Stalls, n: usize, hang: bool) -> Result<Decoded, String> {
    let limit: usize = chunks.iter().map(|c| c.len()).sum::<usize>() * 2 + 64;
    let src = Source::new(chunks, stalls);
    let end: futures::stream::BoxStream<'static, BytesMut> =
        if hang { futures::stream::pending().boxed() } else { futures::stream::empty().boxed() };
    let mut src = Prependable::new(src.chain(end));
    let mut msgs = Vec::new();
    for _ in 0..n {
        let mut ds = DataStream::new(&mut src);
        let mut got = Vec::new();
        let items = exec::block(async {
            let mut items = 0usize;
            while let Some(b) = ds.next().await {
                got.extend_from_slice(&b);
                items += 1;
                if got.len() > limit || items > limit * 4 {
                    return Err("the decoder produces more than it was given".to_string());
                }
            }
            Ok(items)
        })
        .map_err(|s| format!("decoder stuck ({s:?}) after {}", show(&got)))?;
        items?;
        let ok = ds.complete().is_ok();
        if !ds.was_completed() {
            return Err("was_completed() is false after complete()".into());
        }
        msgs.push((got, ok));
        if !ok {
            break;
        }
    }
    let mut left = Vec::new();
    if !hang {
        if msgs.last().map_or(true, |m| m.1) {
            exec::block(async {
                while let Some(b) = src.next().await {
                    left.extend_from_slice(&b);
                    if left.len() > limit {
                        break;
                    }
                }
            })
            .map_err(|s| format!("reading on is stuck: {s:?}"))?;
        }
    } else {
        // the source hangs after its last chunk: that ends the reading
        let _ = exec::block(async {
            while let Some(b) = src.next().await {
                left.extend_from_slice(&b);
            }
        });
    }
    Ok(Decoded { msgs, left })
}

fn check_decode(raw: &[u8], got: &Decoded, n: usize) -> R {
    let mut pos = 0;
    for i in 0..n {
        let (content, used) = ref_decode(&raw[pos..]);
        let (c, ok) = match got.msgs.get(i) {
            Some(m) => m,
            None => return Err(format!("message {i} is missing")),
        };
        match used {
            Some(u) => {
                if !ok {
                    return Err(format!("message {i}: complete message {} reported as cut off", show(&raw[pos..pos + u])));
                }
                if *c != content {
                    return Err(format!("message {i}: {} decoded to {}, expected {}", show(&raw[pos..pos + u]), show(c), show(&content)));
                }
                pos += u;
            }
            None => {
                if *ok {
                    return Err(format!("message {i}: {} has no terminator but is reported complete (decoded to {})", show(&raw[pos..]), show(c)));
                }
                if !content.starts_with(c) {
                    return Err(format!("message {i}: {} decoded to {}, which is no prefix of {}", show(&raw[pos..]), show(c), show(&content)));
                }
                return Ok(());
            }
        }
    }
    if got.left != raw[pos..] {
        return Err(format!("after {n} messages of {}: bytes left over {}, expected {}", show(raw), show(&got.left), show(&raw[pos..])));
    }
    Ok(())
}

// ---------------------------------------------------------------- generators

const TOK: &[&[u8]] = &[
    b"\r\n", b"\r\n", b"\r\n", b".", b".", b"\r", b"\n", b"x", b"ab", b"..", b"...", b".\r\n", b"\r\n.", b"\r\n..", b"\r\n.\r\n", b"\r\n..\r\n", b".\r", b"\r\r\n",
    b"\n.\n", b"\r.\r", b"\r\n.x", b"\n.\r\n", b"\r\n.\r", b"\r\n.\n", b"QUIT\r\n", b"\x00", b"\xff", b" .", b". ", b"\r\n \r\n",
];

pub fn content() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => vec(select(TOK), 0..14).prop_map(|t| t.concat()),
        1 => vec(dict::word(select(TOK).prop_map(|t| t.to_vec()), |_| true), 0..10).prop_map(|t| t.concat()),
        1 => (dict::len(0usize..70, 0, 3000), vec(select(TOK), 0..3), vec(select(TOK), 0..4), select(&b"x.\r\n"[..])).prop_map(|(n, a, b, f)| [a.concat(), vec![f; n], b.concat()].concat()),
        3 => vec(prop_oneof![4 => select(&b"\r\n."[..]), 1 => any::<u8>()], 0..24),
        1 => vec(any::<u8>(), 0..60),
        1 => (vec(select(TOK), 1..6), 1usize..60).prop_map(|(t, n)| t.concat().repeat(n)),
    ]
    .boxed()
}

pub fn big_content() -> BoxedStrategy<Vec<u8>> {
    let filler = prop_oneof![
        Just(b"x".to_vec()),
        Just(b".".to_vec()),
        Just(b"\r\n".to_vec()),
        Just(b"\r\n..".to_vec()),
        Just(b"\r".to_vec()),
        Just(b"\n".to_vec()),
        Just(b"line of text\r\n".to_vec()),
        vec(select(TOK), 20..300).prop_map(|t| [b"x".to_vec(), t.concat()].concat()),
    ];
    let size = prop_oneof![
        3 => (select(&[31usize, 32, 64, 128, 256, 512, 998, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536][..]), 0usize..6).prop_map(|(a, b)| a + b - 3),
        1 => 0usize..3000,
        1 => dict::len(60_000usize..140_000, 0, 300_000),
    ];
    vec((size, filler, vec(select(TOK), 0..5)), 1..4)
        .prop_map(|parts| {
            let mut o = Vec::new();
            for (n, f, t) in parts {
                let r = f.repeat(n / f.len() + 1);
                o.extend_from_slice(&r[..n]);
                o.extend(t.concat());
            }
            o
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Stream1 {
    raw: B,
    n: u8,
    chunks: Chunks,
    stalls: Stalls,
    hang: bool,
}
fn big_chunks() -> BoxedStrategy<Chunks> {
    let sizes = prop_oneof![
        2 => Just(vec![]),
        3 => vec(prop_oneof![select(&[31u16, 32, 33, 64, 100, 512, 1000, 1024, 1460, 4096, 8192, 16384, 65535][..]), dict::len(100usize..5000, 20, 65535).prop_map(|n| n as u16)], 1..5),
        1 => Just(vec![7u16]),
    ];
    (sizes, 0u8..4, io::empties()).prop_map(|(sizes, repr, empties)| Chunks { sizes, repr, empties }).boxed()
}
/// Large contents in few chunks: the probe's work is quadratic in their number.
fn streams_coarse() -> BoxedStrategy<Stream1> {
    streams(true)
        .prop_map(|mut s| {
            let min = (s.raw.len() / 60) as u16;
            for n in &mut s.chunks.sizes {
                *n = (*n).max(min);
            }
            s
        })
        .boxed()
}
fn streams(big: bool) -> BoxedStrategy<Stream1> {
    let piece = if big { big_content() } else { content() };
    // raw bytes: either arbitrary, or properly encoded messages followed by arbitrary bytes
    let raw = prop_oneof![
        3 => piece.clone(),
        4 => (vec(piece.clone(), 1..if big { 3 } else { 5 }), content()).prop_map(|(ms, t)| {
            let mut o = Vec::new();
            for m in ms {
                o.extend(ref_encode(&m));
            }
            o.extend(t);
            o
        }),
        2 => (piece, content()).prop_map(|(m, t)| [&m[..], b"\r\n.\r\n", &t].concat()),
    ];
    (raw, 1u8..5, if big { big_chunks() } else { io::chunks().boxed() }, io::stalls(), prop_oneof![3 => Just(false), 1 => Just(true)])
        .prop_map(|(raw, n, chunks, stalls, hang)| Stream1 { raw: B(raw), n, chunks, stalls, hang })
        .boxed()
}

/// how many messages (at most n) are there, and do they all end?
fn count(raw: &[u8], n: usize) -> (usize, usize) {
    let mut pos = 0;
    let mut k = 0;
    while k < n {
        match ref_decode(&raw[pos..]).1 {
            Some(u) => {
                pos += u;
                k += 1
            }
            None => break,
        }
    }
    (k, pos)
}

fn interesting(raw: &[u8]) -> bool {
    raw.first() == Some(&b'.') || raw.windows(3).any(|w| w == b"\r\n.") || raw.windows(2).any(|w| w == b"\r\r" || w == b"\n.")
}

fn c01(c: &Stream1, ctx: &mut Ctx) -> R {
    let raw = &c.raw;
    let (k, pos) = count(raw, c.n as usize);
    let mut n = c.n as usize;
    if c.hang {
        // only complete messages, and nothing more will ever come
        if k == 0 {
            ctx.skip();
            return Ok(());
        }
        n = k;
    } else if k < n && pos == raw.len() && k > 0 {
        n = k;
    }
    if interesting(raw) {
        ctx.nontrivial();
    }
    ctx.label_if(k > 1, "several messages");
    ctx.label_if(pos < raw.len() && k > 0, "bytes after the terminator");
    ctx.label_if(c.hang, "nothing ever follows");
    let got = decode(io::to_chunks(raw, &c.chunks), &c.stalls, n, c.hang)?;
    check_decode(raw, &got, n.min(k + 1).min(n))
}

// ---------------------------------------------------------------- exhaustive small scope

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Small {
    raw: B,
    /// bit i: cut after byte i
    cuts: u32,
}
impl Small {
    fn chunks(&self) -> Vec<BytesMut> {
        let mut out = Vec::new();
        let mut start = 0;
        for i in 0..self.raw.len() {
            if self.cuts >> i & 1 == 1 || i + 1 == self.raw.len() {
                out.push(BytesMut::from(self.raw[start..=i].to_vec()));
                start = i + 1;
            }
        }
        out
    }
}
fn words(alpha: &[u8], max: usize, f: &mut dyn FnMut(&[u8]) -> bool) -> bool {
    fn rec(cur: &mut Vec<u8>, alpha: &[u8], left: usize, f: &mut dyn FnMut(&[u8]) -> bool) -> bool {
        if !f(cur) {
            return false;
        }
        if left == 0 {
            return true;
        }
        for c in alpha {
            cur.push(*c);
            if !rec(cur, alpha, left - 1, f) {
                return false;
            }
            cur.pop();
        }
        true
    }
    rec(&mut Vec::new(), alpha, max, f)
}
fn gen_small(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(Small) -> bool) {
    let (m0, m1, m2) = if tier == Tier::Quick { (7, 4, 5) } else { (9, 6, 7) };
    let mut n = 0usize;
    for (max, suf) in [(m0, &b""[..]), (m1, b"\r\n.\r\nz."), (m2, b".\r\nQ"), (m1, b"\r\n..\r\n.\r\n")] {
        let ok = words(b"\r\n.x", max, &mut |w| {
            n += 1;
            if n % shards != shard {
                return true;
            }
            let raw = [w, suf].concat();
            let bits = raw.len().saturating_sub(1);
            (0..1u32 << bits).all(|cuts| f(Small { raw: B(raw.clone()), cuts }))
        });
        if !ok {
            return;
        }
    }
}
fn c01_small(c: &Small, ctx: &mut Ctx) -> R {
    let (k, pos) = count(&c.raw, 9);
    let n = if pos < c.raw.len() || k == 0 { k + 1 } else { k };
    if interesting(&c.raw) {
        ctx.nontrivial();
    }
    let n1 = n.min(2);
    let got = decode(c.chunks(), &Stalls::default(), n1, false)?;
    check_decode(&c.raw, &got, n1)
}
fn c02_small(c: &Small, ctx: &mut Ctx) -> R {
    if c.cuts != 0 {
        ctx.nontrivial();
    }
    let a = decode(c.chunks(), &Stalls(vec![1, 0, 2]), 2, false)?;
    let b = decode(vec![BytesMut::from(c.raw.to_vec())], &Stalls::default(), 2, false)?;
    same(&c.raw, &a, &b)
}
fn same(raw: &[u8], a: &Decoded, b: &Decoded) -> R {
    if a == b {
        return Ok(());
    }
    let d = |d: &Decoded| {
        let m: Vec<String> = d.msgs.iter().map(|(c, ok)| format!("{} ({})", show(c), if *ok { "complete" } else { "cut off" })).collect();
        format!("messages [{}], left {}", m.join(", "), show(&d.left))
    };
    Err(format!("two deliveries of {} differ: {} / {}", show(raw), d(a), d(b)))
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Two {
    raw: B,
    n: u8,
    a: (Chunks, Stalls),
    b: (Chunks, Stalls),
}
fn two(big: bool) -> BoxedStrategy<Two> {
    let ch = move || if big { big_chunks() } else { io::chunks().boxed() };
    (streams(big), (ch(), io::stalls()), (ch(), io::stalls())).prop_map(|(s, a, b)| Two { raw: s.raw, n: s.n, a, b }).boxed()
}
fn c02(c: &Two, ctx: &mut Ctx) -> R {
    if c.a.0.sizes != c.b.0.sizes && interesting(&c.raw) {
        ctx.nontrivial();
    }
    ctx.label_if(!c.a.1 .0.is_empty() || !c.b.1 .0.is_empty(), "with stalls");
    let a = decode(io::to_chunks(&c.raw, &c.a.0), &c.a.1, c.n as usize, false)?;
    let b = decode(io::to_chunks(&c.raw, &c.b.0), &c.b.1, c.n as usize, false)?;
    same(&c.raw, &a, &b)
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Msg {
    content: B,
    pieces: Chunks,
}
fn msg(big: bool) -> BoxedStrategy<Msg> {
    (if big { big_content() } else { content() }, if big { big_chunks() } else { io::chunks().boxed() })
        .prop_map(|(c, pieces)| Msg { content: B(c), pieces })
        .boxed()
}

/// Returns (result of sending, what the sink saw).
fn encode(m: &Msg, stalls: &Stalls, fail_at: Option<usize>, once: bool) -> Result<(bool, Vec<u8>, usize, bool), String> {
    let mut out = Out::new(stalls, fail_at);
    out.once = once;
    let log = out.log.clone();
    let pieces: Vec<&[u8]> = io::cut(&m.content, &m.pieces.sizes);
    let r = exec::block(async {
        let mut s = DataSink::new(out);
        for (i, p) in pieces.iter().enumerate() {
            s.send(as_bytes(p, m.pieces.repr.wrapping_add(i as u8))).await?;
        }
        s.end().await.map(|_| ())
    })
    .map_err(|e| format!("encoder stuck: {e:?}"))?;
    let l = log.lock().unwrap();
    if r.is_ok() && l.flushed != l.len() {
        return Err("the end of the message was not flushed".into());
    }
    Ok((r.is_ok(), l.bytes(), l.ops, l.failed))
}

fn c03(c: &(Msg, Stalls), ctx: &mut Ctx) -> R {
    let want = ref_encode(&c.0.content);
    if interesting(&c.0.content) {
        ctx.nontrivial();
    }
    let (ok, got, ops, _) = encode(&c.0, &c.1, None, false)?;
    if !ok {
        return Err("sending fails although the output works".into());
    }
    if got != want {
        return Err(format!("message {} sent as {}, expected {}", show(&c.0.content), show(&got), show(&want)));
    }
    // the decoder ends exactly at the end of it
    let (_, used) = ref_decode(&got);
    if used != Some(got.len()) {
        return Err(format!("message {} sent as {}: terminator at {:?}", show(&c.0.content), show(&got), used));
    }
    // every failure point
    let step = (ops / 40).max(1);
    let points = (0..ops).step_by(step).chain([ops.saturating_sub(1)]);
    for (f, once) in points.flat_map(|f| [(f, false), (f, true)]) {
        let (ok, got, _, failed) = encode(&c.0, &c.1, Some(f), once)?;
        ctx.add("failure points", 1);
        if failed && ok {
            return Err(format!("message {}: operation {f} on the output failed, but the sender was told it went well", show(&c.0.content)));
        }
        if !failed {
            return Err(format!("message {}: operation {f} is not repeated in the same run", show(&c.0.content)));
        }
        if !want.starts_with(&got) {
            return Err(format!("message {}: failure at {f} leaves {} on the wire", show(&c.0.content), show(&got)));
        }
    }
    Ok(())
}
fn c03_small(c: &Small, ctx: &mut Ctx) -> R {
    if interesting(&c.raw) {
        ctx.nontrivial();
    }
    let out = Out::new(&Stalls::default(), None);
    let log = out.log.clone();
    exec::block(async {
        let mut s = DataSink::new(out);
        for p in c.chunks() {
            s.send(p.freeze()).await.unwrap();
        }
        s.end().await.map(|_| ()).unwrap();
    })
    .map_err(|e| format!("encoder stuck: {e:?}"))?;
    let got = log.lock().unwrap().bytes();
    let want = ref_encode(&c.raw);
    if got != want {
        return Err(format!("message {} sent as {}, expected {}", show(&c.raw), show(&got), show(&want)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Trip {
    msgs: Vec<Msg>,
    tail: B,
    out_stalls: Stalls,
    chunks: Chunks,
    stalls: Stalls,
}
fn trip(big: bool) -> BoxedStrategy<Trip> {
    (vec(msg(big), 1..if big { 3 } else { 5 }), content().prop_map(B), io::stalls(), if big { big_chunks() } else { io::chunks().boxed() }, io::stalls())
        .prop_map(|(msgs, tail, out_stalls, chunks, stalls)| Trip { msgs, tail, out_stalls, chunks, stalls })
        .boxed()
}
fn c04(c: &Trip, ctx: &mut Ctx) -> R {
    let mut wire = Vec::new();
    for m in &c.msgs {
        let (ok, got, _, _) = encode(m, &c.out_stalls, None, false)?;
        if !ok {
            return Err("sending fails although the output works".into());
        }
        wire.extend(got);
    }
    wire.extend_from_slice(&c.tail);
    if c.msgs.iter().any(|m| interesting(&m.content)) {
        ctx.nontrivial();
    }
    ctx.label_if(c.msgs.len() > 1, "several messages");
    let got = decode(io::to_chunks(&wire, &c.chunks), &c.stalls, c.msgs.len(), false)?;
    for (i, m) in c.msgs.iter().enumerate() {
        match got.msgs.get(i) {
            Some((g, true)) if *g == with_crlf(&m.content) => {}
            Some((g, ok)) => {
                return Err(format!("message {i} {} comes back as {} ({})", show(&m.content), show(g), if *ok { "complete" } else { "cut off" }))
            }
            None => return Err(format!("message {i} {} does not come back", show(&m.content))),
        }
    }
    if got.left != c.tail.0 {
        return Err(format!("{} follows the messages, {} is left", show(&c.tail), show(&got.left)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Cut {
    msg: B,
    before: u8,
    chunks: Chunks,
    stalls: Stalls,
}
fn c05(c: &Cut, ctx: &mut Ctx) -> R {
    let one = ref_encode(&c.msg);
    let mut wire = b"x\r\n.\r\n".repeat(c.before as usize);
    let base = wire.len();
    wire.extend(&one);
    let n = c.before as usize + 1;
    let total = wire.len();
    let step = ((total - base) / 60).max(1);
    let mut cuts: Vec<usize> = (base..total).step_by(step).collect();
    cuts.extend((base..total).rev().take(8));
    cuts.push(total);
    for cut in cuts {
        let part = &wire[..cut];
        let got = decode(io::to_chunks(part, &c.chunks), &c.stalls, n, false)?;
        ctx.add("cut points", 1);
        check_decode(part, &got, n)?;
        let done = got.msgs.last().map_or(false, |m| m.1) && got.msgs.len() == n;
        if done != (cut == total) {
            return Err(format!("{} cut after {} of {} bytes is reported {}", show(&wire), cut, total, if done { "complete" } else { "cut off" }));
        }
    }
    if one.len() > 3 {
        ctx.nontrivial();
    }
    Ok(())
}
/// confirming a message before all of it has been read never succeeds
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Early {
    raw: B,
    chunks: Chunks,
    take: u8,
}
fn c05_early(c: &Early, ctx: &mut Ctx) -> R {
    let (content, _) = ref_decode(&c.raw);
    let mut src = Prependable::new(Source::new(io::to_chunks(&c.raw, &c.chunks), &Stalls::default()));
    let mut ds = DataStream::new(&mut src);
    let mut got = Vec::new();
    let mut ended = false;
    exec::block(async {
        for _ in 0..c.take {
            match ds.next().await {
                Some(b) => got.extend_from_slice(&b),
                None => {
                    ended = true;
                    break;
                }
            }
        }
    })
    .map_err(|s| format!("{s:?}"))?;
    if ended || got == content {
        ctx.skip();
        return Ok(());
    }
    ctx.nontrivial();
    match catch(|| ds.complete()) {
        Ok(Ok(())) => Err(format!("only {} of {} was read, but complete() succeeded", show(&got), show(&content))),
        _ => Ok(()),
    }
}

/// A reader that asks again after the end: however often it does, a message cut off never becomes
/// a complete one, and a complete one stays what it was.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Again {
    raw: B,
    cut: u16,
    chunks: Chunks,
    stalls: Stalls,
    again: u8,
}
fn c05_again(c: &Again, ctx: &mut Ctx) -> R {
    let raw = &c.raw[..c.raw.len().min(c.cut as usize)];
    let (content, used) = ref_decode(raw);
    let mut src = Prependable::new(Source::new(io::to_chunks(raw, &c.chunks), &c.stalls).fuse());
    let mut ds = DataStream::new(&mut src);
    let mut got = Vec::new();
    let limit = raw.len() * 8 + 64;
    exec::block(async {
        let mut n = 0;
        while let Some(b) = ds.next().await {
            got.extend_from_slice(&b);
            n += 1;
            if n > limit {
                break;
            }
        }
    })
    .map_err(|s| format!("{s:?}"))?;
    // asking a stream again after its end may panic; what it must not do is change the verdict
    let more = catch(|| {
        let mut extra = Vec::new();
        let _ = exec::block(async {
            for _ in 0..c.again {
                if let Some(b) = ds.next().await {
                    extra.extend_from_slice(&b);
                }
            }
        });
        extra
    });
    ctx.label_if(more.is_err(), "panics when asked again");
    match used {
        None => {
            ctx.nontrivial();
            if let Ok(Ok(())) = catch(|| ds.complete()) {
                return Err(format!("{} has no terminator, but is reported complete when read on after its end", show(raw)));
            }
        }
        Some(u) => {
            if let Ok(extra) = more {
                if !extra.is_empty() {
                    return Err(format!("{}: {} read after the end of the message {}", show(raw), show(&extra), show(&content)));
                }
                if got != content || ds.complete().is_err() {
                    return Err(format!("{} decoded to {} or not reported complete", show(raw), show(&got)));
                }
                let left = exec::block(async {
                    let mut left = Vec::new();
                    while let Some(b) = src.next().await {
                        left.extend_from_slice(&b);
                    }
                    left
                })
                .map_err(|s| format!("{s:?}"))?;
                if left != raw[u..] {
                    return Err(format!("{}: {} left over, expected {}", show(raw), show(&left), show(&raw[u..])));
                }
            }
        }
    }
    Ok(())
}

fn c05_small(c: &Small, ctx: &mut Ctx) -> R {
    let (_, used) = ref_decode(&c.raw);
    if used.is_none() && interesting(&c.raw) {
        ctx.nontrivial();
    }
    let got = decode(c.chunks(), &Stalls(vec![0, 1]), 1, false)?;
    let ok = got.msgs[0].1;
    if ok != used.is_some() {
        return Err(format!("{} is reported {}", show(&c.raw), if ok { "complete" } else { "cut off" }));
    }
    check_decode(&c.raw, &got, 1)
}

// ---------------------------------------------------------------- C38

/// Source that compares what the reader has had with what it has been given, whenever it is asked for more.
struct Probe {
    items: std::collections::VecDeque<BytesMut>,
    given: Vec<u8>,
    had: std::sync::Arc<std::sync::atomic::AtomicUsize>,
    late: std::sync::Arc<std::sync::Mutex<Option<(usize, usize, usize)>>>,
}
impl futures::Stream for Probe {
    type Item = BytesMut;
    fn poll_next(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Option<BytesMut>> {
        let (c, used) = ref_decode(&self.given);
        let had = self.had.load(std::sync::atomic::Ordering::Relaxed);
        let want = if used.is_some() { c.len() } else { c.len().saturating_sub(crate::session::HELD) };
        if had < want {
            self.late.lock().unwrap().get_or_insert((self.given.len(), had, want));
        }
        let x = self.items.pop_front();
        if let Some(b) = &x {
            let b = b.to_vec();
            self.given.extend_from_slice(&b);
        }
        std::task::Poll::Ready(x)
    }
}
fn c38(c: &Stream1, ctx: &mut Ctx) -> R {
    let chunks = io::to_chunks(&c.raw, &c.chunks);
    if chunks.len() > 1 && ref_decode(&c.raw).0.len() > 10 {
        ctx.nontrivial();
    }
    let had = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let late = std::sync::Arc::default();
    let probe = Probe { items: chunks.into(), given: vec![], had: had.clone(), late: std::sync::Arc::clone(&late) };
    let mut src = Prependable::new(probe.fuse());
    let mut ds = DataStream::new(&mut src);
    let limit = c.raw.len() * 8 + 64;
    exec::block(async {
        let mut n = 0;
        while let Some(b) = ds.next().await {
            had.fetch_add(b.len(), std::sync::atomic::Ordering::Relaxed);
            n += 1;
            if n > limit {
                break;
            }
        }
    })
    .map_err(|s| format!("{s:?}"))?;
    let r = match *late.lock().unwrap() {
        Some((given, had, want)) => Err(format!(
            "the decoder asks for more after {given} bytes of {}, having passed on {had} bytes of content where {want} are certain",
            show(&c.raw)
        )),
        None => Ok(()),
    };
    r
}
/// What has been passed to the encoder is on its way before the next piece is asked for.
fn c38_sink(c: &(Msg, Stalls), ctx: &mut Ctx) -> R {
    let out = Out::new(&c.1, None);
    let log = out.log.clone();
    let pieces: Vec<&[u8]> = io::cut(&c.0.content, &c.0.pieces.sizes);
    if pieces.len() > 1 && c.0.content.len() > 10 {
        ctx.nontrivial();
    }
    exec::block(async {
        let mut s = DataSink::new(out);
        let mut n = 0;
        for p in pieces {
            n += p.len();
            s.send(bytes::Bytes::from(p)).await.map_err(|_| "sending fails although the output works".to_string())?;
            let sent = log.lock().unwrap().len();
            let want = ref_encode(&c.0.content[..n]).len();
            // the encoding of a message ends with up to five bytes that close it
            if sent + 5 + crate::session::HELD < want {
                return Err(format!("after {n} bytes of {} only {sent} bytes have been passed on", show(&c.0.content)));
            }
        }
        Ok(())
    })
    .map_err(|s| format!("{s:?}"))?
}

const RULE_RAW: &str = "raw bytes rich in CR, LF and dots (arbitrary, or encoded messages followed by other bytes), cut into chunks of random sizes and memory layouts, with stalls; non-trivial when a dot starts a line or CR/LF corner sequences occur";
const RULE_SMALL: &str = "all strings over {CR, LF, dot, x} up to a bound (with several endings) in all divisions into chunks; non-trivial when a dot starts a line or CR/LF corner sequences occur";

// ---------------------------------------------------------------- contents of many megabytes

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Huge {
    unit: B,
    len: u32,
    end: B,
    sizes: Vec<u16>,
    repr: u8,
}
impl Huge {
    fn content(&self) -> Vec<u8> {
        let mut v: Vec<u8> = Vec::with_capacity(self.len as usize + self.end.len());
        while v.len() < self.len as usize {
            let n = self.unit.len().min(self.len as usize - v.len());
            v.extend_from_slice(&self.unit[..n]);
        }
        v.extend_from_slice(&self.end);
        v
    }
    fn chunks(&self) -> Chunks {
        Chunks { sizes: self.sizes.clone(), repr: self.repr, empties: (0, 0) }
    }
}
const RULE_HUGE: &str = "contents of up to 70 MB (and of the large numbers that the code newly mentions) made of one repeated unit; all non-trivial";
fn gen_huge(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(Huge) -> bool) {
    let line: Vec<u8> = [&[b'='; 70][..], b"\r\n"].concat();
    let dots: Vec<u8> = [b".", &[b'='; 500][..], b"\r\n"].concat();
    let mut list: Vec<(&[u8], u32, &[u8])> = vec![
        (&line, 70_000_003, b".\r\n"),
        (b"\0\xff", 70_000_003, b"\r\n.end"),
        (&dots, 70_000_000, b""),
        (b".\r\n", 3_000_000, b""),
        (b"\r", 3_000_000, b"\n.\n."),
        (b"\n.", 3_000_000, b"\r"),
        (b".", 17_000_000, b""),
        (b"\r\n", 17_000_000, b"."),
    ];
    if tier == Tier::Thorough {
        list.push((&line, 600_000_000, b""));
    }
    let sizes = dict::new_large(400_000);
    for n in &sizes {
        list.push((&line, *n as u32, b".\r\n"));
    }
    let mut k = 0;
    for (unit, len, end) in list {
        for cut in [vec![65_535], vec![4096, 1000, 1460]] {
            k += 1;
            if k % shards == shard
                && !f(Huge { unit: B(unit.to_vec()), len, end: B(end.to_vec()), sizes: cut, repr: (k % 4) as u8 })
            {
                return;
            }
        }
    }
}
fn c01_huge(c: &Huge, ctx: &mut Ctx) -> R {
    ctx.nontrivial();
    let mut raw = ref_encode(&c.content());
    raw.extend_from_slice(b"QUIT\r\n");
    let got = decode(io::to_chunks(&raw, &c.chunks()), &Stalls::default(), 1, false)?;
    check_decode(&raw, &got, 1)
}
fn c02_huge(c: &Huge, ctx: &mut Ctx) -> R {
    ctx.nontrivial();
    let mut raw = ref_encode(&c.content());
    raw.extend_from_slice(b"QUIT\r\n");
    let a = decode(io::to_chunks(&raw, &c.chunks()), &Stalls::default(), 1, false)?;
    let whole = Chunks { sizes: vec![], repr: 0, empties: (0, 0) };
    let b = decode(io::to_chunks(&raw, &whole), &Stalls::default(), 1, false)?;
    same(&raw, &a, &b)
}
fn c03_huge(c: &Huge, ctx: &mut Ctx) -> R {
    ctx.nontrivial();
    let m = Msg { content: B(c.content()), pieces: c.chunks() };
    let (ok, got, _, _) = encode(&m, &Stalls::default(), None, false)?;
    if !ok {
        return Err("sending fails although the output works".into());
    }
    if got != ref_encode(&m.content) {
        return Err(format!("{} is sent as {}", show(&m.content), show(&got)));
    }
    Ok(())
}
fn c04_huge(c: &Huge, ctx: &mut Ctx) -> R {
    let m = Msg { content: B(c.content()), pieces: c.chunks() };
    ctx.nontrivial();
    let again = Chunks { sizes: vec![30_000, 1], repr: c.repr.wrapping_add(1), empties: (0, 0) };
    c04(&Trip { msgs: vec![m], tail: B(b"QUIT\r\n".to_vec()), out_stalls: Stalls::default(), chunks: again, stalls: Stalls::default() }, ctx)
}
fn c05_huge(c: &Huge, ctx: &mut Ctx) -> R {
    ctx.nontrivial();
    let mut raw = ref_encode(&c.content());
    for back in [0, 1, 2, 3, 5] {
        raw.truncate(raw.len() - back.min(1) - (back / 5));
        let got = decode(io::to_chunks(&raw, &c.chunks()), &Stalls::default(), 1, false)?;
        check_decode(&raw, &got, 1)?;
    }
    Ok(())
}

pub fn subs(id: &str) -> Vec<Box<dyn Sub>> {
    match id {
        "C01" => vec![
            Box::new(Exh { name: "beyond 4 GiB", rule: "messages of 4.3 GB in pieces of 1 MB and of 4 kB, made and checked on the way; every one is non-trivial", gen: crate::vast::cases, check: crate::vast::decoded }),
            Box::new(Exh { name: "huge", rule: RULE_HUGE, gen: gen_huge, check: c01_huge }),
            Box::new(Exh { name: "small", rule: RULE_SMALL, gen: gen_small, check: c01_small }),
            Box::new(Prop { name: "streams", rule: RULE_RAW, strat: || streams(false), check: c01, quick: 400_000, thorough: 10_000_000 }),
            Box::new(Prop { name: "large", rule: RULE_RAW, strat: || streams(true), check: c01, quick: 3_000, thorough: 60_000 }),
        ],
        "C02" => vec![
            Box::new(Exh { name: "huge", rule: RULE_HUGE, gen: gen_huge, check: c02_huge }),
            Box::new(Exh { name: "small", rule: "all strings over {CR, LF, dot, x} up to a bound: every division against delivery in one piece; non-trivial when divided", gen: gen_small, check: c02_small }),
            Box::new(Prop { name: "two schedules", rule: "the same raw bytes delivered in two ways; non-trivial when the divisions differ and dots or CR/LF corner sequences occur", strat: || two(false), check: c02, quick: 300_000, thorough: 8_000_000 }),
            Box::new(Prop { name: "large", rule: "as above with up to 400 kB", strat: || two(true), check: c02, quick: 2_000, thorough: 40_000 }),
        ],
        "C03" => vec![
            Box::new(Exh { name: "beyond 4 GiB", rule: "messages of 4.3 GB in pieces of 1 MB and of 4 kB, made and checked on the way; every one is non-trivial", gen: crate::vast::cases, check: crate::vast::encoded }),
            Box::new(Exh { name: "huge", rule: RULE_HUGE, gen: gen_huge, check: c03_huge }),
            Box::new(Exh { name: "small", rule: RULE_SMALL, gen: gen_small, check: c03_small }),
            Box::new(Prop { name: "messages", rule: "message in pieces over an output with back-pressure, once without failure and once for every failing operation; non-trivial when a line starts with a dot or CR/LF corner sequences occur", strat: || (msg(false), io::stalls()).boxed(), check: c03, quick: 60_000, thorough: 2_000_000 }),
            Box::new(Prop { name: "large", rule: "as above with up to 400 kB", strat: || (msg(true), io::stalls()).boxed(), check: c03, quick: 400, thorough: 10_000 }),
        ],
        "C04" => vec![
            Box::new(Exh { name: "huge", rule: RULE_HUGE, gen: gen_huge, check: c04_huge }),
            Box::new(Prop { name: "round trip", rule: "1-4 messages, each encoded in its own pieces, then decoded in other chunks, followed by other bytes; non-trivial when a line starts with a dot or CR/LF corner sequences occur", strat: || trip(false), check: c04, quick: 250_000, thorough: 6_000_000 }),
            Box::new(Prop { name: "large", rule: "as above with up to 400 kB", strat: || trip(true), check: c04, quick: 1_500, thorough: 40_000 }),
        ],
        "C05" => vec![
            Box::new(Exh { name: "huge", rule: RULE_HUGE, gen: gen_huge, check: c05_huge }),
            Box::new(Exh { name: "small", rule: "all strings over {CR, LF, dot, x} up to a bound in all divisions; non-trivial when unterminated with a dot at a line start or CR/LF corner sequences", gen: gen_small, check: c05_small }),
            Box::new(Prop {
                name: "cuts",
                rule: "an encoded message (after up to two others) cut at every position, in random chunks with stalls; non-trivial when not empty",
                strat: || (content().prop_map(B), 0u8..3, io::chunks(), io::stalls()).prop_map(|(msg, before, chunks, stalls)| Cut { msg, before, chunks, stalls }).boxed(),
                check: c05,
                quick: 25_000,
                thorough: 600_000,
            }),
            Box::new(Prop {
                name: "large cuts",
                rule: "as above with up to 400 kB, 60 cut points",
                strat: || (big_content().prop_map(B), 0u8..2, big_chunks(), io::stalls()).prop_map(|(msg, before, chunks, stalls)| Cut { msg, before, chunks, stalls }).boxed(),
                check: c05,
                quick: 200,
                thorough: 4_000,
            }),
            Box::new(Prop {
                name: "confirmed early",
                rule: "complete() called after reading only some items; non-trivial when content is still missing",
                strat: || (streams(false), 0u8..6).prop_map(|(s, take)| Early { raw: s.raw, chunks: s.chunks, take }).boxed(),
                check: c05_early,
                quick: 100_000,
                thorough: 2_000_000,
            }),
            Box::new(Prop {
                name: "asked again",
                rule: "the decoder polled on after it reported the end, over a fused source, then asked whether the message is complete; non-trivial when it is not",
                strat: || {
                    (streams(false), prop_oneof![2 => Just(u16::MAX), 3 => 0u16..40], 1u8..5, io::stalls())
                        .prop_map(|(s, cut, again, stalls)| Again { raw: s.raw, cut, chunks: s.chunks, stalls, again })
                        .boxed()
                },
                check: c05_again,
                quick: 200_000,
                thorough: 4_000_000,
            }),
        ],
        "C38" => vec![
            Box::new(Prop { name: "decoder", rule: "the decoder's requests for input compared with what it has passed on; non-trivial: more than ten bytes of content in several chunks", strat: || streams(false), check: c38, quick: 200_000, thorough: 5_000_000 }),
            Box::new(Prop { name: "decoder, large", rule: "the same with up to 400 kB", strat: || streams_coarse(), check: c38, quick: 1_000, thorough: 30_000 }),
            Box::new(Prop { name: "encoder", rule: "the bytes passed on after each piece; non-trivial: more than ten bytes in several pieces", strat: || (msg(false), io::stalls()).boxed(), check: c38_sink, quick: 200_000, thorough: 5_000_000 }),
        ],
        _ => vec![],
    }
}
