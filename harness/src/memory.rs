//! C38: how much memory streaming takes.
use crate::alloc::growth;
use crate::data::{content, ref_encode};
use crate::engine::*;
use crate::exec;
use crate::io::{Staller, Stalls};
use bytes::{Bytes, BytesMut};
use futures::{Future, Sink, Stream, StreamExt};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use smtp_message::{DataSink, DataStream, Email, Prependable, ReplyCode, SmtpString};
use smtp_server::{interact, Config, ConnectionMetadata, Decision, MailMetadata, Refusal};
use std::pin::Pin;
use std::task::{Context, Poll};

type R = Result<(), String>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Flow {
    /// repeated up to `kb` kilobytes
    unit: B,
    kb: u32,
    sizes: Vec<u16>,
    /// pieces of blocks of that many bytes; 0: each piece has its own memory
    block: u32,
    stalls: Stalls,
}
impl Flow {
    fn text(&self) -> Vec<u8> {
        let n = self.kb as usize * 1024;
        let mut v = Vec::with_capacity(n + self.unit.len());
        while v.len() < n && !self.unit.is_empty() {
            v.extend_from_slice(&self.unit);
        }
        v
    }
    /// The pieces, each made when it is asked for.
    fn pieces(&self, raw: Vec<u8>) -> Pieces {
        let sizes = self.sizes.iter().map(|n| *n as usize).filter(|n| *n > 0).collect();
        Pieces { raw, pos: 0, sizes, i: 0, size: self.block as usize, block: BytesMut::new(), st: Staller::new(&self.stalls) }
    }
}
struct Pieces {
    raw: Vec<u8>,
    pos: usize,
    sizes: Vec<usize>,
    i: usize,
    size: usize,
    block: BytesMut,
    st: Staller,
}
impl Pieces {
    fn next_piece(&mut self) -> Option<BytesMut> {
        let n = if self.sizes.is_empty() { 1460 } else { self.sizes[self.i % self.sizes.len()] };
        self.i += 1;
        let n = n.min(self.raw.len() - self.pos);
        if n == 0 {
            return None;
        }
        let piece = if self.size == 0 {
            BytesMut::from(self.raw[self.pos..self.pos + n].to_vec())
        } else {
            if self.block.is_empty() {
                let end = (self.pos + self.size).min(self.raw.len());
                self.block = BytesMut::from(self.raw[self.pos..end].to_vec());
            }
            let n = n.min(self.block.len());
            self.block.split_to(n)
        };
        self.pos += piece.len();
        Some(piece)
    }
}
impl Stream for Pieces {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        if self.st.stall(cx) {
            return Poll::Pending;
        }
        Poll::Ready(self.next_piece())
    }
}

/// Output that forgets what it is given.
struct Drain {
    n: usize,
    st: Staller,
}
impl Sink<Bytes> for Drain {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        if self.st.stall(cx) {
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, item: Bytes) -> Result<(), ()> {
        self.n += item.len();
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        self.poll_ready(cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        self.poll_ready(cx)
    }
}

struct Reader {
    content: usize,
    mails: usize,
}
impl Reader {
    async fn read<S>(&mut self, stream: &mut DataStream<'_, S>) -> Decision
    where
        S: Unpin + Stream<Item = BytesMut>,
    {
        while let Some(b) = stream.next().await {
            self.content += b.len();
        }
        self.mails += 1;
        match stream.complete() {
            Ok(()) => Decision::Accept,
            Err(()) => Decision::Reject(Refusal { code: ReplyCode::custom(451), msg: SmtpString::from_static(b"cut") }),
        }
    }
}
type Fut<'a, T> = Pin<Box<dyn 'a + Send + Future<Output = T>>>;
impl Config<()> for Reader {
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Fut<'a, Decision> {
        Box::pin(futures::future::ready(Decision::Accept))
    }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Fut<'a, Decision> {
        Box::pin(futures::future::ready(Decision::Accept))
    }
    fn handle_mail<'a, S>(&'a mut self, stream: &'a mut DataStream<S>, _: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(self.read(stream))
    }
    fn hostname(&self) -> SmtpString {
        SmtpString::from_static(b"mx")
    }
}

/// How much may be held besides the pieces on their way.
const SLACK: usize = 3 << 20;
fn limit(c: &Flow) -> usize {
    SLACK + 8 * (c.block as usize).max(65_536)
}
fn judge(c: &Flow, what: &str, len: usize, held: usize, ctx: &mut Ctx) -> R {
    if len > 2 * limit(c) {
        ctx.nontrivial();
    }
    if held > limit(c) {
        return Err(format!("{what} of {len} bytes in pieces of at most 64 kB takes {held} bytes of memory"));
    }
    Ok(())
}

fn decoder(c: &Flow, ctx: &mut Ctx) -> R {
    let raw = ref_encode(&c.text());
    let len = raw.len();
    let mut src = Prependable::new(c.pieces(raw).fuse());
    let (got, held) = growth(|| {
        let mut ds = DataStream::new(&mut src);
        exec::block_long(async {
            while let Some(b) = ds.next().await {
                drop(b);
            }
            ds.complete()
        })
    });
    if got != Ok(Ok(())) {
        return Err(format!("reading ends with {got:?}"));
    }
    judge(c, "decoding a message", len, held, ctx)
}

fn encoder(c: &Flow, ctx: &mut Ctx) -> R {
    let text = c.text();
    let len = text.len();
    let want = ref_encode(&text).len();
    let mut src = c.pieces(text);
    let mut out = Drain { n: 0, st: Staller::new(&c.stalls) };
    let (got, held) = growth(|| {
        exec::block_long(async {
            let mut s = DataSink::new(&mut out);
            while let Some(p) = src.next_piece() {
                s.send(p.freeze()).await?;
            }
            s.end().await.map(|_| ())
        })
    });
    if got != Ok(Ok(())) {
        return Err(format!("sending ends with {got:?}"));
    }
    if out.n != want {
        return Err(format!("{} bytes are sent for {want}", out.n));
    }
    judge(c, "encoding a message", len, held, ctx)
}

fn serve(c: &Flow, raw: Vec<u8>) -> Result<(Reader, usize), String> {
    let src = c.pieces(raw);
    let mut out = Box::pin(Drain { n: 0, st: Staller::new(&c.stalls) });
    let mut app = Reader { content: 0, mails: 0 };
    let (got, held) = growth(|| exec::block_long(interact(src, out.as_mut(), (), &mut app)));
    match got {
        Ok(Ok(())) => Ok((app, held)),
        x => Err(format!("the session ends with {x:?}")),
    }
}
fn session(c: &Flow, ctx: &mut Ctx) -> R {
    let mut raw = b"HELO a\r\nMAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n".to_vec();
    raw.extend(ref_encode(&c.text()));
    raw.extend_from_slice(b"QUIT\r\n");
    let len = raw.len();
    let (app, held) = serve(c, raw)?;
    if app.mails != 1 {
        return Err(format!("{} messages of 1 are received", app.mails));
    }
    judge(c, "receiving a message", len, held, ctx)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Endless {
    flow: Flow,
    mail: Option<B>,
}
const COMMANDS: &[&[u8]] = &[
    b"HELO some.host.example\r\n",
    b"EHLO some.host.example\r\n",
    b"MAIL FROM:<someone@some.host.example>\r\n",
    b"RCPT TO:<someone@some.host.example>\r\n",
    b"RCPT TO:<some one@\r\n",
    b"NOOP some text\r\n",
    b"RSET\r\n",
    b"VRFY someone\r\n",
    b"EXPN somewhere\r\n",
    b"HELP\r\n",
    b"STARTTLS please\r\n",
    b"no such command at all\r\n",
    b"\r\n",
    b"MAIL FROM:<> BODY=8BITMIME SIZE=100\r\n",
];
/// A session that goes on and on: what has been dealt with is gone.
fn endless(c: &Endless, ctx: &mut Ctx) -> R {
    let mut unit = c.flow.unit.to_vec();
    let short = B(b"text".to_vec());
    // recipients are kept as long as their mail is open, which each round therefore ends
    let open = unit.windows(4).any(|w| w == b"MAIL");
    if let Some(m) = c.mail.as_ref().or(if open { Some(&short) } else { None }) {
        unit.extend_from_slice(b"MAIL FROM:<someone@some.host.example>\r\nRCPT TO:<a@b>\r\nDATA\r\n");
        unit.extend(ref_encode(m));
    }
    unit.extend_from_slice(b"RSET\r\n");
    let flow = Flow { unit: B(unit), ..c.flow.clone() };
    let mut raw = flow.text();
    raw.extend_from_slice(b"QUIT\r\n");
    let len = raw.len();
    let (app, held) = serve(&flow, raw)?;
    ctx.add("messages received", app.mails as u64);
    judge(&flow, "a session", len, held, ctx)
}

fn sizes() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![
        3 => vec(prop_oneof![1 => 200u16..2_000, 3 => 2_000u16..65_535], 1..5),
        1 => Just(vec![65_535u16]),
        1 => vec(prop_oneof![1 => 1u16..20, 3 => 20_000u16..65_535], 1..4),
        1 => Just(vec![1460u16]),
    ]
    .boxed()
}
fn block() -> BoxedStrategy<u32> {
    prop_oneof![3 => Just(0u32), 1 => Just(65_536u32), 1 => 1_000u32..200_000].boxed()
}
fn rare() -> BoxedStrategy<Stalls> {
    prop_oneof![3 => Just(Stalls(vec![])), 1 => Just(Stalls(vec![0, 0, 1]))].boxed()
}
fn flow() -> BoxedStrategy<Flow> {
    let unit = prop_oneof![
        3 => content(),
        2 => (content(), select(&b"x.\r\n\0"[..]), 1usize..4_000).prop_map(|(mut c, f, n)| { c.extend(std::iter::repeat(f).take(n)); c }),
        1 => Just(b"x".to_vec()),
        1 => Just(b".\r\n".to_vec()),
        2 => (1usize..1_100).prop_map(|n| [vec![b'a'; n], b"\r\n".to_vec()].concat()),
    ]
    .prop_map(|u| if u.is_empty() { b"a line\r\n".to_vec() } else { u });
    (unit, 10_000u32..24_000, sizes(), block(), rare())
        .prop_map(|(unit, kb, sizes, block, stalls)| Flow { unit: B(unit), kb, sizes, block, stalls })
        .boxed()
}
fn long_session() -> BoxedStrategy<Endless> {
    let unit = vec(select(COMMANDS), 0..9).prop_map(|c| c.concat());
    (unit, prop_oneof![1 => Just(None), 1 => content().prop_map(|c| Some(B(c)))], sizes(), prop_oneof![2 => Just(0u32), 1 => Just(65_536u32)], rare())
        .prop_map(|(unit, mail, sizes, block, stalls)| Endless { flow: Flow { unit: B(unit), kb: 8_000, sizes, block, stalls }, mail })
        .boxed()
}

pub fn subs(id: &str) -> Vec<Box<dyn Sub>> {
    match id {
        "C38" => vec![
            Box::new(Prop { name: "memory, decoder", rule: "messages of 10 to 24 MB, read and dropped: the growth of the memory held, against a fixed bound; non-trivial: the message is more than twice the bound", strat: flow, check: decoder, quick: 100, thorough: 6_000 }),
            Box::new(Prop { name: "memory, encoder", rule: "the same for the encoder", strat: flow, check: encoder, quick: 100, thorough: 6_000 }),
            Box::new(Prop { name: "memory, sessions", rule: "the same for whole sessions", strat: flow, check: session, quick: 100, thorough: 6_000 }),
            Box::new(Prop { name: "memory, endless sessions", rule: "sessions of 8 MB of commands and small messages; non-trivial as before", strat: long_session, check: endless, quick: 30, thorough: 3_000 }),
        ],
        _ => vec![],
    }
}
