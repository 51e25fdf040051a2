//! C36: whole relays: a client made of the library's own pieces, the library's server, and again.
use crate::cmds::build_email;
use crate::data::{big_content, content, with_crlf};
use crate::engine::*;
use crate::exec::{block, Stuck};
use crate::gen;
use crate::grammar::{self, Mbox, V};
use crate::io::{self, Chunks, Staller, Stalls};
use crate::obs::mbox_of;
use bytes::{Bytes, BytesMut};
use futures::{Future, Sink, SinkExt, Stream, StreamExt};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use smtp_message::{Command, DataCommand, DataSink, DataStream, EhloCommand, Email, HeloCommand, MailCommand, RcptCommand, ReplyCode, ReplyLine, Sendable, SmtpString};
use smtp_server::{interact, Config, ConnectionMetadata, Decision, MailMetadata, Refusal};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

type R = Result<(), String>;

// ------------------------------------------------------------------ a connection

#[derive(Default)]
struct Shared {
    /// written, not yet flushed
    staged: VecDeque<Bytes>,
    queue: VecDeque<Bytes>,
    closed: bool,
    gone: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
}
struct Tx {
    s: Arc<Mutex<Shared>>,
    cap: usize,
    st: Staller,
}
struct Rx {
    s: Arc<Mutex<Shared>>,
    buf: VecDeque<u8>,
    sizes: Vec<u16>,
    i: usize,
    st: Staller,
}
fn pipe(cap: usize, c: &Chunks, w: &Stalls, r: &Stalls) -> (Tx, Rx) {
    let s: Arc<Mutex<Shared>> = Arc::default();
    let sizes = c.sizes.iter().copied().filter(|s| *s > 0).collect();
    (Tx { s: s.clone(), cap, st: Staller::new(w) }, Rx { s, buf: VecDeque::new(), sizes, i: 0, st: Staller::new(r) })
}
impl Drop for Tx {
    fn drop(&mut self) {
        let mut s = self.s.lock().unwrap_or_else(|e| e.into_inner());
        s.closed = true;
        if let Some(w) = s.reader.take() {
            w.wake();
        }
    }
}
impl Drop for Rx {
    fn drop(&mut self) {
        let mut s = self.s.lock().unwrap_or_else(|e| e.into_inner());
        s.gone = true;
        if let Some(w) = s.writer.take() {
            w.wake();
        }
    }
}
impl Tx {
    fn room(&mut self, cx: &mut Context<'_>, max: usize) -> Poll<Result<(), ()>> {
        if self.st.stall(cx) {
            return Poll::Pending;
        }
        let mut s = self.s.lock().unwrap();
        if s.gone {
            return Poll::Ready(Err(()));
        }
        if s.queue.len() > max {
            s.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
}
impl Sink<Bytes> for Tx {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        self.room(cx, usize::MAX)
    }
    fn start_send(self: Pin<&mut Self>, item: Bytes) -> Result<(), ()> {
        let mut s = self.s.lock().unwrap();
        if s.gone {
            return Err(());
        }
        s.staged.push_back(item);
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        {
            let mut s = self.s.lock().unwrap();
            let staged = std::mem::take(&mut s.staged);
            s.queue.extend(staged);
            if let Some(w) = s.reader.take() {
                w.wake();
            }
        }
        let max = self.cap;
        self.room(cx, max)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        self.poll_flush(cx)
    }
}
impl Stream for Rx {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        let me = &mut *self;
        if me.st.stall(cx) {
            return Poll::Pending;
        }
        let mut s = me.s.lock().unwrap();
        while let Some(b) = s.queue.pop_front() {
            me.buf.extend(b.iter());
        }
        if let Some(w) = s.writer.take() {
            w.wake();
        }
        if me.buf.is_empty() {
            if s.closed {
                return Poll::Ready(None);
            }
            s.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = if me.sizes.is_empty() { me.buf.len() } else { (me.sizes[me.i % me.sizes.len()] as usize).min(me.buf.len()) };
        me.i += 1;
        Poll::Ready(Some(BytesMut::from(me.buf.drain(..n).collect::<Vec<u8>>())))
    }
}

// ------------------------------------------------------------------ cases

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Letter {
    pub from: Option<B>,
    pub to: Vec<B>,
    pub pieces: Vec<B>,
    params: Vec<(B, Option<B>)>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Relay {
    letters: Vec<Letter>,
    hops: u8,
    /// send the envelope in one go, reading the replies afterwards
    pipelined: bool,
    hello: bool,
    /// decisions on recipients at the first hop, cyclic: refused or not
    refuse: Vec<bool>,
    refusal: (u16, B),
    texts: Vec<(u16, B)>,
    up: Chunks,
    down: Chunks,
    stalls: Stalls,
    cap: u8,
    repr: u8,
}

/// A mail as the application of a hop got it.
pub struct Held {
    pub from: Option<Email>,
    pub to: Vec<Email>,
    pub pieces: Vec<Bytes>,
    pub params: Vec<(B, Option<B>)>,
}

// ------------------------------------------------------------------ the server's application

struct Hop {
    texts: Vec<(u16, B)>,
    refuse: Vec<bool>,
    refusal: (u16, B),
    n: usize,
    got: Arc<Mutex<Vec<Held>>>,
}
const GREETING: usize = 0;
const OK_MAIL: usize = 1;
const OK_RCPT: usize = 2;
const GO_AHEAD: usize = 3;
const TAKEN: usize = 4;
const NO_RCPT: usize = 5;
const UNKNOWN: usize = 6;
const TEXTS: usize = 7;
impl Hop {
    fn text(&self, i: usize) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(self.texts[i].0), SmtpString::from(&self.texts[i].1[..]))
    }
    async fn take<S: Unpin + Stream<Item = BytesMut>>(&mut self, stream: &mut DataStream<'_, S>, meta: MailMetadata) -> Decision {
        let mut pieces = vec![];
        while let Some(p) = stream.next().await {
            pieces.push(p.freeze());
        }
        match stream.complete() {
            Ok(()) => {
                self.got.lock().unwrap().push(Held { from: meta.from, to: meta.to, pieces, params: vec![] });
                Decision::Accept
            }
            Err(()) => Decision::Reject(Refusal { code: ReplyCode::custom(451), msg: SmtpString::from_static(b"cut") }),
        }
    }
}
type Fut<'a, T> = Pin<Box<dyn 'a + Send + Future<Output = T>>>;
impl Config<()> for Hop {
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Fut<'a, Decision> {
        Box::pin(futures::future::ready(Decision::Accept))
    }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Fut<'a, Decision> {
        let no = !self.refuse.is_empty() && self.refuse[self.n % self.refuse.len()];
        self.n += 1;
        Box::pin(futures::future::ready(if no {
            Decision::Reject(Refusal { code: ReplyCode::custom(self.refusal.0), msg: SmtpString::from(&self.refusal.1[..]) })
        } else {
            Decision::Accept
        }))
    }
    fn handle_mail<'a, S>(&'a mut self, stream: &'a mut DataStream<S>, meta: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(self.take(stream, meta))
    }
    fn hostname(&self) -> SmtpString {
        SmtpString::from_static(b"hop")
    }
    fn welcome_banner(&self) -> (ReplyCode, SmtpString) {
        self.text(GREETING)
    }
    fn mail_okay(&self) -> (ReplyCode, SmtpString) {
        self.text(OK_MAIL)
    }
    fn rcpt_okay(&self) -> (ReplyCode, SmtpString) {
        self.text(OK_RCPT)
    }
    fn data_okay(&self) -> (ReplyCode, SmtpString) {
        self.text(GO_AHEAD)
    }
    fn mail_accepted(&self) -> (ReplyCode, SmtpString) {
        self.text(TAKEN)
    }
    fn data_before_rcpt(&self) -> (ReplyCode, SmtpString) {
        self.text(NO_RCPT)
    }
    fn command_unimplemented(&self) -> (ReplyCode, SmtpString) {
        self.text(UNKNOWN)
    }
}

// ------------------------------------------------------------------ the client

struct Replies {
    rx: Rx,
    buf: Vec<u8>,
}
impl Replies {
    /// One reply, every line of which the library must understand.
    async fn next(&mut self) -> Result<(u16, Vec<u8>), String> {
        let mut text = vec![];
        let mut code = None;
        loop {
            let end = loop {
                if let Some(p) = self.buf.windows(2).position(|w| w == b"\r\n") {
                    break p + 2;
                }
                match self.rx.next().await {
                    Some(b) => self.buf.extend_from_slice(&b),
                    None => return Err(format!("the server hangs up after {}", show(&self.buf))),
                }
            };
            let line: Vec<u8> = self.buf.drain(..end).collect();
            let r = ReplyLine::parse(Bytes::from(line.clone())).map_err(|e| format!("the client cannot read the reply line {}: {e}", show(&line)))?;
            let mut w = vec![];
            r.send_to(&mut w).map_err(|e| e.to_string())?;
            if w != line || line.len() < 6 {
                return Err(format!("the reply line {} is read as {}", show(&line), show(&w)));
            }
            let c = line[..3].iter().fold(0u16, |a, d| a * 10 + u16::from(d - b'0'));
            if *code.get_or_insert(c) != c {
                return Err(format!("the code changes within a reply: {}", show(&line)));
            }
            text.extend_from_slice(&line[4..line.len() - 2]);
            if line[3] == b' ' {
                return Ok((c, text));
            }
        }
    }
    async fn want(&mut self, (code, text): (u16, &B), what: &str) -> R {
        let (c, t) = self.next().await?;
        if c != code || t != text.0 {
            return Err(format!("the reply to {what} is {c} {}, the server is configured to say {code} {}", show(&t), show(text)));
        }
        Ok(())
    }
}

fn no_params(cmd: &'static [u8]) -> Result<Command, String> {
    Command::parse(Bytes::from_static(cmd)).map_err(|e| format!("{}: {e}", show(cmd)))
}
fn mail_cmd(from: Option<Email>, ps: &[(B, Option<B>)]) -> Result<Vec<u8>, String> {
    let Command::Mail(m) = no_params(b"MAIL FROM:<>\r\n")? else { return Err("MAIL FROM:<> is no MAIL".into()) };
    let mut p = m.params;
    for (k, v) in ps {
        p.0.insert(SmtpString::from(&k[..]), v.as_ref().map(|v| SmtpString::from(&v[..])));
    }
    bytes_of(&MailCommand::new(from, p))
}
fn rcpt_cmd(to: Email, ps: &[(B, Option<B>)]) -> Result<Vec<u8>, String> {
    let Command::Rcpt(m) = no_params(b"RCPT TO:<a@b>\r\n")? else { return Err("RCPT TO:<a@b> is no RCPT".into()) };
    let mut p = m.params;
    for (k, v) in ps {
        p.0.insert(SmtpString::from(&k[..]), v.as_ref().map(|v| SmtpString::from(&v[..])));
    }
    bytes_of(&RcptCommand::new(to, p))
}
fn bytes_of<T: Sendable>(t: &T) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    t.send_to(&mut v).map_err(|e| e.to_string())?;
    Ok(v)
}
fn domain_cmd(ehlo: bool) -> Result<Vec<u8>, String> {
    let d = Email::parse_slice(b"x@client.example.org").map_err(|e| e.to_string())?.hostname().clone().ok_or("no domain")?;
    let mut v = vec![];
    if ehlo {
        EhloCommand::new(d).send_to(&mut v).map_err(|e| e.to_string())?;
    } else {
        HeloCommand::new(d).send_to(&mut v).map_err(|e| e.to_string())?;
    }
    Ok(v)
}

/// Sends mails over one connection until one of them has no recipient left.
async fn client(mut tx: Tx, rx: Rx, c: &Relay, mails: &mut VecDeque<Held>, refused: &mut VecDeque<bool>) -> R {
    let t = |i: usize| (c.texts[i].0, &c.texts[i].1);
    let io = |_: ()| "the server does not take what the client sends".to_string();
    let mut rs = Replies { rx, buf: vec![] };
    rs.want(t(GREETING), "connecting").await?;
    if c.hello {
        let l = domain_cmd(c.repr % 2 == 0)?;
        tx.send(Bytes::from(l)).await.map_err(io)?;
        rs.want(t(UNKNOWN), "EHLO/HELO").await?;
    }
    while let Some(m) = mails.pop_front() {
        let ps = &m.params[..];
        let mut data = vec![];
        DataCommand::new().send_to(&mut data).map_err(|e| e.to_string())?;
        let mut any = false;
        let no: Vec<bool> = m.to.iter().map(|_| refused.pop_front().unwrap_or(false)).collect();
        let rcpt = |no: bool| if no { (c.refusal.0, &c.refusal.1) } else { t(OK_RCPT) };
        if c.pipelined {
            let mut all = mail_cmd(m.from, ps)?;
            for to in m.to {
                all.extend(rcpt_cmd(to, ps)?);
            }
            all.extend(data);
            tx.send(Bytes::from(all)).await.map_err(io)?;
            rs.want(t(OK_MAIL), "MAIL").await?;
            for n in &no {
                rs.want(rcpt(*n), "RCPT").await?;
                any |= !n;
            }
        } else {
            tx.send(Bytes::from(mail_cmd(m.from, ps)?)).await.map_err(io)?;
            rs.want(t(OK_MAIL), "MAIL").await?;
            for (to, n) in m.to.into_iter().zip(&no) {
                tx.send(Bytes::from(rcpt_cmd(to, ps)?)).await.map_err(io)?;
                rs.want(rcpt(*n), "RCPT").await?;
                any |= !n;
            }
            tx.send(Bytes::from(data)).await.map_err(io)?;
        }
        if !any {
            rs.want(t(NO_RCPT), "DATA without recipients").await?;
            break;
        }
        rs.want(t(GO_AHEAD), "DATA").await?;
        let mut sink = DataSink::new(tx);
        for p in &m.pieces {
            sink.send(p.clone()).await.map_err(io)?;
        }
        tx = sink.end().await.map_err(io)?;
        rs.want(t(TAKEN), "the message").await?;
    }
    drop(tx);
    while let Some(b) = rs.rx.next().await {
        rs.buf.extend_from_slice(&b);
    }
    if !rs.buf.is_empty() {
        return Err(format!("the server says {} unasked", show(&rs.buf)));
    }
    Ok(())
}

/// Carries one mail over one hop; gives what arrives.
pub fn carry(c: &Relay, m: Held) -> Result<(Option<Mbox>, Vec<Mbox>, Vec<u8>), String> {
    let mut got = hop(c, vec![m], &[])?;
    if got.len() != 1 {
        return Err(format!("{} mails arrive where one was sent", got.len()));
    }
    let m = got.remove(0);
    Ok((
        m.from.as_ref().map(mbox_of).transpose()?,
        m.to.iter().map(mbox_of).collect::<Result<_, _>>()?,
        m.pieces.iter().flat_map(|p| p.to_vec()).collect(),
    ))
}

/// Carries mails over one hop.
pub fn hop(c: &Relay, mails: Vec<Held>, refuse: &[bool]) -> Result<Vec<Held>, String> {
    let got: Arc<Mutex<Vec<Held>>> = Arc::default();
    let total: usize = mails.iter().map(|m| m.to.len()).sum();
    let mut refused: VecDeque<bool> = (0..total).map(|i| !refuse.is_empty() && refuse[i % refuse.len()]).collect();
    let mut mails: VecDeque<Held> = mails.into();
    let mut n = 0;
    while !mails.is_empty() {
        let cap = c.cap as usize + if c.pipelined { 1000 } else { 0 };
        let (ctx_, srx) = pipe(cap, &c.up, &c.stalls, &c.stalls);
        let (stx, crx) = pipe(cap, &c.down, &c.stalls, &c.stalls);
        let mut cfg = Hop { texts: c.texts.clone(), refuse: refuse.to_vec(), refusal: c.refusal.clone(), n, got: got.clone() };
        let left = refused.len();
        let r = {
            let cfg = &mut cfg;
            let server = async move {
                let mut stx = Box::pin(stx);
                interact(srx, stx.as_mut(), (), cfg).await
            };
            let client = client(ctx_, crx, c, &mut mails, &mut refused);
            block(futures::future::join(server, client))
        };
        match r {
            Err(Stuck::LostWakeup) => return Err("client and server wait for each other".into()),
            Err(Stuck::Livelock) => return Err("client and server go on forever".into()),
            Ok((s, c)) => {
                c?;
                s.map_err(|()| "the session fails".to_string())?;
            }
        }
        n += left - refused.len();
    }
    let g = std::mem::take(&mut *got.lock().unwrap());
    Ok(g)
}

fn mb(b: &[u8]) -> Mbox {
    match grammar::mailbox(b) {
        V::Must(m) | V::May(m) => m,
        _ => panic!("harness: mailbox {} is not valid", show(b)),
    }
}

fn c36(c: &Relay, ctx: &mut Ctx) -> R {
    let mut mails = vec![];
    let mut want: Vec<(Option<Mbox>, Vec<Mbox>, Vec<u8>)> = vec![];
    let mut k = 0;
    for l in &c.letters {
        let email = |b: &B| build_email(b, c.repr);
        mails.push(Held {
            from: l.from.as_ref().map(email).transpose()?,
            to: l.to.iter().map(email).collect::<Result<_, _>>()?,
            pieces: l.pieces.iter().map(|p| Bytes::from(&p[..])).collect(),
            params: l.params.clone(),
        });
        let mut to = vec![];
        for t in &l.to {
            if c.refuse.is_empty() || !c.refuse[k % c.refuse.len()] {
                to.push(mb(t));
            }
            k += 1;
        }
        if !to.is_empty() {
            want.push((l.from.as_ref().map(|f| mb(f)), to, with_crlf(&l.pieces.iter().flat_map(|p| p.0.clone()).collect::<Vec<_>>())));
        }
    }
    ctx.label_if(want.len() > 1, "several mails");
    ctx.label_if(want.iter().any(|w| w.1.len() > 1), "several recipients");
    if !want.is_empty() {
        ctx.nontrivial();
    }
    for h in 0..c.hops {
        mails = hop(c, mails, if h == 0 { &c.refuse } else { &[] }).map_err(|e| format!("hop {}: {e}", h + 1))?;
        ctx.add("hops", 1);
        if mails.len() != want.len() {
            return Err(format!("hop {}: {} mails arrive where {} were accepted", h + 1, mails.len(), want.len()));
        }
        for (i, (m, w)) in mails.iter().zip(&want).enumerate() {
            let from = m.from.as_ref().map(mbox_of).transpose()?;
            let to: Vec<Mbox> = m.to.iter().map(mbox_of).collect::<Result<_, _>>()?;
            let body: Vec<u8> = m.pieces.iter().flat_map(|p| p.to_vec()).collect();
            if from != w.0 || to != w.1 {
                return Err(format!("hop {}: mail {i} arrives from {:?} for {:?}, it was sent from {:?} for {:?}", h + 1, from, to, w.0, w.1));
            }
            if body != w.2 {
                return Err(format!("hop {}: mail {i} arrives as {}, it was {}", h + 1, show(&body), show(&w.2)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ generators

fn mbox() -> BoxedStrategy<B> {
    prop_oneof![
        1 => select(crate::lits![b"a@b", b"foo@bar.example.org", b"postmaster", b"\"quoted \\\" @ local\"@ex.org", b"A@b", b"x@[IPv6:2001:db8:0:0:0:0:0:1]", b"x@[127.0.0.1]"].to_vec()).prop_map(|b| B(b.to_vec())),
        2 => gen::mbox(),
    ]
    .prop_map(|b| if matches!(grammar::mailbox(&b), V::Must(_)) { b } else { B(b"a@b".to_vec()) })
    .boxed()
}
fn text() -> BoxedStrategy<B> {
    let line = |n: std::ops::Range<usize>| vec(prop_oneof![8 => 32u8..127, 1 => Just(9u8), 1 => Just(b' '), 1 => Just(b'-')], n).prop_map(B);
    prop_oneof![1 => Just(B(vec![])), 6 => line(1..30), 1 => select(vec![505usize, 506, 507, 1012, 1013]).prop_flat_map(move |n| vec(32u8..127, n..n + 1).prop_map(B)), 1 => line(100..1600)].boxed()
}
fn letter() -> BoxedStrategy<Letter> {
    let params = prop_oneof![
        3 => Just(vec![]),
        1 => gen::params(3).prop_map(|ps| ps.into_iter().map(|p| (p.key, p.val)).collect::<Vec<_>>()),
    ];
    let pieces = prop_oneof![
        1 => Just(vec![]),
        8 => (content(), io::chunks()).prop_map(|(c, k)| io::cut(&c, &k.sizes).into_iter().map(|p| B(p.to_vec())).collect::<Vec<_>>()),
    ];
    (proptest::option::weighted(0.85, mbox()), vec(mbox(), 1..5), pieces, params).prop_map(|(from, to, pieces, params)| Letter { from, to, pieces, params }).boxed()
}
/// Contents of up to 400 kB in large pieces over one or two hops.
fn large() -> BoxedStrategy<Relay> {
    let sizes = vec(prop_oneof![1 => 1u16..50, 1 => select(vec![512u16, 1024, 4096, 8192, 16384, 32768, 65535]), 1 => 1u16..65535], 0..4);
    let letter = (letter(), big_content(), sizes.clone()).prop_map(|(mut l, c, k)| {
        let k = if k.iter().all(|k| *k < 50) { vec![] } else { k };
        l.pieces = io::cut(&c, &k).into_iter().map(|p| B(p.to_vec())).collect();
        l
    });
    let wide = |v: Vec<u16>| Chunks { sizes: if v.iter().any(|k| *k > 500) { v } else { vec![] }, ..Chunks::default() };
    (relay(), vec(letter, 1..3), sizes, 1u8..3)
        .prop_map(move |(r, letters, up, hops)| Relay { letters, hops, up: wide(up), stalls: Stalls(vec![]), ..r })
        .boxed()
}
pub fn relay() -> BoxedStrategy<Relay> {
    let codes = [220u16, 250, 250, 354, 250, 503, 502];
    let texts = vec(text(), TEXTS..=TEXTS).prop_map(move |v| codes.iter().copied().zip(v).collect::<Vec<_>>());
    (
        (vec(letter(), 1..5), 1u8..4, any::<bool>(), any::<bool>()),
        (prop_oneof![2 => Just(vec![]), 1 => vec(proptest::bool::weighted(0.4), 1..6)], (400u16..600, text())),
        (texts, io::chunks(), io::chunks(), io::stalls(), 0u8..4, 0u8..15),
    )
        .prop_map(|((letters, hops, pipelined, hello), (refuse, refusal), (texts, up, down, stalls, cap, repr))| Relay {
            letters,
            hops,
            pipelined,
            hello,
            refuse,
            refusal,
            texts,
            up,
            down,
            stalls,
            cap,
            repr,
        })
        .boxed()
}

pub fn subs(id: &str) -> Vec<Box<dyn Sub>> {
    match id {
        "C36" => vec![Box::new(Prop {
            name: "relays",
            rule: "1-4 mails with several recipients and refusals over 1-3 hops, pipelined or lock-step, random chunking, back-pressure and reply texts; non-trivial: at least one mail has an accepted recipient",
            strat: relay,
            check: c36,
            quick: 60_000,
            thorough: 2_000_000,
        }),
        Box::new(Prop {
            name: "large letters",
            rule: "1-2 mails with contents of up to 400 kB over 1-2 hops; non-trivial: at least one mail has an accepted recipient",
            strat: large,
            check: c36,
            quick: 1_200,
            thorough: 50_000,
        })],
        _ => vec![],
    }
}
