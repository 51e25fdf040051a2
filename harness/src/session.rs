//! C18-C27: whole SMTP sessions against a reference session model.
use crate::cmds;
use crate::data::{ref_decode, ref_encode};
use crate::dict;
use crate::engine::*;
use crate::exec::{block, Stuck};
use crate::gen::{self, CmdSpec};
use crate::grammar::{self, Cmd, Mbox, V};
use crate::io::{self, Chunks, Out, SinkLog, Staller, Stalls};
use crate::obs::{cmd_of, mbox_of, parse_cmd};
use bytes::BytesMut;
use futures::{Future, Stream, StreamExt};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use smtp_message::{DataStream, Email, ReplyCode, SmtpString};
use smtp_server::{interact, Config, ConnectionMetadata, Decision, MailMetadata, Refusal};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

type R = Result<(), String>;

// ------------------------------------------------------------------ cases

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Step {
    Cmd(CmdSpec),
    /// verbatim bytes
    Raw(B),
    /// message content, dot-stuffed and terminated
    Body(B),
    Tx { from: B, tos: Vec<B>, body: B },
    Rep(u16, Vec<Step>),
}

impl Step {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            Step::Cmd(c) => o.extend(c.render()),
            Step::Raw(b) => o.extend_from_slice(b),
            Step::Body(b) => o.extend(ref_encode(b)),
            Step::Tx { from, tos, body } => {
                o.extend_from_slice(b"MAIL FROM:<");
                o.extend_from_slice(from);
                o.extend_from_slice(b">\r\n");
                for t in tos {
                    o.extend_from_slice(b"RCPT TO:<");
                    o.extend_from_slice(t);
                    o.extend_from_slice(b">\r\n");
                }
                o.extend_from_slice(b"DATA\r\n");
                o.extend(ref_encode(body));
            }
            Step::Rep(n, s) => {
                for _ in 0..*n {
                    for s in s {
                        s.put(o);
                    }
                }
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum EnvOp {
    ClearTo,
    PopTo,
    PushTo(B),
    SetFrom(Option<B>),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Act {
    reject: Option<(u16, B)>,
    /// rewrite the address (None inside: the null sender; ignored for recipients)
    addr: Option<Option<B>>,
    env: Vec<EnvOp>,
}

/// Cyclic scripts of what the policy does at its n-th decision of each kind; empty: accept.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Policy {
    from: Vec<Act>,
    to: Vec<Act>,
    data: Vec<Act>,
    mail: Vec<Act>,
}
fn act(v: &[Act], i: usize) -> Act {
    if v.is_empty() {
        Act::default()
    } else {
        v[i % v.len()].clone()
    }
}

pub const TEXTS: usize = 13;
const WELCOME: usize = 0;
const OKAY: usize = 1;
const MAIL_OKAY: usize = 2;
const RCPT_OKAY: usize = 3;
const DATA_OKAY: usize = 4;
const MAIL_ACCEPTED: usize = 5;
const BAD_SEQUENCE: usize = 6;
const ALREADY_IN_MAIL: usize = 7;
const RCPT_BEFORE_MAIL: usize = 8;
const DATA_BEFORE_RCPT: usize = 9;
const DATA_BEFORE_MAIL: usize = 10;
const UNIMPLEMENTED: usize = 11;
const UNRECOGNIZED: usize = 12;
const NAMES: [&str; TEXTS] = [
    "greeting",
    "okay",
    "sender accepted",
    "recipient accepted",
    "go-ahead",
    "message accepted",
    "bad sequence",
    "already in a mail",
    "recipient before sender",
    "data before recipient",
    "data before sender",
    "unimplemented",
    "unrecognised",
];

/// What the server is configured to say.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Texts {
    /// 0: library defaults; 1: hostname, banner, okay, bad sequence, ... overridden; 2: everything
    flavour: u8,
    host: B,
    banner: B,
    t: Vec<(u16, B)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Sess {
    steps: Vec<Step>,
    tail: B,
    pol: Policy,
    texts: Texts,
    chunks: Chunks,
    ins: Stalls,
    outs: Stalls,
    apps: Stalls,
}
impl Sess {
    fn raw(&self) -> Vec<u8> {
        let mut o = vec![];
        for s in &self.steps {
            s.put(&mut o);
        }
        o.extend_from_slice(&self.tail);
        o
    }
}

// ------------------------------------------------------------------ events

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    NewMail,
    From { from: Option<Mbox>, user: u64 },
    To { to: Mbox, env: (Option<Mbox>, Vec<Mbox>), user: u64 },
    Data { env: (Option<Mbox>, Vec<Mbox>), user: u64 },
    MailStart { env: (Option<Mbox>, Vec<Mbox>), user: u64 },
    MailEnd { body: Vec<u8>, complete: bool },
    /// the handler of an early-stopping application returned without having confirmed the end
    MailAbandoned,
}
impl Ev {
    fn kind(&self) -> &'static str {
        match self {
            Ev::NewMail => "new_mail",
            Ev::From { .. } => "filter_from",
            Ev::To { .. } => "filter_to",
            Ev::Data { .. } => "filter_data",
            Ev::MailStart { .. } => "handle_mail",
            Ev::MailEnd { complete: true, .. } => "message complete",
            Ev::MailEnd { complete: false, .. } => "message truncated",
            Ev::MailAbandoned => "message abandoned",
        }
    }
    fn show(&self) -> String {
        let m = |m: &Mbox| show(&grammar::mbox_text(m));
        let f = |f: &Option<Mbox>| f.as_ref().map(m).unwrap_or("<>".into());
        let e = |(a, b): &(Option<Mbox>, Vec<Mbox>)| {
            format!("from {} to [{}]", f(a), b.iter().take(20).map(m).collect::<Vec<_>>().join(", "))
        };
        match self {
            Ev::From { from, user } => format!("filter_from({}, user {user})", f(from)),
            Ev::To { to, env, user } => format!("filter_to({}, {}, user {user})", m(to), e(env)),
            Ev::Data { env, user } => format!("filter_data({}, user {user})", e(env)),
            Ev::MailStart { env, user } => format!("handle_mail({}, user {user})", e(env)),
            Ev::MailEnd { body, complete } => format!("message read: {} complete: {complete}", show(body)),
            o => o.kind().into(),
        }
    }
}

/// A hook event with what the client had been sent at that moment.
#[derive(Clone, Debug)]
pub struct Logged {
    ev: Ev,
    flushed: usize,
    /// the output had already failed
    failed: bool,
}

#[derive(Clone, Debug)]
pub struct Reply {
    code: u16,
    text: Option<Vec<u8>>,
    /// how many input bytes call for this reply
    due: usize,
    what: &'static str,
    optional: bool,
    go_ahead: bool,
}

#[derive(Default)]
pub struct Expected {
    evs: Vec<Ev>,
    replies: Vec<Reply>,
}

// ------------------------------------------------------------------ the model

fn next_user(u: u64, tag: u64) -> u64 {
    u.wrapping_mul(1_000_003).wrapping_add(tag)
}

fn apply_env<T>(ops: &[EnvOp], from: &mut Option<T>, to: &mut Vec<T>, conv: impl Fn(&[u8]) -> T) {
    for o in ops {
        match o {
            EnvOp::ClearTo => to.clear(),
            EnvOp::PopTo => {
                to.pop();
            }
            EnvOp::PushTo(b) => to.push(conv(b)),
            EnvOp::SetFrom(f) => *from = f.as_ref().map(|b| conv(b)),
        }
    }
}

fn mb(b: &[u8]) -> Mbox {
    match grammar::mailbox(b) {
        V::Must(m) | V::May(m) => m,
        _ => panic!("harness: policy mailbox {} is not valid", show(b)),
    }
}
fn email(b: &[u8]) -> Email {
    cmds::build_email(b, 0).expect("harness: policy mailbox refused")
}

const TRUNCATED: (u16, &[u8]) = (451, b"message was cut short");

/// What the line means: by the reference grammar, or by the parser where the grammar leaves it open.
fn meaning(line: &[u8]) -> Option<Cmd> {
    match grammar::command(line) {
        V::Must(c) => Some(c),
        V::Reject => None,
        V::May(_) | V::Unspec => parse_cmd(line, 0).ok().and_then(|c| cmd_of(&c).ok()),
    }
}

impl Texts {
    fn reply(&self, i: usize) -> (u16, Option<Vec<u8>>) {
        const CODES: [u16; TEXTS] = [220, 250, 250, 250, 354, 250, 503, 503, 503, 503, 503, 502, 500];
        let t = |i: usize| {
            let (c, t) = &self.t[i];
            (*c, Some(t.0.clone()))
        };
        match self.flavour {
            0 if i == WELCOME => (220, None),
            0 => (CODES[i], None),
            1 => match i {
                WELCOME => (220, Some([&self.host[..], b" ", &self.banner].concat())),
                OKAY | MAIL_OKAY | RCPT_OKAY | MAIL_ACCEPTED => t(OKAY),
                BAD_SEQUENCE | ALREADY_IN_MAIL | RCPT_BEFORE_MAIL | DATA_BEFORE_RCPT | DATA_BEFORE_MAIL => t(BAD_SEQUENCE),
                i => t(i),
            },
            _ => t(i),
        }
    }
}

fn model(c: &Sess, raw: &[u8]) -> Expected {
    let mut x = Expected::default();
    let hooks = c.texts.flavour != 0;
    let mut user = 7u64;
    let mut tx: Option<(Option<Mbox>, Vec<Mbox>)> = None;
    let mut n = [0usize; 4];
    let mut pos = 0;
    let conf = |i: usize, due: usize| {
        let (code, text) = c.texts.reply(i);
        Reply { code, text, due, what: NAMES[i], optional: false, go_ahead: i == DATA_OKAY }
    };
    let refusal = |r: &(u16, B), due: usize| Reply {
        code: r.0,
        text: Some(r.1 .0.clone()),
        due,
        what: "refusal by the policy",
        optional: false,
        go_ahead: false,
    };
    x.replies.push(conf(WELCOME, 0));
    while let Some(p) = raw[pos..].windows(2).position(|w| w == b"\r\n") {
        let line = &raw[pos..pos + p + 2];
        pos += p + 2;
        match meaning(line) {
            None => x.replies.push(conf(UNRECOGNIZED, pos)),
            Some(Cmd::Mail(mut from, _)) => {
                if tx.is_some() {
                    x.replies.push(conf(ALREADY_IN_MAIL, pos));
                    continue;
                }
                if hooks {
                    x.evs.push(Ev::NewMail);
                }
                x.evs.push(Ev::From { from: from.clone(), user });
                user = next_user(user, 1);
                let a = act(&c.pol.from, n[0]);
                n[0] += 1;
                if let Some(f) = &a.addr {
                    from = f.as_ref().map(|b| mb(b));
                }
                match &a.reject {
                    Some(r) => x.replies.push(refusal(r, pos)),
                    None => {
                        x.replies.push(conf(MAIL_OKAY, pos));
                        tx = Some((from, vec![]));
                    }
                }
            }
            Some(Cmd::Rcpt(mut to, _)) => {
                let Some(t) = &mut tx else {
                    x.replies.push(conf(RCPT_BEFORE_MAIL, pos));
                    continue;
                };
                x.evs.push(Ev::To { to: to.clone(), env: t.clone(), user });
                user = next_user(user, 2);
                let a = act(&c.pol.to, n[1]);
                n[1] += 1;
                if let Some(Some(b)) = &a.addr {
                    to = mb(b);
                }
                apply_env(&a.env, &mut t.0, &mut t.1, mb);
                match &a.reject {
                    Some(r) => x.replies.push(refusal(r, pos)),
                    None => {
                        t.1.push(to);
                        x.replies.push(conf(RCPT_OKAY, pos));
                    }
                }
            }
            Some(Cmd::Data) => {
                let Some(t) = &mut tx else {
                    x.replies.push(conf(DATA_BEFORE_MAIL, pos));
                    continue;
                };
                if t.1.is_empty() {
                    x.replies.push(conf(DATA_BEFORE_RCPT, pos));
                    continue;
                }
                if hooks {
                    x.evs.push(Ev::Data { env: t.clone(), user });
                    user = next_user(user, 3);
                    let a = act(&c.pol.data, n[2]);
                    n[2] += 1;
                    apply_env(&a.env, &mut t.0, &mut t.1, mb);
                    if let Some(r) = &a.reject {
                        x.replies.push(refusal(r, pos));
                        continue;
                    }
                }
                x.replies.push(conf(DATA_OKAY, pos));
                x.evs.push(Ev::MailStart { env: t.clone(), user });
                tx = None;
                user = next_user(user, 4);
                let a = act(&c.pol.mail, n[3]);
                n[3] += 1;
                let (body, end) = ref_decode(&raw[pos..]);
                match end {
                    Some(e) => {
                        pos += e;
                        x.evs.push(Ev::MailEnd { body, complete: true });
                        x.replies.push(match &a.reject {
                            Some(r) => refusal(r, pos),
                            None => conf(MAIL_ACCEPTED, pos),
                        });
                    }
                    None => {
                        x.evs.push(Ev::MailEnd { body, complete: false });
                        x.replies.push(Reply {
                            code: TRUNCATED.0,
                            text: Some(TRUNCATED.1.to_vec()),
                            due: usize::MAX,
                            what: "reply to a truncated message",
                            optional: true,
                            go_ahead: false,
                        });
                        break;
                    }
                }
            }
            Some(_) => x.replies.push(conf(UNIMPLEMENTED, pos)),
        }
    }
    x
}

// ------------------------------------------------------------------ the application under the server

/// How the application reads a message.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Read {
    Full,
    /// returns after this many reads, without confirming
    Stop(u8),
    /// reads everything but does not confirm
    NoConfirm,
    /// confirms after this many reads
    ConfirmAfter(u8),
}

struct App {
    pol: Policy,
    texts: Texts,
    st: Staller,
    n: [usize; 4],
    evs: Arc<Mutex<Vec<Logged>>>,
    out: Arc<Mutex<SinkLog>>,
    stat: Arc<Mutex<ClientStat>>,
    reads: Vec<Read>,
    /// calls until it panics
    die: std::sync::atomic::AtomicU32,
    died: Arc<Mutex<Option<(u64, usize, usize)>>>,
}
/// How the application panics when told to.
const SCRIPTED: &str = "harness-scripted panic of the application";

async fn pause(st: &mut Staller) {
    futures::future::poll_fn(|cx| if st.stall(cx) { Poll::Pending } else { Poll::Ready(()) }).await
}

fn seen(e: &Email) -> Mbox {
    mbox_of(e).unwrap_or_else(|m| panic!("address passed to the application is unreadable: {m}"))
}
fn seen_env(m: &MailMetadata) -> (Option<Mbox>, Vec<Mbox>) {
    (m.from.as_ref().map(seen), m.to.iter().map(seen).collect())
}
fn decision(a: &Act) -> Decision {
    match &a.reject {
        None => Decision::Accept,
        Some((c, t)) => Decision::Reject(Refusal { code: ReplyCode::custom(*c), msg: SmtpString::from(&t[..]) }),
    }
}

impl App {
    fn log(&self, ev: Ev) {
        let (flushed, failed) = {
            let l = self.out.lock().unwrap();
            (l.flushed, l.failed)
        };
        self.evs.lock().unwrap().push(Logged { ev, flushed, failed });
    }
    fn alive(&self) {
        use std::sync::atomic::Ordering::Relaxed;
        let n = self.die.load(Relaxed);
        if n == u32::MAX {
            return;
        }
        if n == 0 {
            let state = {
                let l = self.out.lock().unwrap();
                (l.ops as u64, l.bytes().len(), self.evs.lock().unwrap().len())
            };
            *self.died.lock().unwrap() = Some(state);
            panic!("{SCRIPTED}");
        }
        self.die.store(n - 1, Relaxed);
    }
    async fn new_mail(&mut self) {
        self.alive();
        pause(&mut self.st).await;
        self.log(Ev::NewMail);
    }
    async fn filter_from(&mut self, from: &mut Option<Email>, conn: &mut ConnectionMetadata<u64>) -> Decision {
        self.alive();
        self.log(Ev::From { from: from.as_ref().map(seen), user: conn.user });
        conn.user = next_user(conn.user, 1);
        pause(&mut self.st).await;
        let a = act(&self.pol.from, self.n[0]);
        self.n[0] += 1;
        if let Some(f) = &a.addr {
            *from = f.as_ref().map(|b| email(b));
        }
        pause(&mut self.st).await;
        decision(&a)
    }
    async fn filter_to(&mut self, to: &mut Email, meta: &mut MailMetadata, conn: &mut ConnectionMetadata<u64>) -> Decision {
        self.alive();
        self.log(Ev::To { to: seen(to), env: seen_env(meta), user: conn.user });
        conn.user = next_user(conn.user, 2);
        pause(&mut self.st).await;
        let a = act(&self.pol.to, self.n[1]);
        self.n[1] += 1;
        if let Some(Some(b)) = &a.addr {
            *to = email(b);
        }
        apply_env(&a.env, &mut meta.from, &mut meta.to, email);
        decision(&a)
    }
    async fn filter_data(&mut self, meta: &mut MailMetadata, conn: &mut ConnectionMetadata<u64>) -> Decision {
        self.alive();
        self.log(Ev::Data { env: seen_env(meta), user: conn.user });
        conn.user = next_user(conn.user, 3);
        pause(&mut self.st).await;
        let a = act(&self.pol.data, self.n[2]);
        self.n[2] += 1;
        apply_env(&a.env, &mut meta.from, &mut meta.to, email);
        decision(&a)
    }
    async fn handle_mail<S>(&mut self, stream: &mut DataStream<'_, S>, meta: MailMetadata, conn: &mut ConnectionMetadata<u64>) -> Decision
    where
        S: Unpin + Stream<Item = BytesMut>,
    {
        self.alive();
        self.log(Ev::MailStart { env: seen_env(&meta), user: conn.user });
        conn.user = next_user(conn.user, 4);
        let a = act(&self.pol.mail, self.n[3]);
        let how = if self.reads.is_empty() { Read::Full } else { self.reads[self.n[3] % self.reads.len()] };
        self.n[3] += 1;
        let mut body = vec![];
        let limit = match how {
            Read::Stop(n) | Read::ConfirmAfter(n) => n as usize,
            _ => usize::MAX,
        };
        let mut reads = 0;
        let mut ended = false;
        while reads < limit {
            pause(&mut self.st).await;
            self.alive();
            match stream.next().await {
                Some(p) => {
                    body.extend_from_slice(&p);
                    self.stat.lock().unwrap().content += p.len();
                }
                None => {
                    ended = true;
                    break;
                }
            }
            reads += 1;
        }
        match how {
            Read::Stop(_) if !ended => {
                self.log(Ev::MailAbandoned);
                return decision(&a);
            }
            Read::NoConfirm => {
                self.log(Ev::MailAbandoned);
                return decision(&a);
            }
            _ => {}
        }
        pause(&mut self.st).await;
        self.alive();
        let r = stream.complete();
        self.log(Ev::MailEnd { body, complete: r.is_ok() });
        pause(&mut self.st).await;
        self.alive();
        if r.is_err() {
            return Decision::Reject(Refusal { code: ReplyCode::custom(TRUNCATED.0), msg: SmtpString::from_static(TRUNCATED.1) });
        }
        decision(&a)
    }
    fn text(&self, i: usize) -> (ReplyCode, SmtpString) {
        self.alive();
        let (c, t) = &self.texts.t[i];
        (ReplyCode::custom(*c), SmtpString::from(&t[..]))
    }
}

type Fut<'a, T> = Pin<Box<dyn 'a + Send + Future<Output = T>>>;
macro_rules! config {
    ($n:ident, $($extra:tt)*) => {
        struct $n(App);
        impl Config<u64> for $n {
            fn filter_from<'a>(&'a mut self, from: &'a mut Option<Email>, conn: &'a mut ConnectionMetadata<u64>) -> Fut<'a, Decision> {
                Box::pin(self.0.filter_from(from, conn))
            }
            fn filter_to<'a>(&'a mut self, to: &'a mut Email, meta: &'a mut MailMetadata, conn: &'a mut ConnectionMetadata<u64>) -> Fut<'a, Decision> {
                Box::pin(self.0.filter_to(to, meta, conn))
            }
            fn handle_mail<'a, S>(&'a mut self, stream: &'a mut DataStream<S>, meta: MailMetadata, conn: &'a mut ConnectionMetadata<u64>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
            where S: 'a + Unpin + Stream<Item = BytesMut> {
                Box::pin(self.0.handle_mail(stream, meta, conn))
            }
            fn hostname(&self) -> SmtpString {
                SmtpString::from(&self.0.texts.host[..])
            }
            $($extra)*
        }
    };
}
macro_rules! hooks {
    ($($extra:tt)*) => {
        config! { $($extra)*
            fn new_mail<'a>(&'a mut self) -> Fut<'a, ()> {
                Box::pin(self.0.new_mail())
            }
            fn filter_data<'a>(&'a mut self, meta: &'a mut MailMetadata, conn: &'a mut ConnectionMetadata<u64>) -> Fut<'a, Decision> {
                Box::pin(self.0.filter_data(meta, conn))
            }
        }
    };
}
config! { CfgDefault, }
hooks! { CfgPartial,
    fn banner(&self) -> SmtpString { SmtpString::from(&self.0.texts.banner[..]) }
    fn okay(&self) -> (ReplyCode, SmtpString) { self.0.text(OKAY) }
    fn data_okay(&self) -> (ReplyCode, SmtpString) { self.0.text(DATA_OKAY) }
    fn bad_sequence(&self) -> (ReplyCode, SmtpString) { self.0.text(BAD_SEQUENCE) }
    fn command_unimplemented(&self) -> (ReplyCode, SmtpString) { self.0.text(UNIMPLEMENTED) }
    fn command_unrecognized(&self) -> (ReplyCode, SmtpString) { self.0.text(UNRECOGNIZED) }
}
hooks! { CfgFull,
    fn banner(&self) -> SmtpString { SmtpString::from(&self.0.texts.banner[..]) }
    fn welcome_banner(&self) -> (ReplyCode, SmtpString) { self.0.text(WELCOME) }
    fn okay(&self) -> (ReplyCode, SmtpString) { self.0.text(OKAY) }
    fn mail_okay(&self) -> (ReplyCode, SmtpString) { self.0.text(MAIL_OKAY) }
    fn rcpt_okay(&self) -> (ReplyCode, SmtpString) { self.0.text(RCPT_OKAY) }
    fn data_okay(&self) -> (ReplyCode, SmtpString) { self.0.text(DATA_OKAY) }
    fn mail_accepted(&self) -> (ReplyCode, SmtpString) { self.0.text(MAIL_ACCEPTED) }
    fn bad_sequence(&self) -> (ReplyCode, SmtpString) { self.0.text(BAD_SEQUENCE) }
    fn already_in_mail(&self) -> (ReplyCode, SmtpString) { self.0.text(ALREADY_IN_MAIL) }
    fn rcpt_before_mail(&self) -> (ReplyCode, SmtpString) { self.0.text(RCPT_BEFORE_MAIL) }
    fn data_before_rcpt(&self) -> (ReplyCode, SmtpString) { self.0.text(DATA_BEFORE_RCPT) }
    fn data_before_mail(&self) -> (ReplyCode, SmtpString) { self.0.text(DATA_BEFORE_MAIL) }
    fn command_unimplemented(&self) -> (ReplyCode, SmtpString) { self.0.text(UNIMPLEMENTED) }
    fn command_unrecognized(&self) -> (ReplyCode, SmtpString) { self.0.text(UNRECOGNIZED) }
}

// ------------------------------------------------------------------ the client side

#[derive(Default)]
struct ClientStat {
    delivered: usize,
    ended: bool,
    polls_after_end: usize,
    polls_after_failure: usize,
    /// (bytes delivered, bytes flushed to the client, content bytes the application has read) whenever input was asked for
    asks: Vec<(usize, usize, usize)>,
    content: usize,
}

/// Input stream that notes what the client has seen whenever it is asked for more.
struct Client {
    items: VecDeque<BytesMut>,
    /// lock-step: how many complete replies the client waits for before each item
    need: VecDeque<usize>,
    st: Staller,
    out: Arc<Mutex<SinkLog>>,
    stat: Arc<Mutex<ClientStat>>,
}
impl Stream for Client {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        let me = &mut *self;
        let mut stat = me.stat.lock().unwrap();
        let (flushed, replies, failed) = {
            let mut l = me.out.lock().unwrap();
            (l.flushed, l.flushed_replies(), l.failed)
        };
        if failed {
            stat.polls_after_failure += 1;
        }
        if stat.ended {
            stat.polls_after_end += 1;
            if stat.polls_after_end > 1000 {
                panic!("input polled more than 1000 times after its end");
            }
            return Poll::Ready(None);
        }
        let ask = (stat.delivered, flushed, stat.content);
        if stat.asks.last() != Some(&ask) {
            stat.asks.push(ask);
        }
        if let Some(n) = me.need.front() {
            if replies < *n {
                // the client is waiting for a reply: nothing will ever wake the server
                return Poll::Pending;
            }
        }
        if me.st.stall(cx) {
            return Poll::Pending;
        }
        me.need.pop_front();
        match me.items.pop_front() {
            Some(x) => {
                stat.delivered += x.len();
                Poll::Ready(Some(x))
            }
            None => {
                stat.ended = true;
                Poll::Ready(None)
            }
        }
    }
}

/// Offsets at which complete replies end: lines `ddd-...` continue, `ddd ...` end a reply.
fn reply_ends(out: &[u8]) -> Vec<usize> {
    let mut ends = vec![];
    let mut pos = 0;
    while let Some(p) = out[pos..].windows(2).position(|w| w == b"\r\n") {
        if p >= 4 && out[pos + 3] == b' ' {
            ends.push(pos + p + 2);
        }
        pos += p + 2;
    }
    ends
}

#[derive(Debug)]
struct Obs {
    /// Err: panic or stuck
    end: Result<Result<(), ()>, String>,
    stuck: bool,
    evs: Vec<Logged>,
    out: Vec<u8>,
    flushed: usize,
    ops: usize,
    failed: bool,
    ops_after_failure: usize,
    delivered: usize,
    polls_after_end: usize,
    polls_after_failure: usize,
    asks: Vec<(usize, usize, usize)>,
}

struct Run<'a> {
    c: &'a Sess,
    raw: &'a [u8],
    chunks: &'a Chunks,
    ins: &'a Stalls,
    outs: &'a Stalls,
    apps: &'a Stalls,
    fail_at: Option<usize>,
    reads: &'a [Read],
    lock_step: Option<(Vec<BytesMut>, Vec<usize>)>,
    /// the application panics in that call
    die: Option<u32>,
}
fn plain<'a>(c: &'a Sess, raw: &'a [u8]) -> Run<'a> {
    Run { c, raw, chunks: &c.chunks, ins: &c.ins, outs: &c.outs, apps: &c.apps, fail_at: None, reads: &[], lock_step: None, die: None }
}

type Session = Pin<Box<dyn Future<Output = Result<(), ()>>>>;
struct Watch {
    log: Arc<Mutex<SinkLog>>,
    evs: Arc<Mutex<Vec<Logged>>>,
    stat: Arc<Mutex<ClientStat>>,
    /// operations on the output, bytes written and calls logged when the application panicked
    died: Arc<Mutex<Option<(u64, usize, usize)>>>,
}
/// The session as a future not yet polled, and what is seen of it.
fn session(r: Run) -> (Session, Watch) {
    let out = Out::new(r.outs, r.fail_at);
    let log = out.log.clone();
    let evs: Arc<Mutex<Vec<Logged>>> = Arc::default();
    let stat: Arc<Mutex<ClientStat>> = Arc::default();
    let (items, need) = r.lock_step.unwrap_or_else(|| (io::to_chunks(r.raw, r.chunks), vec![]));
    let client = Client { items: items.into(), need: need.into(), st: Staller::new(r.ins), out: log.clone(), stat: stat.clone() };
    let died: Arc<Mutex<Option<(u64, usize, usize)>>> = Arc::default();
    let app = App {
        die: r.die.unwrap_or(u32::MAX).into(),
        died: died.clone(),
        pol: r.c.pol.clone(),
        texts: r.c.texts.clone(),
        st: Staller::new(r.apps),
        n: [0; 4],
        evs: evs.clone(),
        out: log.clone(),
        stat: stat.clone(),
        reads: r.reads.to_vec(),
    };
    let flavour = r.c.texts.flavour;
    let f: Session = Box::pin(async move {
        let mut out = Box::pin(out);
        match flavour {
            0 => interact(client, out.as_mut(), 7u64, &mut CfgDefault(app)).await,
            1 => interact(client, out.as_mut(), 7u64, &mut CfgPartial(app)).await,
            _ => interact(client, out.as_mut(), 7u64, &mut CfgFull(app)).await,
        }
    });
    (f, Watch { log, evs, stat, died })
}
const ASLEEP: &str = "the session sleeps without having arranged to be woken";
impl Watch {
    fn obs(&self, end: Result<Result<(), ()>, String>, stuck: bool) -> Obs {
        let l = self.log.lock().unwrap_or_else(|e| e.into_inner());
        let s = self.stat.lock().unwrap_or_else(|e| e.into_inner());
        let evs = self.evs.lock().unwrap_or_else(|e| e.into_inner()).clone();
        Obs {
            end,
            stuck,
            evs,
            out: l.bytes(),
            flushed: l.flushed,
            ops: l.ops,
            failed: l.failed,
            ops_after_failure: l.ops_after_failure,
            delivered: s.delivered,
            polls_after_end: s.polls_after_end,
            polls_after_failure: s.polls_after_failure,
            asks: s.asks.clone(),
        }
    }
}
fn run(r: Run) -> Obs {
    let (f, w) = session(r);
    let mut stuck = false;
    let end = match catch(move || block(f)) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(Stuck::LostWakeup)) => {
            stuck = true;
            Err(ASLEEP.into())
        }
        Ok(Err(Stuck::Livelock)) => Err("the session spins without making progress".into()),
        Err(p) => Err(p),
    };
    w.obs(end, stuck)
}

// ------------------------------------------------------------------ comparisons

/// Splits the output into replies, checking the form of every line.
fn replies(out: &[u8]) -> Result<Vec<(u16, Vec<u8>)>, String> {
    let mut got = vec![];
    let mut pos = 0;
    let mut open: Option<(u16, Vec<u8>)> = None;
    while pos < out.len() {
        let Some(p) = out[pos..].windows(2).position(|w| w == b"\r\n") else {
            return Err(format!("output ends within a line: {}", show(&out[pos..])));
        };
        let line = &out[pos..pos + p];
        pos += p + 2;
        if p + 2 > 512 {
            return Err(format!("reply line of {} bytes: {}", p + 2, show(line)));
        }
        if p < 4 || !line[..3].iter().all(u8::is_ascii_digit) || !b" -".contains(&line[3]) || line.contains(&b'\r') || line.contains(&b'\n') {
            return Err(format!("malformed reply line {}", show(line)));
        }
        let code = line[..3].iter().fold(0u16, |a, d| a * 10 + u16::from(d - b'0'));
        let (c, mut text) = open.take().unwrap_or((code, vec![]));
        if c != code {
            return Err(format!("a reply starts with code {c} and continues with {}", show(line)));
        }
        text.extend_from_slice(&line[4..]);
        if line[3] == b' ' {
            got.push((c, text));
        } else {
            open = Some((c, text));
        }
    }
    match open {
        Some((_, t)) => Err(format!("the last reply is not finished: {}", show(&t))),
        None => Ok(got),
    }
}

fn cmp_replies(want: &[Reply], out: &[u8]) -> R {
    let got = replies(out)?;
    let text = |t: &[u8]| show(t);
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            None if w.optional => {}
            None => {
                return Err(format!(
                    "reply {} is missing: expected {} ({} {}), after {} replies the output ends",
                    i,
                    w.what,
                    w.code,
                    w.text.as_deref().map(text).unwrap_or_default(),
                    got.len()
                ))
            }
            Some((c, t)) => {
                if *c != w.code || w.text.as_ref().is_some_and(|x| x != t) {
                    return Err(format!(
                        "reply {} is {} {}, expected {} ({} {})",
                        i,
                        c,
                        text(t),
                        w.what,
                        w.code,
                        w.text.as_deref().map(text).unwrap_or_default()
                    ));
                }
            }
        }
    }
    if got.len() > want.len() {
        let (c, t) = &got[want.len()];
        return Err(format!("{} replies where {} are called for; the first surplus one is {c} {}", got.len(), want.len(), text(t)));
    }
    Ok(())
}

/// Compares hook events; `full` compares their arguments too, `body` the message contents.
fn cmp_evs(want: &[Ev], got: &[Logged], keep: fn(&Ev) -> bool, args: bool, body: bool) -> R {
    let want: Vec<&Ev> = want.iter().filter(|e| keep(e)).collect();
    let got: Vec<&Ev> = got.iter().map(|l| &l.ev).filter(|e| keep(e)).collect();
    for i in 0..want.len().max(got.len()) {
        let (w, g) = (want.get(i), got.get(i));
        let same = match (w, g) {
            (Some(w), Some(g)) => match (w, g) {
                (Ev::MailEnd { body: wb, complete: wc }, Ev::MailEnd { body: gb, complete: gc }) => {
                    wc == gc && (!body || if *wc { wb == gb } else { wb.starts_with(gb) })
                }
                _ if args => w == g,
                _ => w.kind() == g.kind(),
            },
            _ => false,
        };
        if !same {
            let s = |e: Option<&&Ev>| e.map(|e| e.show()).unwrap_or("nothing".into());
            return Err(format!("application call {} is {}, expected {}", i, s(g), s(w)));
        }
    }
    Ok(())
}

fn all(_: &Ev) -> bool {
    true
}
fn mails(e: &Ev) -> bool {
    matches!(e, Ev::MailStart { .. } | Ev::MailEnd { .. })
}

fn ended_well(o: &Obs) -> R {
    match &o.end {
        Ok(Ok(())) => Ok(()),
        Ok(Err(())) => Err("the session ends with an error although the output never failed".into()),
        Err(m) => Err(m.clone()),
    }
}

fn label_session(x: &Expected, ctx: &mut Ctx) {
    for r in &x.replies {
        ctx.label(match r.what {
            "greeting" => continue,
            w => w,
        });
    }
    let n = x.evs.iter().filter(|e| matches!(e, Ev::MailEnd { .. })).count();
    ctx.label_if(n == 1, "sessions with one message");
    ctx.label_if(n > 1, "sessions with several messages");
}

fn messages(x: &Expected) -> usize {
    x.evs.iter().filter(|e| matches!(e, Ev::MailEnd { complete: true, .. })).count()
}

// ------------------------------------------------------------------ checks

fn c18(c: &Sess, ctx: &mut Ctx) -> R {
    let raw = c.raw();
    let x = model(c, &raw);
    label_session(&x, ctx);
    if x.replies.len() > 3 {
        ctx.nontrivial();
    }
    let o = run(plain(c, &raw));
    ended_well(&o)?;
    cmp_replies(&x.replies, &o.out)?;
    cmp_evs(&x.evs, &o.evs, all, false, false)
}

fn c19(c: &Sess, ctx: &mut Ctx) -> R {
    let raw = c.raw();
    let x = model(c, &raw);
    label_session(&x, ctx);
    if messages(&x) > 0 {
        ctx.nontrivial();
    }
    let o = run(plain(c, &raw));
    ended_well(&o)?;
    cmp_evs(&x.evs, &o.evs, mails, true, true)?;
    // one hand-over per go-ahead that was really sent
    if c.texts.flavour == 2 {
        let go = x.replies.iter().find(|r| r.go_ahead).map(|r| (r.code, r.text.clone().unwrap_or_default()));
        if let (Some(go), Ok(got)) = (go, replies(&o.out)) {
            let same = x.replies.iter().filter(|r| !r.go_ahead && r.code == go.0 && r.text.as_ref() == Some(&go.1)).count();
            let n = got.iter().filter(|g| **g == go).count();
            let starts = o.evs.iter().filter(|l| matches!(l.ev, Ev::MailStart { .. })).count();
            if same == 0 && n != starts {
                return Err(format!("{n} go-aheads were sent and {starts} messages handed over"));
            }
        }
    }
    Ok(())
}

fn c20(c: &Sess, ctx: &mut Ctx) -> R {
    let raw = c.raw();
    let x = model(c, &raw);
    label_session(&x, ctx);
    if x.evs.iter().filter(|e| !mails(e)).count() > 2 {
        ctx.nontrivial();
    }
    let o = run(plain(c, &raw));
    ended_well(&o)?;
    cmp_evs(&x.evs, &o.evs, all, true, false)?;
    cmp_replies(&x.replies, &o.out)
}

/// Two schedules of the same session.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Two {
    s: Sess,
    other: (Chunks, Stalls, Stalls, Stalls),
}
fn c21(t: &Two, ctx: &mut Ctx) -> R {
    let c = &t.s;
    let raw = c.raw();
    let mut a = plain(c, &raw);
    let mut b = plain(c, &raw);
    (b.chunks, b.ins, b.outs, b.apps) = (&t.other.0, &t.other.1, &t.other.2, &t.other.3);
    a.reads = &[];
    let (a, b) = (run(a), run(b));
    if a.evs.len() > 2 {
        ctx.nontrivial();
    }
    ctx.label_if(a.evs.iter().any(|l| matches!(l.ev, Ev::MailEnd { .. })), "with a message");
    ctx.label_if(!c.apps.0.is_empty() || !t.other.3 .0.is_empty(), "application stalls");
    ctx.label_if(!c.outs.0.is_empty() || !t.other.2 .0.is_empty(), "output stalls");
    ctx.label_if(!c.ins.0.is_empty() || !t.other.1 .0.is_empty(), "input stalls");
    for o in [&a, &b] {
        if o.stuck {
            return Err(o.end.clone().unwrap_err());
        }
    }
    if a.end != b.end {
        return Err(format!("one schedule ends with {:?}, the other with {:?}", a.end, b.end));
    }
    if a.out != b.out {
        let n = a.out.iter().zip(&b.out).take_while(|(x, y)| x == y).count();
        let n = n.saturating_sub(40);
        return Err(format!("output differs between two schedules: {} and {}", show(&a.out[n..]), show(&b.out[n..])));
    }
    for i in 0..a.evs.len().max(b.evs.len()) {
        let (x, y) = (a.evs.get(i).map(|l| &l.ev), b.evs.get(i).map(|l| &l.ev));
        let same = match (x, y) {
            (Some(Ev::MailEnd { body: p, complete: false }), Some(Ev::MailEnd { body: q, complete: false })) => p.starts_with(q) || q.starts_with(p),
            _ => x == y,
        };
        if !same {
            let s = |e: Option<&Ev>| e.map(|e| e.show()).unwrap_or("nothing".into());
            return Err(format!("application call {i} differs between two schedules: {} and {}", s(x), s(y)));
        }
    }
    Ok(())
}

fn c22(c: &Sess, ctx: &mut Ctx) -> R {
    let raw = c.raw();
    let x = model(c, &raw);
    for r in &x.replies {
        let n = r.text.as_ref().map(|t| t.len()).unwrap_or(20);
        ctx.label(match n {
            0 => "empty text",
            1..=506 => "one line",
            507..=1012 => "two lines",
            _ => "more lines",
        });
        if n == 0 || n > 506 {
            ctx.nontrivial();
        }
    }
    let o = run(plain(c, &raw));
    // the replies of a session that is cut off by a crash are judged by C26
    ended_well(&o)?;
    cmp_replies(&x.replies, &o.out)?;
    if o.flushed != o.out.len() {
        return Err(format!("{} bytes of output were written but never flushed", o.out.len() - o.flushed));
    }
    Ok(())
}

fn c23(c: &Sess, ctx: &mut Ctx) -> R {
    let raw = c.raw();
    let x = model(c, &raw);
    label_session(&x, ctx);
    if x.replies.len() > 3 {
        ctx.nontrivial();
    }
    // whenever input is asked for, every reply that is due has been flushed
    let o = run(plain(c, &raw));
    let ends = reply_ends(&o.out);
    let dues: Vec<usize> = x.replies.iter().map(|r| r.due).collect();
    if dues.windows(2).any(|w| w[0] > w[1]) {
        return Err("harness: replies are not due in order".into());
    }
    for (delivered, flushed, _) in &o.asks {
        let due = dues.partition_point(|d| *d <= *delivered);
        let sent = ends.partition_point(|e| *e <= *flushed);
        if sent < due {
            return Err(format!(
                "the server asks for input after {delivered} bytes, which call for {due} replies; {sent} have been flushed to the client, {} written",
                ends.len()
            ));
        }
    }
    if !o.stuck && o.end.is_err() {
        // a crash is C26's business
        ctx.skip();
        return Ok(());
    }
    ended_well(&o)?;
    // a client that waits for each reply before it goes on: cut the input where replies are due
    let mut cuts: Vec<usize> = x.replies.iter().map(|r| r.due).filter(|d| *d <= raw.len()).collect();
    cuts.push(raw.len());
    cuts.dedup();
    let mut items = vec![];
    let mut need = vec![];
    let mut pos = 0;
    for cut in cuts {
        if cut > pos {
            items.push(BytesMut::from(&raw[pos..cut]));
            need.push(dues.partition_point(|d| *d <= pos));
            pos = cut;
        }
    }
    let mut r = plain(c, &raw);
    r.lock_step = Some((items, need));
    let o = run(r);
    if o.stuck {
        return Err(format!("deadlock: the client waits for a reply after sending {} bytes and the server waits for input", o.delivered));
    }
    ended_well(&o)
}

fn c24(c: &Sess, ctx: &mut Ctx) -> R {
    let raw = c.raw();
    let base = run(plain(c, &raw));
    if base.end != Ok(Ok(())) {
        ctx.skip();
        return Ok(());
    }
    if !base.evs.is_empty() {
        ctx.nontrivial();
    }
    let x = model(c, &raw);
    let ends = reply_ends(&base.out);
    let go: Vec<usize> =
        x.replies.iter().zip(&ends).filter(|(r, _)| r.go_ahead).map(|(_, e)| *e).collect();
    let step = (base.ops / 150).max(1);
    let mut points = 0;
    let mut k = 0;
    while k < base.ops {
        let mut r = plain(c, &raw);
        r.fail_at = Some(k);
        let o = run(r);
        points += 1;
        let at = |m: String| Err(format!("output failing at its operation {k} of {}: {m}", base.ops));
        if !o.failed {
            return at("the operation was never reached, although nothing differed before".into());
        }
        match &o.end {
            Ok(Err(())) => {}
            Ok(Ok(())) => return at("the session ends as if nothing had happened".into()),
            Err(m) => return at(m.clone()),
        }
        if o.ops_after_failure > 0 {
            return at("the output is used again after it failed".into());
        }
        if o.polls_after_failure > 0 {
            return at("more input is read after the output failed".into());
        }
        if let Some(l) = o.evs.iter().find(|l| l.failed) {
            return at(format!("the application is still called: {}", l.ev.show()));
        }
        if !base.out.starts_with(&o.out) {
            return at(format!("what was written before differs from the fault-free session: {}", show(&o.out)));
        }
        for (i, l) in o.evs.iter().enumerate() {
            if base.evs.get(i).map(|b| &b.ev) != Some(&l.ev) {
                return at(format!("application call {i} differs from the fault-free session: {}", l.ev.show()));
            }
        }
        let starts = o.evs.iter().filter(|l| matches!(l.ev, Ev::MailStart { .. }));
        for (i, l) in starts.enumerate() {
            if go.get(i).is_none_or(|g| l.flushed < *g) {
                return at("a message is handed over although its go-ahead has not been sent".into());
            }
        }
        k += step;
    }
    ctx.add("failure points", points);
    Ok(())
}

fn c25(c: &Sess, ctx: &mut Ctx) -> R {
    let raw = c.raw();
    let step = (raw.len() / 120).max(1);
    let mut p = raw.len() % step;
    let mut cuts = 0;
    loop {
        let part = &raw[..p];
        let x = model(c, part);
        let o = run(plain(c, part));
        cuts += 1;
        let at = |m: String| format!("input ending after {p} of {} bytes: {m}", raw.len());
        match &o.end {
            Ok(Ok(())) => {}
            Ok(Err(())) => return Err(at("the session ends with an error".into())),
            Err(m) => return Err(at(m.clone())),
        }
        if o.polls_after_end > 0 {
            return Err(at("the input is read again after its end".into()));
        }
        cmp_replies(&x.replies, &o.out).map_err(at)?;
        cmp_evs(&x.evs, &o.evs, all, true, true).map_err(at)?;
        if x.evs.iter().any(|e| matches!(e, Ev::MailEnd { complete: false, .. })) {
            ctx.nontrivial();
            ctx.label("cut within a message");
        }
        if p == raw.len() {
            break;
        }
        p = (p + step).min(raw.len());
    }
    ctx.add("cut points", cuts);
    Ok(())
}

/// Order in which the application may be called, whatever the client sends.
fn order(evs: &[Logged], hooks: bool) -> R {
    let mut open = false; // a message is being handled
    let mut fresh = !hooks; // new_mail has announced a sender
    let mut sender = false; // a sender was submitted since the last message
    let mut rcpt = false; // a recipient was submitted for it
    for (i, l) in evs.iter().enumerate() {
        let bad = |m: &str| Err(format!("application call {i} is {}: {m}", l.ev.show()));
        if open && !matches!(l.ev, Ev::MailEnd { .. }) {
            return bad("while a message is being handled");
        }
        match &l.ev {
            Ev::NewMail => fresh = true,
            Ev::From { .. } => {
                if !fresh {
                    return bad("no new mail was announced");
                }
                fresh = !hooks;
                sender = true;
                rcpt = false;
            }
            Ev::To { .. } => {
                if !sender {
                    return bad("no sender was submitted before");
                }
                rcpt = true;
            }
            Ev::Data { .. } => {
                if !sender || !rcpt {
                    return bad("no sender and recipient were submitted before");
                }
            }
            Ev::MailStart { .. } => {
                if !sender || !rcpt {
                    return bad("no sender and recipient were submitted before");
                }
                open = true;
            }
            Ev::MailEnd { .. } => {
                open = false;
                sender = false;
            }
            Ev::MailAbandoned => {}
        }
    }
    Ok(())
}

fn c26(c: &Sess, ctx: &mut Ctx) -> R {
    let raw = c.raw();
    let o = run(plain(c, &raw));
    ended_well(&o)?;
    if o.delivered != raw.len() {
        return Err(format!("the server stopped after {} of {} bytes", o.delivered, raw.len()));
    }
    let n = replies(&o.out)?.len();
    if n > 3 {
        ctx.nontrivial();
    }
    ctx.label_if(o.evs.iter().any(|l| matches!(l.ev, Ev::MailEnd { .. })), "with a message");
    ctx.label_if(raw.len() > 10_000, "more than 10 kB");
    order(&o.evs, c.texts.flavour != 0)?;
    let x = model(c, &raw);
    cmp_replies(&x.replies, &o.out)?;
    cmp_evs(&x.evs, &o.evs, all, true, true)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Lazy {
    s: Sess,
    reads: Vec<Read>,
}
fn c27(t: &Lazy, ctx: &mut Ctx) -> R {
    let c = &t.s;
    let raw = c.raw();
    let mut r = plain(c, &raw);
    r.reads = &t.reads;
    let o = run(r);
    if o.stuck {
        return Err(o.end.unwrap_err());
    }
    let x = model(c, &raw);
    // the first message whose end the application did not confirm
    let starts: Vec<usize> = (0..o.evs.len()).filter(|i| matches!(o.evs[*i].ev, Ev::MailStart { .. })).collect();
    let bad = starts.iter().copied().find(|i| !matches!(o.evs.get(i + 1).map(|l| &l.ev), Some(Ev::MailEnd { .. })));
    // everything up to there is as in a session of a well-behaved application
    let upto = bad.unwrap_or(o.evs.len());
    for i in 0..upto {
        let (w, g) = (x.evs.get(i), &o.evs[i].ev);
        let same = match (w, g) {
            (Some(Ev::MailEnd { body: p, complete: false }), Ev::MailEnd { body: q, complete: false }) => p.starts_with(q),
            (w, g) => w == Some(g),
        };
        if !same {
            return Err(format!("application call {i} is {}, expected {}", g.show(), w.map(|w| w.show()).unwrap_or("nothing".into())));
        }
    }
    let Some(bad) = bad else {
        ctx.label("every message was confirmed");
        ended_well(&o)?;
        cmp_replies(&x.replies, &o.out)?;
        return cmp_evs(&x.evs, &o.evs, all, true, true);
    };
    ctx.nontrivial();
    ctx.label(if matches!(o.evs.get(bad + 1).map(|l| &l.ev), Some(Ev::MailAbandoned)) { "abandoned" } else { "confirmed too early" });
    // no further application call after the abandoned message
    let rest: Vec<&Logged> = o.evs[bad + 1..].iter().filter(|l| l.ev != Ev::MailAbandoned).collect();
    if let Some(l) = rest.first() {
        return Err(format!("after a message whose end was not confirmed, the application is called again: {}", l.ev.show()));
    }
    // nothing but (at most) one error reply after its go-ahead
    let k = starts.iter().position(|i| *i == bad).unwrap();
    let Some(g) = x.replies.iter().enumerate().filter(|(_, r)| r.go_ahead).map(|(i, _)| i).nth(k) else {
        return Err("a message is handed over for which no go-ahead was due".into());
    };
    let got = replies(&o.out)?;
    if got.len() < g + 1 {
        return Err("a message is handed over before its go-ahead".into());
    }
    for (i, w) in x.replies[..=g].iter().enumerate() {
        let (code, text) = &got[i];
        if *code != w.code || w.text.as_ref().is_some_and(|t| t != text) {
            return Err(format!("reply {i} is {code} {}, expected {}", show(text), w.what));
        }
    }
    let extra = &got[g + 1..];
    let accepted = c.texts.reply(MAIL_ACCEPTED);
    if extra.len() > 1 || extra.iter().any(|(code, t)| *code < 400 || (*code == accepted.0 && accepted.1.as_ref().is_none_or(|a| a == t))) {
        return Err(format!(
            "after a message whose end was not confirmed the client is told {}",
            extra.iter().map(|(c, t)| format!("{c} {}", show(t))).collect::<Vec<_>>().join(", ")
        ));
    }
    if extra.is_empty() && o.end == Ok(Ok(())) && o.delivered < raw.len() {
        ctx.label("session closed quietly");
    }
    Ok(())
}

// ------------------------------------------------------------------ several sessions at once

/// Sessions served by one thread in turns.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Crowd {
    s: Vec<Sess>,
    /// which of the woken sessions runs next, cyclic
    turns: Vec<u8>,
    /// sessions abandoned after so many polls (0: never)
    leave: Vec<u8>,
    /// sessions whose application panics in that call (0: never)
    #[serde(default)]
    die: Vec<u8>,
}
impl Crowd {
    fn die(&self, i: usize) -> Option<u32> {
        self.die.get(i).filter(|d| **d > 0).map(|d| u32::from(*d) - 1)
    }
}
struct Flag(std::sync::atomic::AtomicBool);
impl std::task::Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, std::sync::atomic::Ordering::Relaxed);
    }
}
/// What nothing but a session's own input and configuration may decide.
fn as_expected(c: &Sess, raw: &[u8], o: &Obs) -> R {
    let x = model(c, raw);
    ended_well(o)?;
    cmp_replies(&x.replies, &o.out)?;
    cmp_evs(&x.evs, &o.evs, all, true, true)
}
/// Sessions served by one thread each, at the same time.
fn c37_threads(c: &Crowd, ctx: &mut Ctx) -> R {
    let raws: Vec<Vec<u8>> = c.s.iter().map(|s| s.raw()).collect();
    let all: Vec<Result<Obs, String>> = std::thread::scope(|t| {
        let start = Arc::new(std::sync::Barrier::new(c.s.len()));
        let hs: Vec<_> = c
            .s
            .iter()
            .zip(&raws)
            .enumerate()
            .map(|(i, (s, r))| {
                let start = start.clone();
                let die = c.die(i);
                t.spawn(move || {
                    start.wait();
                    catch(|| run(Run { die, ..plain(s, r) }))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic while a thread ends".into()))).collect()
    });
    if all.iter().filter(|o| o.as_ref().is_ok_and(|o| o.evs.len() > 2)).count() > 1 {
        ctx.nontrivial();
    }
    for (i, (s, (o, r))) in c.s.iter().zip(all.into_iter().zip(&raws)).enumerate() {
        if o.as_ref().is_ok_and(|o| o.end.as_ref().is_err_and(|p| p.contains(SCRIPTED))) {
            ctx.label("one application panics");
            continue;
        }
        o.and_then(|o| as_expected(s, r, &o)).map_err(|e| format!("session {i} of {} served by threads of their own: {e}", c.s.len()))?;
    }
    Ok(())
}
fn c37(c: &Crowd, ctx: &mut Ctx) -> R {
    fresh(|| c37_turns(c, ctx))
}
fn c37_turns(c: &Crowd, ctx: &mut Ctx) -> R {
    use std::sync::atomic::Ordering::Relaxed;
    let raws: Vec<Vec<u8>> = c.s.iter().map(|s| s.raw()).collect();
    // nothing is shared with a thread that serves this session only
    let alone: Vec<Obs> = c.s.iter().zip(&raws).map(|(s, r)| fresh(|| Ok(run(plain(s, r))))).collect::<Result<_, _>>()?;
    for (i, (s, (o, r))) in c.s.iter().zip(alone.iter().zip(&raws)).enumerate() {
        as_expected(s, r, o).map_err(|e| format!("session {i} of {}, after others: {e}", c.s.len()))?;
    }
    if alone.iter().filter(|o| o.evs.len() > 2).count() > 1 {
        ctx.nontrivial();
    }
    let mut all: Vec<(Option<Session>, Watch, Arc<Flag>, usize)> = c
        .s
        .iter()
        .zip(&raws)
        .enumerate()
        .map(|(i, (s, r))| {
            let (f, w) = session(Run { die: c.die(i), ..plain(s, r) });
            (Some(f), w, Arc::new(Flag(true.into())), 0)
        })
        .collect();
    let mut ends: Vec<Option<Result<Result<(), ()>, String>>> = all.iter().map(|_| None).collect();
    let mut left = vec![false; all.len()];
    for turn in 0.. {
        let awake: Vec<usize> = (0..all.len()).filter(|i| all[*i].0.is_some() && all[*i].2 .0.load(Relaxed)).collect();
        if awake.is_empty() {
            break;
        }
        if turn > crate::exec::MAX_POLLS {
            return Err("the sessions spin without making progress".into());
        }
        let i = awake[c.turns.get(turn % c.turns.len().max(1)).map_or(turn, |t| *t as usize) % awake.len()];
        let (f, _, flag, polls) = &mut all[i];
        *polls += 1;
        if c.leave.get(i).is_some_and(|l| *l > 0 && *polls > *l as usize) {
            left[i] = true;
            let gone = f.take();
            catch(move || drop(gone)).map_err(|p| format!("abandoning session {i} of {}: {p}", c.s.len()))?;
            continue;
        }
        *flag = Arc::new(Flag(false.into()));
        let waker = std::task::Waker::from(flag.clone());
        let r = catch(|| f.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker)));
        match r {
            Ok(Poll::Pending) => {
                crate::clock::stall(turn);
                continue;
            }
            Ok(Poll::Ready(r)) => ends[i] = Some(Ok(r)),
            Err(p) if p.contains(SCRIPTED) => {
                ctx.label("one application panics");
                left[i] = true;
            }
            Err(p) => ends[i] = Some(Err(p)),
        }
        let gone = f.take();
        let _ = catch(move || drop(gone));
    }
    for (i, a) in alone.iter().enumerate() {
        let who = |m: String| Err(format!("session {i} of {} served in turns: {m}", alone.len()));
        let stuck = ends[i].is_none() && !left[i];
        let o = all[i].1.obs(ends[i].take().unwrap_or(Err(ASLEEP.into())), stuck);
        if left[i] {
            ctx.label("one session is abandoned");
            // what it did until then is the beginning of what it does alone
            if !a.out.starts_with(&o.out) || o.evs.len() > a.evs.len() || o.evs.iter().zip(&a.evs).any(|(x, y)| x.ev != y.ev) {
                return who("what it does before it is abandoned is not what it does alone".into());
            }
            continue;
        }
        if o.end != a.end {
            return who(format!("it ends with {:?}, alone with {:?}", o.end, a.end));
        }
        if o.out != a.out {
            let n = o.out.iter().zip(&a.out).take_while(|(x, y)| x == y).count().saturating_sub(40);
            return who(format!("it says {}, alone {}", show(&o.out[n..]), show(&a.out[n..])));
        }
        for k in 0..o.evs.len().max(a.evs.len()) {
            let (x, y) = (o.evs.get(k).map(|l| &l.ev), a.evs.get(k).map(|l| &l.ev));
            if x != y {
                let s = |e: Option<&Ev>| e.map(|e| e.show()).unwrap_or("nothing".into());
                return who(format!("application call {k} is {}, alone {}", s(x), s(y)));
            }
        }
    }
    Ok(())
}

/// Content reaches the application while the message is still arriving.
fn c38_session(c: &Sess, ctx: &mut Ctx) -> R {
    let raw = c.raw();
    let o = run(plain(c, &raw));
    // where the contents begin: after the command lines that were answered with a go-ahead
    let x = model(c, &raw);
    let goes: Vec<usize> = x.replies.iter().filter(|r| r.go_ahead).map(|r| r.due).collect();
    for (delivered, _, content) in &o.asks {
        let got = &raw[..*delivered];
        let mut want = 0;
        for g in goes.iter().filter(|g| **g < got.len()) {
            let (c, used) = ref_decode(&got[*g..]);
            want += if used.is_some() { c.len() } else { c.len().saturating_sub(HELD) };
            if used.is_none() && !c.is_empty() {
                ctx.nontrivial();
            }
        }
        if *content < want {
            return Err(format!(
                "the server waits for more input after {delivered} bytes; {content} bytes of content have reached the application, {want} have arrived: {}",
                show(got)
            ));
        }
    }
    Ok(())
}
/// How many bytes may be kept back because they may belong to the terminator line.
pub const HELD: usize = 5;

/// Abandoning a session at each of its suspension points.
fn c39(c: &Sess, ctx: &mut Ctx) -> R {
    let raw = c.raw();
    let base = run(plain(c, &raw));
    if base.evs.len() > 2 {
        ctx.nontrivial();
    }
    let mut polls = 0usize;
    let mut step = 1;
    let mut points = 0u64;
    loop {
        let (f, w) = session(plain(c, &raw));
        let mut f = Some(f);
        let mut done = false;
        for n in 0..polls {
            let waker = std::task::Waker::from(Arc::new(Flag(false.into())));
            match catch(|| f.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker))) {
                Ok(Poll::Pending) => crate::clock::stall(n),
                _ => {
                    done = true;
                    break;
                }
            }
        }
        let before = w.obs(Ok(Ok(())), false);
        catch(move || drop(f.take())).map_err(|p| format!("abandoned after {polls} polls: {p}"))?;
        let after = w.obs(Ok(Ok(())), false);
        if done {
            break;
        }
        points += 1;
        let at = |m: &str| Err(format!("session abandoned after {polls} polls: {m}"));
        if after.evs.len() != before.evs.len() {
            return at(&format!("the application is still called: {}", after.evs[before.evs.len()].ev.show()));
        }
        if after.out.len() != before.out.len() || after.ops != before.ops {
            return at("the output is still used");
        }
        if !base.out.starts_with(&after.out) {
            return at("what was written before is not what the whole session writes");
        }
        for (i, l) in after.evs.iter().enumerate() {
            if base.evs.get(i).map(|b| &b.ev) != Some(&l.ev) {
                return at(&format!("application call {i} is not that of the whole session: {}", l.ev.show()));
            }
        }
        polls += step;
        if points % 60 == 0 {
            step *= 2;
        }
    }
    ctx.add("suspension points", points);
    Ok(())
}

/// The application panics in each of its calls: the end of the session, and of nothing else.
fn c39_panics(c: &Sess, ctx: &mut Ctx) -> R {
    let raw = c.raw();
    let base = run(plain(c, &raw));
    if base.evs.len() > 2 {
        ctx.nontrivial();
    }
    let (mut k, mut step, mut points) = (0u32, 1, 0u64);
    loop {
        let (f, w) = session(Run { die: Some(k), ..plain(c, &raw) });
        let end = catch(move || block(f));
        let Some((ops, len, calls)) = *w.died.lock().unwrap() else { break };
        points += 1;
        let at = |m: &str| Err(format!("the application panics in call {k}: {m}"));
        let o = w.obs(Ok(Ok(())), false);
        match end {
            Err(p) if p.contains(SCRIPTED) => {}
            Err(p) => return at(&format!("another panic follows: {p}")),
            Ok(r) => return at(&format!("the session goes on and ends with {r:?}")),
        }
        if o.evs.len() != calls {
            return at(&format!("the application is still called: {}", o.evs[calls].ev.show()));
        }
        if o.out.len() != len || o.ops as u64 != ops {
            return at("the output is still used");
        }
        if !base.out.starts_with(&o.out) {
            return at("what was written before is not what the whole session writes");
        }
        for (i, l) in o.evs.iter().enumerate() {
            if base.evs.get(i).map(|b| &b.ev) != Some(&l.ev) {
                return at(&format!("application call {i} is not that of the whole session: {}", l.ev.show()));
            }
        }
        k += step;
        if points % 60 == 0 {
            step *= 2;
        }
    }
    ctx.add("calls that panic", points);
    Ok(())
}

// ------------------------------------------------------------------ generators

fn crowd() -> BoxedStrategy<Crowd> {
    (vec(prop_oneof![2 => sess_small(), 1 => sess()], 2..5), vec(any::<u8>(), 0..20), prop_oneof![2 => Just(vec![]), 1 => vec(prop_oneof![1 => Just(0u8), 2 => 0u8..40], 1..4)], dying())
        .prop_map(|(mut s, turns, leave, die)| {
            for s in &mut s {
                // something to take turns about
                if s.ins.0.is_empty() {
                    s.ins = Stalls(vec![1, 0]);
                }
            }
            Crowd { s, turns, leave, die }
        })
        .boxed()
}
fn dying() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![3 => Just(vec![]), 1 => vec(prop_oneof![1 => Just(0u8), 2 => 0u8..14], 1..4)].boxed()
}
/// So many sessions in one program's life that anything they leave behind adds up.
fn long_life() -> BoxedStrategy<Crowd> {
    (vec(sess_small(), 1..4), 20usize..400, vec(any::<u8>(), 0..9), vec(prop_oneof![1 => Just(0u8), 2 => 1u8..12], 1..4), dying())
        .prop_map(|(mut kinds, n, turns, leave, die)| {
            for s in &mut kinds {
                if s.ins.0.is_empty() {
                    s.ins = Stalls(vec![1, 0]);
                }
            }
            let s: Vec<Sess> = (0..n).map(|i| kinds[i % kinds.len()].clone()).collect();
            // the last ones stay
            let die = (0..n).map(|i| if i + 3 > n || die.is_empty() { 0 } else { die[i % die.len()] }).collect();
            let leave = (0..n).map(|i| if i + 3 > n { 0 } else { leave[i % leave.len()] }).collect();
            Crowd { s, turns, leave, die }
        })
        .boxed()
}
fn stally(s: BoxedStrategy<Sess>) -> BoxedStrategy<Sess> {
    (s, vec(0u8..2, 1..4), vec(0u8..2, 1..4), vec(0u8..2, 1..4))
        .prop_map(|(mut s, a, b, c)| {
            (s.ins, s.outs, s.apps) = (Stalls(a), Stalls(b), Stalls(c));
            s
        })
        .boxed()
}

fn pool_mbox() -> BoxedStrategy<B> {
    select(crate::lits![
        b"a@b",
        b"foo@bar.example.org",
        b"baz@quux.example.org",
        b"postmaster",
        b"x.y+z@[1.2.3.4]",
        b"u@[IPv6:2001:db8:0:0:0:0:0:1]",
        b"\"quoted \\\" @ local\"@ex.org",
        b"A@b",
        b"foo2@bar.example.org",
        b"\"a\"@b"
    ].to_vec())
    .prop_map(|b| B(b.to_vec()))
    .boxed()
}
/// mailboxes made of words the code mentions
fn dict_mbox() -> BoxedStrategy<B> {
    let w = || dict::word(Just(b"a".to_vec()), |w| w.iter().all(u8::is_ascii_alphanumeric));
    (w(), proptest::option::weighted(0.8, w())).prop_map(|(l, d)| B(d.map_or(l.clone(), |d| [&l[..], b"@", &d].concat()))).boxed()
}
fn any_mbox() -> BoxedStrategy<B> {
    prop_oneof![9 => pool_mbox(), 3 => gen::mbox(), 1 => dict_mbox()].boxed()
}

fn reply_text() -> BoxedStrategy<B> {
    let len = prop_oneof![
        8 => 1usize..40,
        1 => Just(0usize),
        2 => (1usize..5, 0usize..7).prop_map(|(k, d)| k * 506 + d - 3),
        1 => (select(vec![128usize, 255, 256, 500, 512, 1000, 1024, 2048, 4096]), 0usize..5).prop_map(|(k, d)| k + d - 2),
        1 => dict::len(40usize..1500, 0, 20_000),
    ];
    (len, select(b"xyz 0A\t-.~".to_vec()), vec(prop_oneof![9 => 32u8..127, 1 => Just(9u8)], 0..12), any::<bool>())
        .prop_map(|(n, f, s, front)| {
            let mut v = vec![f; n];
            // unfilled texts vary along their length, so that lost or swapped pieces show
            for (i, b) in v.iter_mut().enumerate() {
                if i % 7 == 3 {
                    *b = b'a' + (i / 7 % 26) as u8;
                }
            }
            let k = s.len().min(n);
            let at = if front { 0 } else { n - k };
            v[at..at + k].copy_from_slice(&s[..k]);
            B(v)
        })
        .boxed()
}
fn short_text() -> BoxedStrategy<B> {
    dict::word(vec(prop_oneof![9 => 32u8..127, 1 => Just(9u8)], 1..12), |w| w.iter().all(|c| *c == 9 || (32..127).contains(c))).prop_map(B).boxed()
}
fn code_or(lo: u16, hi: u16) -> BoxedStrategy<u16> {
    dict::len(lo as usize..hi as usize, lo as usize, hi as usize - 1).prop_map(|n| n as u16).boxed()
}
/// a server that bears a name which clients use, too
fn own_name() -> BoxedStrategy<B> {
    select(crate::lits![b"b", b"B", b"bar.example.org", b"quux.example.org", b"ex.org", b"x", b"client.example", b"[1.2.3.4]", b"localhost", b"y", b"z"].to_vec()).prop_map(|b| B(b.to_vec())).boxed()
}
fn texts(long: bool) -> BoxedStrategy<Texts> {
    let text = if long { reply_text() } else { prop_oneof![9 => short_text(), 1 => reply_text()].boxed() };
    let code = prop_oneof![5 => code_or(200, 600), 1 => select(vec![250u16, 354, 220, 500, 503, 421, 550])];
    (
        if long { prop_oneof![1 => Just(0u8), 2 => Just(1), 5 => Just(2)].boxed() } else { prop_oneof![1 => Just(0u8), 1 => Just(1), 3 => Just(2)].boxed() },
        if long { reply_text() } else { prop_oneof![3 => short_text(), 2 => own_name()].boxed() },
        if long { reply_text() } else { short_text() },
        vec((code, text), TEXTS..=TEXTS),
        any::<bool>(),
    )
        .prop_map(|(flavour, host, banner, mut t, distinct)| {
            if distinct {
                // make the replies pairwise different, so that a mix-up shows
                for (i, (_, t)) in t.iter_mut().enumerate() {
                    if !t.is_empty() {
                        t.0[0] = b'A' + i as u8;
                    }
                }
            }
            Texts { flavour, host, banner, t }
        })
        .boxed()
}

fn refusal() -> BoxedStrategy<(u16, B)> {
    (prop_oneof![4 => code_or(400, 600), 1 => Just(550u16), 1 => code_or(200, 400)], prop_oneof![6 => short_text(), 1 => reply_text()]).boxed()
}
fn acts(env: bool, addr: bool, reject: f64) -> BoxedStrategy<Vec<Act>> {
    let op = prop_oneof![
        1 => Just(EnvOp::ClearTo),
        1 => Just(EnvOp::PopTo),
        2 => pool_mbox().prop_map(EnvOp::PushTo),
        1 => proptest::option::of(pool_mbox()).prop_map(EnvOp::SetFrom),
    ];
    let a = (
        proptest::option::weighted(reject, refusal()),
        proptest::option::weighted(0.25, proptest::option::weighted(0.8, any_mbox())).prop_map(move |a| if addr { a } else { None }),
        prop_oneof![5 => Just(vec![]), 1 => vec(op, 1..3)].prop_map(move |e| if env { e } else { vec![] }),
    )
        .prop_map(|(reject, addr, env)| Act { reject, addr, env });
    prop_oneof![2 => Just(vec![]), 3 => vec(a, 1..5)].boxed()
}
fn policy() -> BoxedStrategy<Policy> {
    (acts(false, true, 0.3), acts(true, true, 0.3), acts(true, false, 0.3), acts(false, false, 0.4))
        .prop_map(|(from, to, data, mail)| Policy { from, to, data, mail })
        .boxed()
}
fn valid(p: Policy) -> Policy {
    // mailboxes the policy sets must be ones the grammar is sure about
    let mut p = p;
    for v in [&mut p.from, &mut p.to, &mut p.data, &mut p.mail] {
        for a in v.iter_mut() {
            if let Some(Some(b)) = &a.addr {
                if !matches!(grammar::mailbox(b), V::Must(_)) {
                    a.addr = None;
                }
            }
        }
    }
    p
}

fn simple(v: &'static [u8]) -> Step {
    Step::Raw(B(v.to_vec()))
}
fn body() -> BoxedStrategy<B> {
    prop_oneof![
        1 => vec(dict::word(Just(b"\r\n".to_vec()), |_| true), 0..6).prop_map(|v| B(v.concat())),
        2 => select(crate::lits![b"", b"hello\r\n", b".\r\n", b"hello", b"..\r\n.\r\n", b"\r\n", b".", b"QUIT\r\n"].to_vec()).prop_map(|b| B(b.to_vec())),
        2 => crate::data::content().prop_map(B),
        1 => select(crate::lits![
            b"MAIL FROM:<evil@x>\r\nRCPT TO:<victim@x>\r\nDATA\r\nsmuggled\r\n.\r\n",
            b"x\r\n.\r\n.\r\nDATA\r\n",
            b"RCPT TO:<a@b>\r\nRSET\r\n",
            b"x\n.\nMAIL FROM:<evil@x>\r\n",
            b"x\r.\rQUIT\r\n"
        ].to_vec()).prop_map(|b| B(b.to_vec())),
    ]
    .boxed()
}
fn mail_line() -> BoxedStrategy<Step> {
    prop_oneof![
        3 => prop_oneof![5 => Just(B(vec![])), 5 => pool_mbox(), 1 => dict_mbox()].prop_map(|b| Step::Raw(B([&b"MAIL FROM:<"[..], &b, b">\r\n"].concat()))),
        1 => gen::cmd_path().prop_map(|c| match c {
            CmdSpec::Path { case, after, path, params, end, .. } => Step::Cmd(CmdSpec::Path { rcpt: false, case, after, path, params, end }),
            o => Step::Cmd(o),
        }),
    ]
    .boxed()
}
fn rcpt_line() -> BoxedStrategy<Step> {
    prop_oneof![
        3 => prop_oneof![10 => pool_mbox(), 1 => dict_mbox()].prop_map(|b| Step::Raw(B([&b"RCPT TO:<"[..], &b, b">\r\n"].concat()))),
        1 => gen::cmd_path().prop_map(|c| match c {
            CmdSpec::Path { case, after, path, params, end, .. } => Step::Cmd(CmdSpec::Path { rcpt: true, case, after, path, params, end }),
            o => Step::Cmd(o),
        }),
    ]
    .boxed()
}
fn step() -> BoxedStrategy<Step> {
    let tx = (prop_oneof![2 => Just(B(vec![])), 8 => pool_mbox(), 1 => dict_mbox()], prop_oneof![12 => vec(pool_mbox(), 0..5), 1 => vec(dict_mbox(), 1..3), 1 => dict::len(0usize..8, 0, 60).prop_flat_map(|n| vec(pool_mbox(), n))], body())
        .prop_map(|(from, tos, body)| Step::Tx { from, tos, body });
    prop_oneof![
        5 => tx,
        4 => mail_line(),
        6 => rcpt_line(),
        4 => select(vec![&b"DATA\r\n"[..], &b"data \r\n"[..]]).prop_map(simple),
        4 => body().prop_map(Step::Body),
        4 => gen::cmd().prop_map(Step::Cmd),
        3 => select(crate::lits![
            b"RSET\r\n", b"QUIT\r\n", b"NOOP\r\n", b"HELP\r\n", b"EHLO client.example\r\n", b"HELO x\r\n", b"ehlo b\r\n", b"EHLO [1.2.3.4]\r\n", b"VRFY a\r\n", b"EXPN l\r\n",
            b"\r\n", b"DATA x\r\n", b"XYZZY\r\n", b"MAIL\r\n", b"RCPT TO:\r\n", b".\r\n", b"STARTTLS\r\n", b"DATA\n\r\n", b"\n", b"\r", b"RCPT TO:<>\r\n",
            b"MAIL FROM:<a@b> \r\n", b"\0\r\n", b"\xff\xfe\r\n", b"AUTH PLAIN\r\n", b"data\r\n", b"BDAT 3\r\n", b"mail from:<>\r\n"
        ].to_vec()).prop_map(simple),
        1 => gen::mutant().prop_map(|m| Step::Raw(B(m.bytes()))),
        1 => (dict::word(Just(b"NOOP".to_vec()), |w| !w.contains(&b'\n')), select(crate::lits![b"", b" x", b":<a@b>"].to_vec())).prop_map(|(w, e)| Step::Raw(B([&w[..], e, b"\r\n"].concat()))),
        1 => vec(prop_oneof![mail_line(), rcpt_line()], 1..4).prop_map(|s| Step::Rep(2, s)),
    ]
    .boxed()
}
/// well-behaved transactions with little noise, so that most sessions carry messages
fn orderly() -> BoxedStrategy<Vec<Step>> {
    let noise = prop_oneof![
        6 => Just(vec![]),
        1 => step().prop_map(|s| vec![s]),
        1 => select(crate::lits![b"NOOP\r\n", b"RSET\r\n", b"garbage\r\n", b"DATA x\r\n", b"MAIL FROM:<late@x>\r\n"].to_vec()).prop_map(|s| vec![simple(s)]),
    ]
    .boxed();
    let tx = (mail_line(), noise.clone(), vec((rcpt_line(), noise.clone()), 1..5), body(), any::<bool>(), noise).prop_map(|(m, n1, rs, body, early, n2)| {
        let mut v = vec![m];
        v.extend(n1);
        if early {
            v.push(simple(b"DATA\r\n"));
        }
        for (r, n) in rs {
            v.push(r);
            v.extend(n);
        }
        v.push(simple(b"DATA\r\n"));
        v.push(Step::Body(body));
        v.extend(n2);
        v
    });
    vec(tx, 1..5).prop_map(|v| v.concat()).boxed()
}
fn steps() -> BoxedStrategy<Vec<Step>> {
    prop_oneof![2 => vec(step(), 0..16), 3 => orderly()].boxed()
}
/// many recipients, many transactions, many errors, large contents
fn big_steps() -> BoxedStrategy<Vec<Step>> {
    let count = prop_oneof![
        2 => (select(vec![8u16, 10, 16, 20, 32, 50, 64, 100, 128, 200, 255, 256, 500, 512]), 0u16..3).prop_map(|(a, b)| a + b),
        1 => dict::len(2usize..700, 1, 2500).prop_map(|n| n as u16),
        1 => select(vec![1000u16, 1024, 1200]),
    ];
    let tx = || Step::Tx { from: B(b"s@x".to_vec()), tos: vec![B(b"r@y".to_vec())], body: B(b"hi\r\n".to_vec()) };
    let seg = prop_oneof![
        3 => (count.clone(), rcpt_line()).prop_map(|(n, r)| vec![simple(b"MAIL FROM:<a@b>\r\n"), Step::Rep(n, vec![r]), simple(b"RCPT TO:<last@z>\r\nDATA\r\n"), Step::Body(B(b"to many\r\n".to_vec()))]),
        2 => count.clone().prop_map(move |n| vec![Step::Rep(n / 2, vec![tx()])]),
        2 => (count.clone(), step()).prop_map(|(n, s)| match s {
            Step::Rep(_, s) => vec![Step::Rep(n / s.len() as u16, s)],
            s => vec![Step::Rep(n, vec![s])],
        }),
        2 => (count, prop_oneof![Just(simple(b"junk\r\n")), Just(simple(b"RSET\r\n")), Just(simple(b"DATA\r\n")), Just(simple(b"RCPT TO:<a@b>\r\n")), Just(simple(b"\r\n"))])
            .prop_map(|(n, s)| vec![Step::Rep(n, vec![s])]),
        2 => (prop_oneof![4 => 1000usize..20_000, 1 => dict::len(20_000usize..120_000, 100, 400_000)], select(vec![&b"line of text\r\n"[..], b".", b"x", b"\r\n", b"\r\n.", b"..\r\n", b"\r"])).prop_map(|(n, f)| {
            let mut b = f.repeat(n / f.len() + 1);
            b.truncate(n);
            vec![simple(b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n"), Step::Body(B(b))]
        }),
        1 => gen::large_cmd().prop_map(|c| vec![Step::Raw(B(c.render()))]),
        1 => (gen::large_mbox(), gen::large_mbox()).prop_map(|(from, to)| vec![Step::Tx { from, tos: vec![to.clone(), to], body: B(b"hi\r\n".to_vec()) }]),
        1 => (dict::len(500usize..40_000, 10, 80_000), select(vec![&b"NOOP "[..], b"MAIL FROM:<", b"", b"RCPT TO:<a@b> X="])).prop_map(|(n, p)| vec![Step::Raw(B([p, &vec![b'x'; n], b"\r\n"].concat()))]),
    ];
    vec(prop_oneof![3 => seg, 1 => step().prop_map(|s| vec![s])], 1..4).prop_map(|v| v.concat()).boxed()
}
fn tail() -> BoxedStrategy<B> {
    prop_oneof![
        4 => Just(B(vec![])),
        1 => select(crate::lits![b"QUIT", b"MAIL FROM:<a@b>\r", b"DATA", b"\r", b"x\n", b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\nhalf a mess", b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n.\r"].to_vec()).prop_map(|b| B(b.to_vec())),
    ]
    .boxed()
}
fn sess_of(steps: BoxedStrategy<Vec<Step>>, texts: BoxedStrategy<Texts>, chunks: BoxedStrategy<Chunks>) -> BoxedStrategy<Sess> {
    (steps, tail(), prop_oneof![1 => Just(Policy::default()), 3 => policy()], texts, chunks, (io::stalls(), io::stalls(), io::stalls()))
        .prop_map(|(steps, tail, pol, texts, chunks, (ins, outs, apps))| Sess { steps, tail, pol: valid(pol), texts, chunks, ins, outs, apps })
        .boxed()
}
fn big_chunks() -> BoxedStrategy<Chunks> {
    let sizes = prop_oneof![
        2 => Just(vec![]),
        3 => vec(prop_oneof![select(vec![64u16, 100, 512, 1000, 1024, 1460, 4096, 8192, 16384, 65535]), dict::len(100usize..5000, 60, 65535).prop_map(|n| n as u16)], 1..5),
        1 => Just(vec![17u16, 300]),
    ];
    (sizes, 0u8..4, io::empties()).prop_map(|(sizes, repr, empties)| Chunks { sizes, repr, empties }).boxed()
}
fn sess() -> BoxedStrategy<Sess> {
    sess_of(steps(), texts(false), io::chunks().boxed())
}
fn sess_orderly() -> BoxedStrategy<Sess> {
    sess_of(orderly(), texts(false), io::chunks().boxed())
}
fn sess_texts() -> BoxedStrategy<Sess> {
    sess_of(steps(), texts(true), io::chunks().boxed())
}
fn sess_big() -> BoxedStrategy<Sess> {
    sess_of(big_steps(), texts(false), big_chunks())
}
fn sess_small() -> BoxedStrategy<Sess> {
    sess_of(prop_oneof![1 => vec(step(), 0..6), 2 => orderly().prop_map(|mut v| { v.truncate(14); v })].boxed(), texts(false), io::chunks().boxed())
}
fn sess_bytes() -> BoxedStrategy<Sess> {
    // byte soup in and around commands and contents
    let soup = prop_oneof![
        3 => vec(prop_oneof![
            2 => gen::token(),
            1 => select(crate::lits![b"\r\n", b"\r", b"\n", b"DATA\r\n", b"MAIL FROM:<a@b>\r\n", b"RCPT TO:<c@d>\r\n", b".\r\n", b"\r\n.\r\n", b"\0", b"\xff", b"."].to_vec()).prop_map(|b| B(b.to_vec())),
        ], 0..40).prop_map(|v| v.iter().flat_map(|b| b.0.clone()).collect::<Vec<u8>>()),
        1 => vec(any::<u8>(), 0..200),
        2 => (steps(), vec(gen::edit(), 1..6)).prop_map(|(s, es)| {
            let mut o = vec![];
            for s in &s { s.put(&mut o); }
            for e in &es { gen::apply(&mut o, e); }
            o
        }),
    ]
    .prop_map(|b| vec![Step::Raw(B(b))]);
    sess_of(prop_oneof![2 => soup, 1 => steps()].boxed(), texts(false), io::chunks().boxed())
}
fn two(s: BoxedStrategy<Sess>, big: bool) -> BoxedStrategy<Two> {
    let ch = if big { big_chunks() } else { io::chunks().boxed() };
    (s, ch, io::stalls(), io::stalls(), io::stalls()).prop_map(|(s, c, i, o, a)| Two { s, other: (c, i, o, a) }).boxed()
}
fn lazy() -> BoxedStrategy<Lazy> {
    let evil = prop_oneof![
        2 => body(),
        2 => (crate::data::content(), select(crate::lits![
            b"MAIL FROM:<evil@x>\r\nRCPT TO:<victim@x>\r\nDATA\r\nsmuggled\r\n",
            b"QUIT\r\nNOOP\r\n",
            b"MAIL FROM:<evil@x>\r\n",
            b"RSET\r\nMAIL FROM:<e@x>\r\nRCPT TO:<v@x>\r\n"
        ].to_vec())).prop_map(|(c, e)| B([&c[..], b"\r\n", e].concat())),
    ];
    let read = prop_oneof![2 => Just(Read::Full), 3 => (0u8..6).prop_map(Read::Stop), 2 => Just(Read::NoConfirm), 2 => (0u8..5).prop_map(Read::ConfirmAfter)];
    let tx = (pool_mbox(), vec(pool_mbox(), 1..3), evil).prop_map(|(from, tos, body)| Step::Tx { from, tos, body });
    let steps = vec(prop_oneof![4 => tx, 1 => step()], 1..5).boxed();
    (sess_of(steps, texts(false), io::chunks().boxed()), vec(read, 1..4))
        .prop_map(|(s, reads)| Lazy { s, reads })
        .boxed()
}

// ------------------------------------------------------------------ bounded-exhaustive command sequences

/// All sequences of a small command alphabet up to a length, with fixed small policies.
fn gen_sequences(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(Sess) -> bool) {
    const ALPHA: [&[u8]; 8] = [
        b"MAIL FROM:<a@b>\r\n",
        b"RCPT TO:<c@d>\r\n",
        b"RCPT TO:<e@f>\r\n",
        b"DATA\r\n",
        b"DATA\r\nbody\r\n.\r\n",
        b"RSET\r\n",
        b"junk\r\n",
        b"MAIL FROM:<>\r\n",
    ];
    let max = if tier == Tier::Quick { 6 } else { 7 };
    let rej = |n: u16| Act { reject: Some((n, B(b"no".to_vec()))), ..Act::default() };
    let ok = Act::default;
    let policies = [
        Policy::default(),
        Policy { from: vec![rej(551), ok()], to: vec![rej(552), ok()], data: vec![rej(553), ok()], mail: vec![rej(554), ok()] },
        Policy {
            from: vec![Act { addr: Some(Some(B(b"re@written".to_vec()))), ..ok() }],
            to: vec![ok(), rej(552), Act { addr: Some(Some(B(b"al@ias".to_vec()))), ..ok() }],
            data: vec![ok(), rej(553)],
            mail: vec![ok(), rej(554)],
        },
    ];
    let mut idx = 0usize;
    for len in 0..=max {
        let total = 8usize.pow(len);
        for code in 0..total {
            for (pi, pol) in policies.iter().enumerate() {
                idx += 1;
                if idx % shards != shard {
                    continue;
                }
                let mut steps = vec![];
                let mut x = code;
                for _ in 0..len {
                    steps.push(Step::Raw(B(ALPHA[x % 8].to_vec())));
                    x /= 8;
                }
                let t: Vec<(u16, B)> = (0..TEXTS).map(|i| (200 + 10 * i as u16, B(NAMES[i].as_bytes().to_vec()))).collect();
                let s = Sess {
                    steps,
                    tail: B(vec![]),
                    pol: pol.clone(),
                    texts: Texts { flavour: 2, host: B(b"h".to_vec()), banner: B(b"b".to_vec()), t },
                    chunks: Chunks { sizes: if pi == 1 { vec![3, 0, 5] } else { vec![] }, repr: (code % 4) as u8, empties: (0, 0) },
                    ins: Stalls::default(),
                    outs: Stalls::default(),
                    apps: Stalls(if pi == 2 { vec![1, 0] } else { vec![] }),
                };
                if !f(s) {
                    return;
                }
            }
        }
    }
}
/// Every text length around the multiples of the line limit.
fn gen_texts(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(Sess) -> bool) {
    let max = if tier == Tier::Quick { 2200 } else { 6200 };
    for n in (0..max).filter(|n| n % shards == shard) {
        let text: Vec<u8> = (0..n).map(|i| b' ' + ((i * 7 + i / 95) % 95) as u8).collect();
        let which = n % 14;
        let mut t: Vec<(u16, B)> = (0..TEXTS).map(|i| (200 + 10 * i as u16, B(NAMES[i].as_bytes().to_vec()))).collect();
        let mut pol = Policy::default();
        if which < TEXTS {
            t[which].1 = B(text);
        } else {
            pol.to = vec![Act { reject: Some((550, B(text))), ..Act::default() }, Act::default()];
        }
        let s = Sess {
            steps: vec![
                simple(b"junk\r\nDATA\r\nRCPT TO:<a@b>\r\nMAIL FROM:<a@b>\r\nMAIL FROM:<a@b>\r\nDATA\r\nNOOP\r\nRCPT TO:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n"),
                Step::Body(B(b"x".to_vec())),
                simple(b"QUIT\r\n"),
            ],
            tail: B(vec![]),
            pol,
            texts: Texts { flavour: 2, host: B(b"h".to_vec()), banner: B(b"b".to_vec()), t },
            chunks: Chunks::default(),
            ins: Stalls::default(),
            outs: Stalls(if n % 3 == 0 { vec![1] } else { vec![] }),
            apps: Stalls::default(),
        };
        if !f(s) {
            return;
        }
    }
}

/// More of everything than 16 bits can count.
fn gen_endurance(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(Sess) -> bool) {
    let rep = |s: Vec<Step>, n: u16| Step::Rep(260, vec![Step::Rep(n, s)]);
    let one = |b: &'static [u8]| vec![simple(b)];
    let no = |code: u16| Act { reject: Some((code, B(b"no".to_vec()))), ..Act::default() };
    let tx = |body: &[u8]| Step::Tx { from: B(b"s@x".to_vec()), tos: vec![B(b"r@y".to_vec())], body: B(body.to_vec()) };
    let none = Policy::default();
    let open = simple(b"MAIL FROM:<a@b>\r\n");
    let end = || simple(b"RSET\r\nRCPT TO:<late@z>\r\nDATA\r\nlate\r\n.\r\nNOOP\r\n");
    let long = |n: usize| B((0..n).map(|i| b' ' + ((i * 7 + i / 95) % 95) as u8).collect());
    let mut list: Vec<(Vec<Step>, Policy, Option<B>)> = vec![
        (vec![rep(one(b"junk\r\n"), 255), open.clone(), end()], none.clone(), None),
        (vec![rep(one(b"\r\n"), 255), open.clone(), end()], none.clone(), None),
        (vec![open.clone(), rep(one(b"NOOP\r\n"), 255), end()], none.clone(), None),
        (vec![open.clone(), rep(one(b"MAIL FROM:<again@b>\r\n"), 255), end()], none.clone(), None),
        (vec![rep(one(b"RCPT TO:<r@y>\r\n"), 255), open.clone(), end()], none.clone(), None),
        (vec![rep(one(b"DATA\r\n"), 255), open.clone(), rep(one(b"DATA\r\n"), 255), end()], none.clone(), None),
        (vec![rep(one(b"MAIL FROM:<m@b>\r\n"), 255), end()], Policy { from: vec![no(550); 1000].into_iter().chain([Act::default()]).collect(), ..none.clone() }, None),
        (vec![open.clone(), rep(one(b"RCPT TO:<r@y>\r\n"), 255), end()], Policy { to: vec![no(450); 7000].into_iter().chain([Act::default()]).collect(), ..none.clone() }, None),
        (vec![rep(vec![tx(b"hi\r\n")], 255), end()], none.clone(), None),
        (vec![rep(vec![tx(b".\r\n")], 255), end()], Policy { mail: vec![no(554), Act::default(), no(452)], ..none.clone() }, None),
        (vec![open.clone(), simple(b"RCPT TO:<r@y>\r\n"), rep(one(b"DATA\r\n"), 255), end()], Policy { data: vec![no(554); 40000].into_iter().chain([Act::default()]).collect(), ..none.clone() }, None),
        (vec![tx(&b".\r\n".repeat(70_000)), tx(&b"x".repeat(140_000)), end()], none.clone(), None),
        (vec![tx(&b"\r\n".repeat(70_000)), tx(&b"\r".repeat(70_000)), tx(&b".".repeat(70_000)), end()], none.clone(), None),
        (vec![simple(b"junk\r\n"), tx(b"x"), simple(b"NOOP\r\n"), simple(b"MAIL FROM:<a@b>\r\nRCPT TO:<r@y>\r\n")], none.clone(), Some(long(506 * 257 + 5))),
        (vec![simple(b"junk\r\n"), tx(b"x"), simple(b"NOOP\r\n"), simple(b"MAIL FROM:<a@b>\r\nRCPT TO:<r@y>\r\n")], none.clone(), Some(long(506 * 256))),
    ];
    // contents of many megabytes
    let bulk = |unit: &[u8], len: usize| {
        let piece = unit.repeat(1000 / unit.len());
        let n = len / piece.len();
        let part = |k: usize| Step::Rep(k as u16, vec![Step::Raw(B(piece.clone()))]);
        vec![simple(b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n"), Step::Rep((n / 1000) as u16, vec![part(1000)]), part(n % 1000), Step::Raw(B(unit.to_vec())), simple(b"\r\n..\r\n.\r\nNOOP\r\n")]
    };
    for (unit, len) in [(&b"0123456789012345678901234567890123456789\r\n"[..], 70_000_000), (b"x", 70_000_000), (b"..\r\n", 2_000_000), (b"\r\n", 2_000_000)] {
        list.push((bulk(unit, len), none.clone(), None));
    }
    for n in dict::new_large(100_000).chunks(3) {
        list.push((bulk(b"0123456789\r\n", n[2]), none.clone(), None));
    }
    // lines of megabytes
    list.push((vec![simple(b"HELP "), Step::Rep(3000, vec![Step::Raw(B(b"words and ".repeat(100)))]), simple(b"\r\n"), open.clone(), end()], none.clone(), None));
    list.push((vec![simple(b"MAIL FROM:<a@b>"), Step::Rep(3000, vec![Step::Raw(B(b" A=".repeat(300)))]), simple(b"\r\n"), open.clone(), end()], none.clone(), None));
    if tier == Tier::Thorough {
        list.push((vec![simple(b"junk\r\n"), tx(b"x")], none.clone(), Some(long(506 * 65_537 + 1))));
        list.push((vec![rep(vec![rep(one(b"junk\r\n"), 4)], 255), open, end()], none, None));
    }
    for (k, (steps, pol, text)) in list.into_iter().enumerate().filter(|(k, _)| k % shards == shard) {
        let mut t: Vec<(u16, B)> = (0..TEXTS).map(|i| (200 + 10 * i as u16, B(NAMES[i].as_bytes().to_vec()))).collect();
        if let Some(x) = text {
            t[if k % 2 == 0 { UNIMPLEMENTED } else { UNRECOGNIZED }].1 = x;
        }
        let s = Sess {
            steps,
            tail: B(vec![]),
            pol: valid(pol),
            texts: Texts { flavour: 2, host: B(b"h".to_vec()), banner: B(b"b".to_vec()), t },
            chunks: Chunks { sizes: if k < 15 { vec![4096, 1000] } else { vec![65_535] }, repr: (k % 4) as u8, empties: (if k % 2 == 0 { 100_000 } else { 0 }, 0) },
            ins: Stalls::default(),
            outs: Stalls::default(),
            apps: Stalls::default(),
        };
        if !f(s) {
            return;
        }
    }
}
const ENDURANCE: &str = "fixed sessions with more commands, errors, refusals, messages, empty packets, lines or bytes than 16 bits can count, with contents up to 70 MB and lines of megabytes";

const SHAPE: &str = "random sessions: orderly transactions with noise or free command sequences, scripted policy (accept, refuse, rewrite address, edit envelope), three configuration styles, random chunking and stalls";

pub fn subs(id: &str) -> Vec<Box<dyn Sub>> {
    macro_rules! model_subs {
        ($check:ident, $rule:expr, $first:ident) => {
            vec![
                Box::new(Exh { name: "sequences", rule: concat!("all sequences of 8 commands up to length 6 (7) under three policies; non-trivial: ", $rule), gen: gen_sequences, check: $check }),
                Box::new(Prop { name: "sessions", rule: concat!("random sessions; non-trivial: ", $rule), strat: $first, check: $check, quick: 160_000, thorough: 4_000_000 }),
                Box::new(Prop { name: "large", rule: concat!("hundreds of recipients, transactions or errors, contents up to 120 kB; non-trivial: ", $rule), strat: sess_big, check: $check, quick: 4_000, thorough: 80_000 }),
                Box::new(Exh { name: "endurance", rule: ENDURANCE, gen: gen_endurance, check: $check }),
            ]
        };
    }
    let _ = SHAPE;
    match id {
        "C18" => model_subs!(c18, "more than three replies", sess),
        "C19" => {
            let mut s: Vec<Box<dyn Sub>> = model_subs!(c19, "a complete message is handed over", sess_orderly);
            s.push(Box::new(Exh { name: "beyond 4 GiB", rule: "a message of 4.3 GB in pieces of 1 MB and of 4 kB within a session; every one is non-trivial", gen: crate::vast::cases, check: crate::vast::received }));
            s
        }
        "C20" => model_subs!(c20, "more than two policy calls", sess),
        "C21" => vec![
            Box::new(Prop { name: "two schedules", rule: "the same session under two chunkings and stall patterns; non-trivial: more than two application calls", strat: || two(sess(), false), check: c21, quick: 120_000, thorough: 3_000_000 }),
            Box::new(Prop { name: "large", rule: "the same with large sessions", strat: || two(sess_big(), true), check: c21, quick: 3_000, thorough: 60_000 }),
        ],
        "C22" => vec![
            Box::new(Exh { name: "text lengths", rule: "every text length up to 2200 (6200), in rotation for every reply; non-trivial: an empty or multi-line text", gen: gen_texts, check: c22 }),
            Box::new(Exh { name: "sequences", rule: "all sequences of 8 commands up to length 6 (7) under three policies", gen: gen_sequences, check: c22 }),
            Box::new(Prop { name: "sessions", rule: "random sessions with long, empty and limit-length reply texts; non-trivial: an empty or multi-line text", strat: sess_texts, check: c22, quick: 80_000, thorough: 2_000_000 }),
            Box::new(Prop { name: "large", rule: "large sessions", strat: sess_big, check: c22, quick: 2_000, thorough: 40_000 }),
            Box::new(Exh { name: "endurance", rule: ENDURANCE, gen: gen_endurance, check: c22 }),
        ],
        "C23" => vec![
            Box::new(Prop { name: "lock-step", rule: "sessions with stalls and back-pressure, then the same with a client that waits for each reply; non-trivial: more than three replies", strat: sess, check: c23, quick: 100_000, thorough: 2_500_000 }),
            Box::new(Prop { name: "long replies", rule: "the same with multi-line and empty replies", strat: sess_texts, check: c23, quick: 24_000, thorough: 600_000 }),
            Box::new(Prop { name: "large", rule: "the same with large sessions", strat: sess_big, check: c23, quick: 500, thorough: 12_000 }),
        ],
        "C24" => vec![
            Box::new(Prop { name: "failures", rule: "output failing at every one of its operations (up to 150 per session); non-trivial: the application is called", strat: sess_small, check: c24, quick: 12_000, thorough: 300_000 }),
            Box::new(Prop { name: "long replies", rule: "the same with multi-line replies", strat: sess_texts, check: c24, quick: 3_000, thorough: 80_000 }),
        ],
        "C25" => vec![
            Box::new(Prop { name: "cuts", rule: "input ending after every byte (up to 120 points per session); non-trivial: a cut within a message", strat: sess_small, check: c25, quick: 12_000, thorough: 300_000 }),
            Box::new(Prop { name: "long sessions", rule: "the same with longer sessions", strat: sess_orderly, check: c25, quick: 6_000, thorough: 150_000 }),
        ],
        "C26" => vec![
            Box::new(Prop { name: "bytes", rule: "token soup, random bytes, edited sessions; non-trivial: more than three replies", strat: sess_bytes, check: c26, quick: 160_000, thorough: 4_000_000 }),
            Box::new(Prop { name: "long replies", rule: "sessions with long and empty reply texts", strat: sess_texts, check: c26, quick: 24_000, thorough: 600_000 }),
            Box::new(Prop { name: "large", rule: "large sessions", strat: sess_big, check: c26, quick: 3_000, thorough: 60_000 }),
            Box::new(Exh { name: "endurance", rule: ENDURANCE, gen: gen_endurance, check: c26 }),
        ],
        "C27" => vec![Box::new(Prop { name: "lazy applications", rule: "messages with commands in their content, read partially, not confirmed or confirmed too early by the application; non-trivial: a message's end is not confirmed", strat: lazy, check: c27, quick: 160_000, thorough: 4_000_000 })],
        "C37" => vec![Box::new(Prop { name: "long life", rule: "20 to 400 sessions, most of them abandoned midway; non-trivial: two sessions in which the application is called", strat: long_life, check: c37, quick: 80, thorough: 4_000 }), Box::new(Prop { name: "crowds", rule: "two to four sessions served in turns on one thread, some abandoned, against each session served alone; non-trivial: two sessions in which the application is called", strat: crowd, check: c37, quick: 40_000, thorough: 1_000_000 }), Box::new(Prop { name: "threads", rule: "two to four sessions served at the same time by one thread each, against the reference server; non-trivial: two sessions in which the application is called", strat: crowd, check: c37_threads, quick: 30_000, thorough: 1_000_000 })],
        "C38" => vec![
            Box::new(Prop { name: "sessions", rule: "sessions of which every request for input is compared with what the application has read; non-trivial: input asked for within a message", strat: sess_orderly, check: c38_session, quick: 80_000, thorough: 2_000_000 }),
            Box::new(Prop { name: "large", rule: "the same with contents up to 120 kB", strat: sess_big, check: c38_session, quick: 1_500, thorough: 40_000 }),
        ],
        "C39" => vec![
            Box::new(Prop { name: "abandoned", rule: "a session with stalls everywhere abandoned at each of its suspension points (the first 60, then ever wider apart); non-trivial: more than two application calls", strat: || stally(sess_small()), check: c39, quick: 12_000, thorough: 300_000 }),
            Box::new(Prop { name: "panicking application", rule: "a session whose application panics in each of its calls (the first 60, then ever wider apart); non-trivial: more than two application calls", strat: sess, check: c39_panics, quick: 6_000, thorough: 150_000 }),
            Box::new(Prop { name: "long sessions", rule: "the same with longer sessions", strat: || stally(sess()), check: c39, quick: 4_000, thorough: 100_000 }),
        ],
        _ => vec![],
    }
}
