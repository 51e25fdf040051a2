//! C41: the processor time taken grows with the size of the input, not with its square.
use crate::data::{content, ref_encode};
use crate::engine::*;
use crate::exec;
use bytes::{Bytes, BytesMut};
use futures::{Future, Sink, Stream, StreamExt};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use smtp_message::{Command, DataSink, DataStream, Email, Prependable, ReplyLine, SmtpString};
use smtp_server::{interact, Config, ConnectionMetadata, Decision, MailMetadata};
use std::pin::Pin;
use std::task::{Context, Poll};

type R = Result<(), String>;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
enum What {
    Decode,
    Encode,
    Parse,
    Reply,
    Session,
    Strings,
    /// mails in the queue, one for 32 bytes of size; `sizes`: how many attempts fail and which mails are found in flight
    Queue,
}
/// head, unit repeated up to the size, tail.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Work {
    what: What,
    head: B,
    unit: B,
    tail: B,
    /// sizes of the pieces in which it arrives
    sizes: Vec<u32>,
    /// the pieces share blocks of memory of that many bytes
    block: u32,
    /// empty pieces after each piece
    gaps: u16,
}
/// In a unit: stands for the number of its repetition.
const NUMBER: u8 = 0xfe;
impl Work {
    fn text(&self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + self.unit.len() + self.head.len() + self.tail.len());
        v.extend_from_slice(&self.head);
        let end = v.len() + n;
        let numbered = self.what != What::Decode && self.what != What::Encode && self.unit.contains(&NUMBER);
        let mut k = 0u32;
        while v.len() < end {
            if numbered {
                for b in self.unit.iter() {
                    if *b == NUMBER {
                        v.extend_from_slice(k.to_string().as_bytes());
                    } else {
                        v.push(*b);
                    }
                }
                k += 1;
            } else {
                v.extend_from_slice(&self.unit);
            }
        }
        v.extend_from_slice(&self.tail);
        v
    }
    fn pieces(&self, raw: &[u8]) -> Vec<BytesMut> {
        let mut v = vec![];
        let (mut pos, mut i) = (0, 0);
        let mut block = BytesMut::new();
        // no more than one for each byte
        let gaps = usize::from(self.gaps).min(self.sizes.iter().copied().min().unwrap_or(1) as usize);
        while pos < raw.len() {
            let n = (self.sizes[i % self.sizes.len()] as usize).max(1).min(raw.len() - pos);
            i += 1;
            let piece = if self.block == 0 {
                BytesMut::from(raw[pos..pos + n].to_vec())
            } else {
                if block.is_empty() {
                    block = BytesMut::from(raw[pos..(pos + self.block as usize).min(raw.len())].to_vec());
                }
                let n = n.min(block.len());
                block.split_to(n)
            };
            pos += piece.len();
            v.push(piece);
            v.extend((0..gaps).map(|_| BytesMut::new()));
        }
        v
    }
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32;
}
/// Processor time of this thread in seconds.
fn cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // 3: CLOCK_THREAD_CPUTIME_ID
    assert_eq!(unsafe { clock_gettime(3, &mut t) }, 0);
    t.sec as f64 + t.nsec as f64 * 1e-9
}

struct Drain;
impl Sink<Bytes> for Drain {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, _: Bytes) -> Result<(), ()> {
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
}
struct Reader;
type Fut<'a, T> = Pin<Box<dyn 'a + Send + Future<Output = T>>>;
impl Config<()> for Reader {
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Fut<'a, Decision> {
        Box::pin(futures::future::ready(Decision::Accept))
    }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Fut<'a, Decision> {
        Box::pin(futures::future::ready(Decision::Accept))
    }
    fn handle_mail<'a, S>(&'a mut self, stream: &'a mut DataStream<S>, _: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(async move {
            while stream.next().await.is_some() {}
            let _ = stream.complete();
            Decision::Accept
        })
    }
    fn hostname(&self) -> SmtpString {
        SmtpString::from_static(b"mx")
    }
}

/// Runs the work on an input of that size and returns the processor time taken.
fn measure(c: &Work, n: usize) -> f64 {
    let raw = c.text(n);
    match c.what {
        What::Decode => {
            let raw = ref_encode(&raw);
            let mut src = Prependable::new(futures::stream::iter(c.pieces(&raw)).fuse());
            let t = cpu();
            let mut ds = DataStream::new(&mut src);
            let _ = exec::block_long(async {
                while let Some(b) = ds.next().await {
                    drop(b);
                }
                ds.complete()
            });
            cpu() - t
        }
        What::Encode => {
            let pieces: Vec<Bytes> = c.pieces(&raw).into_iter().map(BytesMut::freeze).collect();
            let t = cpu();
            let _ = exec::block_long(async {
                let mut s = DataSink::new(Drain);
                for p in pieces {
                    s.send(p).await?;
                }
                s.end().await.map(|_| ())
            });
            cpu() - t
        }
        What::Parse => {
            let raw = Bytes::from(raw);
            let t = cpu();
            let r = Command::parse(raw);
            if let Ok(r) = &r {
                let mut w = Vec::new();
                let _ = r.send_to(&mut w);
                match r {
                    Command::Mail(m) => drop(m.from.as_ref().map(|e| e.raw_localpart().byte_len() > 0 && e.localpart().byte_len() > 0)),
                    Command::Rcpt(m) => drop(m.to.raw_localpart().byte_len() > 0 && m.to.localpart().byte_len() > 0),
                    _ => {}
                }
            }
            drop(r);
            cpu() - t
        }
        What::Reply => {
            let raw = Bytes::from(raw);
            let t = cpu();
            drop(ReplyLine::parse(raw));
            cpu() - t
        }
        What::Session => {
            let src = futures::stream::iter(c.pieces(&raw)).fuse();
            let mut out = Box::pin(Drain);
            let mut app = Reader;
            let t = cpu();
            let _ = exec::block_long(interact(src, out.as_mut(), (), &mut app));
            cpu() - t
        }
        What::Queue => many::run(n / 32, &c.sizes),
        What::Strings => {
            let s = SmtpString::from(raw);
            let k = (c.sizes[0] as usize).max(1);
            let t = cpu();
            let mut n = 0usize;
            for p in s.byte_chunks(k) {
                n += p.byte_len();
            }
            let same = s.clone() == s;
            let _ = Email::parse_slice(&s.bytes()[..]);
            let r = SmtpString::from_sendable(&s);
            drop((n, same, r));
            cpu() - t
        }
    }
}
fn least(c: &Work, n: usize, times: usize) -> f64 {
    (0..times).map(|_| measure(c, n)).fold(f64::INFINITY, f64::min)
}

/// Eight times the input may take up to that many times the time.
const FACTOR: f64 = 22.0;
/// Times below are not compared.
const FLOOR: f64 = 0.2;
const MOST: usize = 8 << 20;

fn work(c: &Work, ctx: &mut Ctx) -> R {
    if c.unit.is_empty() || c.sizes.is_empty() || c.sizes.iter().any(|s| *s == 0) {
        return Ok(());
    }
    let most = if matches!(c.what, What::Session | What::Strings | What::Queue) { MOST / 2 } else { MOST };
    let mut n = 8 << 10;
    ctx.label(match c.what {
        What::Decode => "decoding",
        What::Encode => "encoding",
        What::Parse => "parsing a command",
        What::Reply => "parsing a reply",
        What::Session => "serving",
        What::Strings => "strings",
        What::Queue => "the queue",
    });
    while n <= most {
        let t = measure(c, n);
        if n == most {
            ctx.nontrivial();
        }
        if t >= FLOOR && t > FACTOR * measure(c, n / 8) {
            // once more, with time for disturbances to pass
            let (a, b) = (least(c, n / 8, 4), least(c, n, 2));
            if b >= FLOOR && b > FACTOR * a {
                return Err(format!("{:?} of {n} bytes takes {b:.3} s of processor time, of {} bytes {a:.4} s: {:.0} times as long for 8 times the size", c.what, n / 8, b / a));
            }
        }
        if t > 3.0 {
            break;
        }
        n *= 2;
    }
    Ok(())
}

fn sizes() -> BoxedStrategy<Vec<u32>> {
    prop_oneof![
        2 => vec(1u32..20, 1..4),
        3 => vec(200u32..2_000, 1..5),
        2 => vec(prop_oneof![1u32..20, 20_000u32..66_000], 1..4),
        3 => Just(vec![1u32 << 30]),
    ]
    .boxed()
}
fn gaps() -> BoxedStrategy<u16> {
    prop_oneof![4 => Just(0u16), 1 => Just(1u16), 1 => 1u16..100, 1 => Just(65_535u16)].boxed()
}
fn block() -> BoxedStrategy<u32> {
    prop_oneof![3 => Just(0u32), 1 => Just(65_536u32), 1 => Just(1u32 << 24)].boxed()
}
const UNITS: &[&[u8]] = &[b"x", b".", b"\r", b"\n", b"\r\n", b".\r\n", b"\r\n..", b"..\r", b".x\r\n", b"\0", b"\r\r\n"];
const CODES: &[&[u8]] = &[b"250 ", b"250-", b"599 ", b"25", b""];
fn text() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => content(),
        2 => (content(), select(&b"x.\r\n\0"[..]), 1usize..4_000).prop_map(|(mut c, f, n)| { c.extend(std::iter::repeat(f).take(n)); c }),
        2 => select(UNITS).prop_map(|b| b.to_vec()),
    ]
    .prop_map(|u| if u.is_empty() { b"a line\r\n".to_vec() } else { u })
    .boxed()
}
fn messages() -> BoxedStrategy<Work> {
    (select(&[What::Decode, What::Encode][..]), content(), text(), content(), sizes(), (block(), gaps()))
        .prop_map(|(what, head, unit, tail, sizes, (block, gaps))| Work { what, head: B(head), unit: B(unit), tail: B(tail), sizes, block, gaps })
        .boxed()
}
const TOKENS: &[&[u8]] = &[
    b"MAIL FROM:", b"RCPT TO:", b"EHLO ", b"HELO ", b"NOOP ", b"HELP ", b"VRFY ", b"EXPN ", b"DATA", b"QUIT", b"RSET", b"<", b">", b"@", b":", b",", b".", b"a", b"b.c", b"@a,", b"@h:", b"\"", b"\\", b"\\\"", b" ",
    b"\t", b"=", b"-", b"KEY", b" K=v", b" SIZE=1", b"[", b"]", b"[1.2.3.4]", b"[IPv6:", b"::", b"\r", b"\n", b"\r\n", b"(", b"\x80", b"\xfe", b"\0", b"1", b"0", b"postmaster", b"250", b"250-",
];
fn tokens(most: usize) -> BoxedStrategy<Vec<u8>> {
    vec(select(TOKENS), 0..most).prop_map(|t| t.concat()).boxed()
}
fn shaped() -> BoxedStrategy<(Vec<u8>, Vec<u8>, Vec<u8>)> {
    const SHAPES: &[(&[u8], &[u8], &[u8])] = &[
        (b"MAIL FROM:<", b"a", b"@b>\r\n"),
        (b"MAIL FROM:<\"", b"a", b"\"@b>\r\n"),
        (b"MAIL FROM:<\"", b"\\\"", b"\"@b>\r\n"),
        (b"MAIL FROM:<", b"a.", b"a@b>\r\n"),
        (b"MAIL FROM:<a@", b"b.", b"c>\r\n"),
        (b"MAIL FROM:<a@", b"b-", b"c>\r\n"),
        (b"MAIL FROM:<@x", b",@x.y", b":a@b>\r\n"),
        (b"RCPT TO:<@x", b",@[1.2.3.4]", b":a@b>\r\n"),
        (b"RCPT TO:<a@b>", b" K=v", b"\r\n"),
        (b"RCPT TO:<a@b>", b" K\xfe=v", b"\r\n"),
        (b"MAIL FROM:<a@b>", b" \xfe", b"\r\n"),
        (b"EHLO h", b".\xfe", b"\r\n"),
        (b"RCPT TO:<a@b>", b" ", b"\r\n"),
        (b"RCPT TO:<a@b> K=", b"v", b"\r\n"),
        (b"RCPT TO:<a@b> K", b"k", b"=v\r\n"),
        (b"RCPT TO:", b" ", b"<a@b>\r\n"),
        (b"RCPT TO:<a@[IPv6:", b"0", b"]>\r\n"),
        (b"EHLO ", b"a.", b"a\r\n"),
        (b"EHLO ", b" ", b"a\r\n"),
        (b"NOOP ", b"a ", b"\r\n"),
        (b"HELP ", b"\t", b"\r\n"),
        (b"VRFY ", b"\x7f", b"\r\n"),
        (b"DATA", b" ", b"\r\n"),
        (b"DATA", b" \t", b"x\r\n"),
        (b"", b" ", b"DATA\r\n"),
        (b"DATA\r\n", b" \r\n", b""),
    ];
    select(SHAPES).prop_map(|(a, b, c)| (a.to_vec(), b.to_vec(), c.to_vec())).boxed()
}
fn lines() -> BoxedStrategy<Work> {
    let cmd = prop_oneof![
        3 => (shaped(), prop_oneof![2 => Just(vec![]), 1 => tokens(3)]).prop_map(|((a, b, c), t)| (a, [b, t].concat(), c)),
        2 => (shaped(), tokens(5)).prop_map(|((a, b, _), c)| (a, b, c)),
        2 => (select(&TOKENS[..11]), tokens(4), tokens(4), tokens(4)).prop_map(|(v, a, b, c)| ([v, &a[..]].concat(), b, c)),
        1 => (tokens(6), tokens(5), tokens(6)),
    ];
    let reply = (select(CODES), tokens(4), tokens(3)).prop_map(|(a, b, c)| (a.to_vec(), b, c));
    prop_oneof![
        6 => cmd.prop_map(|t| (What::Parse, t)),
        1 => reply.prop_map(|t| (What::Reply, t)),
        1 => (tokens(4), tokens(4), tokens(4)).prop_map(|t| (What::Strings, t)),
    ]
    .prop_flat_map(|(what, (head, unit, tail))| {
        let unit = if unit.is_empty() { b"a".to_vec() } else { unit };
        sizes().prop_map(move |sizes| Work { what, head: B(head.clone()), unit: B(unit.clone()), tail: B(tail.clone()), sizes, block: 0, gaps: 0 })
    })
    .boxed()
}
const LINES: &[&[u8]] = &[
    b"HELO some.host.example\r\n", b"EHLO some.host.example\r\n", b"MAIL FROM:<someone@some.host.example>\r\n", b"RCPT TO:<someone@some.host.example>\r\n", b"RCPT TO:<some one@\r\n",
    b"NOOP\r\n", b"RSET\r\n", b"VRFY someone\r\n", b"HELP\r\n", b"STARTTLS please\r\n", b"\r\n", b"MAIL FROM:<> BODY=8BITMIME SIZE=100\r\n",
    b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\nsome text\r\n.\r\n", b"RCPT TO:<a@b>\r\nRCPT TO:<c@d>\r\n", b"RCPT TO:<user\xfe@host.example>\r\n", b"MAIL FROM:<\xfe@b>\r\n", b"NOOP \xfe\r\n",
];
fn sessions() -> BoxedStrategy<Work> {
    let commands = || vec(select(LINES), 0..5).prop_map(|c| c.concat());
    (commands(), prop_oneof![1 => select(LINES).prop_map(|l| l.to_vec()), 3 => commands(), 1 => (20usize..900).prop_map(|n| [b"NOOP ", &vec![b'x'; n][..], b"\r\n"].concat())], commands(), sizes(), (block(), gaps()))
        .prop_map(|(head, unit, tail, sizes, (block, gaps))| Work { what: What::Session, head: B(head), unit: B(if unit.is_empty() { b"NOOP\r\n".to_vec() } else { unit }), tail: B(tail), sizes, block, gaps })
        .boxed()
}

fn queues() -> BoxedStrategy<Work> {
    vec(prop_oneof![3 => Just(0u32), 2 => 1u32..4, 1 => Just(9u32)], 1..4)
        .prop_map(|mut sizes| {
            sizes.iter_mut().for_each(|s| *s += 1);
            Work { what: What::Queue, head: B(vec![]), unit: B(b"x".to_vec()), tail: B(vec![]), sizes, block: 0, gaps: 0 }
        })
        .boxed()
}

pub fn subs(id: &str) -> Vec<Box<dyn Sub>> {
    match id {
        "C41" => vec![
            Box::new(Prop { name: "messages", rule: "messages of up to 8 MB, of any repeated content, in pieces; non-trivial: the largest size is reached", strat: messages, check: work, quick: 300, thorough: 6_000 }),
            Box::new(Prop { name: "lines", rule: "command and reply lines of up to 8 MB: any head, repeated unit and tail of tokens; non-trivial: the largest size is reached", strat: lines, check: work, quick: 800, thorough: 20_000 }),
            Box::new(Prop { name: "queue", rule: "queues of up to 131072 mails, some of whose attempts fail, some found in flight; non-trivial: the largest size is reached", strat: queues, check: work, quick: 48, thorough: 1_000 }),
            Box::new(Prop { name: "sessions", rule: "sessions of up to 4 MB of short commands and messages; non-trivial: the largest size is reached", strat: sessions, check: work, quick: 200, thorough: 3_000 }),
        ],
        _ => vec![],
    }
}

/// A queue of many mails.
mod many {
    use bytes::BytesMut;
    use crate::ready::Ready;
    use futures01::executor::{spawn, Spawn};
    use futures01::{future, stream, Async, Future, Stream};
    use smtp_message::{ReplyCode, SmtpString};
    use smtp_queue::{FoundInflightMail, InflightMail, Mail, QueuedMail, Storage, Transport};
    use std::cell::RefCell;
    use std::rc::Rc;
    use std::sync::{Arc, Mutex};
    use std::time::{Duration, Instant};
    use tokio_executor::park::{Park, Unpark};
    use tokio_timer::{clock::Clock, clock::Now, timer::Timer};

    #[derive(Clone)]
    struct Time(Arc<Mutex<(Instant, bool)>>);
    impl Now for Time {
        fn now(&self) -> Instant {
            self.0.lock().unwrap().0
        }
    }
    impl Unpark for Time {
        fn unpark(&self) {}
    }
    impl Park for Time {
        type Unpark = Time;
        type Error = ();
        fn unpark(&self) -> Time {
            self.clone()
        }
        fn park(&mut self) -> Result<(), ()> {
            self.0.lock().unwrap().1 = true;
            Ok(())
        }
        fn park_timeout(&mut self, d: Duration) -> Result<(), ()> {
            self.0.lock().unwrap().0 += d;
            Ok(())
        }
    }

    /// A mail and how often sending it still fails.
    struct Item(u32);
    impl QueuedMail<u32> for Item {}
    impl FoundInflightMail<u32> for Item {}
    type Data = Box<dyn Stream<Item = BytesMut, Error = ()>>;
    impl InflightMail<u32> for Item {
        fn get_mail(&self) -> Box<dyn Future<Item = Mail<Data, u32>, Error = ()> + Send> {
            Box::new(Get(self.0))
        }
    }
    struct Get(u32);
    impl Future for Get {
        type Item = Mail<Data, u32>;
        type Error = ();
        fn poll(&mut self) -> Result<Async<Self::Item>, ()> {
            Ok(Async::Ready(Mail { from: None, to: vec![], data: Box::new(stream::empty()), metadata: self.0 }))
        }
    }
    struct Store {
        n: usize,
        kinds: Vec<u32>,
    }
    impl Store {
        fn items(&self, found: bool) -> Box<dyn Stream<Item = Item, Error = ()>> {
            let kinds = self.kinds.clone();
            let all = (0..self.n).map(move |i| kinds[i % kinds.len()] - 1).filter(move |k| (*k == 9) == found);
            Box::new(stream::iter_ok(all.map(|k| Item(k % 9))))
        }
    }
    impl Storage<u32, Item, Item, Item> for Store {
        fn list_queue(&self) -> Box<dyn Stream<Item = Item, Error = ()>> {
            self.items(false)
        }
        fn find_inflight(&self) -> Box<dyn Stream<Item = Item, Error = ()>> {
            self.items(true)
        }
        fn cancel_found_inflight(&self, m: Item) -> Box<dyn Future<Item = Item, Error = ()> + Send> {
            Box::new(future::ok(m))
        }
        fn enqueue<S>(&self, _: Mail<S, u32>) -> Box<dyn Future<Item = Item, Error = ()>>
        where
            S: Stream<Item = BytesMut, Error = ()>,
        {
            Box::new(future::err(()))
        }
        fn send_start(&self, m: Item) -> Box<dyn Future<Item = Item, Error = ()> + Send> {
            Box::new(future::ok(m))
        }
        fn send_done(&self, _: Item) -> Box<dyn Future<Item = (), Error = ()> + Send> {
            Box::new(future::ok(()))
        }
        fn send_cancel(&self, m: Item) -> Box<dyn Future<Item = Item, Error = ()> + Send> {
            Box::new(future::ok(Item(m.0.saturating_sub(1))))
        }
    }
    struct Net;
    impl Transport<u32> for Net {
        fn send<S: Stream<Item = BytesMut, Error = ()>>(&self, mail: Mail<S, u32>) -> Box<dyn Future<Item = (), Error = (ReplyCode, SmtpString)> + Send> {
            let r = if mail.metadata == 0 { Ok(()) } else { Err((ReplyCode::custom(451), SmtpString::from_static(b"later"))) };
            Box::new(future::result(r))
        }
    }

    type Task = Box<dyn Future<Item = (), Error = ()>>;
    #[derive(Clone)]
    struct Spawner(Rc<RefCell<Vec<Task>>>);
    impl tokio_executor::Executor for Spawner {
        fn spawn(&mut self, f: Box<dyn Future<Item = (), Error = ()> + Send>) -> Result<(), tokio_executor::SpawnError> {
            self.0.borrow_mut().push(f);
            Ok(())
        }
    }

    pub fn run(n: usize, kinds: &[u32]) -> f64 {
        let time = Time(Arc::new(Mutex::new((Instant::now(), false))));
        let clock = Clock::new_with_now(time.clone());
        let mut timer = Timer::new_with_now(time.clone(), clock.clone());
        let handle = timer.handle();
        let mut enter = tokio_executor::enter().expect("harness: nested executor");
        let spawner = Spawner(Rc::default());
        let mut ex = spawner.clone();
        let t = super::cpu();
        tokio_timer::clock::with_default(&clock, &mut enter, |enter| {
            tokio_timer::with_default(&handle, enter, |enter| {
                tokio_executor::with_default(&mut ex, enter, |_| {
                    let ready = Ready::default();
                    let mut tasks: Vec<Option<Spawn<Task>>> = vec![];
                    let store = Store { n, kinds: kinds.to_vec() };
                    spawner.0.borrow_mut().push(Box::new(smtp_queue::run::<u32, Item, Item, Item, Store, Net>(Arc::new(store), Arc::new(Net))));
                    loop {
                        for t in spawner.0.borrow_mut().drain(..) {
                            ready.notify(tasks.len());
                            tasks.push(Some(spawn(t)));
                        }
                        let next = ready.take(|_| 0);
                        match next {
                            Some(id) => {
                                let done = tasks[id].as_mut().is_some_and(|t| !matches!(t.poll_future_notify(&ready, id), Ok(Async::NotReady)));
                                if done {
                                    tasks[id] = None;
                                }
                            }
                            None => {
                                timer.park().unwrap();
                                if std::mem::take(&mut time.0.lock().unwrap().1) && ready.is_empty() {
                                    return;
                                }
                            }
                        }
                    }
                })
            })
        });
        super::cpu() - t
    }
}
