//! C31-C35: the mail queue against a scripted storage and transport, in virtual time, under a
//! scripted scheduler, with injected failures, crashes and restarts.
use crate::cmds::build_email;
use crate::data::with_crlf;
use crate::e2e::{self, Held, Relay};
use crate::dict;
use crate::engine::*;
use crate::gen;
use crate::grammar::{self, Mbox, V};
use crate::obs::mbox_of;
use bytes::BytesMut;
use crate::ready::Ready;
use futures01::executor::{spawn, Spawn};
use futures01::{Async, Future, Poll, Stream};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use smtp_message::{Email, ReplyCode, SmtpString};
use smtp_queue::{FoundInflightMail, InflightMail, Mail, QueuedMail, Storage, Transport};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio_executor::park::{Park, Unpark};
use tokio_timer::{clock::Clock, timer::Timer, Delay};

type R = Result<(), String>;
type Out<T> = Box<dyn Future<Item = T, Error = ()> + Send>;

// ------------------------------------------------------------------ cases

/// One execution of an operation: seconds before its effect, seconds after it, yields, failure.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Op {
    pre: u16,
    post: u16,
    yields: u8,
    /// 0: works; 1: fails without effect; 2: takes effect but reports failure;
    /// 3 (fetching only): the content breaks off with an error; 4, 5: as 1, 2, but panics; 6: panics at once
    fail: u8,
}

pub const START: usize = 0;
pub const GET: usize = 1;
pub const SEND: usize = 2;
pub const DONE: usize = 3;
pub const CANCEL: usize = 4;
pub const TAKEBACK: usize = 5;
const OPS: [&str; 6] = ["send_start", "get_mail", "send", "send_done", "send_cancel", "cancel_found_inflight"];

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct QMail {
    from: Option<B>,
    to: Vec<B>,
    chunks: Vec<B>,
    meta: B,
    /// in flight when the first run starts
    inflight: bool,
    /// seconds before this mail appears in the listing
    list: u16,
    /// per operation, what its n-th execution does; beyond: immediate success
    ops: Vec<Vec<Op>>,
    /// transport attempts that fail before one succeeds, and the replies they fail with, in rotation
    fails: u32,
    codes: Vec<(u16, B)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Q {
    mails: Vec<QMail>,
    /// seconds until the queue listing ends
    end: u16,
    /// find_inflight also returns what this process itself has in flight
    own: bool,
    /// which of the ready tasks runs next, cyclic; empty: first in, first out
    sched: Vec<u8>,
    /// poll tasks that were not woken now and then
    spurious: bool,
    /// the listing fails after so many mails in the first run
    list_fail: Option<u8>,
}

// ------------------------------------------------------------------ the world

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Queued,
    Flight(u32),
    Done,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum What {
    Listed,
    Found(u32),
    Call(usize, u32),
    Effect(usize, u32),
    Resolved(usize, u32, bool),
}
#[derive(Clone, Debug)]
struct L {
    t: Duration,
    run: usize,
    mail: usize,
    w: What,
}
impl L {
    fn show(&self) -> String {
        let w = match self.w {
            What::Listed => "listed".into(),
            What::Found(k) => format!("found in flight (attempt {k})"),
            What::Call(o, k) => format!("{} called (attempt {k})", OPS[o]),
            What::Effect(o, k) => format!("{} takes effect (attempt {k})", OPS[o]),
            What::Resolved(o, k, ok) => format!("{} {} (attempt {k})", OPS[o], if ok { "succeeds" } else { "fails" }),
        };
        format!("run {} at {:.3} s: mail {} {}", self.run, self.t.as_secs_f64(), self.mail, w)
    }
}

struct W {
    q: Q,
    st: Vec<St>,
    next: Vec<u32>,
    counts: Vec<[usize; 6]>,
    sends: Vec<u32>,
    accepted: Vec<u32>,
    /// an operation on the mail has panicked
    panicked: Vec<bool>,
    run: usize,
    faults: bool,
    log: Vec<L>,
    problems: Vec<String>,
    ticks: u64,
    crash_at: Option<u64>,
    crashed: bool,
    base: Instant,
    offset: Duration,
    timer_dies: Option<Duration>,
    /// carry accepted mails over SMTP, and what arrived
    wire: Option<Arc<Relay>>,
    arrived: Vec<(usize, (Option<Mbox>, Vec<Mbox>, Vec<u8>))>,
    /// where the stack was at each call of the transport
    stack: Vec<usize>,
}
impl W {
    fn new(q: &Q) -> W {
        let n = q.mails.len();
        W {
            q: q.clone(),
            st: q.mails.iter().map(|m| if m.inflight { St::Flight(0) } else { St::Queued }).collect(),
            next: vec![1; n],
            counts: vec![[0; 6]; n],
            sends: vec![0; n],
            accepted: vec![0; n],
            panicked: vec![false; n],
            run: 0,
            faults: true,
            log: vec![],
            problems: vec![],
            ticks: 0,
            crash_at: None,
            crashed: false,
            base: Instant::now(),
            offset: Duration::new(0, 0),
            timer_dies: None,
            wire: None,
            arrived: vec![],
            stack: vec![],
        }
    }
    /// One more observable step; true: the process is dead.
    fn tick(&mut self) -> bool {
        self.ticks += 1;
        if self.crash_at == Some(self.ticks) {
            self.crashed = true;
        }
        self.crashed
    }
    fn log(&mut self, mail: usize, w: What) {
        if !self.crashed {
            let (t, run) = (self.offset, self.run);
            self.log.push(L { t, run, mail, w });
        }
    }
    fn script(&mut self, mail: usize, op: usize) -> Op {
        let n = self.counts[mail][op];
        self.counts[mail][op] += 1;
        let mut o = self.q.mails[mail].ops.get(op).and_then(|v| v.get(n)).cloned().unwrap_or_default();
        if !self.faults {
            o.fail = 0;
        }
        o
    }
}
#[derive(Clone)]
struct World(Arc<Mutex<W>>);
impl World {
    fn lock(&self) -> std::sync::MutexGuard<'_, W> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}
impl tokio_timer::clock::Now for World {
    fn now(&self) -> Instant {
        let w = self.lock();
        w.base + w.offset
    }
}

// ------------------------------------------------------------------ operations

/// Seconds of virtual time, and some yields.
struct Pause {
    secs: u16,
    yields: u8,
    delay: Option<Delay>,
}
impl Pause {
    fn new(secs: u16, yields: u8) -> Pause {
        Pause { secs, yields, delay: None }
    }
    fn poll(&mut self) -> Async<()> {
        if self.yields > 0 {
            self.yields -= 1;
            futures01::task::current().notify();
            return Async::NotReady;
        }
        if self.secs > 0 {
            let secs = self.secs;
            let d = self.delay.get_or_insert_with(|| Delay::new(tokio_timer::clock::now() + Duration::from_secs(secs.into())));
            // without a timer, nothing takes time
            if let Ok(Async::NotReady) = d.poll() {
                return Async::NotReady;
            }
            self.secs = 0;
            self.delay = None;
        }
        Async::Ready(())
    }
}

type Effect<T> = Box<dyn FnOnce(&mut W) -> Result<(u32, T), ()> + Send>;
/// A storage operation: pause, effect, pause, result.
struct Step<T> {
    w: World,
    mail: usize,
    op: usize,
    id: u32,
    pre: Pause,
    post: Pause,
    fail: u8,
    effect: Option<Effect<T>>,
    result: Option<Result<T, ()>>,
    over: bool,
}
impl<T: Send + 'static> Step<T> {
    fn new(w: &World, mail: usize, op: usize, id: u32, effect: Effect<T>) -> Step<T> {
        let s = {
            let mut l = w.lock();
            l.tick();
            l.log(mail, What::Call(op, id));
            let s = l.script(mail, op);
            // the first call of send_start may be made by the task of the whole queue
            if s.fail == 6 && op != START && !l.crashed {
                l.log(mail, What::Resolved(op, id, false));
                l.panicked[mail] = true;
                drop(l);
                panic!("{SCRIPTED}");
            }
            s
        };
        Step {
            w: w.clone(),
            mail,
            op,
            id,
            pre: Pause::new(s.pre, s.yields),
            post: Pause::new(s.post, s.yields / 2),
            fail: s.fail,
            effect: Some(effect),
            result: None,
            over: false,
        }
    }
}
impl<T: Send + 'static> Future for Step<T> {
    type Item = T;
    type Error = ();
    fn poll(&mut self) -> Poll<T, ()> {
        if self.over {
            self.w.lock().problems.push(format!("{} of mail {} is polled after its end", OPS[self.op], self.mail));
            return Err(());
        }
        if self.w.lock().crashed {
            return Ok(Async::NotReady);
        }
        if self.effect.is_some() {
            if !self.pre.poll().is_ready() {
                return Ok(Async::NotReady);
            }
            let mut l = self.w.lock();
            if l.tick() {
                return Ok(Async::NotReady);
            }
            let e = self.effect.take().unwrap();
            self.result = Some(if matches!(self.fail, 1 | 4 | 6) {
                Err(())
            } else {
                match e(&mut l) {
                    Err(()) => Err(()),
                    Ok((id, t)) => {
                        self.id = id;
                        l.log(self.mail, What::Effect(self.op, id));
                        if self.fail == 2 || self.fail == 5 {
                            Err(())
                        } else {
                            Ok(t)
                        }
                    }
                }
            });
        }
        if !self.post.poll().is_ready() {
            return Ok(Async::NotReady);
        }
        let mut l = self.w.lock();
        if l.tick() {
            return Ok(Async::NotReady);
        }
        self.over = true;
        let r = self.result.take().unwrap();
        l.log(self.mail, What::Resolved(self.op, self.id, r.is_ok()));
        if self.fail >= 4 {
            l.panicked[self.mail] = true;
            drop(l);
            panic!("{SCRIPTED}");
        }
        r.map(Async::Ready)
    }
}

/// How storage and transport panic when told to.
const SCRIPTED: &str = "harness-scripted panic";

struct Qm {
    mail: usize,
}
struct Im {
    w: World,
    mail: usize,
    id: u32,
}
struct Fim {
    mail: usize,
    id: u32,
}
struct Meta {
    mail: usize,
    id: u32,
    bytes: Vec<u8>,
}
impl QueuedMail<Meta> for Qm {}
impl FoundInflightMail<Meta> for Fim {}

fn email(b: &[u8]) -> Email {
    build_email(b, 0).expect("harness: mailbox refused")
}

type Data = Box<dyn Stream<Item = BytesMut, Error = ()>>;
impl InflightMail<Meta> for Im {
    fn get_mail(&self) -> Box<dyn Future<Item = Mail<Data, Meta>, Error = ()> + Send> {
        let (mail, id, w) = (self.mail, self.id, self.w.clone());
        // the envelope is rebuilt when the operation completes
        let s = Step::new(&self.w, mail, GET, id, Box::new(move |_| Ok((id, ()))));
        let broken = s.fail == 3;
        Box::new(s.map(move |()| {
            let m = w.lock().q.mails[mail].clone();
            let mut items: Vec<Result<BytesMut, ()>> = m.chunks.iter().map(|c| Ok(BytesMut::from(&c[..]))).collect();
            if broken {
                items.truncate(1);
                items.push(Err(()));
            }
            Mail {
                from: m.from.as_ref().map(|b| email(b)),
                to: m.to.iter().map(|b| email(b)).collect(),
                data: Box::new(futures01::stream::iter_result(items)) as Data,
                metadata: Meta { mail, id, bytes: m.meta.0.clone() },
            }
        }))
    }
}

/// The listing of the queue or of the mails in flight.
struct Listing<T> {
    w: World,
    items: Option<Vec<usize>>,
    pos: usize,
    pause: Option<Pause>,
    end: Pause,
    flight: bool,
    fail_after: Option<usize>,
    make: fn(usize, u32) -> T,
    ids: Vec<u32>,
}
impl<T> Stream for Listing<T> {
    type Item = T;
    type Error = ();
    fn poll(&mut self) -> Poll<Option<T>, ()> {
        if self.w.lock().crashed {
            return Ok(Async::NotReady);
        }
        if self.items.is_none() {
            let l = self.w.lock();
            let own = l.q.own;
            let run = l.run;
            let mut v = vec![];
            for (i, s) in l.st.iter().enumerate() {
                match s {
                    St::Queued if !self.flight => v.push(i),
                    St::Flight(k) if self.flight => {
                        // claimed by this very process?
                        let mine = l.log.iter().rev().any(|e| e.run == run && e.mail == i && e.w == What::Effect(START, *k));
                        if own || !mine {
                            v.push(i);
                            self.ids.push(*k);
                        }
                    }
                    _ => {}
                }
            }
            drop(l);
            self.items = Some(v);
        }
        let items = self.items.as_ref().unwrap();
        if self.fail_after == Some(self.pos) {
            return Err(());
        }
        let Some(i) = items.get(self.pos).copied() else {
            return Ok(match self.end.poll() {
                Async::Ready(()) => Async::Ready(None),
                Async::NotReady => Async::NotReady,
            });
        };
        // this process's own claims, if shown, take no time to list
        let secs = if self.flight && self.ids[self.pos] != 0 { 0 } else { self.w.lock().q.mails[i].list };
        let p = self.pause.get_or_insert_with(|| Pause::new(secs, (i % 3) as u8));
        if !p.poll().is_ready() {
            return Ok(Async::NotReady);
        }
        let mut l = self.w.lock();
        if l.tick() {
            return Ok(Async::NotReady);
        }
        let id = if self.flight { self.ids[self.pos] } else { 0 };
        l.log(i, if self.flight { What::Found(id) } else { What::Listed });
        self.pos += 1;
        self.pause = None;
        Ok(Async::Ready(Some((self.make)(i, id))))
    }
}

struct Store(World);
impl Storage<Meta, Qm, Im, Fim> for Store {
    fn list_queue(&self) -> Box<dyn Stream<Item = Qm, Error = ()>> {
        let (end, fail_after) = {
            let l = self.0.lock();
            (l.q.end, l.q.list_fail.filter(|_| l.faults && l.run == 0).map(usize::from))
        };
        Box::new(Listing {
            w: self.0.clone(),
            items: None,
            pos: 0,
            pause: None,
            end: Pause::new(end, 1),
            flight: false,
            fail_after,
            make: |mail, _| Qm { mail },
            ids: vec![],
        })
    }
    fn find_inflight(&self) -> Box<dyn Stream<Item = Fim, Error = ()>> {
        Box::new(Listing {
            w: self.0.clone(),
            items: None,
            pos: 0,
            pause: None,
            end: Pause::new(0, 1),
            flight: true,
            fail_after: None,
            make: |mail, id| Fim { mail, id },
            ids: vec![],
        })
    }
    fn cancel_found_inflight(&self, m: Fim) -> Out<Qm> {
        let Fim { mail, id } = m;
        Box::new(Step::new(
            &self.0,
            mail,
            TAKEBACK,
            id,
            Box::new(move |l| {
                if l.st[mail] != St::Flight(id) {
                    return Err(());
                }
                l.st[mail] = St::Queued;
                Ok((id, Qm { mail }))
            }),
        ))
    }
    fn enqueue<S>(&self, _: Mail<S, Meta>) -> Box<dyn Future<Item = Qm, Error = ()>>
    where
        S: Stream<Item = BytesMut, Error = ()>,
    {
        self.0.lock().problems.push("the queue runner enqueues a mail".into());
        Box::new(futures01::future::err(()))
    }
    fn send_start(&self, m: Qm) -> Out<Im> {
        let (w, mail) = (self.0.clone(), m.mail);
        Box::new(Step::new(
            &self.0,
            mail,
            START,
            0,
            Box::new(move |l| {
                if l.st[mail] != St::Queued {
                    return Err(());
                }
                let id = l.next[mail];
                l.next[mail] += 1;
                l.st[mail] = St::Flight(id);
                Ok((id, Im { w, mail, id }))
            }),
        ))
    }
    fn send_done(&self, m: Im) -> Out<()> {
        let Im { mail, id, .. } = m;
        Box::new(Step::new(
            &self.0,
            mail,
            DONE,
            id,
            Box::new(move |l| {
                if l.st[mail] != St::Flight(id) {
                    return Err(());
                }
                l.st[mail] = St::Done;
                Ok((id, ()))
            }),
        ))
    }
    fn send_cancel(&self, m: Im) -> Out<Qm> {
        let Im { mail, id, .. } = m;
        Box::new(Step::new(
            &self.0,
            mail,
            CANCEL,
            id,
            Box::new(move |l| {
                if l.st[mail] != St::Flight(id) {
                    return Err(());
                }
                l.st[mail] = St::Queued;
                Ok((id, Qm { mail }))
            }),
        ))
    }
}

struct Send_ {
    step: Step<Result<(), (u16, B)>>,
}
impl Future for Send_ {
    type Item = ();
    type Error = (ReplyCode, SmtpString);
    fn poll(&mut self) -> Poll<(), Self::Error> {
        match self.step.poll() {
            Ok(Async::NotReady) => Ok(Async::NotReady),
            Ok(Async::Ready(Ok(()))) => Ok(Async::Ready(())),
            Ok(Async::Ready(Err((c, t)))) => {
                // the step logged that it succeeded: correct the record
                let mut l = self.step.w.lock();
                let (mail, id) = (self.step.mail, self.step.id);
                if let Some(e) = l.log.iter_mut().rev().find(|e| e.mail == mail && e.w == What::Resolved(SEND, id, true)) {
                    e.w = What::Resolved(SEND, id, false);
                }
                Err((ReplyCode::custom(c), SmtpString::from(&t[..])))
            }
            Err(()) => Err((ReplyCode::custom(451), SmtpString::from_static(b"broken"))),
        }
    }
}

struct Net(World);
impl Transport<Meta> for Net {
    fn send<S: Stream<Item = BytesMut, Error = ()>>(&self, m: Mail<S, Meta>) -> Box<dyn Future<Item = (), Error = (ReplyCode, SmtpString)> + Send> {
        let Mail { from, to, mut data, metadata: Meta { mail, id, bytes } } = m;
        let mut got = vec![];
        let mut pieces = vec![];
        let mut broken = false;
        loop {
            match data.poll() {
                Ok(Async::Ready(Some(x))) => {
                    got.extend_from_slice(&x);
                    pieces.push(x.freeze());
                }
                Ok(Async::Ready(None)) => break,
                Ok(Async::NotReady) => panic!("the content of a mail is not passed on as storage provides it"),
                Err(()) => {
                    broken = true;
                    break;
                }
            }
        }
        {
            let mut l = self.0.lock();
            let here = 0u8;
            l.stack.push(std::ptr::addr_of!(here) as usize);
            let want = l.q.mails[mail].clone();
            let mut bad = |what: &str, a: String, b: String| l.problems.push(format!("mail {mail} is sent with {what} {a}, stored is {b}"));
            let m = |e: &Email| mbox_of(e).map(|m| show(&grammar::mbox_text(&m))).unwrap_or_else(|e| e);
            let text: Vec<u8> = want.chunks.iter().flat_map(|c| c.0.clone()).collect();
            let wf = want.from.as_ref().map(|b| m(&email(b)));
            let wt: Vec<String> = want.to.iter().map(|b| m(&email(b))).collect();
            if from.as_ref().map(m) != wf {
                bad("sender", format!("{:?}", from.as_ref().map(m)), format!("{wf:?}"));
            }
            let gt: Vec<String> = to.iter().map(m).collect();
            if gt != wt {
                bad("recipients", format!("{gt:?}"), format!("{wt:?}"));
            }
            if !broken && got != text {
                bad("content", show(&got), show(&text));
            }
            if bytes != want.meta.0 {
                bad("metadata", show(&bytes), show(&want.meta));
            }
        }
        let step = Step::new(
            &self.0,
            mail,
            SEND,
            id,
            Box::new(move |l: &mut W| {
                let n = l.sends[mail];
                l.sends[mail] += 1;
                let q = &l.q.mails[mail];
                if broken || (l.faults && n < q.fails) {
                    let code = if q.codes.is_empty() { (451, B(b"later".to_vec())) } else { q.codes[n as usize % q.codes.len()].clone() };
                    return Ok((id, Err(code)));
                }
                l.accepted[mail] += 1;
                if let Some(wire) = l.wire.clone() {
                    match e2e::carry(&wire, Held { from, to, pieces, params: vec![] }) {
                        Ok(m) => l.arrived.push((mail, m)),
                        Err(e) => l.problems.push(format!("mail {mail}: {e}")),
                    }
                }
                if l.accepted[mail] > 64 {
                    l.crashed = true;
                    l.problems.push(format!("mail {mail} is accepted by the transport again and again"));
                }
                Ok((id, Ok(())))
            }),
        );
        Box::new(Send_ { step })
    }
}

// ------------------------------------------------------------------ the scheduler

struct Idle(World, Arc<Mutex<bool>>);
struct Nop;
impl Unpark for Nop {
    fn unpark(&self) {}
}
impl Park for Idle {
    type Unpark = Nop;
    type Error = ();
    fn unpark(&self) -> Nop {
        Nop
    }
    fn park(&mut self) -> Result<(), ()> {
        *self.1.lock().unwrap() = true;
        Ok(())
    }
    fn park_timeout(&mut self, d: Duration) -> Result<(), ()> {
        self.0.lock().offset += d;
        crate::clock::advance(d);
        Ok(())
    }
}

type Task = Box<dyn Future<Item = (), Error = ()>>;
#[derive(Clone)]
struct Spawner(Rc<RefCell<Vec<Task>>>);
impl tokio_executor::Executor for Spawner {
    fn spawn(&mut self, f: Box<dyn Future<Item = (), Error = ()> + Send>) -> Result<(), tokio_executor::SpawnError> {
        self.0.borrow_mut().push(f);
        Ok(())
    }
}

struct Ran {
    /// ran until nothing was left to do
    idle: bool,
    /// real time passed: the queue takes its start-up time from the real clock
    slack: Duration,
    unfinished: usize,
}

/// One life of the process.
fn run_once(world: &World, crash_at: Option<u64>, faults: bool) -> Result<Ran, String> {
    let base = Instant::now();
    let ahead = crate::clock::ahead();
    let (sched, spurious, budget) = {
        let mut l = world.lock();
        l.base = base;
        l.offset = Duration::new(0, 0);
        l.ticks = 0;
        l.crash_at = crash_at;
        l.crashed = false;
        l.faults = faults;
        let attempts: u64 = l.q.mails.iter().map(|m| u64::from(m.fails) + 30).sum();
        (l.q.sched.clone(), l.q.spurious, 100_000 + attempts * 200)
    };
    let w = world.clone();
    let r = catch(move || {
        let stop = Arc::new(Mutex::new(false));
        let clock = Clock::new_with_now(w.clone());
        let mut timer = Some(Timer::new_with_now(Idle(w.clone(), stop.clone()), clock.clone()));
        let handle = timer.as_ref().unwrap().handle();
        let mut enter = tokio_executor::enter().expect("harness: nested executor");
        let spawner = Spawner(Rc::default());
        let mut ex = spawner.clone();
        tokio_timer::clock::with_default(&clock, &mut enter, |enter| {
            tokio_timer::with_default(&handle, enter, |enter| {
                tokio_executor::with_default(&mut ex, enter, |_| {
                    let ready = Ready::default();
                    let mut tasks: Vec<Option<Spawn<Task>>> = vec![];
                    let main = smtp_queue::run::<Meta, Qm, Im, Fim, Store, Net>(Arc::new(Store(w.clone())), Arc::new(Net(w.clone())));
                    spawner.0.borrow_mut().push(Box::new(main));
                    let mut polls = 0u64;
                    let mut i = 0usize;
                    loop {
                        for t in spawner.0.borrow_mut().drain(..) {
                            let id = tasks.len();
                            tasks.push(Some(spawn(t)));
                            ready.notify(id);
                        }
                        if w.lock().crashed {
                            return (false, polls, 0);
                        }
                        let next = {
                            let s = if sched.is_empty() { 0 } else { sched[i % sched.len()] as usize };
                            let id = ready.take(|_| s);
                            i += usize::from(id.is_some());
                            id.map(|id| (id, s))
                        };
                        match next {
                            Some((id, s)) => {
                                let mut poll = |id: usize| {
                                    polls += 1;
                                    let done = match tasks[id].as_mut() {
                                        // as on a pool of threads, a panic ends the task it happens in
                                        Some(t) => match catch(|| t.poll_future_notify(&ready, id)) {
                                            Ok(r) => !matches!(r, Ok(Async::NotReady)),
                                            Err(e) if e.contains(SCRIPTED) => true,
                                            Err(e) => panic!("{e}"),
                                        },
                                        None => false,
                                    };
                                    if done {
                                        tasks[id] = None;
                                    }
                                };
                                poll(id);
                                if spurious && s % 4 == 3 {
                                    let other = s.wrapping_mul(31).wrapping_add(i) % tasks_len(id);
                                    poll(other);
                                }
                                if polls > budget {
                                    w.lock().problems.push("the queue keeps running without coming to an end".into());
                                    return (false, polls, 0);
                                }
                            }
                            None => {
                                let dies = {
                                    let l = w.lock();
                                    l.timer_dies.is_some_and(|d| l.offset >= d)
                                };
                                if dies {
                                    timer = None;
                                }
                                match timer.as_mut() {
                                    Some(t) => t.park().unwrap(),
                                    None => *stop.lock().unwrap() = true,
                                }
                                let idle = std::mem::take(&mut *stop.lock().unwrap());
                                if idle && ready.is_empty() {
                                    let left = tasks.iter().filter(|t| t.is_some()).count();
                                    return (true, polls, left);
                                }
                            }
                        }
                    }
                })
            })
        })
    });
    let slack = base.elapsed().saturating_sub(crate::clock::ahead() - ahead);
    world.lock().run += 1;
    let (idle, _, unfinished) = r?;
    Ok(Ran { idle, slack, unfinished })
}
/// The same on a pool of threads, without a timer: the threads themselves are the schedule.
fn run_pool(world: &World, threads: usize) -> Result<Ran, String> {
    let w = world.clone();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .spawn(move || {
            let r = catch(move || {
                let pool = tokio_threadpool::Builder::new().pool_size(threads).build();
                let mut ex = pool.sender().clone();
                let mut enter = tokio_executor::enter().expect("harness: nested executor");
                tokio_executor::with_default(&mut ex, &mut enter, |_| {
                    let main = smtp_queue::run::<Meta, Qm, Im, Fim, Store, Net>(Arc::new(Store(w.clone())), Arc::new(Net(w.clone())));
                    let _ = crate::ready::wait(main);
                });
                drop(enter);
                let _ = crate::ready::wait(pool.shutdown_on_idle());
            });
            let _ = tx.send(r);
        })
        .expect("harness: no thread");
    let idle = match rx.recv_timeout(Duration::from_secs(200)) {
        Ok(r) => {
            r?;
            true
        }
        Err(_) => {
            world.lock().problems.push("on a pool of threads the queue does not come to rest".into());
            false
        }
    };
    world.lock().run += 1;
    Ok(Ran { idle, slack: Duration::new(0, 0), unfinished: 0 })
}
/// Spurious polls go to tasks that exist already: those numbered up to the one just polled.
fn tasks_len(id: usize) -> usize {
    id + 1
}

// ------------------------------------------------------------------ oracles

fn tail(log: &[L], mail: usize) -> String {
    let v: Vec<String> = log.iter().filter(|l| l.mail == mail).map(|l| l.show()).collect();
    let n = v.len().saturating_sub(12);
    v[n..].join("; ")
}

/// What must hold of every history: claim, fetch, send, then completion or return, for each attempt.
fn legal(w: &W) -> R {
    if let Some(p) = w.problems.first() {
        return Err(p.clone());
    }
    for mail in 0..w.q.mails.len() {
        let log: Vec<&L> = w.log.iter().filter(|l| l.mail == mail).collect();
        // (run, attempt) -> what has happened so far
        let mut claimed = std::collections::HashSet::new();
        let mut fetched = std::collections::HashMap::new();
        let mut sent = std::collections::HashSet::new();
        let mut result = std::collections::HashMap::new();
        let mut closed = std::collections::HashSet::new();
        let mut handed = false;
        for l in &log {
            let bad = |m: &str| Err(format!("{}: {m}; history: {}", l.show(), tail(&w.log, mail)));
            match l.w {
                What::Listed => handed = true,
                What::Found(_) => {}
                What::Call(START, _) => {
                    if !handed {
                        return bad("storage has not handed the mail out");
                    }
                    handed = false;
                }
                What::Resolved(START, k, true) => {
                    claimed.insert((l.run, k));
                }
                What::Call(GET, k) => {
                    if !claimed.contains(&(l.run, k)) {
                        return bad("the mail was not claimed");
                    }
                }
                What::Resolved(GET, k, ok) => {
                    fetched.insert((l.run, k), ok);
                }
                What::Call(SEND, k) => {
                    if fetched.get(&(l.run, k)) != Some(&true) {
                        return bad("the mail was not claimed and fetched");
                    }
                    if !sent.insert((l.run, k)) {
                        return bad("the mail is sent twice for one claim");
                    }
                }
                What::Resolved(SEND, k, ok) => {
                    result.insert((l.run, k), ok);
                }
                What::Call(DONE, k) => {
                    if result.get(&(l.run, k)) != Some(&true) {
                        return bad("the transport has not accepted the mail");
                    }
                    if !closed.insert((l.run, k)) {
                        return bad("the attempt was concluded before");
                    }
                }
                What::Call(CANCEL, k) => {
                    if result.get(&(l.run, k)) != Some(&false) && fetched.get(&(l.run, k)) != Some(&false) {
                        return bad("no attempt has failed");
                    }
                    if !closed.insert((l.run, k)) {
                        return bad("the attempt was concluded before");
                    }
                }
                What::Resolved(CANCEL, _, true) | What::Resolved(TAKEBACK, _, true) => handed = true,
                _ => {}
            }
        }
    }
    Ok(())
}

fn count(w: &W, mail: usize, what: fn(&What) -> bool) -> usize {
    w.log.iter().filter(|l| l.mail == mail && what(&l.w)).count()
}
fn tol(r: &Ran) -> Duration {
    r.slack + Duration::from_secs(1)
}
fn secs(o: Option<&Op>) -> u64 {
    o.map(|o| u64::from(o.pre) + u64::from(o.post)).unwrap_or(0)
}

fn finished(w: &W, r: &Ran) -> R {
    for (i, s) in w.st.iter().enumerate() {
        if *s != St::Done {
            return Err(format!(
                "mail {i} is never sent and removed: it stays {} although storage and transport work ({} tasks left, {}); history: {}",
                if *s == St::Queued { "in the queue" } else { "in flight" },
                r.unfinished,
                if r.idle { "nothing left to do" } else { "stopped" },
                tail(&w.log, i)
            ));
        }
    }
    Ok(())
}

/// Listing and completion times of mails that meet no failure: nobody waits for anybody.
fn prompt(w: &W, r: &Ran) -> R {
    let mut at = 0u64;
    for (i, m) in w.q.mails.iter().enumerate() {
        if m.inflight {
            continue;
        }
        at += u64::from(m.list);
        let t = |what: fn(&What) -> bool| w.log.iter().find(|l| l.run == 0 && l.mail == i && what(&l.w)).map(|l| l.t);
        let check = |what: &str, got: Option<Duration>, want: u64| match got {
            Some(g) if g > Duration::from_secs(want) + tol(r) => {
                Err(format!("mail {i} is {what} after {:.1} s; with nothing to wait for it would be after {want} s; history: {}", g.as_secs_f64(), tail(&w.log, i)))
            }
            _ => Ok(()),
        };
        check("listed", t(|x| *x == What::Listed), at)?;
        if m.fails == 0 && !breaks_off(m) {
            let total: u64 = at + [START, GET, SEND, DONE].iter().map(|o| secs(m.ops.get(*o).and_then(|v| v.first()))).sum::<u64>();
            check("removed", t(|x| matches!(x, What::Resolved(DONE, _, true))), total)?;
        }
    }
    Ok(())
}

fn breaks_off(m: &QMail) -> bool {
    m.ops.get(GET).is_some_and(|v| v.iter().any(|o| o.fail == 3))
}

fn label(q: &Q, w: &W, ctx: &mut Ctx) {
    ctx.add("mails", q.mails.len() as u64);
    ctx.add("transport attempts", w.log.iter().filter(|l| matches!(l.w, What::Call(SEND, _))).count() as u64);
    ctx.add("failed attempts", w.log.iter().filter(|l| matches!(l.w, What::Resolved(SEND, _, false))).count() as u64);
    ctx.add("failed storage operations", w.log.iter().filter(|l| matches!(l.w, What::Resolved(o, _, false) if o != SEND)).count() as u64);
    ctx.add("taken back", w.log.iter().filter(|l| matches!(l.w, What::Resolved(TAKEBACK, _, true))).count() as u64);
    ctx.add("stale in-flight entries", w.log.iter().filter(|l| matches!(l.w, What::Resolved(TAKEBACK, _, false))).count() as u64);
}

// ------------------------------------------------------------------ checks

fn c31(q: &Q, ctx: &mut Ctx) -> R {
    let world = World(Arc::new(Mutex::new(W::new(q))));
    let r = run_once(&world, None, true)?;
    let w = world.lock();
    if q.mails.len() > 1 {
        ctx.nontrivial();
    }
    label(q, &w, ctx);
    legal(&w)?;
    finished(&w, &r)?;
    for i in 0..q.mails.len() {
        for (what, n) in [
            ("accepted by the transport", w.accepted[i] as usize),
            ("passed to the transport", count(&w, i, |x| matches!(x, What::Call(SEND, _)))),
            ("claimed", count(&w, i, |x| matches!(x, What::Resolved(START, _, true)))),
            ("marked done", count(&w, i, |x| matches!(x, What::Call(DONE, _)))),
        ] {
            if n != 1 {
                return Err(format!("mail {i} is {what} {n} times; history: {}", tail(&w.log, i)));
            }
        }
    }
    prompt(&w, &r)
}

/// Whether each failed attempt makes the stack deeper, as it does when an attempt is polled by the
/// one before it. That is not wrong, but such a queue cannot be run for tens of thousands of attempts.
fn deepens() -> bool {
    static KNOWN: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *KNOWN.get_or_init(|| {
        let m = QMail { fails: 200, to: vec![B(b"a@b.c".to_vec())], meta: B(vec![0]), ..QMail::default() };
        let q = Q { mails: vec![m], end: 0, own: false, sched: vec![], spurious: false, list_fail: None };
        let world = World(Arc::new(Mutex::new(W::new(&q))));
        let _ = run_once(&world, None, true);
        let w = world.lock();
        match (w.stack.first(), w.stack.last()) {
            (Some(a), Some(b)) => a.abs_diff(*b) > 200 * 16,
            _ => false,
        }
    })
}
const DEEPEST: u32 = 1000;

fn c32(q: &Q, ctx: &mut Ctx) -> R {
    let mut cut = None;
    if q.mails.iter().any(|m| m.fails > DEEPEST) && deepens() {
        let mut c = q.clone();
        for m in &mut c.mails {
            if m.fails > DEEPEST {
                m.fails = DEEPEST + m.fails % 30;
            }
        }
        ctx.label("cut to 1000 failures");
        cut = Some(c);
    }
    let q = cut.as_ref().unwrap_or(q);
    let world = World(Arc::new(Mutex::new(W::new(q))));
    let r = run_once(&world, None, true)?;
    let w = world.lock();
    if q.mails.iter().any(|m| m.fails > 0) {
        ctx.nontrivial();
    }
    ctx.label_if(q.mails.iter().any(|m| m.fails > 100), "more than 100 failures of one mail");
    label(q, &w, ctx);
    legal(&w)?;
    finished(&w, &r)?;
    for (i, m) in q.mails.iter().enumerate() {
        // each broken content costs an attempt too
        let tries = count(&w, i, |x| matches!(x, What::Call(SEND, _)));
        let failed = count(&w, i, |x| matches!(x, What::Resolved(SEND, _, false)));
        let returned = count(&w, i, |x| matches!(x, What::Resolved(CANCEL, _, true)));
        let claims = count(&w, i, |x| matches!(x, What::Resolved(START, _, true)));
        if w.accepted[i] != 1 || tries != failed + 1 || claims != tries || returned != failed || (failed as u32) < m.fails {
            return Err(format!(
                "mail {i}: {claims} claims, {tries} attempts of which {failed} failed ({} were to), {returned} returns, {} acceptances; history: {}",
                m.fails,
                w.accepted[i],
                tail(&w.log, i)
            ));
        }
    }
    prompt(&w, &r)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Pooled {
    q: Q,
    threads: u8,
}
/// What happens to each mail does not depend on the threads that work on the queue.
fn pooled(c: &Pooled, ctx: &mut Ctx) -> Result<(World, World, Ran), String> {
    ctx.label_if(c.threads > 1, "several threads");
    let world = World(Arc::new(Mutex::new(W::new(&c.q))));
    let r = run_pool(&world, usize::from(c.threads))?;
    let alone = World(Arc::new(Mutex::new(W::new(&c.q))));
    run_once(&alone, None, true)?;
    {
        let (w, a) = (world.lock(), alone.lock());
        label(&c.q, &w, ctx);
        legal(&w)?;
        legal(&a)?;
        for i in 0..c.q.mails.len() {
            let of = |w: &W| w.log.iter().filter(|l| l.mail == i).map(|l| l.w).collect::<Vec<_>>();
            if of(&w) != of(&a) {
                return Err(format!("on {} threads mail {i} is treated differently: {}; on one: {}", c.threads, tail(&w.log, i), tail(&a.log, i)));
            }
        }
    }
    Ok((world, alone, r))
}
fn all_sent_once(c: &Pooled, ctx: &mut Ctx) -> R {
    let (world, _, r) = pooled(c, ctx)?;
    let w = world.lock();
    if c.q.mails.len() > 1 {
        ctx.nontrivial();
    }
    finished(&w, &r)?;
    match w.accepted.iter().position(|n| *n != 1) {
        Some(i) => Err(format!("mail {i} is accepted by the transport {} times; history: {}", w.accepted[i], tail(&w.log, i))),
        None => Ok(()),
    }
}
fn some_failing(c: &Pooled, ctx: &mut Ctx) -> R {
    let (world, ..) = pooled(c, ctx)?;
    let w = world.lock();
    if w.log.iter().any(|l| matches!(l.w, What::Resolved(o, _, false) if o != SEND)) {
        ctx.nontrivial();
    }
    match (0..c.q.mails.len()).find(|i| w.st[*i] == St::Done && w.accepted[*i] == 0) {
        Some(i) => Err(format!("mail {i} is marked done without having been sent; history: {}", tail(&w.log, i))),
        None => Ok(()),
    }
}
fn in_pool(s: Shape) -> BoxedStrategy<Pooled> {
    (queue(s), prop_oneof![1 => Just(vec![]), 3 => vec(0u8..6, 1..30)], 1u8..7)
        .prop_map(|(mut q, yields, threads)| {
            q.own = false;
            q.end = 0;
            let mut y = yields.iter().cycle();
            for m in &mut q.mails {
                m.list = 0;
                for ops in &mut m.ops {
                    if ops.is_empty() {
                        ops.push(Op::default());
                    }
                    for o in ops {
                        o.pre = 0;
                        o.post = 0;
                        o.yields = y.next().copied().unwrap_or(0);
                    }
                }
            }
            Pooled { q, threads }
        })
        .boxed()
}

/// A mail accepted more than once was accepted for the last time before a crash or a storage failure.
fn duplicates(w: &W, crashed: &[bool]) -> R {
    for mail in 0..w.q.mails.len() {
        let mut open: Option<(usize, u32)> = None; // accepted, not recorded
        let mut excuse = true;
        for (i, l) in w.log.iter().enumerate().filter(|(_, l)| l.mail == mail) {
            match l.w {
                What::Effect(SEND, k) => {
                    // accepted, unless this attempt is a failure
                    let ok = w.log[i..].iter().find_map(|x| match x.w {
                        What::Resolved(SEND, j, ok) if x.mail == mail && j == k && x.run == l.run => Some(ok),
                        _ => None,
                    });
                    let ok = match ok {
                        Some(ok) => ok,
                        // crashed before the result was reported: the attempt may have been one that fails
                        None => true,
                    };
                    if !ok {
                        continue;
                    }
                    if let Some((run, _)) = open {
                        if !(excuse || (run < l.run && crashed[run])) {
                            return Err(format!(
                                "mail {mail} is accepted by the transport again without a crash or storage failure in between; history: {}",
                                tail(&w.log, mail)
                            ));
                        }
                    }
                    open = Some((l.run, k));
                    excuse = false;
                }
                What::Resolved(DONE, _, false) => excuse = true,
                _ => {}
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Crashes {
    q: Q,
    /// further crashes, at these steps of the following runs
    more: Vec<u16>,
}
fn lives(c: &Crashes, first: Option<u64>, ctx: &mut Ctx) -> Result<u64, String> {
    let world = World(Arc::new(Mutex::new(W::new(&c.q))));
    let r = run_once(&world, first, true)?;
    let ticks = world.lock().ticks;
    let mut crashed = vec![!r.idle];
    for k in &c.more {
        let r = run_once(&world, Some(u64::from(*k) + 1), true)?;
        crashed.push(!r.idle);
        if let Some(p) = world.lock().problems.first() {
            return Err(p.clone());
        }
    }
    // storage and transport work from here on
    let r = run_once(&world, None, false)?;
    crashed.push(false);
    let w = world.lock();
    let at = |m: String| match first {
        Some(k) => format!("first run dying at step {k} of {ticks}, {} further crashes: {m}", c.more.len()),
        None => m,
    };
    legal(&w).map_err(at)?;
    finished(&w, &r).map_err(at)?;
    duplicates(&w, &crashed).map_err(at)?;
    for i in 0..c.q.mails.len() {
        if w.accepted[i] == 0 {
            return Err(at(format!("mail {i} was removed without having been accepted; history: {}", tail(&w.log, i))));
        }
        ctx.add("mails sent more than once", u64::from(w.accepted[i] > 1));
    }
    ctx.add("restarts", crashed.len() as u64 - 1);
    Ok(ticks)
}
fn c33(c: &Crashes, ctx: &mut Ctx) -> R {
    if !c.q.mails.is_empty() {
        ctx.nontrivial();
    }
    let ticks = lives(c, None, ctx)?;
    let step = (ticks / 60).max(1);
    let mut k = 1;
    while k <= ticks {
        lives(c, Some(k), ctx)?;
        ctx.add("crash points", 1);
        k += step;
    }
    Ok(())
}

const HOUR: Duration = Duration::from_secs(3600);

fn c34(q: &Q, ctx: &mut Ctx) -> R {
    let world = World(Arc::new(Mutex::new(W::new(q))));
    let r = run_once(&world, None, true)?;
    let w = world.lock();
    if q.mails.iter().any(|m| m.inflight) {
        ctx.nontrivial();
    }
    label(q, &w, ctx);
    legal(&w)?;
    for (i, m) in q.mails.iter().enumerate() {
        if !m.inflight {
            continue;
        }
        let mine: Vec<&L> = w.log.iter().filter(|l| l.mail == i).collect();
        if let Some(l) = mine.iter().find(|l| !matches!(l.w, What::Found(_)) && l.t < HOUR) {
            return Err(format!("{}: within an hour of start-up the mail must be left alone; history: {}", l.show(), tail(&w.log, i)));
        }
        let found = mine.iter().find(|l| matches!(l.w, What::Found(_))).map(|l| l.t);
        let back = mine.iter().find(|l| matches!(l.w, What::Call(TAKEBACK, _))).map(|l| l.t);
        let Some(found) = found else {
            return Err(format!("mails in flight are not looked for; history: {}", tail(&w.log, i)));
        };
        let Some(back) = back else {
            return Err(format!("mail {i}, found in flight, is never taken back; history: {}", tail(&w.log, i)));
        };
        let due = found.max(HOUR);
        if back > due + tol(&r) {
            return Err(format!(
                "mail {i}, found in flight {:.1} s after start-up, is taken back {:.1} s after start-up; history: {}",
                found.as_secs_f64(),
                back.as_secs_f64(),
                tail(&w.log, i)
            ));
        }
        ctx.label_if(found > HOUR, "found after the hour");
        if m.fails == 0 && !breaks_off(m) {
            let total: u64 = [TAKEBACK, START, GET, SEND, DONE].iter().map(|o| secs(m.ops.get(*o).and_then(|v| v.first()))).sum();
            let done = mine.iter().find(|l| matches!(l.w, What::Resolved(DONE, _, true))).map(|l| l.t);
            if done.is_some_and(|d| d > due + Duration::from_secs(total) + tol(&r)) {
                return Err(format!("mail {i}, found in flight, waits for something else; history: {}", tail(&w.log, i)));
            }
        }
        if w.accepted[i] != 1 {
            return Err(format!("mail {i}, found in flight, is accepted by the transport {} times; history: {}", w.accepted[i], tail(&w.log, i)));
        }
    }
    finished(&w, &r)?;
    prompt(&w, &r)
}

/// The timer breaks down at some moment: no wait of the queue ends properly after that.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct NoTimer {
    q: Q,
    dies: u16,
}
fn c34_timer(c: &NoTimer, ctx: &mut Ctx) -> R {
    let world = World(Arc::new(Mutex::new(W::new(&c.q))));
    world.lock().timer_dies = Some(Duration::from_secs(c.dies.into()));
    let r = catch_run(&world)?;
    let w = world.lock();
    if c.q.mails.iter().any(|m| m.inflight) {
        ctx.nontrivial();
    }
    ctx.label_if(r.is_none(), "the queue gives up");
    legal(&w)?;
    for (i, m) in c.q.mails.iter().enumerate() {
        let early = w.log.iter().find(|l| l.mail == i && !matches!(l.w, What::Found(_)) && l.t < HOUR);
        if let (true, Some(l)) = (m.inflight, early) {
            return Err(format!(
                "{}: within an hour of start-up the mail must be left alone, timer or not (it fails {} s after start-up); history: {}",
                l.show(),
                c.dies,
                tail(&w.log, i)
            ));
        }
    }
    Ok(())
}
/// A queue that panics because its timer fails has done nothing to its mails.
fn catch_run(w: &World) -> Result<Option<Ran>, String> {
    match run_once(w, None, true) {
        Ok(r) => Ok(Some(r)),
        Err(e) if e.contains("harness:") => Err(e),
        Err(_) => Ok(None),
    }
}

fn c35(q: &Q, ctx: &mut Ctx) -> R {
    let world = World(Arc::new(Mutex::new(W::new(q))));
    let r = run_once(&world, None, true)?;
    let w = world.lock();
    label(q, &w, ctx);
    // without the failures
    let mut clean = q.clone();
    for m in &mut clean.mails {
        for o in m.ops.iter_mut().flatten() {
            o.fail = 0;
        }
    }
    let world2 = World(Arc::new(Mutex::new(W::new(&clean))));
    let r2 = run_once(&world2, None, true)?;
    let w2 = world2.lock();
    legal(&w)?;
    legal(&w2)?;
    let tol = tol(&r) + tol(&r2);
    for (i, m) in q.mails.iter().enumerate() {
        let hit = w.log.iter().any(|l| l.mail == i && matches!(l.w, What::Resolved(o, k, false) if o != SEND && !stale(&w, i, o, k))) || breaks_off(m) || w.panicked[i];
        ctx.label_if(w.panicked[i], "panicked");
        if hit {
            ctx.nontrivial();
            // done only if an attempt was accepted and its completion took effect: `legal` has seen to the order
            let accepted = w.accepted[i] > 0;
            if w.st[i] == St::Done && !accepted {
                return Err(format!("mail {i}, on which storage failed, is marked done without having been sent; history: {}", tail(&w.log, i)));
            }
            continue;
        }
        // whether this process sees its own claims in flight depends on the schedule
        let relevant = |l: &&L| l.mail == i && !matches!(l.w, What::Found(_)) && !matches!(l.w, What::Call(TAKEBACK, k) | What::Resolved(TAKEBACK, k, false) if k != 0);
        let a: Vec<&L> = w.log.iter().filter(relevant).collect();
        let b: Vec<&L> = w2.log.iter().filter(relevant).collect();
        for n in 0..a.len().max(b.len()) {
            let same = match (a.get(n), b.get(n)) {
                (Some(x), Some(y)) => x.w == y.w && (x.t.max(y.t) - x.t.min(y.t)) <= tol,
                _ => false,
            };
            if !same {
                let s = |l: Option<&&L>| l.map(|l| l.show()).unwrap_or("nothing more".into());
                return Err(format!(
                    "storage fails on other mails only, yet mail {i} is treated differently: {}; without the failures: {}",
                    s(a.get(n)),
                    s(b.get(n))
                ));
            }
        }
    }
    if !r.idle || !r2.idle {
        return Err("the queue does not come to rest".into());
    }
    Ok(())
}
/// Taking back an entry that is no longer in flight fails without anything being wrong.
fn stale(w: &W, mail: usize, op: usize, k: u32) -> bool {
    op == TAKEBACK
        && w.log.iter().any(|l| l.mail == mail && matches!(l.w, What::Effect(DONE, j) | What::Effect(CANCEL, j) if j == k))
}

/// From the queue over SMTP to the receiving application.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Posted {
    q: Q,
    wire: Relay,
}
fn c36(c: &Posted, ctx: &mut Ctx) -> R {
    if c.q.mails.len() > 1 {
        ctx.nontrivial();
    }
    let world = World(Arc::new(Mutex::new(W::new(&c.q))));
    world.lock().wire = Some(Arc::new(c.wire.clone()));
    let r = run_once(&world, None, true)?;
    let w = world.lock();
    if let Some(p) = w.problems.first() {
        return Err(p.clone());
    }
    if !r.idle {
        return Err("the queue does not come to rest".into());
    }
    for (i, m) in c.q.mails.iter().enumerate() {
        let got: Vec<_> = w.arrived.iter().filter(|a| a.0 == i).map(|a| &a.1).collect();
        if got.len() != 1 {
            return Err(format!("mail {i} arrives {} times; history: {}", got.len(), tail(&w.log, i)));
        }
        let mb = |b: &B| mbox_of(&email(b));
        let text: Vec<u8> = m.chunks.iter().flat_map(|c| c.0.clone()).collect();
        let want = (m.from.as_ref().map(mb).transpose()?, m.to.iter().map(mb).collect::<Result<Vec<_>, _>>()?, with_crlf(&text));
        if *got[0] != want {
            return Err(format!("mail {i} arrives as {:?} {}, stored is {:?} {}", (&got[0].0, &got[0].1), show(&got[0].2), (&want.0, &want.1), show(&want.2)));
        }
    }
    Ok(())
}
fn posted() -> BoxedStrategy<Posted> {
    (queue(Shape { max: 6, transport: true, inflight: true, ..BASE }), e2e::relay())
        .prop_map(|(mut q, wire)| {
            for m in &mut q.mails {
                m.fails = m.fails.min(3);
                if m.to.is_empty() {
                    m.to.push(B(b"a@b".to_vec()));
                }
            }
            Posted { q, wire }
        })
        .boxed()
}

// ------------------------------------------------------------------ generators

fn mbox() -> BoxedStrategy<B> {
    prop_oneof![
        3 => select(crate::lits![b"a@b", b"foo@bar.example.org", b"postmaster", b"\"quoted \\\" @ local\"@ex.org", b"A@b", b"x@[IPv6:2001:db8:0:0:0:0:0:1]"].to_vec()).prop_map(|b| B(b.to_vec())),
        1 => gen::mbox(),
    ]
    .prop_map(|b| if matches!(grammar::mailbox(&b), V::Must(_)) { b } else { B(b"a@b".to_vec()) })
    .boxed()
}
fn pause() -> BoxedStrategy<u16> {
    prop_oneof![5 => Just(0u16), 1 => Just(1), 1 => Just(5), 1 => Just(60), 1 => dict::len(0usize..200, 0, 250).prop_map(|n| n as u16)].boxed()
}
/// `fails`: probability of a storage failure
fn op(fails: f64, kinds: u8) -> BoxedStrategy<Op> {
    (pause(), pause(), prop_oneof![3 => Just(0u8), 1 => 1u8..4], proptest::option::weighted(fails.max(0.0001), 1..=kinds))
        .prop_map(move |(pre, post, yields, f)| Op { pre, post, yields, fail: if fails == 0.0 { 0 } else { f.unwrap_or(0) } })
        .boxed()
}
#[derive(Clone, Copy)]
struct Shape {
    max: usize,
    inflight: bool,
    fails: f64,
    transport: bool,
    quick_only: bool,
    list: u16,
}
fn qmail(s: Shape) -> BoxedStrategy<QMail> {
    let ops = move |f: f64, kinds: u8| -> BoxedStrategy<Vec<Op>> {
        if s.quick_only {
            prop_oneof![4 => Just(vec![]), 1 => vec(op(f, kinds), 1..2)].boxed()
        } else {
            vec(op(f, kinds), 0..3).boxed()
        }
    };
    let fails = if s.transport { prop_oneof![3 => Just(0u32), 4 => 1u32..4, 1 => dict::len(4usize..30, 1, 200).prop_map(|n| n as u32)].boxed() } else { Just(0u32).boxed() };
    let content = vec(prop_oneof![3 => vec(any::<u8>(), 0..20), 1 => dict::len(0usize..200, 0, 70_000).prop_flat_map(|n| (vec(any::<u8>(), n.min(300)), Just(n))).prop_map(|(mut v, n)| { v.resize(n, b'x'); v }), 1 => Just(b".\r\n".to_vec()), 1 => Just(vec![])].prop_map(B), 0..4);
    (
        (proptest::option::weighted(0.8, mbox()), prop_oneof![15 => vec(mbox(), 0..4), 1 => dict::len(0usize..4, 0, 200).prop_flat_map(|n| vec(mbox(), n))], content, vec(any::<u8>(), 0..5).prop_map(B)),
        (if s.inflight { any::<bool>().boxed() } else { Just(false).boxed() }, prop_oneof![3 => Just(0u16), 1 => 0..s.list]),
        (ops(s.fails, 2), ops(s.fails, if s.transport { 3 } else { 2 }), ops(0.0, 1), ops(s.fails, 2), ops(s.fails, 2), ops(s.fails, 2)),
        fails,
        vec((prop_oneof![Just(421u16), Just(450), Just(451), Just(550), Just(554), Just(250), Just(200), dict::len(200usize..600, 200, 599).prop_map(|n| n as u16)], select(vec![&b"no"[..], b"try later", b""]).prop_map(|b| B(b.to_vec()))), 0..4),
    )
        .prop_map(|((from, to, chunks, meta), (inflight, list), (a, b, c, d, e, f), fails, codes)| QMail {
            from,
            to,
            chunks,
            meta,
            inflight,
            list,
            ops: vec![a, b, c, d, e, f],
            fails,
            codes,
        })
        .boxed()
}
fn queue(s: Shape) -> BoxedStrategy<Q> {
    let n = s.max;
    (
        prop_oneof![6 => vec(qmail(s), 0..n.min(6)), 2 => vec(qmail(s), 0..n)],
        prop_oneof![3 => Just(0u16), 1 => 0..s.list],
        any::<bool>(),
        prop_oneof![1 => Just(vec![]), 1 => Just(vec![255u8]), 3 => vec(any::<u8>(), 1..40)],
        proptest::bool::weighted(0.3),
    )
        .prop_map(|(mails, end, own, sched, spurious)| {
            let mut q = Q { mails, end, own, sched, spurious, list_fail: None };
            cap(&mut q, 900);
            q
        })
        .boxed()
}
/// Listings take a quarter of an hour at most, so that an attempt is over within the hour that
/// the design grants it.
fn cap(q: &mut Q, max: u32) {
    let mut left = max;
    for m in &mut q.mails {
        m.list = u32::from(m.list).min(left) as u16;
        left -= u32::from(m.list);
    }
    q.end = u32::from(q.end).min(left) as u16;
}

const BASE: Shape = Shape { max: 20, inflight: false, fails: 0.0, transport: false, quick_only: false, list: 200 };

fn many(s: Shape, n: std::ops::Range<usize>) -> BoxedStrategy<Q> {
    (vec(qmail(s), 4..5), dict::len(n, 1, 1200), any::<bool>(), prop_oneof![1 => Just(vec![]), 2 => vec(any::<u8>(), 1..40)])
        .prop_map(|(some, n, own, sched)| {
            let mails = (0..n)
                .map(|i| {
                    let mut m = some[i % some.len()].clone();
                    m.meta = B(i.to_string().into_bytes());
                    m.list = 0;
                    m
                })
                .collect();
            Q { mails, end: 0, own, sched, spurious: false, list_fail: None }
        })
        .boxed()
}
fn persistent() -> BoxedStrategy<Q> {
    let s = Shape { transport: true, quick_only: true, max: 4, ..BASE };
    (queue(s), dict::len(select(vec![60usize, 127, 128, 255, 256, 257, 500, 1000, 1023, 1025, 3000, 12_000, 66_000]), 1, 20_000).prop_map(|n| n as u32), 0u32..3)
        .prop_map(|(mut q, n, d)| {
            if let Some(m) = q.mails.first_mut() {
                m.fails = n + d;
            }
            q
        })
        .boxed()
}
/// Attempts that take hours and fail, for months.
fn slow_failures() -> BoxedStrategy<Q> {
    let s = Shape { transport: true, quick_only: true, max: 4, ..BASE };
    let wait = || prop_oneof![1 => Just(0u16), 2 => 1u16..600, 3 => 600u16..7300, 3 => any::<u16>()];
    (queue(s), vec((wait(), prop_oneof![4 => Just(0u16), 1 => wait()]), 20..300))
        .prop_map(|(mut q, waits)| {
            if let Some(m) = q.mails.first_mut() {
                m.fails = waits.len() as u32 + m.fails % 3;
                // longer than the hour: storage has to tell its own claims from others
                q.own = false;
                m.ops[SEND] = waits.into_iter().map(|(pre, post)| Op { pre, post, ..Op::default() }).collect();
            }
            q
        })
        .boxed()
}
/// The same with operations of storage and transport that take up to 36 hours.
fn slow(q: BoxedStrategy<Q>) -> BoxedStrategy<Q> {
    let wait = || prop_oneof![6 => Just(0u16), 2 => 1u16..600, 2 => 600u16..3700, 2 => any::<u16>()];
    (q, vec((wait(), wait()), 1..40), 0usize..6)
        .prop_map(|(mut q, waits, mostly)| {
            // longer than the hour: storage has to tell its own claims from others
            q.own = false;
            let mut w = waits.iter().cycle();
            for m in &mut q.mails {
                m.fails = m.fails.min(8);
                for (o, ops) in m.ops.iter_mut().enumerate() {
                    if ops.is_empty() {
                        ops.push(Op::default());
                    }
                    for op in ops {
                        let &(pre, post) = w.next().unwrap();
                        // often one kind of operation is slow, sometimes all are
                        if o == mostly || mostly == START {
                            op.pre = pre;
                            op.post = post;
                        }
                    }
                }
            }
            q
        })
        .boxed()
}
fn crashes(s: Shape) -> BoxedStrategy<Crashes> {
    (queue(s), prop_oneof![2 => Just(vec![]), 2 => vec(0u16..60, 1..5)], proptest::option::weighted(0.1, 0u8..4))
        .prop_map(|(mut q, more, lf)| {
            q.list_fail = lf;
            for m in &mut q.mails {
                m.fails = m.fails.min(4);
            }
            Crashes { q, more }
        })
        .boxed()
}
/// Few storage failures: one on every ninth mail or so.
fn many_failing(s: Shape, n: std::ops::Range<usize>) -> BoxedStrategy<Q> {
    (many(s, n), vec(qmail(Shape { fails: 0.4, ..s }), 1..3))
        .prop_map(|(mut q, bad)| {
            for (i, m) in q.mails.iter_mut().enumerate() {
                if i % 9 == 4 {
                    let b = &bad[i % bad.len()];
                    m.ops = b.ops.clone();
                    m.inflight = b.inflight;
                }
            }
            q
        })
        .boxed()
}
fn many_crashes() -> BoxedStrategy<Crashes> {
    (many(Shape { inflight: true, ..BASE }, 40..300), prop_oneof![2 => Just(vec![]), 1 => vec(0u16..2000, 1..3)])
        .prop_map(|(q, more)| Crashes { q, more })
        .boxed()
}
fn found() -> BoxedStrategy<Q> {
    let s = Shape { inflight: true, ..BASE };
    let t = Shape { inflight: true, transport: true, ..BASE };
    prop_oneof![
        4 => queue(s),
        1 => queue(t),
        // listings beyond the hour, when storage tells its own claims from others
        1 => (vec(qmail(s), 1..5), vec(0u16..3000, 5), 0u16..5000).prop_map(|(mut mails, list, end)| {
            for (m, l) in mails.iter_mut().zip(list) {
                m.list = l;
            }
            Q { mails, end, own: false, sched: vec![], spurious: false, list_fail: None }
        }),
    ]
    .boxed()
}
fn no_timer() -> BoxedStrategy<NoTimer> {
    (found(), prop_oneof![2 => Just(0u16), 3 => 0u16..5000, 1 => 3590u16..3610]).prop_map(|(q, dies)| NoTimer { q, dies }).boxed()
}
fn failing() -> BoxedStrategy<Q> {
    prop_oneof![
        2 => queue(Shape { fails: 0.15, inflight: true, ..BASE }),
        2 => queue(Shape { fails: 0.15, transport: true, inflight: true, ..BASE }),
        1 => queue(Shape { fails: 0.5, transport: true, inflight: true, ..BASE }),
    ]
    .boxed()
}

/// Storage and transport panic where they would fail.
fn panicking() -> BoxedStrategy<Q> {
    (failing(), vec(proptest::option::weighted(0.2, 4u8..7), 1..5))
        .prop_map(|(mut q, sends)| {
            for (i, m) in q.mails.iter_mut().enumerate() {
                for (k, o) in m.ops.iter_mut().enumerate() {
                    for (n, o) in o.iter_mut().enumerate() {
                        if matches!(o.fail, 1 | 2) {
                            o.fail = if o.pre % 3 == 1 || o.yields > 1 { 6 } else { o.fail + 3 };
                        }
                        if k == SEND && i % 2 == 0 {
                            o.fail = sends[n % sends.len()].unwrap_or(o.fail);
                        }
                    }
                }
            }
            q
        })
        .boxed()
}

pub fn subs(id: &str) -> Vec<Box<dyn Sub>> {
    match id {
        "C31" => vec![
            Box::new(Prop { name: "queues", rule: "up to 20 mails, scripted delays, yields, scheduling orders and listings, everything works; non-trivial: more than one mail", strat: || queue(BASE), check: c31, quick: 40_000, thorough: 2_000_000 }),
            Box::new(Prop { name: "long queues", rule: "100 to 600 mails", strat: || many(BASE, 100..600), check: c31, quick: 160, thorough: 8_000 }),
            Box::new(Prop { name: "slow operations", rule: "operations of storage and transport that take up to 36 hours; non-trivial: more than one mail", strat: || slow(queue(BASE)), check: c31, quick: 10_000, thorough: 500_000 }),
            Box::new(Prop { name: "threads", rule: "up to 20 mails on a pool of one to six threads, against the history of each mail on one; non-trivial: more than one mail", strat: || in_pool(BASE), check: all_sent_once, quick: 2_000, thorough: 200_000 }),
        ],
        "C32" => vec![
            Box::new(Prop { name: "failing attempts", rule: "0 to 30 failed attempts per mail with all kinds of codes, contents that break off; non-trivial: an attempt fails", strat: || queue(Shape { transport: true, ..BASE }), check: c32, quick: 30_000, thorough: 1_500_000 }),
            Box::new(Prop { name: "recovered", rule: "the same with mails that an earlier process left in flight; non-trivial: an attempt fails", strat: || queue(Shape { transport: true, inflight: true, ..BASE }), check: c32, quick: 12_000, thorough: 600_000 }),
            Box::new(Prop { name: "persistent failures", rule: "one mail failing 60 to 66000 times; non-trivial: an attempt fails", strat: persistent, check: c32, quick: 100, thorough: 10_000 }),
            Box::new(Prop { name: "slow failures", rule: "one mail failing 20 to 300 times, each attempt taking up to 18 hours; non-trivial: an attempt fails", strat: slow_failures, check: c32, quick: 1_500, thorough: 50_000 }),
            Box::new(Prop { name: "threads", rule: "failing attempts on a pool of one to six threads, against the history of each mail on one; non-trivial: more than one mail", strat: || in_pool(Shape { transport: true, ..BASE }), check: all_sent_once, quick: 2_000, thorough: 200_000 }),
        ],
        "C33" => vec![
            Box::new(Prop { name: "crashes", rule: "a first run dying at each of its steps (up to 60 points), further crashes, storage and transport failures, then a run in which all works; non-trivial: at least one mail", strat: || crashes(Shape { max: 7, inflight: true, fails: 0.1, transport: true, ..BASE }), check: c33, quick: 4_000, thorough: 200_000 }),
            Box::new(Prop { name: "crashes only", rule: "the same without failures", strat: || crashes(Shape { max: 9, inflight: true, ..BASE }), check: c33, quick: 2_000, thorough: 100_000 }),
            Box::new(Prop { name: "slow operations", rule: "crashes with operations that take up to 36 hours; non-trivial: at least one mail", strat: || (slow(queue(Shape { max: 7, inflight: true, transport: true, ..BASE })), vec(0u16..60, 0..3)).prop_map(|(q, more)| Crashes { q, more }).boxed(), check: c33, quick: 600, thorough: 30_000 }),
            Box::new(Prop { name: "many mails", rule: "40 to 300 mails, a first run dying at up to 60 of its steps, further crashes; non-trivial: at least one mail", strat: many_crashes, check: c33, quick: 60, thorough: 3_000 }),
        ],
        "C34" => vec![
            Box::new(Prop { name: "in flight", rule: "mails in flight and queued, in virtual time; non-trivial: a mail in flight", strat: found, check: c34, quick: 40_000, thorough: 2_000_000 }),
            Box::new(Prop { name: "slow operations", rule: "operations that take up to 36 hours; non-trivial: a mail in flight", strat: || slow(found()), check: c34, quick: 10_000, thorough: 500_000 }),
            Box::new(Prop { name: "timer failures", rule: "the timer breaks down 0 to 5000 s after start-up; non-trivial: a mail in flight", strat: no_timer, check: c34_timer, quick: 10_000, thorough: 500_000 }),
            Box::new(Prop { name: "many in flight", rule: "100 to 400 mails", strat: || many(Shape { inflight: true, ..BASE }, 100..400), check: c34, quick: 120, thorough: 6_000 }),
        ],
        "C35" => vec![
            Box::new(Prop { name: "failures", rule: "storage operations failing before or after their effect on some mails, compared with the same run without failures; non-trivial: a failure took place", strat: failing, check: c35, quick: 30_000, thorough: 1_500_000 }),
            Box::new(Prop { name: "slow operations", rule: "operations that take up to 36 hours, some failing; non-trivial: a failure took place", strat: || slow(failing()), check: c35, quick: 10_000, thorough: 500_000 }),
            Box::new(Prop { name: "panics", rule: "operations of storage and transport that panic before or after their effect on some mails, compared with the same run without; non-trivial: a failure or panic took place", strat: panicking, check: c35, quick: 6_000, thorough: 500_000 }),
            Box::new(Prop { name: "many mails", rule: "40 to 300 mails, storage failures on some; non-trivial: a failure took place", strat: || many_failing(Shape { inflight: true, ..BASE }, 40..300), check: c35, quick: 150, thorough: 6_000 }),
            Box::new(Prop { name: "threads", rule: "failures on a pool of one to six threads, against the history of each mail on one; non-trivial: a failure took place", strat: || in_pool(Shape { fails: 0.15, transport: true, ..BASE }), check: some_failing, quick: 2_400, thorough: 200_000 }),
        ],
        "C36" => vec![Box::new(Prop { name: "from the queue", rule: "up to six mails run through the queue, each accepted attempt being an SMTP session; non-trivial: more than one mail", strat: posted, check: c36, quick: 8_000, thorough: 300_000 })],
        _ => vec![],
    }
}
