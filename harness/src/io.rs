//! Scripted asynchronous sources and sinks.
use bytes::{Bytes, BytesMut};
use futures::{Sink, Stream};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// Cyclic pattern of how many times to return Pending (self-woken) before each step.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Stalls(pub Vec<u8>);

pub fn stalls() -> impl Strategy<Value = Stalls> {
    prop_oneof![
        2 => Just(Stalls(vec![])),
        3 => proptest::collection::vec(0u8..3, 1..6).prop_map(Stalls),
    ]
}

pub struct Staller {
    pat: Vec<u8>,
    i: usize,
    left: u8,
}
impl Staller {
    pub fn new(s: &Stalls) -> Staller {
        let left = s.0.first().copied().unwrap_or(0);
        Staller { pat: s.0.clone(), i: 0, left }
    }
    /// true: return Pending now (the waker has been woken).
    pub fn stall(&mut self, cx: &mut Context<'_>) -> bool {
        if self.left > 0 {
            self.left -= 1;
            cx.waker().wake_by_ref();
            return true;
        }
        if !self.pat.is_empty() {
            self.i = (self.i + 1) % self.pat.len();
            self.left = self.pat[self.i];
        }
        false
    }
}

/// How the bytes of a connection are cut into chunks, and how those chunks are laid out in memory.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Chunks {
    /// cyclic chunk sizes; 0 = empty chunk; all zero or empty = one chunk
    pub sizes: Vec<u16>,
    /// 0: copied (inline if small), 1: own vector, 2: pieces of one shared buffer, 3: alternating
    pub repr: u8,
    /// so many empty chunks before the chunk of that number (modulo their number)
    #[serde(default, skip_serializing_if = "none")]
    pub empties: (u32, u32),
}
fn none(e: &(u32, u32)) -> bool {
    e.0 == 0
}
/// A long run of empty chunks somewhere, now and then.
pub fn empties() -> impl Strategy<Value = (u32, u32)> {
    prop_oneof![12 => Just((0u32, 0u32)), 1 => (prop_oneof![4 => 1u32..50, 2 => 50u32..2_000, 1 => Just(100_000u32)], 0u32..10_000)]
}

pub fn chunks() -> impl Strategy<Value = Chunks> {
    let sizes = prop_oneof![
        2 => Just(vec![]),
        2 => Just(vec![1u16]),
        2 => Just(vec![2u16]),
        6 => proptest::collection::vec(0u16..7, 1..8),
        3 => proptest::collection::vec(prop_oneof![3 => 0u16..5, 2 => 5u16..40, 1 => 40u16..3000], 1..8),
        1 => proptest::collection::vec(crate::dict::len(1usize..600, 1, 65535).prop_map(|n| n as u16), 1..3),
        1 => proptest::collection::vec(prop_oneof![Just(31u16), Just(32), Just(33), Just(64), Just(1024), Just(4096), Just(1)], 1..4),
    ];
    (sizes, 0u8..4).prop_map(|(sizes, repr)| Chunks { sizes, repr, empties: (0, 0) })
}

pub fn cut<'a>(raw: &'a [u8], sizes: &[u16]) -> Vec<&'a [u8]> {
    let mut out = Vec::new();
    if sizes.iter().all(|s| *s == 0) {
        if !raw.is_empty() {
            out.push(raw);
        }
        return out;
    }
    let mut pos = 0;
    let mut i = 0;
    while pos < raw.len() {
        let n = (sizes[i % sizes.len()] as usize).min(raw.len() - pos);
        out.push(&raw[pos..pos + n]);
        pos += n;
        i += 1;
    }
    out
}

pub fn to_chunks(raw: &[u8], c: &Chunks) -> Vec<BytesMut> {
    let parts = cut(raw, &c.sizes);
    let mut shared = BytesMut::from(raw.to_vec());
    let mut all: Vec<BytesMut> = parts
        .into_iter()
        .enumerate()
        .map(|(i, p)| {
            let own = shared.split_to(p.len());
            let mode = if c.repr == 3 { (i % 3) as u8 } else { c.repr };
            match mode {
                0 => BytesMut::from(p),
                1 => BytesMut::from(p.to_vec()),
                _ => own,
            }
        })
        .collect();
    if c.empties.0 > 0 {
        let at = c.empties.1 as usize % (all.len() + 1);
        let tail = all.split_off(at);
        all.extend((0..c.empties.0).map(|_| BytesMut::new()));
        all.extend(tail);
    }
    all
}

#[derive(Default, Debug)]
pub struct SourceStat {
    pub yielded: usize,
    pub ended: bool,
    pub polls_after_end: usize,
}

/// Stream of the given chunks, with stalls; notes when it is polled after its end.
pub struct Source {
    items: VecDeque<BytesMut>,
    st: Staller,
    pub stat: Arc<Mutex<SourceStat>>,
}
impl Source {
    pub fn new(items: Vec<BytesMut>, stalls: &Stalls) -> Source {
        Source { items: items.into(), st: Staller::new(stalls), stat: Arc::default() }
    }
}
impl Stream for Source {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        let me = &mut *self;
        let mut stat = me.stat.lock().unwrap();
        if stat.ended {
            stat.polls_after_end += 1;
            if stat.polls_after_end > 1000 {
                panic!("source polled more than 1000 times after its end");
            }
            return Poll::Ready(None);
        }
        if me.st.stall(cx) {
            return Poll::Pending;
        }
        match me.items.pop_front() {
            Some(x) => {
                stat.yielded += 1;
                Poll::Ready(Some(x))
            }
            None => {
                stat.ended = true;
                Poll::Ready(None)
            }
        }
    }
}

/// Sink of byte chunks with back-pressure, a buffer visible only after flush, and one injected
/// failure at the k-th operation (readiness, write or flush that would otherwise have completed).
#[derive(Default, Debug)]
pub struct SinkLog {
    buf: Vec<u8>,
    /// how many bytes have been flushed
    pub flushed: usize,
    pub ops: usize,
    pub failed: bool,
    pub ops_after_failure: usize,
    pub closed: bool,
    line: usize,
    scan: usize,
    replies: usize,
}
/// Far beyond what any generated case calls for.
const RUNAWAY: usize = 300 << 20;
impl SinkLog {
    pub fn bytes(&self) -> Vec<u8> {
        self.buf.clone()
    }
    pub fn len(&self) -> usize {
        self.buf.len()
    }
    /// Complete replies among the flushed bytes: lines `ddd-...` continue, `ddd ...` end a reply.
    pub fn flushed_replies(&mut self) -> usize {
        while self.scan + 1 < self.flushed {
            if &self.buf[self.scan..self.scan + 2] == b"\r\n" {
                if self.scan - self.line >= 4 && self.buf[self.line + 3] == b' ' {
                    self.replies += 1;
                }
                self.line = self.scan + 2;
                self.scan += 2;
            } else {
                self.scan += 1;
            }
        }
        self.replies
    }
    fn push(&mut self, item: &[u8]) {
        self.buf.extend_from_slice(item);
        if self.buf.len() > RUNAWAY {
            panic!("runaway output: more than {RUNAWAY} bytes");
        }
    }
}
pub struct Out {
    pub log: Arc<Mutex<SinkLog>>,
    st: Staller,
    fail_at: Option<usize>,
    /// only the one operation fails, later ones work again
    pub once: bool,
    ready: bool,
}
impl Out {
    pub fn new(stalls: &Stalls, fail_at: Option<usize>) -> Out {
        Out { log: Arc::default(), st: Staller::new(stalls), fail_at, once: false, ready: false }
    }
    fn op(&mut self) -> Result<(), ()> {
        let mut l = self.log.lock().unwrap();
        if l.failed {
            l.ops_after_failure += 1;
            if !self.once {
                return Err(());
            }
        }
        let n = l.ops;
        l.ops += 1;
        if Some(n) == self.fail_at {
            l.failed = true;
            return Err(());
        }
        Ok(())
    }
}
impl Sink<Bytes> for Out {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        if self.st.stall(cx) {
            return Poll::Pending;
        }
        let r = self.op();
        self.ready = r.is_ok();
        Poll::Ready(r)
    }
    fn start_send(mut self: Pin<&mut Self>, item: Bytes) -> Result<(), ()> {
        if !self.ready && (self.once || !self.log.lock().unwrap().failed) {
            panic!("start_send without a successful poll_ready");
        }
        self.ready = false;
        self.op()?;
        self.log.lock().unwrap().push(&item);
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        if self.st.stall(cx) {
            return Poll::Pending;
        }
        if let Err(e) = self.op() {
            return Poll::Ready(Err(e));
        }
        let mut l = self.log.lock().unwrap();
        l.flushed = l.len();
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        match self.as_mut().poll_flush(cx) {
            Poll::Ready(Ok(())) => {
                self.log.lock().unwrap().closed = true;
                Poll::Ready(Ok(()))
            }
            x => x,
        }
    }
}
