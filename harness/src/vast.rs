//! C01, C03: messages of more than four gigabytes, made and checked on the way.
use crate::data::{ref_decode, ref_encode};
use crate::engine::*;
use crate::exec;
use bytes::{Bytes, BytesMut};
use futures::{Future, Sink, Stream, StreamExt};
use serde::{Deserialize, Serialize};
use smtp_message::{DataSink, DataStream, Email, Prependable, SmtpString};
use smtp_server::{interact, Config, ConnectionMetadata, Decision, MailMetadata};
use std::pin::Pin;
use std::task::{Context, Poll};

type R = Result<(), String>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Vast {
    /// whole lines
    lines: B,
    /// pieces of about that many bytes, each made of whole lines
    piece: u32,
    pieces: u32,
}
impl Vast {
    fn piece(&self) -> Vec<u8> {
        self.lines.repeat((self.piece as usize / self.lines.len()).max(1))
    }
}
pub fn cases(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(Vast) -> bool) {
    let line: Vec<u8> = [&[b'='; 120][..], b"\r\n"].concat();
    let dots: Vec<u8> = [b".", &line[..], b"..\r\n"].concat();
    let mut all = vec![
        Vast { lines: B(line), piece: 1 << 20, pieces: 4100 },
        Vast { lines: B(dots.clone()), piece: 4096, pieces: 1_060_000 },
    ];
    if tier == Tier::Thorough {
        all.push(Vast { lines: B(b"\r\n".to_vec()), piece: 1 << 20, pieces: 8200 });
        all.push(Vast { lines: B(dots), piece: 1 << 20, pieces: 9000 });
    }
    for (k, c) in all.into_iter().enumerate() {
        if k % shards == shard && !f(c) {
            return;
        }
    }
}

/// Compares what arrives with the endless repetition of `unit`.
struct Expect {
    unit: Vec<u8>,
    n: u64,
}
impl Expect {
    fn take(&mut self, mut got: &[u8]) -> R {
        while !got.is_empty() {
            let at = (self.n % self.unit.len() as u64) as usize;
            let k = got.len().min(self.unit.len() - at);
            if got[..k] != self.unit[at..at + k] {
                return Err(format!("{} comes within a byte range at {} where {} is due", show(&got[..k.min(200)]), self.n, show(&self.unit[at..at + k.min(200)])));
            }
            self.n += k as u64;
            got = &got[k..];
        }
        Ok(())
    }
}

struct Source {
    start: Option<&'static [u8]>,
    piece: Vec<u8>,
    left: u32,
    end: Option<&'static [u8]>,
}
impl Stream for Source {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        if let Some(b) = self.start.take() {
            return Poll::Ready(Some(BytesMut::from(b)));
        }
        if self.left > 0 {
            self.left -= 1;
            return Poll::Ready(Some(BytesMut::from(&self.piece[..])));
        }
        Poll::Ready(self.end.take().map(BytesMut::from))
    }
}

pub fn decoded(c: &Vast, ctx: &mut Ctx) -> R {
    ctx.nontrivial();
    let piece = c.piece();
    let mut want = Expect { unit: ref_decode(&piece).0, n: 0 };
    let total = want.unit.len() as u64 * u64::from(c.pieces);
    let mut src = Prependable::new(Source { start: None, piece, left: c.pieces, end: Some(b".\r\nQUIT\r\n") });
    let done = {
        let mut ds = DataStream::new(&mut src);
        exec::block_long(async {
            while let Some(b) = ds.next().await {
                want.take(&b)?;
            }
            Ok::<_, String>(ds.complete())
        })
        .map_err(|s| format!("{s:?}"))??
    };
    if done != Ok(()) || want.n != total {
        return Err(format!("of {total} bytes {} are decoded, completion: {done:?}", want.n));
    }
    let mut left = vec![];
    exec::block_long(async {
        while let Some(b) = src.next().await {
            left.extend_from_slice(&b);
        }
    })
    .map_err(|s| format!("{s:?}"))?;
    if left != b"QUIT\r\n" {
        return Err(format!("{} is left after the message", show(&left)));
    }
    Ok(())
}

struct Checked {
    want: Expect,
    total: u64,
    end: Vec<u8>,
    wrong: Option<String>,
}
impl Sink<Bytes> for Checked {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> {
        let k = ((self.total - self.want.n).min(b.len() as u64)) as usize;
        let r = self.want.take(&b[..k]);
        self.end.extend_from_slice(&b[k..]);
        match r {
            Ok(()) if self.end.len() < 100 => Ok(()),
            Ok(()) => Err(()),
            Err(e) => {
                self.wrong = Some(e);
                Err(())
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
}
pub fn encoded(c: &Vast, ctx: &mut Ctx) -> R {
    ctx.nontrivial();
    let piece = Bytes::from(c.piece());
    let mut unit = ref_encode(&piece);
    unit.truncate(unit.len() - 3);
    let total = unit.len() as u64 * u64::from(c.pieces);
    let mut out = Checked { want: Expect { unit, n: 0 }, total, end: vec![], wrong: None };
    let r = exec::block_long(async {
        let mut s = DataSink::new(&mut out);
        for _ in 0..c.pieces {
            s.send(piece.clone()).await?;
        }
        s.end().await.map(|_| ())
    })
    .map_err(|s| format!("{s:?}"))?;
    if let Some(e) = out.wrong {
        return Err(e);
    }
    if r != Ok(()) || out.want.n != total || out.end != b".\r\n" {
        return Err(format!("of {total} bytes {} are sent, then {}, outcome {r:?}", out.want.n, show(&out.end)));
    }
    Ok(())
}

/// Reads every message to the end.
struct Taker {
    want: Expect,
    wrong: Option<String>,
    mails: usize,
}
impl Taker {
    async fn read<S>(&mut self, stream: &mut DataStream<'_, S>) -> Decision
    where
        S: Unpin + Stream<Item = BytesMut>,
    {
        while let Some(b) = stream.next().await {
            if self.wrong.is_none() {
                self.wrong = self.want.take(&b).err();
            }
        }
        if stream.complete().is_err() {
            self.wrong.get_or_insert_with(|| "the message is called incomplete".into());
        }
        self.mails += 1;
        Decision::Accept
    }
}
type Fut<'a, T> = Pin<Box<dyn 'a + Send + Future<Output = T>>>;
impl Config<()> for Taker {
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Fut<'a, Decision> {
        Box::pin(futures::future::ready(Decision::Accept))
    }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Fut<'a, Decision> {
        Box::pin(futures::future::ready(Decision::Accept))
    }
    fn handle_mail<'a, S>(&'a mut self, stream: &'a mut DataStream<S>, _: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(self.read(stream))
    }
    fn hostname(&self) -> SmtpString {
        SmtpString::from_static(b"mx")
    }
}
/// Keeps the codes of the replies.
struct Codes(Vec<u8>);
impl Sink<Bytes> for Codes {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> {
        self.0.extend_from_slice(&b);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
}
pub fn received(c: &Vast, ctx: &mut Ctx) -> R {
    ctx.nontrivial();
    let piece = c.piece();
    let want = Expect { unit: ref_decode(&piece).0, n: 0 };
    let total = want.unit.len() as u64 * u64::from(c.pieces);
    let src = Source {
        start: Some(b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n"),
        piece,
        left: c.pieces,
        end: Some(b".\r\nDATA\r\nMAIL FROM:<>\r\n"),
    };
    let mut app = Taker { want, wrong: None, mails: 0 };
    let mut out = Box::pin(Codes(vec![]));
    let r = exec::block_long(interact(src, out.as_mut(), (), &mut app)).map_err(|s| format!("{s:?}"))?;
    if let Some(e) = app.wrong {
        return Err(e);
    }
    let codes: Vec<String> = String::from_utf8_lossy(&out.0).split_terminator("\r\n").map(|l| l.chars().take(3).collect()).collect();
    if r.is_err() || app.mails != 1 || app.want.n != total || codes != ["220", "250", "250", "354", "250", "503", "250"] {
        return Err(format!("of {total} bytes {} are received in {} messages, replies {codes:?}, outcome {:?}", app.want.n, app.mails, r.is_ok()));
    }
    Ok(())
}
