//! Observes values of the code under test through its public interface.
use crate::engine::show;
use crate::grammar::{Cmd, Dom, Mbox, Params, Reply, V};
use bytes::Bytes;
use smtp_message::*;
use std::io::{self, Write};

pub fn s_bytes(s: &SmtpString) -> Vec<u8> {
    s.bytes()[..].to_vec()
}

pub fn dom_of<T: Sendable>(d: &T) -> Result<Dom, String> {
    let mut v = Vec::new();
    d.send_to(&mut v).map_err(|e| format!("writing a domain to memory failed: {e}"))?;
    dom_from_text(&v)
}

pub fn dom_from_text(v: &[u8]) -> Result<Dom, String> {
    if v.first() == Some(&b'[') {
        let s = std::str::from_utf8(v).map_err(|_| format!("domain written as {}", show(v)))?;
        let inner = s.strip_prefix('[').and_then(|s| s.strip_suffix(']')).ok_or(format!("domain written as {s:?}"))?;
        if let Some(six) = inner.strip_prefix("IPv6:") {
            return six
                .parse::<std::net::Ipv6Addr>()
                .map(|a| Dom::V6(a.into()))
                .map_err(|_| format!("domain written as {s:?}, which is no IPv6 literal"));
        }
        return inner
            .parse::<std::net::Ipv4Addr>()
            .map(|a| Dom::V4(a.into()))
            .map_err(|_| format!("domain written as {s:?}, which is no IPv4 literal"));
    }
    Ok(Dom::Host(v.to_vec()))
}

pub fn mbox_of(e: &Email) -> Result<Mbox, String> {
    let dom = match e.hostname() {
        None => None,
        Some(d) => Some(dom_of(d)?),
    };
    Ok(Mbox { local: s_bytes(e.raw_localpart()), dom })
}

macro_rules! params_of {
    ($p:expr) => {{
        let mut o = Params::new();
        for (k, v) in $p.0.iter() {
            o.insert(crate::obs::s_bytes(k), v.as_ref().map(crate::obs::s_bytes));
        }
        o
    }};
}

pub fn cmd_of(c: &Command) -> Result<Cmd, String> {
    Ok(match c {
        Command::Data(_) => Cmd::Data,
        Command::Ehlo(c) => Cmd::Ehlo(dom_of(c.domain())?),
        Command::Helo(c) => Cmd::Helo(dom_of(c.domain())?),
        Command::Expn(c) => Cmd::Expn(s_bytes(c.name())),
        Command::Vrfy(c) => Cmd::Vrfy(s_bytes(c.name())),
        Command::Help(c) => Cmd::Help(s_bytes(c.subject())),
        Command::Noop(c) => Cmd::Noop(s_bytes(c.string())),
        Command::Mail(c) => Cmd::Mail(
            match &c.from {
                None => None,
                Some(e) => Some(mbox_of(e)?),
            },
            params_of!(c.params),
        ),
        Command::Rcpt(c) => Cmd::Rcpt(mbox_of(&c.to)?, params_of!(c.params)),
        Command::Quit(_) => Cmd::Quit,
        Command::Rset(_) => Cmd::Rset,
    })
}

/// Different in-memory representations of the same bytes.
pub fn as_bytes(b: &[u8], repr: u8) -> Bytes {
    match repr % 4 {
        0 => Bytes::from(b),
        1 => Bytes::from(b.to_vec()),
        2 => {
            let mut v = b"MAIL FROM:<\"".to_vec();
            let n = v.len();
            v.extend_from_slice(b);
            v.extend_from_slice(b"\r\nQUIT\r\n@[1.2.3.4]>");
            Bytes::from(v).slice(n, n + b.len())
        }
        _ => {
            let mut m = bytes::BytesMut::with_capacity(b.len() + 64);
            m.extend_from_slice(b);
            m.freeze()
        }
    }
}

pub fn parse_cmd(line: &[u8], repr: u8) -> Result<Command, ParseError> {
    Command::parse(as_bytes(line, repr))
}

pub fn write_cmd(c: &Command) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    c.send_to(&mut v).map_err(|e| format!("writing to memory failed: {e}"))?;
    Ok(v)
}

/// Judges the parser's answer for a command line against the reference verdict.
pub fn judge_cmd(line: &[u8], want: &V<Cmd>, got: &Result<Command, ParseError>) -> Result<(), String> {
    match (want, got) {
        (V::Must(_), Err(e)) => Err(format!("well-formed line {} refused: {}", show(line), e)),
        (V::Must(w), Ok(c)) | (V::May(w), Ok(c)) => {
            let g = cmd_of(c)?;
            if &g != w {
                return Err(format!("line {} means {:?} but was parsed as {:?}", show(line), w, g));
            }
            Ok(())
        }
        (V::Reject, Ok(c)) => Err(format!("malformed line {} accepted as {:?}", show(line), cmd_of(c)?)),
        (V::Unspec, _) | (V::May(_), Err(_)) | (V::Reject, Err(_)) => Ok(()),
    }
}

pub fn judge_mbox(s: &[u8], want: &V<Mbox>, got: &Result<Email, ParseError>) -> Result<(), String> {
    match (want, got) {
        (V::Must(_), Err(e)) => Err(format!("well-formed mailbox {} refused: {}", show(s), e)),
        (V::Must(w), Ok(c)) | (V::May(w), Ok(c)) => {
            let g = mbox_of(c)?;
            if &g != w {
                return Err(format!("mailbox {} is {:?} but was parsed as {:?}", show(s), w, g));
            }
            Ok(())
        }
        (V::Reject, Ok(c)) => Err(format!("malformed mailbox {} accepted as {:?}", show(s), mbox_of(c)?)),
        _ => Ok(()),
    }
}

pub fn write_reply(r: &ReplyLine) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    r.send_to(&mut v).map_err(|e| format!("writing to memory failed: {e}"))?;
    Ok(v)
}

pub fn judge_reply(s: &[u8], want: &V<Reply>, got: &Result<ReplyLine, ParseError>) -> Result<(), String> {
    match (want, got) {
        (V::Must(_), Err(e)) => Err(format!("well-formed reply line {} refused: {}", show(s), e)),
        (V::Must(_), Ok(r)) | (V::May(_), Ok(r)) => {
            let w = write_reply(r)?;
            if w != s && !(s.len() == 5 && w == [&s[..3], b" \r\n"].concat()) {
                return Err(format!("reply line {} is written out as {}", show(s), show(&w)));
            }
            if r.byte_len() != w.len() {
                return Err(format!("reply line {} announces {} bytes, writes {}", show(s), r.byte_len(), w.len()));
            }
            Ok(())
        }
        (V::Reject, Ok(r)) => {
            Err(format!("malformed reply line {} accepted, written out as {}", show(s), show(&write_reply(r)?)))
        }
        _ => Ok(()),
    }
}

/// Writer that accepts a few bytes at a time, is interrupted, and may fail at one call.
#[derive(Default)]
pub struct BadWriter {
    pub sizes: Vec<u8>,
    pub fail_after: Option<usize>,
    pub fail_kind: u8,
    /// fail one call only, then work again
    pub once: bool,
    pub got: Vec<u8>,
    pub calls: usize,
    pub failed: bool,
    pub calls_after_failure: usize,
    pub interrupted: bool,
}
impl Write for BadWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.calls_after_failure += 1;
        }
        if self.calls > 1_000_000 {
            panic!("writer called more than a million times");
        }
        let n = self.calls;
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        let mut k = if self.sizes.is_empty() { 255 } else { self.sizes[n % self.sizes.len()] as usize };
        if k == 0 {
            if !self.interrupted {
                self.interrupted = true;
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            k = 1;
        }
        self.interrupted = false;
        if let Some(f) = self.fail_after {
            if (self.got.len() >= f || self.failed) && !(self.once && self.failed) {
                self.failed = true;
                return match self.fail_kind % 3 {
                    0 => Err(io::Error::new(io::ErrorKind::Other, "injected")),
                    1 => Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected")),
                    _ => Ok(0),
                };
            }
            if !self.failed {
                k = k.min(f - self.got.len());
            }
        }
        let k = k.min(b.len());
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
