//! Independent three-valued reference grammar for command lines, mailboxes, domains and replies.
//! Written from RFC 5321 and the repository's documented tolerances; shares no code with /repo.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Dom {
    Host(Vec<u8>),
    V4(u32),
    V6(u128),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Mbox {
    pub local: Vec<u8>,
    pub dom: Option<Dom>,
}

pub type Params = BTreeMap<Vec<u8>, Option<Vec<u8>>>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cmd {
    Data,
    Ehlo(Dom),
    Helo(Dom),
    Expn(Vec<u8>),
    Vrfy(Vec<u8>),
    Help(Vec<u8>),
    Noop(Vec<u8>),
    Mail(Option<Mbox>, Params),
    Rcpt(Mbox, Params),
    Quit,
    Rset,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V<T> {
    /// must be accepted with this meaning
    Must(T),
    /// may be refused, but if accepted it means this
    May(T),
    /// may be refused or accepted with a meaning that is not fixed
    Unspec,
    Reject,
}
use V::*;

impl<T> V<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> V<U> {
        match self {
            Must(x) => Must(f(x)),
            May(x) => May(f(x)),
            Unspec => Unspec,
            Reject => Reject,
        }
    }
    pub fn and<U, W>(self, o: V<U>, f: impl FnOnce(T, U) -> W) -> V<W> {
        match (self, o) {
            (Reject, _) | (_, Reject) => Reject,
            (Unspec, _) | (_, Unspec) => Unspec,
            (Must(a), Must(b)) => Must(f(a, b)),
            (Must(a), May(b)) | (May(a), Must(b)) | (May(a), May(b)) => May(f(a, b)),
        }
    }
    pub fn weaken_if(self, c: bool) -> V<T> {
        match self {
            Must(x) if c => May(x),
            o => o,
        }
    }
    pub fn is_reject(&self) -> bool {
        matches!(self, Reject)
    }
}

pub fn is_ws(b: u8) -> bool {
    b == b' ' || b == b'\t'
}
pub fn is_alnum(b: u8) -> bool {
    matches!(b, b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9')
}
pub fn is_atext(b: u8) -> bool {
    is_alnum(b) || b"!#$%&'*+-/=?^_`{|}~".contains(&b)
}
pub fn is_print(b: u8) -> bool {
    (32..=126).contains(&b)
}

fn parse_v4(s: &[u8]) -> V<u32> {
    let parts: Vec<&[u8]> = s.split(|b| *b == b'.').collect();
    if parts.len() != 4 {
        return Reject;
    }
    let mut a = 0u32;
    let mut weak = false;
    for p in parts {
        if p.is_empty() || p.len() > 3 || !p.iter().all(u8::is_ascii_digit) {
            return Reject;
        }
        weak |= p.len() > 1 && p[0] == b'0';
        let n = p.iter().fold(0u32, |n, d| n * 10 + u32::from(d - b'0'));
        if n > 255 {
            return Reject;
        }
        a = a << 8 | n;
    }
    Must(a).weaken_if(weak)
}

/// colon-separated groups, the last one possibly an IPv4 address; returns 16-bit groups
fn v6_groups(s: &[u8], allow_v4: bool) -> V<Vec<u16>> {
    if s.is_empty() {
        return Must(vec![]);
    }
    let parts: Vec<&[u8]> = s.split(|b| *b == b':').collect();
    let n = parts.len();
    let mut out = Must(vec![]);
    for (i, p) in parts.iter().enumerate() {
        let g = if p.contains(&b'.') {
            if i + 1 != n || !allow_v4 {
                return Reject;
            }
            parse_v4(p).map(|a| vec![(a >> 16) as u16, a as u16])
        } else {
            if p.is_empty() || p.len() > 4 || !p.iter().all(u8::is_ascii_hexdigit) {
                return Reject;
            }
            Must(vec![u16::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()])
        };
        out = out.and(g, |mut a: Vec<u16>, b| {
            a.extend(b);
            a
        });
    }
    out
}

pub fn parse_v6(s: &[u8]) -> V<u128> {
    fn num(g: &[u16]) -> u128 {
        g.iter().fold(0u128, |a, g| a << 16 | u128::from(*g))
    }
    match s.windows(2).position(|w| w == b"::") {
        None => match v6_groups(s, true) {
            Must(g) if g.len() == 8 => Must(num(&g)),
            May(g) if g.len() == 8 => May(num(&g)),
            _ => Reject,
        },
        Some(p) => {
            let (l, r) = (&s[..p], &s[p + 2..]);
            let both = v6_groups(l, false).and(v6_groups(r, true), |a, b| (a, b));
            let check = |(l, r): (Vec<u16>, Vec<u16>)| {
                let n = l.len() + r.len();
                if n > 7 {
                    return None;
                }
                let mut g = l;
                g.extend(std::iter::repeat(0).take(8 - n));
                g.extend(r);
                Some((num(&g), n == 7))
            };
            match both {
                Must(x) => match check(x) {
                    // RFC 5321 wants :: to stand for at least two groups
                    Some((a, single)) => Must(a).weaken_if(single),
                    None => Reject,
                },
                May(x) => match check(x) {
                    Some((a, _)) => May(a),
                    None => Reject,
                },
                _ => Reject,
            }
        }
    }
}

/// Whole string as a domain or address literal.
pub fn domain(s: &[u8]) -> V<Dom> {
    if s.first() == Some(&b'[') {
        if s.last() != Some(&b']') || s.len() < 2 {
            return Reject;
        }
        let c = &s[1..s.len() - 1];
        if c.len() >= 5 && c[..5].eq_ignore_ascii_case(b"IPv6:") {
            let weak = &c[..5] != b"IPv6:";
            return parse_v6(&c[5..]).map(Dom::V6).weaken_if(weak);
        }
        match parse_v4(c) {
            Reject => {}
            o => return o.map(Dom::V4),
        }
        if !parse_v6(c).is_reject() {
            return Reject;
        }
        // General-address-literal: Standardized-tag ":" 1*dcontent; no meaning fixed here
        if let Some(p) = c.iter().position(|b| *b == b':') {
            let (tag, rest) = (&c[..p], &c[p + 1..]);
            if !tag.is_empty()
                && tag.iter().all(|b| is_alnum(*b) || *b == b'-')
                && is_alnum(tag[tag.len() - 1])
                && !rest.is_empty()
                && rest.iter().all(|b| (33..=126).contains(b) && !b"[\\]".contains(b))
            {
                return Unspec;
            }
        }
        return Reject;
    }
    let mut weak = false;
    for label in s.split(|b| *b == b'.') {
        if label.is_empty() || !is_alnum(label[0]) || !label.iter().all(|b| is_alnum(*b) || *b == b'-') {
            return Reject;
        }
        weak |= *label.last().unwrap() == b'-';
    }
    Must(Dom::Host(s.to_vec())).weaken_if(weak)
}

/// Length of the local part at the start of `s` if there is a well-formed one.
pub fn local_len(s: &[u8]) -> Option<usize> {
    if s.first() == Some(&b'"') {
        let mut i = 1;
        while i < s.len() {
            match s[i] {
                b'"' => return Some(i + 1),
                b'\\' => {
                    if i + 1 >= s.len() || !is_print(s[i + 1]) {
                        return None;
                    }
                    i += 2;
                }
                b if is_print(b) => i += 1,
                _ => return None,
            }
        }
        None
    } else {
        let n = s.iter().position(|b| !is_atext(*b) && *b != b'.').unwrap_or(s.len());
        if s[..n].split(|b| *b == b'.').any(|a| a.is_empty()) {
            return None;
        }
        Some(n)
    }
}

/// Whole string as a mailbox.
pub fn mailbox(s: &[u8]) -> V<Mbox> {
    let n = match local_len(s) {
        Some(n) => n,
        None => return Reject,
    };
    let local = s[..n].to_vec();
    if n == s.len() {
        return Must(Mbox { local, dom: None });
    }
    if s[n] != b'@' {
        return Reject;
    }
    domain(&s[n + 1..]).map(|d| Mbox { local, dom: Some(d) })
}

/// Canonical local part of a well-formed one.
pub fn unquote(local: &[u8]) -> Vec<u8> {
    if local.first() != Some(&b'"') {
        return local.to_vec();
    }
    let inner = &local[1..local.len() - 1];
    let mut out = Vec::new();
    let mut it = inner.iter();
    while let Some(&b) = it.next() {
        if b == b'\\' {
            out.extend(it.next());
        } else {
            out.push(b);
        }
    }
    out
}

/// Whole string as [route ":"] mailbox.
fn routed(s: &[u8]) -> V<Mbox> {
    if s.first() != Some(&b'@') {
        return mailbox(s);
    }
    // the route ends at the first colon outside brackets
    let mut depth = false;
    let mut end = None;
    for (i, b) in s.iter().enumerate() {
        match b {
            b'[' => depth = true,
            b']' => depth = false,
            b':' if !depth => {
                end = Some(i);
                break;
            }
            _ => {}
        }
    }
    let end = match end {
        Some(e) => e,
        None => return Reject,
    };
    let mut v: V<()> = Must(());
    for item in s[..end].split(|b| *b == b',') {
        if item.first() != Some(&b'@') {
            return Reject;
        }
        let d = match domain(&item[1..]) {
            Must(Dom::Host(_)) => Must(()),
            Must(_) | May(_) => May(()),
            Unspec => Unspec,
            Reject => Reject,
        };
        v = v.and(d, |_, _| ());
    }
    v.and(mailbox(&s[end + 1..]), |_, m| m)
}

/// Splits `s` into the path at its start and the rest: the end of the path is where the first
/// space or tab outside a quoted string stands.
fn path_end(s: &[u8]) -> usize {
    let mut i = 0;
    let mut quoted = false;
    while i < s.len() {
        match s[i] {
            b'"' => quoted = !quoted,
            b'\\' if quoted => i += 1,
            b if is_ws(b) && !quoted => return i,
            _ => {}
        }
        i += 1;
    }
    s.len()
}

pub fn params(s: &[u8]) -> V<Params> {
    if s.iter().all(|b| is_ws(*b)) {
        return Must(Params::new());
    }
    if !is_ws(s[0]) {
        return Reject;
    }
    let mut out = Params::new();
    let mut dup = false;
    for item in s.split(|b| is_ws(*b)).filter(|i| !i.is_empty()) {
        let (k, v) = match item.iter().position(|b| *b == b'=') {
            Some(p) => (&item[..p], Some(&item[p + 1..])),
            None => (item, None),
        };
        if k.is_empty() || !is_alnum(k[0]) || !k.iter().all(|b| is_alnum(*b) || *b == b'-') {
            return Reject;
        }
        if let Some(v) = v {
            if v.is_empty() || !v.iter().all(|b| (33..=126).contains(b) && *b != b'=') {
                return Reject;
            }
        }
        dup |= out.insert(k.to_vec(), v.map(|v| v.to_vec())).is_some();
    }
    if dup {
        return Unspec;
    }
    Must(out)
}

fn strip_no_case<'a>(s: &'a [u8], verb: &[u8]) -> Option<&'a [u8]> {
    if s.len() >= verb.len() && s[..verb.len()].eq_ignore_ascii_case(verb) {
        Some(&s[verb.len()..])
    } else {
        None
    }
}

fn trim_end(mut s: &[u8]) -> &[u8] {
    while s.last().map_or(false, |b| is_ws(*b)) {
        s = &s[..s.len() - 1];
    }
    s
}
fn trim_start(mut s: &[u8]) -> &[u8] {
    while s.first().map_or(false, |b| is_ws(*b)) {
        s = &s[1..];
    }
    s
}

fn text_arg(r: &[u8], optional: bool) -> V<Vec<u8>> {
    if r.is_empty() {
        return if optional { Must(vec![]) } else { Reject };
    }
    if !is_ws(r[0]) {
        return Reject;
    }
    let t = r[1..].to_vec();
    if t.is_empty() {
        return if optional { Must(t) } else { May(t) };
    }
    let odd = !t.iter().all(|b| is_print(*b) || *b == b'\t');
    Must(t).weaken_if(odd)
}

/// Whole byte string (including its CRLF) as a command line.
pub fn command(line: &[u8]) -> V<Cmd> {
    let pos = match line.windows(2).position(|w| w == b"\r\n") {
        Some(p) => p,
        None => return Reject,
    };
    let after = &line[pos + 2..];
    let body = &line[..pos];
    let lead = trim_start(body);
    let hello = |verb: &[u8]| -> Option<V<Dom>> {
        let r = strip_no_case(lead, verb)?;
        if r.is_empty() || !is_ws(r[0]) {
            return Some(Reject);
        }
        let d = domain(trim_start(trim_end(r)));
        let tolerated = lead.len() != body.len() || !after.is_empty();
        Some(d.weaken_if(tolerated))
    };
    let is_hello = strip_no_case(lead, b"EHLO").is_some() || strip_no_case(lead, b"HELO").is_some();
    if !after.is_empty() && !(is_hello && after.iter().all(|b| is_ws(*b))) {
        return Reject;
    }
    if let Some(d) = hello(b"EHLO") {
        return d.map(Cmd::Ehlo);
    }
    if let Some(d) = hello(b"HELO") {
        return d.map(Cmd::Helo);
    }
    for (verb, cmd) in [(&b"DATA"[..], Cmd::Data), (b"QUIT", Cmd::Quit), (b"RSET", Cmd::Rset)] {
        if let Some(r) = strip_no_case(body, verb) {
            return if r.iter().all(|b| is_ws(*b)) { Must(cmd) } else { Reject };
        }
    }
    if let Some(r) = strip_no_case(body, b"EXPN") {
        return text_arg(r, false).map(Cmd::Expn);
    }
    if let Some(r) = strip_no_case(body, b"VRFY") {
        return text_arg(r, false).map(Cmd::Vrfy);
    }
    if let Some(r) = strip_no_case(body, b"HELP") {
        return text_arg(r, true).map(Cmd::Help);
    }
    if let Some(r) = strip_no_case(body, b"NOOP") {
        return text_arg(r, true).map(Cmd::Noop);
    }
    let mail = strip_no_case(body, b"MAIL FROM:");
    let rcpt = strip_no_case(body, b"RCPT TO:");
    if let Some(r) = mail.or(rcpt) {
        let r = trim_start(r);
        let e = path_end(r);
        let (path, rest) = (&r[..e], &r[e..]);
        let p = params(rest);
        if path == b"<>" {
            return if mail.is_some() { p.map(|p| Cmd::Mail(None, p)) } else { Reject };
        }
        let m = if path.first() == Some(&b'<') {
            if path.last() != Some(&b'>') || path.len() < 2 {
                return Reject;
            }
            routed(&path[1..path.len() - 1])
        } else {
            routed(path)
        };
        return m.and(p, |m, p| if mail.is_some() { Cmd::Mail(Some(m), p) } else { Cmd::Rcpt(m, p) });
    }
    Reject
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Reply {
    pub code: u16,
    pub last: bool,
    pub text: Vec<u8>,
}

/// Whole byte string as one reply line.
pub fn reply(s: &[u8]) -> V<Reply> {
    if s.len() < 5 {
        return Reject;
    }
    if !s[..3].iter().all(u8::is_ascii_digit) {
        return Reject;
    }
    let code = s[..3].iter().fold(0u16, |n, d| n * 10 + u16::from(d - b'0'));
    let last = match s[3] {
        b' ' => true,
        b'-' => false,
        _ => return Reject,
    };
    let rest = &s[4..];
    match rest.windows(2).position(|w| w == b"\r\n") {
        Some(p) if p + 2 == rest.len() => {
            let text = rest[..p].to_vec();
            Must(Reply { code, last, text })
        }
        _ => Reject,
    }
}

// ---- rendering of reference values (independent writer) ----

pub fn dom_text(d: &Dom) -> Vec<u8> {
    match d {
        Dom::Host(h) => h.clone(),
        Dom::V4(a) => {
            let b = a.to_be_bytes();
            format!("[{}.{}.{}.{}]", b[0], b[1], b[2], b[3]).into_bytes()
        }
        Dom::V6(a) => {
            let g: Vec<String> = (0..8).map(|i| format!("{:x}", (a >> (16 * (7 - i))) as u16)).collect();
            format!("[IPv6:{}]", g.join(":")).into_bytes()
        }
    }
}

pub fn mbox_text(m: &Mbox) -> Vec<u8> {
    let mut o = m.local.clone();
    if let Some(d) = &m.dom {
        o.push(b'@');
        o.extend(dom_text(d));
    }
    o
}
