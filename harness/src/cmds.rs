//! C06-C14: command lines, mailboxes, literals, parameters.
use crate::engine::*;
use crate::gen::{self, CmdSpec, Mutant};
use crate::grammar::{self, Cmd, Dom, V};
use crate::obs::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use smtp_message::*;

type R = Result<(), String>;

fn label_verdict<T>(v: &V<T>, ctx: &mut Ctx) {
    ctx.label(match v {
        V::Must(_) => "verdict: must accept",
        V::May(_) => "verdict: may accept",
        V::Unspec => "verdict: open",
        V::Reject => "verdict: must refuse",
    });
}

fn check_line(line: &[u8], repr: u8) -> R {
    judge_cmd(line, &grammar::command(line), &parse_cmd(line, repr))
}

// ---------------------------------------------------------------- enumerations

fn sharded<C>(shard: usize, shards: usize, f: &mut dyn FnMut(C) -> bool) -> impl FnMut(C) -> bool + '_ {
    let mut n = 0usize;
    move |c| {
        n += 1;
        if n % shards == shard {
            f(c)
        } else {
            true
        }
    }
}

pub fn ctxs(m: &[u8]) -> Vec<Vec<u8>> {
    let mut o = vec![
        [&b"MAIL FROM:<"[..], m, b">\r\n"].concat(),
        [&b"RCPT TO:<"[..], m, b">\r\n"].concat(),
        [&b"RCPT TO:"[..], m, b"\r\n"].concat(),
        [&b"MAIL FROM:<@r1,@r2.x:"[..], m, b"> A=B C\r\n"].concat(),
    ];
    o.push([&b"mail from: "[..], m, b" SIZE=5 \r\n"].concat());
    o
}

/// Every byte value at every kind of position.
fn gen_chars(_: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(B) -> bool) {
    let mut f = sharded(shard, shards, f);
    for c in 0..=255u8 {
        let mut ms: Vec<Vec<u8>> = Vec::new();
        for (l, r) in [(&b""[..], &b""[..]), (b"a", b""), (b"", b"z"), (b"a", b"z"), (b"a.", b".z"), (b"a.", b""), (b"", b".z")] {
            ms.push([l, &[c], r, b"@ex.org"].concat());
            ms.push([l, &[c], r].concat());
        }
        for (l, r) in [(&b"\""[..], &b"\""[..]), (b"\"a", b"z\""), (b"\"\\", b"\""), (b"\"a\\", b"z\""), (b"\"\\\\", b"\""), (b"\"", b"\\\"\"")] {
            ms.push([l, &[c], r, b"@ex.org"].concat());
            ms.push([l, &[c], r].concat());
        }
        for (l, r) in [(&b""[..], &b""[..]), (b"a", b""), (b"", b"z"), (b"a", b"z"), (b"a.", b".z"), (b"a.b", b""), (b"x.", b"")] {
            ms.push([b"u@", l, &[c], r].concat());
        }
        for m in &ms {
            for l in ctxs(m) {
                if !f(B(l)) {
                    return;
                }
            }
        }
        let mut ls: Vec<Vec<u8>> = Vec::new();
        for v in [&b"EHLO "[..], b"HELO ", b"ehlo\t"] {
            for (l, r) in [(&b""[..], &b""[..]), (b"a", b""), (b"", b"z"), (b"a", b"z"), (b"a.", b".z"), (b"a.b", b""), (b"x.", b"")] {
                ls.push([v, l, &[c], r, b"\r\n"].concat());
            }
            ls.push([&v[..4], &[c][..], b"a.b\r\n"].concat());
            ls.push([v, b"a.b", &[c][..], b"\r\n"].concat());
            ls.push([v, b"[1.2.3.4]", &[c][..], b"\r\n"].concat());
        }
        for v in [&b"EXPN"[..], b"VRFY", b"HELP", b"NOOP", b"vrfy", b"DATA", b"QUIT", b"RSET", b"data"] {
            ls.push([v, &[c][..], b"\r\n"].concat());
            ls.push([v, &[c][..], b"a\r\n"].concat());
            ls.push([v, b" ", &[c][..], b"\r\n"].concat());
            ls.push([v, b" a", &[c][..], b"z\r\n"].concat());
            ls.push([v, b" a", &[c][..], b"\r\n"].concat());
            ls.push([v, b"\t", &[c][..], b"a\r\n"].concat());
        }
        for v in [&b"MAIL FROM:"[..], b"RCPT TO:"] {
            for (l, r) in [
                (&b"<a@b> "[..], &b""[..]), (b"<a@b> K", b""), (b"<a@b> K", b"L"), (b"<a@b> ", b"L"), (b"<a@b> ", b"=v"),
                (b"<a@b> K", b"=v"), (b"<a@b> K=", b""), (b"<a@b> K=v", b""), (b"<a@b> K=v", b"w"), (b"<a@b> K=", b"w"),
                (b"<a@b>", b"K=w"), (b"<a@b> K=w", b"L=x"), (b"a@b", b"K"), (b"<a@b>", b""), (b"", b"<a@b>"), (b" ", b"<a@b>"),
                (b"<a@b> \t", b"\tK"), (b"<@h", b":a@b>"), (b"<@h.", b"i:a@b>"), (b"<@h,", b"@i:a@b>"), (b"<@h", b"@i:a@b>"), (b"<@", b":a@b>"),
                (b"<", b"@h:a@b>"), (b"<@h:", b"a@b>"),
            ] {
                ls.push([v, l, &[c][..], r, b"\r\n"].concat());
            }
            ls.push([&v[..v.len() - 1], &[c][..], b"<a@b>\r\n"].concat());
            ls.push([&v[..4], &[c][..], &v[5..], b"<a@b>\r\n"].concat());
        }
        for l in ls {
            if !f(B(l)) {
                return;
            }
        }
    }
    // verb case masks, and every wrong letter in a verb
    for v in gen::BARE.iter().chain(gen::TEXT.iter()).copied().chain([&b"EHLO"[..], b"HELO", b"MAIL FROM:", b"RCPT TO:"]) {
        let arg: &[u8] = match v {
            b"DATA" | b"QUIT" | b"RSET" => b"",
            b"EHLO" | b"HELO" => b" a.b",
            b"MAIL FROM:" | b"RCPT TO:" => b"<a@b>",
            _ => b" x",
        };
        for mask in 0..(1u16 << v.iter().filter(|c| c.is_ascii_alphabetic()).count()) {
            if !f(B([&gen::with_case(v, mask)[..], arg, b"\r\n"].concat())) {
                return;
            }
        }
        for p in 0..v.len() {
            for c in 0..=255u8 {
                let mut w = v.to_vec();
                w[p] = c;
                if !f(B([&w[..], arg, b"\r\n"].concat())) {
                    return;
                }
            }
        }
    }
}

/// Every small and boundary size of every repeatable element.
fn gen_sizes(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(B) -> bool) {
    let mut f = sharded(shard, shards, f);
    let max = if tier == Tier::Quick { 300 } else { 600 };
    for n in 0..=max {
        let r = |s: &[u8]| s.repeat(n);
        let mut ls: Vec<Vec<u8>> = Vec::new();
        for m in [
            r(b"a"), [&r(b"a")[..], b"@b"].concat(), [b"\"", &r(b"q")[..], b"\"@b"].concat(), [b"\"", &r(b"\\\"")[..], b"\"@b"].concat(),
            [b"\"", &r(b"\\\\")[..], b"\"@b"].concat(), [&r(b"a.")[..], b"z@b"].concat(), [b"u@", &r(b"h")[..]].concat(),
            [b"u@", &r(b"h.")[..], b"x"].concat(), [b"u@", &r(b"-")[..]].concat(), [b"u@a", &r(b"-")[..], b"b"].concat(),
            [&r(b"@h,")[..], b"@z:u@b"].concat(), [b"u@", &r(b"12.")[..], b"x"].concat(), r(b"ab.c"), [b"\"", &r(b" ")[..], b"\""].concat(),
        ] {
            ls.extend(ctxs(&m));
        }
        for v in [&b"HELP"[..], b"NOOP", b"EXPN", b"VRFY"] {
            ls.push([v, b" ", &r(b"x")[..], b"\r\n"].concat());
            ls.push([v, b" ", &r(b" ")[..], b"x\r\n"].concat());
            ls.push([v, b" x", &r(b"\t")[..], b"\r\n"].concat());
        }
        for v in [&b"DATA"[..], b"QUIT", b"RSET", b"EHLO a", b"MAIL FROM:<a@b>", b"RCPT TO:<a@b>", b"RCPT TO:a@b X=Y", b"MAIL FROM:<>"] {
            ls.push([v, &r(b" ")[..], b"\r\n"].concat());
            ls.push([v, &r(b"\t ")[..], b"\r\n"].concat());
        }
        for v in [&b"EHLO "[..], b"HELO "] {
            ls.push([v, &r(b" ")[..], b"a.b\r\n"].concat());
            ls.push([v, &r(b"h")[..], b"\r\n"].concat());
            ls.push([v, &r(b"h.")[..], b"x\r\n"].concat());
            ls.push([v, &r(b"9")[..], b"\r\n"].concat());
        }
        for v in [&b"MAIL FROM:"[..], b"RCPT TO:"] {
            ls.push([v, &r(b" ")[..], b"<a@b>\r\n"].concat());
            ls.push([v, b"<a@b>", &r(b" ")[..], b"K=v\r\n"].concat());
            ls.push([v, b"<a@b> K=", &r(b"v")[..], b"\r\n"].concat());
            ls.push([v, b"<a@b> K", &r(b"e")[..], b"=v L\r\n"].concat());
            let mut many = [v, b"<a@b>"].concat();
            for i in 0..n {
                many.extend_from_slice(format!(" K{i}=v{i}").as_bytes());
            }
            many.extend_from_slice(b"\r\n");
            ls.push(many);
            let mut many = [v, b"<a@b>"].concat();
            for i in 0..n {
                many.extend_from_slice(format!("\t {i}").as_bytes());
            }
            many.extend_from_slice(b" \r\n");
            ls.push(many);
        }
        for l in ls {
            if !f(B(l)) {
                return;
            }
        }
    }
}

const BASES: &[&[u8]] = &[
    b"DATA\r\n", b"DATA \t\r\n", b"EHLO a.b\r\n", b"EHLO\t [127.0.0.1] \r\n", b"EHLO [IPv6:::1]\r\n", b"helo x-y.z\t\r\n",
    b"EXPN list name\r\n", b"VRFY user\r\n", b"HELP\r\n", b"HELP foo\r\n", b"NOOP\r\n", b"NOOP x y\r\n", b"QUIT\r\n", b"QUIT \r\n", b"RSET\r\n",
    b"MAIL FROM:<>\r\n", b"MAIL FROM: <> A=B\r\n", b"MAIL FROM:<a@b>\r\n", b"MAIL FROM:a@b\r\n", b"MAIL FROM:<@r,@s.t:u@v.w>\r\n",
    b"MAIL FROM:@r:u@v C\r\n", b"MAIL FROM:<\"a\\\"b\"@[1.2.3.4]> SIZE=1 X\r\n", b"RCPT TO:<a.b+c@d-e.f>\r\n", b"RCPT TO:  <x>\r\n",
    b"RCPT TO:postmaster\r\n", b"RCPT TO:<\" \"@[IPv6:1:2:3:4:5:6:7:8]> \r\n", b"RCPT TO:<@a:b@c> K1=V1\t K2=V2\r\n",
    b"mail from:<a@b>\t\tx=y \r\n", b"RCPT TO:<\"\"@x>\r\n",
];

/// Every single-byte edit of representative lines.
fn gen_one_edit(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(B) -> bool) {
    let mut f = sharded(shard, shards, f);
    for base in BASES {
        let n = base.len();
        for p in 0..=n {
            for c in 0..=255u8 {
                let mut v = base.to_vec();
                v.insert(p, c);
                if !f(B(v)) {
                    return;
                }
                if p < n {
                    let mut v = base.to_vec();
                    v[p] = c;
                    if !f(B(v)) {
                        return;
                    }
                }
            }
            if !f(B(base[..p].to_vec())) || !f(B(base[p..].to_vec())) {
                return;
            }
            for k in 1..=4 {
                if p + k <= n {
                    let mut v = base.to_vec();
                    v.drain(p..p + k);
                    if !f(B(v)) {
                        return;
                    }
                    let mut v = base.to_vec();
                    let d = v[p..p + k].to_vec();
                    v.splice(p..p, d);
                    if !f(B(v)) {
                        return;
                    }
                }
            }
            for t in gen::TOKENS {
                let mut v = base.to_vec();
                v.splice(p..p, t.iter().copied());
                if !f(B(v)) {
                    return;
                }
            }
            if p + 2 <= n {
                let mut v = base.to_vec();
                v.swap(p, p + 1);
                if !f(B(v)) {
                    return;
                }
            }
        }
        if tier == Tier::Thorough {
            // two token edits
            for p in 0..=n {
                for q in p..=n {
                    for t in gen::TOKENS {
                        for u in gen::TOKENS.iter().take(18) {
                            let mut v = base.to_vec();
                            v.splice(q..q, u.iter().copied());
                            v.splice(p..p, t.iter().copied());
                            if !f(B(v)) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    for a in BASES {
        for c in BASES {
            let (a, c) = (&a[..a.len() - 2], &c[..c.len() - 2]);
            for s in [&b""[..], b" ", b"\r\n", b"\r", b"\n"] {
                if !f(B([a, s, c, b"\r\n"].concat())) {
                    return;
                }
            }
        }
    }
}

fn strings(alpha: &[u8], max: usize, f: &mut dyn FnMut(&[u8]) -> bool) -> bool {
    fn rec(cur: &mut Vec<u8>, alpha: &[u8], left: usize, f: &mut dyn FnMut(&[u8]) -> bool) -> bool {
        if !f(cur) {
            return false;
        }
        if left == 0 {
            return true;
        }
        for c in alpha {
            cur.push(*c);
            if !rec(cur, alpha, left - 1, f) {
                return false;
            }
            cur.pop();
        }
        true
    }
    rec(&mut Vec::new(), alpha, max, f)
}

/// All short arguments over a small alphabet, after each verb.
fn gen_short(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(B) -> bool) {
    let extra = if tier == Tier::Thorough { 1 } else { 0 };
    let mut f = sharded(shard, shards, f);
    for (pre, alpha, max, suf) in [
        (&b"MAIL FROM:"[..], &b"<>@a:. \""[..], 5, &b"\r\n"[..]),
        (b"RCPT TO:<", b"@a.:,-\"\\", 5, b">\r\n"),
        (b"MAIL FROM:<a@b>", b" \tK=v<", 5, b"\r\n"),
        (b"RCPT TO:a", b" @.Z=1-", 5, b"\r\n"),
        (b"EHLO", b" \ta.-[]1", 5, b"\r\n"),
        (b"HELO ", b" a.-[]:1", 4, b"\r\n"),
        (b"HELP", b" \ta\r\n", 5, b"\r\n"),
        (b"NOOP", b" \ta\r\n", 5, b"\r\n"),
        (b"EXPN", b" \ta\r\n", 5, b"\r\n"),
        (b"VRFY", b" \ta\r\n", 5, b"\r\n"),
        (b"DATA", b" \ta\r\n", 5, b"\r\n"),
        (b"QUIT", b" \t.\r\n", 5, b"\r\n"),
        (b"RSET", b" \t0\r\n", 5, b"\r\n"),
        (b"", b"DAT \r\n", 5, b""),
        (b"MAIL FROM:<@a,@b:", b"@ab:,<>", 4, b">\r\n"),
        (b"EHLO [IPv6:", b"1:.f", 7, b"]\r\n"),
        (b"EHLO [", b"12.0:", 5, b"]\r\n"),
        (b"RCPT TO:<a@[1.2.", b"0123.5]", 4, b"]>\r\n"),
    ] {
        if !strings(alpha, max + extra, &mut |s| f(B([pre, s, suf].concat()))) {
            return;
        }
    }
}

fn check_b_must(c: &B, ctx: &mut Ctx) -> R {
    let want = grammar::command(c);
    label_verdict(&want, ctx);
    if matches!(want, V::Must(_)) {
        ctx.nontrivial();
    }
    judge_cmd(c, &want, &parse_cmd(c, 0))
}
fn check_b_reject(c: &B, ctx: &mut Ctx) -> R {
    let want = grammar::command(c);
    label_verdict(&want, ctx);
    if want.is_reject() {
        ctx.nontrivial();
    }
    judge_cmd(c, &want, &parse_cmd(c, 2))
}

// ---------------------------------------------------------------- C06

fn c06(c: &(CmdSpec, u8), ctx: &mut Ctx) -> R {
    let line = c.0.render();
    let want = grammar::command(&line);
    label_verdict(&want, ctx);
    if want.is_reject() {
        ctx.label("GENERATOR DISAGREES WITH ORACLE");
        ctx.skip();
        return Ok(());
    }
    match &c.0 {
        CmdSpec::Bare { .. } => ctx.label("bare verb"),
        CmdSpec::Hello { dom, .. } => {
            ctx.label(if dom.starts_with(b"[") { "hello literal" } else { "hello host" });
        }
        CmdSpec::Text { .. } => ctx.label("text command"),
        CmdSpec::Path { path, params, .. } => {
            ctx.label("path command");
            ctx.label_if(!path.route.is_empty(), "source route");
            ctx.label_if(path.mbox.starts_with(b"\""), "quoted local part");
            ctx.label_if(!path.bracket, "unbracketed");
            ctx.label_if(!params.is_empty(), "parameters");
        }
    }
    if matches!(want, V::Must(_)) {
        ctx.nontrivial();
    }
    judge_cmd(&line, &want, &parse_cmd(&line, c.1))
}

// ---------------------------------------------------------------- C07

fn c07_mut(c: &(Mutant, u8), ctx: &mut Ctx) -> R {
    let line = c.0.bytes();
    let want = grammar::command(&line);
    label_verdict(&want, ctx);
    if want.is_reject() {
        ctx.nontrivial();
    }
    judge_cmd(&line, &want, &parse_cmd(&line, c.1))
}

fn c07_soup(c: &(Option<CmdSpec>, B, u8), ctx: &mut Ctx) -> R {
    let mut line = c.0.as_ref().map(|s| s.body()).unwrap_or_default();
    line.extend_from_slice(&c.1);
    let want = grammar::command(&line);
    label_verdict(&want, ctx);
    if want.is_reject() {
        ctx.nontrivial();
    }
    judge_cmd(&line, &want, &parse_cmd(&line, c.2))
}

/// a command followed by more bytes: refused, with the exact count
fn c07_left(c: &(CmdSpec, B, u8), ctx: &mut Ctx) -> R {
    let line = c.0.render();
    if !matches!(grammar::command(&line), V::Must(_)) || c.1.is_empty() {
        ctx.skip();
        return Ok(());
    }
    let all = [&line[..], &c.1].concat();
    let hello = matches!(c.0, CmdSpec::Hello { .. });
    let lead = c.1.iter().take_while(|b| grammar::is_ws(**b)).count();
    match parse_cmd(&all, c.2) {
        Ok(v) => {
            if hello && lead == c.1.len() {
                ctx.skip();
                return Ok(());
            }
            Err(format!("{} accepted as {:?} although {} bytes follow the line", show(&all), cmd_of(&v)?, c.1.len()))
        }
        Err(ParseError::DidNotConsumeEverything(n)) => {
            ctx.nontrivial();
            if n == c.1.len() || (hello && n == c.1.len() - lead) {
                Ok(())
            } else {
                Err(format!("{}: {} bytes follow the line, {} reported", show(&all), c.1.len(), n))
            }
        }
        Err(e) => Err(format!("{}: a complete command followed by {} bytes; reported as {:?}", show(&all), c.1.len(), e)),
    }
}

// ---------------------------------------------------------------- C08

/// By the library's own comparison: what is written need not show a difference.
fn same_value(a: &Command, b: &Command) -> bool {
    match (a, b) {
        (Command::Mail(a), Command::Mail(b)) => a.from == b.from,
        (Command::Rcpt(a), Command::Rcpt(b)) => a.to == b.to,
        (Command::Ehlo(a), Command::Ehlo(b)) => a.domain() == b.domain(),
        (Command::Helo(a), Command::Helo(b)) => a.domain() == b.domain(),
        _ => true,
    }
}

fn resend(line: &[u8], repr: u8, ctx: &mut Ctx) -> R {
    let c = match parse_cmd(line, repr) {
        Ok(c) => c,
        Err(_) => {
            ctx.label("refused");
            return Ok(());
        }
    };
    ctx.nontrivial();
    let v = cmd_of(&c)?;
    let mut w = write_cmd(&c)?;
    for round in 1..=3 {
        if !w.ends_with(b"\r\n") || w[..w.len() - 1].windows(2).any(|x| x == b"\r\n") {
            return Err(format!("{} is written out (round {round}) as {}: not one line", show(line), show(&w)));
        }
        match grammar::command(&w) {
            V::Must(x) | V::May(x) if x != v => {
                return Err(format!("{} means {:?}; written out (round {round}) as {}, which means {:?}", show(line), v, show(&w), x))
            }
            V::Reject => return Err(format!("{} is written out (round {round}) as {}: no command", show(line), show(&w))),
            _ => {}
        }
        let c2 = parse_cmd(&w, 0).map_err(|e| format!("{} is written out (round {round}) as {}, refused: {}", show(line), show(&w), e))?;
        let v2 = cmd_of(&c2)?;
        if v2 != v {
            return Err(format!("{} parsed as {:?}; written out (round {round}) as {}, parsed as {:?}", show(line), v, show(&w), v2));
        }
        if !same_value(&c, &c2) {
            return Err(format!("{} parsed as {:?}; written out (round {round}) as {}, parsed as something that does not compare equal", show(line), v, show(&w)));
        }
        let w2 = write_cmd(&c2)?;
        if w2.len() != w.len() {
            return Err(format!("{}: re-sent line drifts from {} to {}", show(line), show(&w), show(&w2)));
        }
        w = w2;
    }
    Ok(())
}
fn c08_mut(c: &(Mutant, u8), ctx: &mut Ctx) -> R {
    resend(&c.0.bytes(), c.1, ctx)
}
fn c08_cmd(c: &(CmdSpec, u8), ctx: &mut Ctx) -> R {
    resend(&c.0.render(), c.1, ctx)
}
fn c08_soup(c: &(u8, B, u8), ctx: &mut Ctx) -> R {
    let pre: &[u8] = [&b"EXPN "[..], b"VRFY ", b"HELP ", b"NOOP ", b"EHLO ", b"HELO ", b"MAIL FROM:", b"RCPT TO:", b"NOOP\t"][c.0 as usize % 9];
    resend(&[pre, &c.1].concat(), c.2, ctx)
}
fn c08_b(c: &B, ctx: &mut Ctx) -> R {
    resend(c, 0, ctx)
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Built {
    Data,
    Quit,
    Rset,
    Ehlo(B),
    Helo(B),
    Expn(B),
    Vrfy(B),
    Help(B),
    Noop(B),
    Mail(Option<B>, Vec<(B, Option<B>)>),
    Rcpt(B, Vec<(B, Option<B>)>),
}

fn built() -> BoxedStrategy<Built> {
    let dom = || gen::dom().prop_map(B);
    let text1 = || gen::text().prop_map(|t| if t.is_empty() { gen::b(b"x") } else { t });
    let ps = || {
        gen::params(12).prop_map(|ps| ps.into_iter().map(|p| (p.key, p.val)).collect::<Vec<_>>())
    };
    prop_oneof![
        1 => select(vec![Built::Data, Built::Quit, Built::Rset]),
        2 => dom().prop_map(Built::Ehlo),
        2 => dom().prop_map(Built::Helo),
        1 => text1().prop_map(Built::Expn),
        1 => text1().prop_map(Built::Vrfy),
        1 => gen::text().prop_map(Built::Help),
        1 => gen::text().prop_map(Built::Noop),
        4 => (proptest::option::weighted(0.85, gen::mbox()), ps()).prop_map(|(m, p)| Built::Mail(m, p)),
        4 => (gen::mbox(), ps()).prop_map(|(m, p)| Built::Rcpt(m, p)),
    ]
    .boxed()
}

fn built_large() -> BoxedStrategy<Built> {
    gen::large_cmd()
        .prop_map(|c| match c {
            CmdSpec::Bare { .. } => Built::Data,
            CmdSpec::Hello { helo: true, dom, .. } => Built::Helo(dom),
            CmdSpec::Hello { dom, .. } => Built::Ehlo(dom),
            CmdSpec::Text { verb, arg, .. } => {
                let t = arg.map(|a| a.1).unwrap_or_else(|| gen::b(b"x"));
                match verb {
                    0 => Built::Expn(t),
                    1 => Built::Vrfy(t),
                    2 => Built::Help(t),
                    _ => Built::Noop(t),
                }
            }
            CmdSpec::Path { rcpt, path, params, .. } => {
                let ps = params.into_iter().map(|p| (p.key, p.val)).collect();
                if rcpt {
                    Built::Rcpt(path.mbox, ps)
                } else {
                    Built::Mail(if path.null { None } else { Some(path.mbox) }, ps)
                }
            }
        })
        .boxed()
}

pub fn smtp_string(b: &[u8], repr: u8) -> SmtpString {
    match repr % 3 {
        0 => SmtpString::from(as_bytes(b, repr / 3)),
        1 => SmtpString::from(b),
        _ => SmtpString::from(b.to_vec()),
    }
}

/// Email built by Email::new from separately given parts.
pub fn build_email(m: &[u8], repr: u8) -> Result<Email, String> {
    let n = grammar::local_len(m).ok_or("harness: no local part")?;
    let dom = if n == m.len() {
        None
    } else {
        let probe = [&b"x@"[..], &m[n + 1..]].concat();
        let e = Email::parse_slice(&probe).map_err(|e| format!("mailbox {} refused: {}", show(&probe), e))?;
        e.hostname().clone()
    };
    Ok(Email::new(smtp_string(&m[..n], repr), dom))
}

fn sendable_bytes<T: Sendable>(t: &T) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    t.send_to(&mut v).map_err(|e| e.to_string())?;
    let s = SmtpString::from_sendable(t).map_err(|e| e.to_string())?;
    if s_bytes(&s) != v {
        return Err(format!("from_sendable gives {:?}, send_to gives {}", s, show(&v)));
    }
    Ok(v)
}

fn c09(c: &(Built, u8), ctx: &mut Ctx) -> R {
    let (spec, repr) = c;
    let to_map = |ps: &[(B, Option<B>)]| -> grammar::Params {
        ps.iter().map(|(k, v)| (k.0.clone(), v.as_ref().map(|v| v.0.clone()))).collect()
    };
    let mb = |m: &[u8]| match grammar::mailbox(m) {
        V::Must(m) | V::May(m) => Some(m),
        _ => None,
    };
    let dm = |d: &[u8]| match grammar::domain(d) {
        V::Must(d) | V::May(d) => Some(d),
        _ => None,
    };
    // an EhloCommand obtained by parsing carries a domain we may take
    let dom_email = |d: &[u8]| Email::parse_slice(&[&b"x@"[..], d].concat()).map_err(|e| format!("domain {} refused: {}", show(d), e));
    macro_rules! fill {
        ($params:expr, $ps:expr) => {
            for (k, v) in $ps {
                $params.0.insert(smtp_string(k, *repr), v.as_ref().map(|v| smtp_string(v, repr.wrapping_add(1))));
            }
        };
    }
    macro_rules! no_params {
        () => {
            match Command::parse(bytes::Bytes::from_static(b"MAIL FROM:<>\r\n")) {
                Ok(Command::Mail(m)) => m.params,
                o => return Err(format!("MAIL FROM:<> parsed as {:?}", o.map(|c| cmd_of(&c)))),
            }
        };
    }
    let (cmd, own, want): (Command, Vec<u8>, Option<Cmd>) = match spec {
        Built::Data => {
            let x = DataCommand::new().take_ownership();
            let mut v = Vec::new();
            x.send_to(&mut v).unwrap();
            (Command::Data(x), v, Some(Cmd::Data))
        }
        Built::Quit => {
            let x = QuitCommand::new().take_ownership();
            let mut v = Vec::new();
            x.send_to(&mut v).unwrap();
            (Command::Quit(x), v, Some(Cmd::Quit))
        }
        Built::Rset => {
            let x = RsetCommand::new().take_ownership();
            let mut v = Vec::new();
            x.send_to(&mut v).unwrap();
            (Command::Rset(x), v, Some(Cmd::Rset))
        }
        Built::Ehlo(d) => {
            let x = EhloCommand::new(dom_email(d)?.hostname().clone().ok_or("domain lost")?);
            let mut v = Vec::new();
            x.send_to(&mut v).unwrap();
            (Command::Ehlo(x), v, dm(d).map(Cmd::Ehlo))
        }
        Built::Helo(d) => {
            let x = HeloCommand::new(dom_email(d)?.hostname().clone().ok_or("domain lost")?);
            let mut v = Vec::new();
            x.send_to(&mut v).unwrap();
            (Command::Helo(x), v, dm(d).map(Cmd::Helo))
        }
        Built::Expn(t) => {
            let x = ExpnCommand::new(smtp_string(t, *repr));
            let mut v = Vec::new();
            x.send_to(&mut v).unwrap();
            (Command::Expn(x), v, Some(Cmd::Expn(t.0.clone())))
        }
        Built::Vrfy(t) => {
            let x = VrfyCommand::new(smtp_string(t, *repr));
            let mut v = Vec::new();
            x.send_to(&mut v).unwrap();
            (Command::Vrfy(x), v, Some(Cmd::Vrfy(t.0.clone())))
        }
        Built::Help(t) => {
            let x = HelpCommand::new(smtp_string(t, *repr));
            let mut v = Vec::new();
            x.send_to(&mut v).unwrap();
            (Command::Help(x), v, Some(Cmd::Help(t.0.clone())))
        }
        Built::Noop(t) => {
            let x = NoopCommand::new(smtp_string(t, *repr));
            let mut v = Vec::new();
            x.send_to(&mut v).unwrap();
            (Command::Noop(x), v, Some(Cmd::Noop(t.0.clone())))
        }
        Built::Mail(m, ps) => {
            let from = match m {
                None => None,
                Some(m) => Some(build_email(m, *repr)?),
            };
            let mut params = no_params!();
            fill!(params, ps);
            let x = MailCommand::new(from, params);
            let v = sendable_bytes(&x)?;
            let want = match m {
                None => Some(Cmd::Mail(None, to_map(ps))),
                Some(m) => mb(m).map(|m| Cmd::Mail(Some(m), to_map(ps))),
            };
            (Command::Mail(x), v, want)
        }
        Built::Rcpt(m, ps) => {
            let mut params = no_params!();
            fill!(params, ps);
            let x = RcptCommand::new(build_email(m, *repr)?, params);
            let v = sendable_bytes(&x)?;
            (Command::Rcpt(x), v, mb(m).map(|m| Cmd::Rcpt(m, to_map(ps))))
        }
    };
    let want = match want {
        Some(w) => w,
        None => {
            ctx.skip();
            return Ok(());
        }
    };
    ctx.nontrivial();
    let seen = cmd_of(&cmd)?;
    if seen != want {
        return Err(format!("command built as {:?} shows {:?}", want, seen));
    }
    let w = write_cmd(&cmd)?;
    if w.len() != own.len() {
        return Err(format!("{:?} written as {} and as {}", want, show(&w), show(&own)));
    }
    for w in [w, own] {
        if !w.ends_with(b"\r\n") || w[..w.len() - 1].windows(2).any(|x| x == b"\r\n") {
            return Err(format!("{:?} written as {}: not one line", want, show(&w)));
        }
        let must = match grammar::command(&w) {
            V::Must(x) if x == want => true,
            V::May(x) if x == want => false,
            o => return Err(format!("{:?} written as {}, which reads as {:?}", want, show(&w), o)),
        };
        match parse_cmd(&w, 0) {
            Ok(x) if cmd_of(&x)? == want => {}
            Err(_) if !must => {}
            Ok(x) => return Err(format!("{:?} written as {}, parsed back as {:?}", want, show(&w), cmd_of(&x)?)),
            Err(e) => return Err(format!("{:?} written as {}, refused: {}", want, show(&w), e)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn total(b: &[u8], repr: u8, ctx: &mut Ctx) -> R {
    let inspect_email = |e: &Email| -> R {
        let _ = format!("{:?} {:?}", e, e.hostname());
        let l = e.localpart();
        let _ = (l.byte_len(), e.raw_localpart().byte_len());
        let mut v = Vec::new();
        e.send_to(&mut v).map_err(|e| e.to_string())?;
        Ok(())
    };
    let inspect_err = |e: &ParseError| {
        let _ = format!("{e} {e:?} {:?}", e.clone());
    };
    match parse_cmd(b, repr) {
        Ok(c) => {
            ctx.label("command accepted");
            ctx.nontrivial();
            let _ = format!("{c:?}");
            cmd_of(&c)?;
            write_cmd(&c)?;
            match &c {
                Command::Mail(m) => {
                    if let Some(e) = &m.from {
                        inspect_email(e)?
                    }
                }
                Command::Rcpt(r) => inspect_email(&r.to)?,
                _ => {}
            }
        }
        Err(e) => inspect_err(&e),
    }
    match ReplyLine::parse(as_bytes(b, repr)) {
        Ok(r) => {
            ctx.label("reply accepted");
            ctx.nontrivial();
            let _ = format!("{:?} {}", r.clone(), r.byte_len());
            write_reply(&r)?;
        }
        Err(e) => inspect_err(&e),
    }
    let by = as_bytes(b, repr);
    for r in [Email::parse_slice(b), Email::parse(ByteSlice::from(&by))] {
        match r {
            Ok(e) => {
                ctx.label("mailbox accepted");
                ctx.nontrivial();
                inspect_email(&e)?;
            }
            Err(e) => inspect_err(&e),
        }
    }
    Ok(())
}

fn total_input() -> BoxedStrategy<B> {
    prop_oneof![
        3 => gen::mutant().prop_map(|m| B(m.bytes())),
        2 => (gen::mbox(), vec(gen::edit(), 0..3)).prop_map(|(m, es)| {
            let mut v = m.0;
            for e in &es { gen::apply(&mut v, e) }
            B(v)
        }),
        2 => (reply_bytes(), vec(gen::edit(), 0..3)).prop_map(|(m, es)| {
            let mut v = m.0;
            for e in &es { gen::apply(&mut v, e) }
            B(v)
        }),
        3 => gen::soup(),
        2 => vec(any::<u8>(), 0..40).prop_map(B),
        1 => (0u8..9, vec(any::<u8>(), 0..20)).prop_map(|(p, t)| {
            let pre: &[u8] = [&b"EXPN "[..], b"VRFY ", b"HELP ", b"NOOP ", b"EHLO ", b"HELO ", b"MAIL FROM:<", b"RCPT TO:<", b"250-"][p as usize];
            B([pre, &t, b"\r\n"].concat())
        }),
    ]
    .boxed()
}
pub fn reply_bytes() -> BoxedStrategy<B> {
    (0u16..1000, any::<bool>(), gen::text())
        .prop_map(|(c, l, t)| B([format!("{:03}{}", c, if l { ' ' } else { '-' }).as_bytes(), &t, b"\r\n"].concat()))
        .boxed()
}
fn c10(c: &(B, u8), ctx: &mut Ctx) -> R {
    total(&c.0, c.1, ctx)
}
fn gen_c10_small(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(B) -> bool) {
    let mut f = sharded(shard, shards, f);
    if !f(B(vec![])) {
        return;
    }
    for a in 0..=255u8 {
        if !f(B(vec![a])) {
            return;
        }
        for c in 0..=255u8 {
            if !f(B(vec![a, c])) {
                return;
            }
        }
    }
    let n = if tier == Tier::Quick { 5 } else { 7 };
    strings(b"\"\\@a[].:<0 -\r\n", n.min(if tier == Tier::Quick { 5 } else { 6 }), &mut |s| f(B(s.to_vec())));
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Long {
    pre: B,
    unit: B,
    n: u32,
    suf: B,
}
fn gen_c10_long(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(Long) -> bool) {
    let mut f = sharded(shard, shards, f);
    let sizes: &[u32] = if tier == Tier::Quick { &[1000, 70_000] } else { &[1000, 70_000, 1_000_000] };
    for n in sizes {
        for pre in [&b""[..], b"MAIL FROM:", b"MAIL FROM:<", b"RCPT TO:<\"", b"RCPT TO:<a@", b"RCPT TO:<a@b>", b"EHLO ", b"EHLO [", b"EHLO [IPv6:", b"HELP ", b"250-", b"MAIL FROM:<@a", b"\"", b"a@"] {
            for unit in [&b" "[..], b"a", b"\"", b"\\", b"\\\"", b"@", b"a.", b",@a", b" k=v", b" k", b"[", b"]", b"<", b">", b":", b"\r", b"\n", b"\r\n", b"\x00", b"\xff", b"0", b"::", b"1:"] {
                for suf in [&b""[..], b"\r\n", b"\"@b>\r\n", b">\r\n", b"]\r\n"] {
                    if !f(Long { pre: gen::b(pre), unit: gen::b(unit), n: *n / unit.len() as u32, suf: gen::b(suf) }) {
                        return;
                    }
                }
            }
        }
    }
}
fn c10_long(c: &Long, ctx: &mut Ctx) -> R {
    let v = [&c.pre[..], &c.unit.repeat(c.n as usize), &c.suf].concat();
    ctx.nontrivial();
    total(&v, 1, ctx)
}

// ---------------------------------------------------------------- C11

fn email_checks(s: &[u8], repr: u8, ctx: &mut Ctx) -> R {
    let want = grammar::mailbox(s);
    label_verdict(&want, ctx);
    let by = as_bytes(s, repr);
    let a = Email::parse_slice(s);
    let b = Email::parse(ByteSlice::from(&by));
    judge_mbox(s, &want, &a)?;
    judge_mbox(s, &want, &b)?;
    // inside a larger window
    use nom::Slice;
    let mut big = b"x@y\r\n".to_vec();
    big.extend_from_slice(s);
    big.extend_from_slice(b"@z\"");
    let big = bytes::Bytes::from(big);
    let sub = ByteSlice::from(&big).slice(5..).slice(..s.len());
    let c = Email::parse(sub);
    judge_mbox(s, &want, &c)?;
    for e in [a, b, c] {
        let e = match e {
            Ok(e) => e,
            Err(_) => continue,
        };
        let raw = s_bytes(e.raw_localpart());
        let canon = s_bytes(&e.localpart());
        let expect = grammar::unquote(&raw);
        if canon != expect {
            return Err(format!("mailbox {}: local part {} canonicalised to {}, expected {}", show(s), show(&raw), show(&canon), show(&expect)));
        }
        let w = sendable_bytes(&e)?;
        let back = Email::parse_slice(&w).map_err(|x| format!("mailbox {} written as {}, refused: {}", show(s), show(&w), x))?;
        if back != e {
            return Err(format!("mailbox {} written as {}, read back unequal", show(s), show(&w)));
        }
        if mbox_of(&back)? != mbox_of(&e)? {
            return Err(format!("mailbox {} written as {}, read back differently", show(s), show(&w)));
        }
        if let V::Must(m) | V::May(m) = &want {
            if let (Some(Dom::Host(_)), true) | (None, true) = (&m.dom, w != s) {
                return Err(format!("mailbox {} written as {}", show(s), show(&w)));
            }
        }
    }
    Ok(())
}
fn c11(c: &(B, Vec<gen::Edit>, u8), ctx: &mut Ctx) -> R {
    let mut v = c.0 .0.clone();
    for e in &c.1 {
        gen::apply(&mut v, e);
    }
    if v.len() > 2 {
        ctx.nontrivial();
    }
    email_checks(&v, c.2, ctx)
}
fn c11_b(c: &B, ctx: &mut Ctx) -> R {
    if c.len() > 1 {
        ctx.nontrivial();
    }
    email_checks(c, 0, ctx)
}
fn gen_c11(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(B) -> bool) {
    let mut f = sharded(shard, shards, f);
    let n = if tier == Tier::Quick { 6 } else { 7 };
    if !strings(b"a.\"\\@ [", n, &mut |s| f(B(s.to_vec()))) {
        return;
    }
    // every byte in every role
    for c in 0..=255u8 {
        for (l, r) in [
            (&b""[..], &b"@b"[..]), (b"a", b"@b"), (b"", b"a@b"), (b"a", b"z@b"), (b"\"", b"\"@b"), (b"\"\\", b"\"@b"), (b"\"x", b"y\""),
            (b"\"x\\", b"y\""), (b"\"\\\\", b"\""), (b"a@", b""), (b"a@b", b""), (b"a@", b"b"), (b"a@b", b"c"), (b"a@b.", b".c"), (b"a@[1.2.3.4]", b""),
            (b"a@[", b"]"), (b"a@[1.2.3.4", b"]"), (b"\"\"", b"@b"), (b"", b"\"a\"@b"), (b"\"\\", b"\\\"\"@c"), (b"\"a\\\\\\", b"\""),
        ] {
            if !f(B([l, &[c], r].concat())) {
                return;
            }
            for d in [b'"', b'\\', b'.', b'@', b' '] {
                if !f(B([l, &[c, d], r].concat())) || !f(B([l, &[d, c], r].concat())) {
                    return;
                }
            }
        }
    }
    for n in 0..200usize {
        for u in [&b"a"[..], b".a", b"\\a", b"\\\\", b"\\\"", b" "] {
            for (l, r) in [(&b"\""[..], &b"\"@h"[..]), (b"x", b"@h"), (b"\"\"@h", b""), (b"\"a", b"\"")] {
                if !f(B([l, &u.repeat(n)[..], r].concat())) {
                    return;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Lit {
    /// text between the brackets, or a bare text
    text: B,
    bracket: bool,
    edits: Vec<gen::Edit>,
}
fn lit() -> BoxedStrategy<Lit> {
    let t = prop_oneof![
        3 => gen::v4_text(),
        6 => gen::v6().prop_map(|v| [&b"IPv6:"[..], &v.text()].concat()),
        1 => gen::v6().prop_map(|v| v.text()),
        1 => vec(prop_oneof![4 => select(&b"0123456789abcdefABCDEF"[..]), 3 => Just(b':'), 1 => Just(b'.')], 1..40).prop_map(|t| [&b"IPv6:"[..], &t].concat()),
        1 => vec(prop_oneof![4 => select(&b"0123456789"[..]), 2 => Just(b'.')], 1..16),
    ];
    (t, prop_oneof![9 => Just(true), 1 => Just(false)], prop_oneof![3 => Just(vec![]), 2 => vec(gen::edit(), 1..3)])
        .prop_map(|(t, bracket, edits)| Lit { text: B(t), bracket, edits })
        .boxed()
}
fn lit_checks(d: &[u8], ctx: &mut Ctx) -> R {
    let want = grammar::domain(d);
    label_verdict(&want, ctx);
    if d.iter().any(|b| b"<> \t\r\n@,\"".contains(b)) {
        // would change the surrounding syntax: judge the mailbox only
        let m = [&b"u@"[..], d].concat();
        return judge_mbox(&m, &grammar::mailbox(&m), &Email::parse_slice(&m));
    }
    let m = [&b"u@"[..], d].concat();
    let e = Email::parse_slice(&m);
    judge_mbox(&m, &grammar::mailbox(&m), &e)?;
    if let Ok(e) = e {
        let h = e.hostname().as_ref().ok_or("domain lost")?;
        let back = Email::parse_slice(&[&b"u@"[..], &sendable_bytes(h)?].concat()).map_err(|x| format!("{} written as {}, refused: {x}", show(d), show(&sendable_bytes(h).unwrap())))?;
        if back.hostname() != e.hostname() {
            return Err(format!("{} written as {}, read back as another address", show(d), show(&sendable_bytes(h)?)));
        }
    }
    for l in [
        [&b"EHLO "[..], d, b"\r\n"].concat(),
        [&b"helo\t"[..], d, b" \r\n"].concat(),
        [&b"MAIL FROM:<u@"[..], d, b">\r\n"].concat(),
        [&b"RCPT TO:u@"[..], d, b"\r\n"].concat(),
        [&b"RCPT TO:<@r:u@"[..], d, b"> A=B\r\n"].concat(),
    ] {
        check_line(&l, 0)?;
    }
    Ok(())
}
fn c12(c: &Lit, ctx: &mut Ctx) -> R {
    let mut v = c.text.0.clone();
    for e in &c.edits {
        gen::apply(&mut v, e);
    }
    let d = if c.bracket { [&b"["[..], &v, b"]"].concat() } else { v };
    ctx.nontrivial();
    lit_checks(&d, ctx)
}
fn c12_b(c: &B, ctx: &mut Ctx) -> R {
    ctx.nontrivial();
    lit_checks(c, ctx)
}
fn gen_c12(tier: Tier, shard: usize, shards: usize, f: &mut dyn FnMut(B) -> bool) {
    let mut f = sharded(shard, shards, f);
    let mut put = |t: String| f(B(t.into_bytes()));
    // every octet value in every position, in every width
    for n in 0..=999u32 {
        for p in 0..4 {
            for w in 1..=4 {
                let o: Vec<String> = (0..4).map(|i| if i == p { format!("{n:0w$}") } else { format!("{}", 7 * i) }).collect();
                if !put(format!("[{}]", o.join("."))) {
                    return;
                }
                if w == 1 && !put(format!("[IPv6:::ffff:{}]", o.join("."))) || !put(o.join(".")) {
                    return;
                }
            }
        }
    }
    // every zero-run position and length, with and without IPv4 tail, three fillings
    for fill in [[1u16, 2, 3, 4, 5, 6, 7, 8], [0xffff; 8], [0; 8], [0, 1, 0, 0, 1, 0, 0, 0], [0x2001, 0xdb8, 0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0xffff, 0x7f00, 1]] {
        for s in 0..8usize {
            for l in 0..=8 - s {
                for v4_tail in [false, true] {
                    if v4_tail && s + l > 6 || l == 1 {
                        continue;
                    }
                    for style in 0..4 {
                        let mut groups = fill;
                        for g in &mut groups[s..s + l] {
                            *g = 0;
                        }
                        let v = gen::V6 { groups, run: (s, l), v4_tail, style };
                        let t = String::from_utf8(v.text()).unwrap();
                        for x in [format!("[IPv6:{t}]"), format!("[ipv6:{t}]"), format!("[{t}]"), t.clone(), format!("IPv6:{t}"), format!("[IPv6:{t}"), format!("[IPv6: {t}]"), format!("[IPv6:{t}%1]"), format!("[IPv6:{t}/64]"), format!("[IPv6:[{t}]]"), format!("[IPv4:{t}]"), format!("[IPv6{t}]"), format!("[IPv6:{t}:]"), format!("[IPv6::{t}]"), format!("[IPv6:{t}]]"), format!("[[IPv6:{t}]")] {
                            if !put(x) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    // every 16-bit group value in first and last place (sampled in quick)
    let step = if tier == Tier::Quick { 7 } else { 1 };
    for g in (0..=0xffffu32).step_by(step) {
        if !put(format!("[IPv6:{g:x}::{g:X}]")) || !put(format!("[IPv6:1:2:3:{g:04x}:5:6:7:8]")) {
            return;
        }
    }
    for n in 0..=10 {
        for c in ["1", "", "12345", "g", "0", "ffff", "::", "1.2.3.4"] {
            let g = vec![c; n].join(":");
            for x in [format!("[IPv6:{g}]"), format!("[IPv6:{g}::]"), format!("[IPv6:::{g}]"), format!("[IPv6:1::{g}]")] {
                if !put(x) {
                    return;
                }
            }
            if !put(format!("[{}]", vec![c; n].join("."))) {
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct ParamLine {
    rcpt: bool,
    path: u8,
    params: Vec<gen::Param>,
    end: B,
    edits: Vec<gen::Edit>,
}
fn param_line() -> BoxedStrategy<ParamLine> {
    let pe = prop_oneof![3 => Just(vec![]), 2 => vec(gen::edit(), 1..3)];
    let dups = (gen::ws(1, 4), gen::param_key(), proptest::option::of(gen::param_val())).prop_map(|(sep, key, val)| gen::Param { sep, key, val });
    (any::<bool>(), 0u8..5, prop_oneof![4 => gen::params(40), 1 => vec(dups, 0..6)], gen::ws(0, 4), pe)
        .prop_map(|(rcpt, path, params, end, edits)| ParamLine { rcpt, path, params, end, edits })
        .boxed()
}
fn large_param_line() -> BoxedStrategy<ParamLine> {
    let pe = prop_oneof![3 => Just(vec![]), 2 => vec(gen::edit(), 1..3)];
    (any::<bool>(), 0u8..5, (gen::params(4), gen::large_params(), gen::params(4)), gen::ws(0, 4), pe)
        .prop_map(|(rcpt, path, (a, b, c), end, edits)| {
            let mut seen = std::collections::HashSet::new();
            let params = a.into_iter().chain(b).chain(c).filter(|p| seen.insert(p.key.clone())).collect();
            ParamLine { rcpt, path, params, end, edits }
        })
        .boxed()
}
fn c13(c: &ParamLine, ctx: &mut Ctx) -> R {
    let path: &[u8] = if c.rcpt {
        [&b"RCPT TO:<a@b>"[..], b"RCPT TO:a@b", b"rcpt to:\t<@x:a@b>", b"RCPT TO:<\"a b\"@c>", b"RCPT TO:postmaster"][c.path as usize % 5]
    } else {
        [&b"MAIL FROM:<>"[..], b"MAIL FROM:a@b", b"mail from: <a@b>", b"MAIL FROM:<\"a> b\"@c>", b"MAIL FROM:<a@[1.2.3.4]>"][c.path as usize % 5]
    };
    let mut p = gen::params_text(&c.params);
    p.extend_from_slice(&c.end);
    for e in &c.edits {
        gen::apply(&mut p, e);
    }
    let line = [path, &p, b"\r\n"].concat();
    let want = grammar::command(&line);
    label_verdict(&want, ctx);
    if !c.params.is_empty() {
        ctx.nontrivial();
    }
    ctx.label_if(c.params.len() > 8, "more than 8 parameters");
    let got = parse_cmd(&line, 0);
    judge_cmd(&line, &want, &got)?;
    if let Ok(cmd) = got {
        let v = cmd_of(&cmd)?;
        // whatever is reported is in the line, in full, and nothing is left out
        let ps = match &v {
            Cmd::Mail(_, p) | Cmd::Rcpt(_, p) => p.clone(),
            o => return Err(format!("{} parsed as {:?}", show(&line), o)),
        };
        if p.contains(&b'\r') || p.first().map_or(false, |b| !grammar::is_ws(*b)) {
            return Ok(());
        }
        let items: Vec<&[u8]> = p.split(|b| grammar::is_ws(*b)).filter(|i| !i.is_empty()).collect();
        for (k, v) in &ps {
            let mut t = k.clone();
            if let Some(v) = v {
                t.push(b'=');
                t.extend_from_slice(v);
            }
            if !items.contains(&&t[..]) {
                return Err(format!("{}: parameter {} is not in the line", show(&line), show(&t)));
            }
        }
        for i in &items {
            let k = i.split(|b| *b == b'=').next().unwrap();
            if !ps.contains_key(k) {
                return Err(format!("{}: parameter {} is lost", show(&line), show(i)));
            }
        }
        let w = write_cmd(&cmd)?;
        match parse_cmd(&w, 0) {
            Ok(c2) if cmd_of(&c2)? == v => {}
            Ok(c2) => return Err(format!("{} written as {}, read back as {:?}", show(&line), show(&w), cmd_of(&c2)?)),
            Err(e) => return Err(format!("{} written as {}, refused: {e}", show(&line), show(&w))),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Spelling {
    case: u16,
    after: B,
    bracket: bool,
    route: Vec<B>,
    widen: Vec<B>,
    end: B,
}
fn spelling() -> BoxedStrategy<Spelling> {
    (any::<u16>(), gen::ws(0, 4), any::<bool>(), prop_oneof![1 => Just(vec![]), 1 => vec(gen::host().prop_map(B), 1..4)], vec(gen::ws(1, 5), 1..5), gen::ws(0, 4))
        .prop_map(|(case, after, bracket, route, widen, end)| Spelling { case, after, bracket, route, widen, end })
        .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Same {
    /// 0..3 bare, 3..5 hello, 5..9 text, 9 mail, 10 rcpt
    verb: u8,
    /// mailbox, domain or text; possibly malformed
    arg: B,
    params: Vec<(B, Option<B>)>,
    forms: [Spelling; 2],
}
fn same() -> BoxedStrategy<Same> {
    let soft = |s: Bs_| -> Bs_ {
        (s, prop_oneof![3 => Just(vec![]), 1 => vec(gen::edit(), 1..3)])
            .prop_map(|(v, es)| {
                let mut v = v.0;
                for e in &es {
                    gen::apply(&mut v, e)
                }
                v.retain(|b| !b"<>\r\n\t ".contains(b));
                B(v)
            })
            .boxed()
    };
    type Bs_ = BoxedStrategy<B>;
    let key = soft(gen::param_key());
    let val = soft(gen::param_val());
    let ps = || prop_oneof![2 => Just(vec![]), 3 => vec((key.clone(), proptest::option::of(val.clone())), 1..4)].boxed();
    prop_oneof![
        1 => (0u8..3, Just(gen::b(b"")), Just(vec![]), [spelling(), spelling()]),
        3 => (3u8..5, soft(gen::dom().prop_map(B).boxed()), Just(vec![]), [spelling(), spelling()]),
        2 => (5u8..9, gen::text(), Just(vec![]), [spelling(), spelling()]),
        6 => (9u8..11, prop_oneof![3 => soft(gen::mbox()), 1 => gen::mbox()], ps(), [spelling(), spelling()]),
    ]
    .prop_map(|(verb, arg, params, forms)| Same { verb, arg, params, forms })
    .boxed()
}
/// One part of the argument or of one spelling is large.
fn large_same() -> BoxedStrategy<Same> {
    let wide = |u: &'static [u8]| gen::large().prop_map(move |n| B(u.repeat(n / u.len())));
    let sp = move || {
        (spelling(), prop_oneof![3 => Just(0u8), 2 => 1u8..5], prop_oneof![wide(b" "), wide(b"\t ")], gen::large()).prop_map(|(s, k, w, n)| match k {
            1 => Spelling { after: w, ..s },
            2 => Spelling { end: w, ..s },
            3 => Spelling { widen: vec![w], ..s },
            4 => Spelling { route: vec![gen::b(b"relay"); n / 8 + 1], ..s },
            _ => s,
        })
    };
    let text = (gen::large(), gen::text()).prop_map(|(n, t)| if t.is_empty() { t } else { B(t.repeat(n / t.len() + 1)) });
    let ps = || gen::large_params().prop_map(|ps| ps.into_iter().map(|p| (p.key, p.val)).collect::<Vec<_>>());
    prop_oneof![
        1 => (0u8..3, Just(gen::b(b"")), Just(vec![]), [sp(), sp()]),
        2 => (3u8..5, gen::large_mbox().prop_map(|m| B(m.iter().copied().filter(|c| !b"\"\\ @".contains(c)).collect())), Just(vec![]), [sp(), sp()]),
        1 => (5u8..9, text, Just(vec![]), [sp(), sp()]),
        3 => (9u8..11, gen::large_mbox(), Just(vec![]), [sp(), sp()]),
        3 => (9u8..11, gen::mbox(), ps(), [sp(), sp()]),
    ]
    .prop_map(|(verb, arg, params, forms)| Same { verb, arg, params, forms })
    .boxed()
}
impl Same {
    fn line(&self, s: &Spelling) -> Vec<u8> {
        let verbs: [&[u8]; 11] = [b"DATA", b"QUIT", b"RSET", b"EHLO", b"HELO", b"EXPN", b"VRFY", b"HELP", b"NOOP", b"MAIL FROM:", b"RCPT TO:"];
        let v = gen::with_case(verbs[self.verb as usize % 11], s.case);
        match self.verb % 11 {
            0..=2 => [&v[..], &s.end, b"\r\n"].concat(),
            3 | 4 => [&v[..], &s.widen[0], &self.arg, &s.end, b"\r\n"].concat(),
            5..=8 => [&v[..], b" ", &self.arg, b"\r\n"].concat(),
            _ => {
                let mut o = [&v[..], &s.after].concat();
                let plain = self.arg.first() != Some(&b'@');
                // angle brackets and routes only around something that is a mailbox by itself or
                // contains nothing that interacts with them
                if s.bracket {
                    o.push(b'<');
                }
                if plain && !s.route.is_empty() {
                    let hops: Vec<Vec<u8>> = s.route.iter().map(|h| [&b"@"[..], h].concat()).collect();
                    o.extend(hops.join(&b","[..]));
                    o.push(b':');
                }
                o.extend_from_slice(&self.arg);
                if s.bracket {
                    o.push(b'>');
                }
                for (i, (k, val)) in self.params.iter().enumerate() {
                    o.extend_from_slice(&s.widen[i % s.widen.len()]);
                    o.extend_from_slice(k);
                    if let Some(x) = val {
                        o.push(b'=');
                        o.extend_from_slice(x);
                    }
                }
                o.extend_from_slice(&s.end);
                o.extend_from_slice(b"\r\n");
                o
            }
        }
    }
}
fn c14(c: &Same, ctx: &mut Ctx) -> R {
    let (a, b) = (c.line(&c.forms[0]), c.line(&c.forms[1]));
    // "<>" is the null path, not a bracketed mailbox; an empty argument has no unbracketed form
    if c.verb >= 9 && c.arg.is_empty() {
        ctx.skip();
        return Ok(());
    }
    // an unbalanced quote would reach over what follows the mailbox
    if c.verb >= 9 && c.arg.contains(&b'"') && grammar::mailbox(&c.arg).is_reject() {
        ctx.skip();
        return Ok(());
    }
    if c.verb >= 9 && [&a, &b].iter().any(|l| matches!(grammar::command(l), V::May(_) | V::Unspec)) {
        ctx.skip();
        return Ok(());
    }
    let (x, y) = (parse_cmd(&a, 0), parse_cmd(&b, 0));
    if a != b {
        ctx.nontrivial();
    }
    match (&x, &y) {
        (Ok(x), Ok(y)) => {
            ctx.label("both accepted");
            let (vx, vy) = (cmd_of(x)?, cmd_of(y)?);
            if vx != vy {
                return Err(format!("equivalent lines {} and {} parsed as {:?} and {:?}", show(&a), show(&b), vx, vy));
            }
            Ok(())
        }
        (Err(_), Err(_)) => {
            ctx.label("both refused");
            Ok(())
        }
        _ => Err(format!("of the equivalent lines {} and {} only the {} one is accepted", show(&a), show(&b), if x.is_ok() { "first" } else { "second" })),
    }
}
/// verb case and trailing blanks on arbitrary lines
fn c14_any(c: &(Mutant, u16), ctx: &mut Ctx) -> R {
    let line = c.0.bytes();
    let n = match &c.0.base {
        CmdSpec::Path { rcpt: true, .. } => 8,
        CmdSpec::Path { .. } => 10,
        _ => 4,
    };
    if line.len() < n || line.len() > 500 {
        ctx.skip();
        return Ok(());
    }
    let other = [&gen::with_case(&line[..n], c.1)[..], &line[n..]].concat();
    let (x, y) = (parse_cmd(&line, 0), parse_cmd(&other, 0));
    // the verb must still be inside the first n bytes, else a mailbox or text was re-cased
    let tail_same = |v: &Cmd, w: &Cmd| v == w;
    if let (Ok(a), Ok(b)) = (&x, &y) {
        let (va, vb) = (cmd_of(a)?, cmd_of(b)?);
        let verb_only = match &va {
            Cmd::Mail(..) => line[..10].eq_ignore_ascii_case(b"MAIL FROM:"),
            Cmd::Rcpt(..) => line[..8].eq_ignore_ascii_case(b"RCPT TO:") && n == 8,
            _ => n == 4 && !grammar::is_ws(line[0]),
        };
        if !verb_only {
            ctx.skip();
            return Ok(());
        }
        ctx.nontrivial();
        if !tail_same(&va, &vb) {
            return Err(format!("{} and {} parsed as {:?} and {:?}", show(&line), show(&other), va, vb));
        }
        return Ok(());
    }
    if x.is_ok() != y.is_ok() {
        return Err(format!("{} and {} differ in letter case only, but just one is accepted", show(&line), show(&other)));
    }
    Ok(())
}

// ---------------------------------------------------------------- registry

const RULE_LINE: &str = "a case is one command line; non-trivial when the reference grammar decides it in the direction under test";

pub fn subs(id: &str) -> Vec<Box<dyn Sub>> {
    let e = |name, gen, check: fn(&B, &mut Ctx) -> R| -> Box<dyn Sub> { Box::new(Exh { name, rule: RULE_LINE, gen, check }) };
    match id {
        "C06" => vec![
            e("characters", gen_chars, check_b_must),
            e("sizes", gen_sizes, check_b_must),
            e("short arguments", gen_short, check_b_must),
            Box::new(Prop {
                name: "well-formed",
                rule: "structured command (verb, case, blanks, route, mailbox, parameters, text), rendered; non-trivial when the reference grammar says it must be accepted",
                strat: || (gen::cmd(), 0u8..4).boxed(),
                check: c06,
                quick: 600_000,
                thorough: 12_000_000,
            }),
            Box::new(Prop { name: "large", rule: "one part of the command of up to 130 kB; non-trivial as above", strat: || (gen::large_cmd(), 0u8..4).boxed(), check: c06, quick: 1_500, thorough: 60_000 }),
        ],
        "C07" => vec![
            e("characters", gen_chars, check_b_reject),
            e("one edit", gen_one_edit, check_b_reject),
            e("short arguments", gen_short, check_b_reject),
            e("sizes", gen_sizes, check_b_reject),
            Box::new(Prop {
                name: "edited",
                rule: "well-formed command with 1-3 edits; non-trivial when the reference grammar refuses it",
                strat: || (gen::mutant(), 0u8..4).boxed(),
                check: c07_mut,
                quick: 600_000,
                thorough: 12_000_000,
            }),
            Box::new(Prop {
                name: "soup",
                rule: "dictionary tokens and random bytes after an optional command body; non-trivial when the reference grammar refuses it",
                strat: || (proptest::option::of(gen::cmd()), gen::soup(), 0u8..4).boxed(),
                check: c07_soup,
                quick: 300_000,
                thorough: 8_000_000,
            }),
            Box::new(Prop {
                name: "leftover",
                rule: "well-formed line followed by further bytes; non-trivial when the count of leftover bytes was compared",
                strat: || (gen::cmd(), prop_oneof![2 => gen::soup(), 1 => gen::cmd().prop_map(|c| B(c.render())), 1 => gen::ws(1, 5), 1 => vec(any::<u8>(), 1..400).prop_map(B)], 0u8..4).boxed(),
                check: c07_left,
                quick: 200_000,
                thorough: 4_000_000,
            }),
            Box::new(Prop { name: "large", rule: "one part of the command of up to 130 kB; non-trivial as above", strat: || (gen::large_mutant(), 0u8..4).boxed(), check: c07_mut, quick: 1_500, thorough: 60_000 }),
        ],
        "C08" => vec![
            e("one edit", gen_one_edit, c08_b),
            e("characters", gen_chars, c08_b),
            e("sizes", gen_sizes, c08_b),
            e("short arguments", gen_short, c08_b),
            Box::new(Prop {
                name: "commands",
                rule: "structured command, parsed and re-sent three times; non-trivial when accepted",
                strat: || (gen::cmd(), 0u8..4).boxed(),
                check: c08_cmd,
                quick: 200_000,
                thorough: 6_000_000,
            }),
            Box::new(Prop {
                name: "edited",
                rule: "command with 1-3 edits; non-trivial when still accepted",
                strat: || (gen::mutant(), 0u8..4).boxed(),
                check: c08_mut,
                quick: 300_000,
                thorough: 6_000_000,
            }),
            Box::new(Prop {
                name: "free text",
                rule: "verb followed by dictionary soup; non-trivial when accepted",
                strat: || (0u8..9, gen::soup(), 0u8..4).boxed(),
                check: c08_soup,
                quick: 200_000,
                thorough: 4_000_000,
            }),
            Box::new(Prop { name: "large", rule: "one part of the command of up to 130 kB; non-trivial as above", strat: || (gen::large_cmd(), 0u8..4).boxed(), check: c08_cmd, quick: 800, thorough: 40_000 }),
        ],
        "C09" => vec![Box::new(Prop { name: "large", rule: "the same of which one part is up to 130 kB", strat: || (built_large(), any::<u8>()).boxed(), check: c09, quick: 800, thorough: 40_000 }), Box::new(Prop {
            name: "built",
            rule: "command built with the public constructors from valid parts; non-trivial always (compared with the reference reader and the library's parser)",
            strat: || (built(), any::<u8>()).boxed(),
            check: c09,
            quick: 500_000,
            thorough: 12_000_000,
        })],
        "C10" => vec![
            e("small", gen_c10_small, |c, ctx| total(c, 0, ctx)),
            Box::new(Exh { name: "long", rule: "long repetitions of one unit after a prefix, up to 70 kB (1 MB thorough); all non-trivial", gen: gen_c10_long, check: c10_long }),
            e("one edit", gen_one_edit, |c, ctx| total(c, 3, ctx)),
            Box::new(Prop {
                name: "any bytes",
                rule: "mutated commands, mailboxes, replies, dictionary soup, random bytes; non-trivial when one of the parsers accepts it (its value is then inspected in every way)",
                strat: || (total_input(), 0u8..4).boxed(),
                check: c10,
                quick: 500_000,
                thorough: 12_000_000,
            }),
        ],
        "C11" => vec![
            Box::new(Exh { name: "small", rule: "all short strings over the structural alphabet, all bytes in all roles, all sizes; non-trivial when longer than one byte", gen: gen_c11, check: c11_b }),
            Box::new(Prop {
                name: "mailboxes",
                rule: "structured mailbox with 0-2 edits; non-trivial when longer than two bytes",
                strat: || (gen::mbox(), prop_oneof![2 => Just(vec![]), 3 => vec(gen::edit(), 1..3)], 0u8..4).boxed(),
                check: c11,
                quick: 400_000,
                thorough: 10_000_000,
            }),
            Box::new(Prop {
                name: "large",
                rule: "a mailbox of up to 130 kB with 0-2 edits; all non-trivial",
                strat: || (gen::large_mbox(), prop_oneof![2 => Just(vec![]), 1 => vec(gen::edit(), 1..3)], 0u8..4).boxed(),
                check: c11,
                quick: 1_000,
                thorough: 50_000,
            }),
        ],
        "C12" => vec![
            Box::new(Exh { name: "enumerated", rule: "octet values, zero runs, group values and malformed neighbours in every context; all non-trivial", gen: gen_c12, check: c12_b }),
            Box::new(Prop {
                name: "literals",
                rule: "IPv4/IPv6 text in random form, sometimes edited, in mailbox, EHLO, HELO, MAIL and RCPT; all non-trivial",
                strat: lit,
                check: c12,
                quick: 200_000,
                thorough: 5_000_000,
            }),
        ],
        "C13" => vec![
            e("characters", gen_chars, check_b_reject),
            e("sizes", gen_sizes, check_b_must),
            Box::new(Prop {
                name: "parameters",
                rule: "MAIL/RCPT line with up to 40 parameters, the parameter section sometimes edited; non-trivial when it has parameters",
                strat: param_line,
                check: c13,
                quick: 400_000,
                thorough: 8_000_000,
            }),
            Box::new(Prop { name: "large", rule: "one part of the line of up to 130 kB; non-trivial as above", strat: || large_param_line(), check: c13, quick: 1_000, thorough: 50_000 }),
        ],
        "C14" => vec![
            Box::new(Prop {
                name: "two spellings",
                rule: "one (possibly malformed) argument and parameter list in two spellings (case, brackets, route, blanks); non-trivial when the two lines differ",
                strat: same,
                check: c14,
                quick: 400_000,
                thorough: 8_000_000,
            }),
            Box::new(Prop {
                name: "large",
                rule: "the same of which one part is up to 130 kB",
                strat: large_same,
                check: c14,
                quick: 1_000,
                thorough: 50_000,
            }),
            Box::new(Prop {
                name: "verb case",
                rule: "edited command and the same line with the verb in another letter case; non-trivial when both are accepted and compared",
                strat: || (gen::mutant(), any::<u16>()).boxed(),
                check: c14_any,
                quick: 200_000,
                thorough: 4_000_000,
            }),
        ],
        _ => vec![],
    }
}

