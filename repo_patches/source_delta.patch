From b9436be2f80a525c027f98340d66b51e67be4336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 1/7] fix: check ByteSlice sub-slices against their own length

Slicing compared the end of the range with the end of the view within the
underlying buffer instead of with the length of the view, so that a sub-slice
of a view not starting at 0 could show bytes after the end of the view.
---
 smtp-message/src/byteslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/byteslice.rs b/smtp-message/src/byteslice.rs
index c19971c..894e301 100644
--- a/smtp-message/src/byteslice.rs
+++ b/smtp-message/src/byteslice.rs
@@ -60,7 +60,7 @@ impl<'a> PartialEq for ByteSlice<'a> {
 
 impl<'a> Slice<Range<usize>> for ByteSlice<'a> {
     fn slice(&self, range: Range<usize>) -> Self {
-        assert!(range.start <= range.end && range.end <= self.end);
+        assert!(range.start <= range.end && range.end <= self.len());
         ByteSlice {
             buf: self.buf,
             start: self.start + range.start,
-- 
2.43.0


From 13a7fa2d28fbd4a1bde19752c6f6fd2f4f9b1c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 2/7] fix: only accept three digits as a reply code

The code was parsed with u16::from_str, which also accepts a plus sign: a line
starting with "+25 " was taken for a reply with code 25.
---
 smtp-message/src/reply.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smtp-message/src/reply.rs b/smtp-message/src/reply.rs
index 4e2d71a..bbf0642 100644
--- a/smtp-message/src/reply.rs
+++ b/smtp-message/src/reply.rs
@@ -130,7 +130,10 @@ named!(pub reply(ByteSlice) -> ReplyLine, do_parse!(
     code: map!(
         verify!(
             map_res!(
-                map_res!(take!(3), ByteSlice::into_utf8),
+                map_res!(
+                    verify!(take!(3), |x: ByteSlice| x.iter().all(u8::is_ascii_digit)),
+                    ByteSlice::into_utf8
+                ),
                 |utf8| u16::from_str(utf8)
             ),
             |x: u16| x < 1000
-- 
2.43.0


From 6d3b57a75f1da567b3bef5e54bdc1ec0598bff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 3/7] fix: refuse HELP, NOOP, EHLO and HELO run together with
 their argument

The space after the verb was optional, so that e.g. HELPfoo, NOOP\0 or
EHLOexample.org were taken for these commands.
---
 smtp-message/src/ehlo/mod.rs | 7 ++++++-
 smtp-message/src/helo/mod.rs | 7 ++++++-
 smtp-message/src/help/mod.rs | 9 ++++++---
 smtp-message/src/noop/mod.rs | 8 ++++++--
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/smtp-message/src/ehlo/mod.rs b/smtp-message/src/ehlo/mod.rs
index 1231a6b..646a5ce 100644
--- a/smtp-message/src/ehlo/mod.rs
+++ b/smtp-message/src/ehlo/mod.rs
@@ -29,9 +29,14 @@ impl EhloCommand {
     }
 }
 
+// The verb must be separated from its argument
+named!(verb(ByteSlice) -> ByteSlice,
+    terminated!(tag_no_case!("EHLO"), one_of!(spaces!()))
+);
+
 named!(pub command_ehlo_args(ByteSlice) -> EhloCommand,
     sep!(eat_spaces, do_parse!(
-        tag_no_case!("EHLO") >>
+        call!(verb) >>
         domain: hostname >>
         tag!("\r\n") >>
         (EhloCommand {
diff --git a/smtp-message/src/helo/mod.rs b/smtp-message/src/helo/mod.rs
index 4cc2af5..533e293 100644
--- a/smtp-message/src/helo/mod.rs
+++ b/smtp-message/src/helo/mod.rs
@@ -29,9 +29,14 @@ impl HeloCommand {
     }
 }
 
+// The verb must be separated from its argument
+named!(verb(ByteSlice) -> ByteSlice,
+    terminated!(tag_no_case!("HELO"), one_of!(spaces!()))
+);
+
 named!(pub command_helo_args(ByteSlice) -> HeloCommand,
     sep!(eat_spaces, do_parse!(
-        tag_no_case!("HELO") >>
+        call!(verb) >>
         domain: hostname >>
         tag!("\r\n") >>
         (HeloCommand {
diff --git a/smtp-message/src/help/mod.rs b/smtp-message/src/help/mod.rs
index ca8f39f..2ef547d 100644
--- a/smtp-message/src/help/mod.rs
+++ b/smtp-message/src/help/mod.rs
@@ -24,10 +24,13 @@ impl HelpCommand {
     }
 }
 
-// TODO: (B) this opt!(…) allows HELPfoo, which is wrong, like other commands
 named!(pub command_help_args(ByteSlice) -> HelpCommand, do_parse!(
-    tag_no_case!("HELP") >> opt!(one_of!(spaces!())) >>
-    res: take_until!("\r\n") >>
+    tag_no_case!("HELP") >>
+    // Without a space, nothing may follow the verb
+    res: alt!(
+        preceded!(one_of!(spaces!()), take_until!("\r\n")) |
+        verify!(take_until!("\r\n"), |x: ByteSlice| x.is_empty())
+    ) >>
     tag!("\r\n") >>
     (HelpCommand {
         subject: res.promote().into(),
diff --git a/smtp-message/src/noop/mod.rs b/smtp-message/src/noop/mod.rs
index 53dbea9..e414b9e 100644
--- a/smtp-message/src/noop/mod.rs
+++ b/smtp-message/src/noop/mod.rs
@@ -25,8 +25,12 @@ impl NoopCommand {
 }
 
 named!(pub command_noop_args(ByteSlice) -> NoopCommand, do_parse!(
-    tag_no_case!("NOOP") >> opt!(one_of!(spaces!())) >>
-    res: take_until!("\r\n") >>
+    tag_no_case!("NOOP") >>
+    // Without a space, nothing may follow the verb
+    res: alt!(
+        preceded!(one_of!(spaces!()), take_until!("\r\n")) |
+        verify!(take_until!("\r\n"), |x: ByteSlice| x.is_empty())
+    ) >>
     tag!("\r\n") >>
     (NoopCommand {
         string: res.promote().into(),
-- 
2.43.0


From 1cb73bc661189b73059764756b4426c23c99b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 4/7] fix: refuse an empty source route

A path such as <:foo@example.org> was taken for a source route of no hosts.
---
 smtp-message/src/email.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/email.rs b/smtp-message/src/email.rs
index 66892b0..20ab9e6 100644
--- a/smtp-message/src/email.rs
+++ b/smtp-message/src/email.rs
@@ -128,7 +128,7 @@ named!(pub email(ByteSlice) -> Email, do_parse!(
 
 named!(address_in_path(ByteSlice) -> Email, preceded!(
     opt!(do_parse!(
-        separated_list!(tag!(","), do_parse!(tag!("@") >> hostname >> ())) >>
+        separated_nonempty_list!(tag!(","), do_parse!(tag!("@") >> hostname >> ())) >>
         tag!(":") >>
         ()
     )),
-- 
2.43.0


From d01c91ddfbeec19f6270c39d4be5de1f2e0d4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 5/7] fix: send a reply line even when its text is empty

---
 smtp-server/src/sendreply.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/smtp-server/src/sendreply.rs b/smtp-server/src/sendreply.rs
index 6d8ac5c..e446757 100644
--- a/smtp-server/src/sendreply.rs
+++ b/smtp-server/src/sendreply.rs
@@ -15,8 +15,15 @@ pub async fn send_reply<W>(
 where
     W: Sink<ReplyLine>,
 {
-    let replies = text
-        .byte_chunks(ReplyLine::MAX_LEN)
+    // A reply has at least one line, even when it has no text
+    let empty = if text.byte_len() == 0 {
+        Some(text.clone())
+    } else {
+        None
+    };
+    let replies = empty
+        .into_iter()
+        .chain(text.byte_chunks(ReplyLine::MAX_LEN))
         .with_position()
         .map(move |t| {
             use itertools::Position::*;
-- 
2.43.0


From 02552891630d8f776219adbc2738fe237fb5e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 6/7] fix: do not read the input again after its end

---
 smtp-server/src/interact.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smtp-server/src/interact.rs b/smtp-server/src/interact.rs
index 5e16a05..c22610d 100644
--- a/smtp-server/src/interact.rs
+++ b/smtp-server/src/interact.rs
@@ -44,7 +44,9 @@ where
     fn randomtest<Writer: Sink<Bytes>, S: Sink<ReplyLine, Error = Writer::Error>>(_: &S) {}
     randomtest::<Writer, _>(&writer);
     let mut writer = unsafe { Pin::new_unchecked(&mut writer) };
-    let mut reader = Prependable::new(incoming);
+    // A message cut short by the end of the input is followed by another attempt
+    // at reading, which the input need not support
+    let mut reader = Prependable::new(incoming.fuse());
 
     send_reply(writer.as_mut(), cfg.welcome_banner()).await?;
     // TODO: (C) optimize by trying parsing directly and not buffering until crlf
-- 
2.43.0


From 6de1c2f2790b9cb340de074c5ae3e2e86bde13d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 7/7] fix: export FoundInflightMail, which Storage implementors
 need

---
 smtp-queue/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-queue/src/lib.rs b/smtp-queue/src/lib.rs
index 1641032..c301c1c 100644
--- a/smtp-queue/src/lib.rs
+++ b/smtp-queue/src/lib.rs
@@ -8,7 +8,7 @@ mod send_queued_mail;
 mod storage;
 mod transport;
 
-pub use mail::{InflightMail, Mail, QueuedMail};
+pub use mail::{FoundInflightMail, InflightMail, Mail, QueuedMail};
 pub use run::run;
 pub use storage::Storage;
 pub use transport::Transport;
-- 
2.43.0

