From f97e7ce67056ff1449534fd8e3733ec924a437a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:53 +0000
Subject: [PATCH 01/33] fix: continue a short write where it stopped

write_data passed the whole buffer to write(2) again after a short write,
repeating output the device had already taken and possibly never ending.
---
 src/unix/terminal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 4efd294..b41176f 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1026,7 +1026,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 break Ok(());
             }
 
-            match write(self.term.out_fd, buf) {
+            match write(self.term.out_fd, &buf[offset..]) {
                 Ok(0) => break Err(io::Error::from(io::ErrorKind::WriteZero)),
                 Ok(n) => offset += n,
                 Err(Errno::EINTR) => continue,
-- 
2.43.0


From a14bb30a40ccccef5a9def6078f9926c50aeb80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 02/33] fix: clamp terminfo parameters to the range terminfo
 can expand

Values above i32::MAX were expanded as negative numbers, producing
sequences such as ESC [ -1 C that terminals do not understand.
---
 src/unix/terminal.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index b41176f..144bdcf 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1414,16 +1414,9 @@ fn not_supported(op: &str) -> io::Error {
         format!("operation not supported: {}", op))
 }
 
-#[cfg(target_pointer_width = "64")]
+// Terminfo parameters are expanded as signed 32-bit integers.
 fn to_u32(u: usize) -> u32 {
-    if u > u32::max_value() as usize {
-        u32::max_value()
-    } else {
-        u as u32
-    }
-}
+    const MAX: usize = i32::max_value() as usize;
 
-#[cfg(any(target_pointer_width = "16", target_pointer_width = "32"))]
-fn to_u32(u: usize) -> u32 {
-    u as u32
+    u.min(MAX) as u32
 }
-- 
2.43.0


From 5ed0f310aa85ad54f380a44164cdab91327cffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 03/33] fix: report failures in drop without panicking

eprintln! panics when standard error cannot be written. When standard
error is the failing terminal, dropping a Terminal, a Screen or a write
guard panicked (and aborted the process while another panic unwound).
---
 src/unix/screen.rs   | 6 +++---
 src/unix/terminal.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 5597355..47207fa 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -1,4 +1,4 @@
-use std::io;
+use std::io::{self, Write};
 use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
 use std::time::Duration;
 
@@ -130,7 +130,7 @@ impl Drop for Screen {
         };
 
         if let Err(e) = res.and_then(|_| self.term.exit_screen()) {
-            eprintln!("failed to restore terminal: {}", e);
+            let _ = writeln!(io::stderr(), "failed to restore terminal: {}", e);
         }
     }
 }
@@ -228,7 +228,7 @@ impl<'a> ScreenWriteGuard<'a> {
 impl<'a> Drop for ScreenWriteGuard<'a> {
     fn drop(&mut self) {
         if let Err(e) = self.refresh() {
-            eprintln!("failed to refresh screen: {}", e);
+            let _ = writeln!(io::stderr(), "failed to refresh screen: {}", e);
         }
     }
 }
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 144bdcf..82fa025 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1,6 +1,6 @@
 use std::convert::TryFrom;
 use std::fs::File;
-use std::io;
+use std::io::{self, Write};
 use std::mem::{replace, zeroed};
 use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::path::Path;
@@ -300,7 +300,7 @@ impl Terminal {
 impl Drop for Terminal {
     fn drop(&mut self) {
         if let Err(e) = self.set_cursor_mode(CursorMode::Normal) {
-            eprintln!("failed to restore terminal: {}", e);
+            let _ = writeln!(io::stderr(), "failed to restore terminal: {}", e);
         }
 
         if self.owned_fd {
@@ -1049,7 +1049,7 @@ impl<'a> TerminalWriteGuard<'a> {
 impl<'a> Drop for TerminalWriteGuard<'a> {
     fn drop(&mut self) {
         if let Err(e) = self.flush() {
-            eprintln!("failed to flush terminal: {}", e);
+            let _ = writeln!(io::stderr(), "failed to flush terminal: {}", e);
         }
     }
 }
-- 
2.43.0


From 63b56c33efc097c9342acedf51480fe7fc291ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 04/33] fix: keep wide characters within their line

The last column of a line too short for a wide character was filled with
that character rather than a space, and on a single column screen the
second half was stored beyond the line or the whole buffer.
---
 src/buffer.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 020715e..dd4b34f 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -177,6 +177,14 @@ impl ScreenBuffer {
         } else if is_visible(ch) {
             self.try_cursor()?;
 
+            let rem = self.size.columns - self.cursor.column;
+            let width = char_width(ch).unwrap_or(0);
+
+            // No line can hold this character
+            if width > self.size.columns {
+                return Ok(());
+            }
+
             if let Some(prev) = self.cursor.previous(self.size) {
                 let cell = self.cell_mut(prev);
 
@@ -185,9 +193,6 @@ impl ScreenBuffer {
                 }
             }
 
-            let rem = self.size.columns - self.cursor.column;
-            let width = char_width(ch).unwrap_or(0);
-
             // If insufficient space exists on the current line,
             // fill it with spaces and write the char on the next line.
             if rem < width {
@@ -195,7 +200,7 @@ impl ScreenBuffer {
                 let mut pos = self.cursor;
 
                 for _ in 0..rem {
-                    self.set_cell(pos, ch);
+                    self.set_cell(pos, ' ');
                     pos.column += 1;
                 }
 
-- 
2.43.0


From 70dbc8bba78e87a76bdde68e2cfa265645b69010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 05/33] fix: combine marks with the wide character before them

---
 src/buffer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index dd4b34f..4c1f03c 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -170,8 +170,18 @@ impl ScreenBuffer {
             self.cursor.line += 1;
             self.cursor.column = 0;
         } else if is_combining_mark(ch) {
-            if let Some(prev) = self.cursor.previous(self.size) {
+            if let Some(mut prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
+
+                // A wide character's text is stored in its first cell
+                if prev.column != 0 {
+                    let head = Cursor{column: prev.column - 1, ..prev};
+
+                    if self.cell_mut(head).is_wide() {
+                        prev = head;
+                    }
+                }
+
                 self.cell_mut(prev).text.push(ch);
             }
         } else if is_visible(ch) {
-- 
2.43.0


From ba095e4e7064457ea8214c1f88697d9b293cdb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 06/33] fix: store spacing combining marks in a cell of their
 own

A terminal advances its cursor for them, which refresh did not account for.
---
 src/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 4c1f03c..cd3eee7 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -169,7 +169,7 @@ impl ScreenBuffer {
         } else if ch == '\n' {
             self.cursor.line += 1;
             self.cursor.column = 0;
-        } else if is_combining_mark(ch) {
+        } else if is_combining_mark(ch) && !is_visible(ch) {
             if let Some(mut prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
 
-- 
2.43.0


From d7493bdec18181f5144ec49eae8532c7251d8c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 07/33] fix: redraw cells uncovered by a wide character

---
 src/buffer.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index cd3eee7..8498904 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -123,6 +123,16 @@ impl ScreenBuffer {
                 let line = idx / self.size.columns;
                 let column = idx % self.size.columns;
 
+                // Drawing over either half of a wide character blanks the other
+                if width == 2 {
+                    if self.back_buffer[idx + 1].is_wide() {
+                        self.invalidate_back(idx + 2);
+                    }
+                    self.invalidate_back(idx + 1);
+                } else if self.back_buffer[idx].is_wide() {
+                    self.invalidate_back(idx + 1);
+                }
+
                 self.back_buffer[idx] = cell.clone();
 
                 return Some((Cursor{line, column}, cell));
@@ -132,6 +142,12 @@ impl ScreenBuffer {
         None
     }
 
+    fn invalidate_back(&mut self, idx: usize) {
+        if let Some(cell) = self.back_buffer.get_mut(idx) {
+            *cell = Cell::invalid();
+        }
+    }
+
     #[cfg(test)]
     fn cell(&self, pos: Cursor) -> &Cell {
         &self.buffer[pos.as_index(self.size)]
-- 
2.43.0


From beed9cdeb174e52cadca597013f2568d6470c7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 08/33] fix: account for wide characters when tracking the
 cursor in refresh

---
 src/buffer.rs      | 2 +-
 src/unix/screen.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 8498904..37157e9 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -538,7 +538,7 @@ impl Cell {
         self.text.chars().next().expect("empty cell text")
     }
 
-    fn is_wide(&self) -> bool {
+    pub fn is_wide(&self) -> bool {
         self.text.chars().next()
             .and_then(char_width).unwrap_or(0) == 2
     }
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 47207fa..19ae0ed 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -192,7 +192,7 @@ impl<'a> ScreenWriteGuard<'a> {
 
             self.apply_attrs(cell.attrs())?;
             self.writer.write_str(cell.text())?;
-            self.data.real_cursor.column += 1;
+            self.data.real_cursor.column += if cell.is_wide() { 2 } else { 1 };
         }
 
         self.writer.clear_attributes()?;
-- 
2.43.0


From 14ba1d731279504b63ab9180385385f25df6c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 09/33] fix: clear attributes after styled text that overflows
 the screen

---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 37157e9..72d90f8 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -277,10 +277,10 @@ impl ScreenBuffer {
         self.bg = bg;
         self.style = style;
 
-        self.write_str(text)?;
+        let res = self.write_str(text);
         self.clear_attributes();
 
-        Ok(())
+        res
     }
 
     pub fn write_styled_at(&mut self, pos: Cursor,
-- 
2.43.0


From 0929531e7278b4af39361b5dce02b394f7d682f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 10/33] fix: saturate the line of a screen cursor far out of
 bounds

---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 72d90f8..060f7de 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -59,7 +59,7 @@ impl ScreenBuffer {
     }
 
     pub fn next_line(&mut self, column: usize) {
-        self.cursor.line += 1;
+        self.cursor.line = self.cursor.line.saturating_add(1);
         self.cursor.column = column;
     }
 
@@ -183,7 +183,7 @@ impl ScreenBuffer {
         } else if ch == '\r' {
             self.cursor.column = 0;
         } else if ch == '\n' {
-            self.cursor.line += 1;
+            self.cursor.line = self.cursor.line.saturating_add(1);
             self.cursor.column = 0;
         } else if is_combining_mark(ch) && !is_visible(ch) {
             if let Some(mut prev) = self.cursor.previous(self.size) {
-- 
2.43.0


From 172791035a5d3461fb523efb07a9a669c81764e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 11/33] fix: get the size of a new screen once resizes are
 reported

A resize between querying the size and installing the signal handler was
never noticed.
---
 src/unix/screen.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 19ae0ed..931de99 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -35,9 +35,17 @@ struct Writer {
 
 impl Screen {
     pub fn new(term: Terminal, config: PrepareConfig) -> io::Result<Screen> {
-        let size = term.size()?;
         let state = term.prepare(config)?;
 
+        // From here on, `read_event` reports any change to this size
+        let size = match term.size() {
+            Ok(size) => size,
+            Err(e) => {
+                let _ = term.restore(state);
+                return Err(e);
+            }
+        };
+
         let screen = Screen{
             term: term,
             state: Some(state),
-- 
2.43.0


From b4263e50b54c1c8dad38e8b021b891a1d5197a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 12/33] fix: don't panic when the terminal has no lines or
 columns

---
 src/buffer.rs        | 2 +-
 src/terminal.rs      | 6 +++---
 src/unix/terminal.rs | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 060f7de..e43f3f9 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -554,7 +554,7 @@ fn resize_buffer(buf: &mut Vec<Cell>, old: Size, new: Size) {
     if old != new {
         let mut new_buf = vec![Cell::default(); new.area()];
 
-        if !buf.is_empty() {
+        if !buf.is_empty() && !new_buf.is_empty() {
             let n_cols = old.columns.min(new.columns);
 
             for (old, new) in buf.chunks_mut(old.columns)
diff --git a/src/terminal.rs b/src/terminal.rs
index 8c96587..d3614f6 100644
--- a/src/terminal.rs
+++ b/src/terminal.rs
@@ -146,7 +146,7 @@ impl Cursor {
             if self.line == 0 {
                 None
             } else {
-                Some(Cursor{line: self.line - 1, column: size.columns - 1})
+                Some(Cursor{line: self.line - 1, column: size.columns.saturating_sub(1)})
             }
         } else {
             Some(Cursor{line: self.line, column: self.column - 1})
@@ -166,8 +166,8 @@ impl Cursor {
     #[inline]
     pub fn last(size: Size) -> Cursor {
         Cursor{
-            line: size.lines - 1,
-            column: size.columns - 1,
+            line: size.lines.saturating_sub(1),
+            column: size.columns.saturating_sub(1),
         }
     }
 
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 82fa025..02664a4 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -716,7 +716,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 }
 
                 self.expand(scroll.expand()
-                    .parameters(0, to_u32(size.lines - 1)))?;
+                    .parameters(0, to_u32(size.lines.saturating_sub(1))))?;
                 self.expand(home.expand())?;
             }
             (_, None, _) => return Err(not_supported("change_scroll_region")),
-- 
2.43.0


From 8c6be1bb4106c5eb2d94238b68523455a06197a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 13/33] fix: blank a wide character cut in half by a resize

---
 src/buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index e43f3f9..8800693 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -562,6 +562,11 @@ fn resize_buffer(buf: &mut Vec<Cell>, old: Size, new: Size) {
                 for i in 0..n_cols {
                     swap(&mut new[i], &mut old[i]);
                 }
+
+                // The second half of a wide character may have been cut off
+                if new.len() < old.len() && new[n_cols - 1].is_wide() {
+                    new[n_cols - 1] = Cell::default();
+                }
             }
         }
 
-- 
2.43.0


From 169a28e1d0b891b5ab2ceef44b6c1dc73a679bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 14/33] fix: redraw the screen after a refresh that failed

Cells were recorded as drawn before they were written.
---
 src/buffer.rs      |  4 ++++
 src/unix/screen.rs | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 8800693..f2ef013 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -101,6 +101,10 @@ impl ScreenBuffer {
         }
     }
 
+    pub fn invalidate(&mut self) {
+        new_buffer(&mut self.back_buffer, self.size);
+    }
+
     pub fn indices(&self) -> Range<usize> {
         0..self.size.area()
     }
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 931de99..199b880 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -186,6 +186,19 @@ impl<'a> ScreenWriteGuard<'a> {
     }
 
     pub fn refresh(&mut self) -> io::Result<()> {
+        let res = self.draw();
+
+        if res.is_err() {
+            // There is no telling which cells were drawn; draw all of them
+            // and move the cursor on next refresh
+            self.data.buffer.invalidate();
+            self.data.real_cursor = (!0, !0).into();
+        }
+
+        res
+    }
+
+    fn draw(&mut self) -> io::Result<()> {
         if self.data.clear_screen {
             self.writer.clear_screen()?;
             self.data.clear_screen = false;
-- 
2.43.0


From 6508b86c6692b1d3d86a127d578b6116564bb23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 15/33] fix: a mouse report at coordinate zero is not a mouse
 report

The coordinates of mouse reports begin at one. A report with a zero
coordinate made read_event panic on subtraction overflow.
---
 src/unix/terminal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 02664a4..5a2319e 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1298,8 +1298,8 @@ fn parse_mouse_data(mut buf: &[u8]) -> Option<(MouseEvent, usize)> {
 
     let position = Cursor{
         // Parsed line and column begin at 1; we begin at 0
-        line: (line - 1) as usize,
-        column: (column - 1) as usize,
+        line: line.checked_sub(1)? as usize,
+        column: column.checked_sub(1)? as usize,
     };
 
     Some((MouseEvent{
-- 
2.43.0


From 39988df992602c5961a112913ac8a435a95615a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 16/33] fix: go on after invalid UTF-8 input

Invalid bytes stayed at the head of the input buffer, so that every
following read_event and wait_event failed with the same error. Report
the error once and discard the offending bytes.
---
 src/unix/terminal.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 5a2319e..a16577d 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -458,8 +458,10 @@ impl<'a> TerminalReadGuard<'a> {
             return Ok(true);
         }
 
-        if peek_event(&self.reader.in_buffer, &self.term.sequences)?.is_some() {
-            return Ok(true);
+        match peek_event(&self.reader.in_buffer, &self.term.sequences) {
+            Ok(None) => (),
+            // Either an event or an error is reported by the next read
+            _ => return Ok(true)
         }
 
         let mut timeout = timeout.map(to_timeval);
@@ -596,7 +598,12 @@ impl<'a> TerminalReadGuard<'a> {
                     Ok(Some(ev))
                 }
                 Ok(None) => Ok(None),
-                Err(e) => Err(e)
+                Err(e) => {
+                    // Discard invalid bytes so that following input can be read
+                    let n = invalid_utf8_len(in_buffer);
+                    let _ = in_buffer.drain(..n);
+                    Err(e)
+                }
             }
         }
     }
@@ -1361,6 +1368,14 @@ fn utf8_prefix(buf: &[u8]) -> io::Result<&str> {
     }
 }
 
+/// Returns the number of invalid bytes at the beginning of the buffer.
+fn invalid_utf8_len(buf: &[u8]) -> usize {
+    match from_utf8(buf) {
+        Err(ref e) if e.valid_up_to() == 0 => e.error_len().unwrap_or(0),
+        _ => 0
+    }
+}
+
 static LAST_SIGNAL: AtomicUsize = AtomicUsize::new(0);
 
 extern "C" fn handle_signal(signum: c_int) {
-- 
2.43.0


From c4e3ad47674b9fc3ac65fff41b315458d5e5d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 17/33] fix: do not split sequences that have arrived
 completely

A key sequence or mouse report that crosses the end of the 128 byte read
buffer, or that was read only in part, was reported as an escape key
followed by characters. When the head of the buffer may be the beginning
of a longer sequence, first read what is available without waiting.
---
 src/unix/terminal.rs | 75 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index a16577d..5e2a09c 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -587,6 +587,12 @@ impl<'a> TerminalReadGuard<'a> {
     }
 
     fn try_read(&mut self) -> io::Result<Option<Event>> {
+        // A sequence may have been received only in part,
+        // either because it was split or because the buffer was too small.
+        // If the rest is there already, read it now.
+        while is_incomplete(&self.reader.in_buffer, &self.term.sequences) &&
+                self.read_available() {}
+
         let in_buffer = &mut self.reader.in_buffer;
 
         if in_buffer.is_empty() {
@@ -608,6 +614,39 @@ impl<'a> TerminalReadGuard<'a> {
         }
     }
 
+    /// Reads input into the buffer if there is any, without waiting for it.
+    /// Returns whether any was read.
+    ///
+    /// An error is left to be found by the next regular read operation.
+    fn read_available(&mut self) -> bool {
+        let in_fd = self.term.in_fd;
+        let mut buf = [0; 128];
+
+        loop {
+            let mut r_fds = FdSet::new();
+            r_fds.insert(in_fd);
+
+            match select(in_fd + 1, Some(&mut r_fds), None, None,
+                    Some(&mut TimeVal::milliseconds(0))) {
+                Ok(0) => return false,
+                Ok(_) => break,
+                Err(Errno::EINTR) => continue,
+                Err(_) => return false
+            }
+        }
+
+        loop {
+            match read(in_fd, &mut buf) {
+                Ok(n) => {
+                    self.reader.in_buffer.extend(&buf[..n]);
+                    return n != 0;
+                }
+                Err(Errno::EINTR) => continue,
+                Err(_) => return false
+            }
+        }
+    }
+
     fn handle_signal(&mut self, sig: Signal) -> io::Result<Option<Event>> {
         match sig {
             Signal::Continue => {
@@ -1259,6 +1298,42 @@ fn peek_event(buf: &[u8], sequences: &SeqMap)
     Ok(Some((res, n)))
 }
 
+/// Returns whether the buffer holds only the beginning of a character
+/// or of what may be a known sequence.
+fn is_incomplete(buf: &[u8], sequences: &SeqMap) -> bool {
+    let s = match utf8_prefix(buf) {
+        Ok("") => return !buf.is_empty(),
+        Ok(s) => s,
+        Err(_) => return false
+    };
+
+    for pfx in prefixes(s) {
+        match sequences.find(pfx) {
+            FindResult::NotFound => return false,
+            FindResult::Found(SeqData::XTermMouse) =>
+                return is_incomplete_mouse_data(&buf[pfx.len()..]),
+            FindResult::Found(_) => return false,
+            FindResult::Incomplete | FindResult::Undecided(_) => ()
+        }
+    }
+
+    s.len() == buf.len()
+}
+
+fn is_incomplete_mouse_data(mut buf: &[u8]) -> bool {
+    const MAX_DIGITS: usize = 10;
+
+    for _ in 0..2 {
+        match parse_integer(&mut buf) {
+            Some((_, b';')) => (),
+            Some(_) => return false,
+            None => break
+        }
+    }
+
+    buf.len() <= MAX_DIGITS && buf.iter().all(|b| b.is_ascii_digit())
+}
+
 fn parse_mouse_data(mut buf: &[u8]) -> Option<(MouseEvent, usize)> {
     let orig_len = buf.len();
 
-- 
2.43.0


From 9c4b42886012a5464d5e5d972f79e0ff35db9315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 18/33] fix: restore the set of reported signals

After a nested prepare was restored, signals requested only by the inner
configuration were still reported, those of the outer were not.
---
 src/unix/terminal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 5e2a09c..5c83c97 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -419,6 +419,8 @@ impl<'a> TerminalReadGuard<'a> {
     pub fn restore_with_lock(&mut self, writer: &mut TerminalWriteGuard,
             state: PrepareState) -> io::Result<()> {
         self.reader.resume = state.prev_resume;
+        self.reader.report_signals = state.prev_resume
+            .map_or_else(SignalSet::new, |r| r.config.report_signals);
 
         if state.restore_mouse {
             writer.disable_mouse()?;
-- 
2.43.0


From ea4f3d7f37d8875ccc5ed2a12ddd7d0dba42ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 19/33] fix: remember every signal that arrived

Only the latest signal was kept, so that of two signals arriving between
reads, the first was lost, be it a resize or one the caller asked for.
---
 src/unix/terminal.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 5c83c97..a033aed 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1453,10 +1453,11 @@ fn invalid_utf8_len(buf: &[u8]) -> usize {
     }
 }
 
-static LAST_SIGNAL: AtomicUsize = AtomicUsize::new(0);
+/// Signals that have arrived and were not taken yet, one bit for each
+static SIGNALS: AtomicUsize = AtomicUsize::new(0);
 
 extern "C" fn handle_signal(signum: c_int) {
-    LAST_SIGNAL.store(signum as usize, Ordering::Relaxed);
+    SIGNALS.fetch_or(1 << signum, Ordering::SeqCst);
 }
 
 fn conv_signal(sig: c_int) -> Option<Signal> {
@@ -1471,11 +1472,24 @@ fn conv_signal(sig: c_int) -> Option<Signal> {
 }
 
 fn get_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.load(Ordering::Relaxed) as c_int)
+    match SIGNALS.load(Ordering::SeqCst) {
+        0 => None,
+        n => conv_signal(n.trailing_zeros() as c_int)
+    }
 }
 
 fn take_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.swap(0, Ordering::Relaxed) as c_int)
+    loop {
+        let n = match SIGNALS.load(Ordering::SeqCst) {
+            0 => return None,
+            n => n.trailing_zeros()
+        };
+
+        // Another thread may have taken it in the meantime
+        if SIGNALS.fetch_and(!(1 << n), Ordering::SeqCst) & (1 << n) != 0 {
+            return conv_signal(n as c_int);
+        }
+    }
 }
 
 fn ascii_str(s: &[u8]) -> Option<&str> {
-- 
2.43.0


From ba4f3f743b51862869eea35da5d1cd73af5f5bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 20/33] fix: wake up waiting reads when a signal arrives

A signal that arrived just before select was called, or that was
delivered to another thread, was not noticed until other input arrived.
The signal handler now writes to a pipe which is waited for, too.
---
 src/unix/terminal.rs | 107 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 95 insertions(+), 12 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index a033aed..3f5e5b0 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -5,7 +5,7 @@ use std::mem::{replace, zeroed};
 use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::path::Path;
 use std::str::from_utf8;
-use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering};
 use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
 use std::time::Duration;
 
@@ -26,7 +26,7 @@ use nix::sys::termios::{
     SetArg, InputFlags, LocalFlags,
 };
 use nix::sys::time::{TimeVal, TimeValLike};
-use nix::unistd::{read, write};
+use nix::unistd::{close, pipe, read, write};
 
 use smallstr::SmallString;
 
@@ -323,6 +323,8 @@ impl<'a> TerminalReadGuard<'a> {
             config: PrepareConfig) -> io::Result<PrepareState> {
         use nix::sys::termios::SpecialCharacterIndices::*;
 
+        init_signal_pipe()?;
+
         let old_tio = tcgetattr(self.term.in_fd).map_err(nix_to_io)?;
         let mut tio = old_tio.clone();
 
@@ -468,29 +470,44 @@ impl<'a> TerminalReadGuard<'a> {
 
         let mut timeout = timeout.map(to_timeval);
 
-        let n = loop {
+        loop {
+            if get_signal().is_some() {
+                return Ok(true);
+            }
+
             let in_fd = self.term.in_fd;
+            let sig_fd = SIGNAL_READ_FD.load(Ordering::SeqCst);
 
             let mut r_fds = FdSet::new();
             r_fds.insert(in_fd);
 
+            // A signal may arrive before select begins to wait,
+            // or it may interrupt another thread.
+            if sig_fd != -1 {
+                r_fds.insert(sig_fd);
+            }
+
             // FIXME: FdSet does not implement Copy or Clone
             let mut e_fds = FdSet::new();
             e_fds.insert(in_fd);
 
-            match select(in_fd + 1,
+            match select(in_fd.max(sig_fd) + 1,
                     Some(&mut r_fds), None, Some(&mut e_fds), timeout.as_mut()) {
-                Ok(n) => break n,
-                Err(Errno::EINTR) =>
-                    if get_signal().is_some() {
+                Ok(0) => return Ok(false),
+                Ok(_) => {
+                    if r_fds.contains(in_fd) || e_fds.contains(in_fd) {
                         return Ok(true);
                     }
-                
+
+                    // If there is no signal, it has been taken already
+                    if get_signal().is_none() {
+                        clear_signal_pipe(sig_fd);
+                    }
+                }
+                Err(Errno::EINTR) => (),
                 Err(e) => return Err(nix_to_io(e))
             }
-        };
-
-        Ok(n != 0)
+        }
     }
 
     pub fn read_event(&mut self, timeout: Option<Duration>) -> io::Result<Option<Event>> {
@@ -1456,8 +1473,74 @@ fn invalid_utf8_len(buf: &[u8]) -> usize {
 /// Signals that have arrived and were not taken yet, one bit for each
 static SIGNALS: AtomicUsize = AtomicUsize::new(0);
 
+/// Pipe that is readable while there are signals to be taken
+static SIGNAL_READ_FD: AtomicI32 = AtomicI32::new(-1);
+static SIGNAL_WRITE_FD: AtomicI32 = AtomicI32::new(-1);
+
 extern "C" fn handle_signal(signum: c_int) {
-    SIGNALS.fetch_or(1 << signum, Ordering::SeqCst);
+    if SIGNALS.fetch_or(1 << signum, Ordering::SeqCst) == 0 {
+        wake_readers();
+    }
+}
+
+/// Makes the signal pipe readable. Called by the signal handler.
+fn wake_readers() {
+    // There is room for this in the pipe, as it is written to
+    // only when a signal arrives while none was there.
+    let _ = write(SIGNAL_WRITE_FD.load(Ordering::SeqCst), &[0]);
+}
+
+fn init_signal_pipe() -> io::Result<()> {
+    static LOCK: Mutex<()> = Mutex::new(());
+
+    let _guard = LOCK.lock();
+
+    if SIGNAL_READ_FD.load(Ordering::SeqCst) == -1 {
+        let (read_fd, write_fd) = pipe().map_err(nix_to_io)?;
+
+        let res = set_pipe_flags(read_fd).and_then(|_| set_pipe_flags(write_fd));
+
+        if let Err(e) = res {
+            let _ = close(read_fd);
+            let _ = close(write_fd);
+            return Err(e);
+        }
+
+        SIGNAL_WRITE_FD.store(write_fd, Ordering::SeqCst);
+        SIGNAL_READ_FD.store(read_fd, Ordering::SeqCst);
+    }
+
+    Ok(())
+}
+
+fn set_pipe_flags(fd: RawFd) -> io::Result<()> {
+    use libc::{fcntl, F_SETFD, F_SETFL, FD_CLOEXEC, FD_SETSIZE, O_NONBLOCK};
+
+    if fd >= FD_SETSIZE as RawFd {
+        // It cannot be used with select
+        Err(io::Error::from_raw_os_error(libc::EMFILE))
+    } else if unsafe { fcntl(fd, F_SETFD, FD_CLOEXEC) == -1 ||
+            fcntl(fd, F_SETFL, O_NONBLOCK) == -1 } {
+        Err(io::Error::last_os_error())
+    } else {
+        Ok(())
+    }
+}
+
+/// Empties the signal pipe after all signals have been taken.
+fn clear_signal_pipe(fd: RawFd) {
+    let mut buf = [0; 64];
+
+    while let Ok(n) = read(fd, &mut buf) {
+        if n < buf.len() {
+            break;
+        }
+    }
+
+    // A signal may have arrived just now
+    if get_signal().is_some() {
+        wake_readers();
+    }
 }
 
 fn conv_signal(sig: c_int) -> Option<Signal> {
-- 
2.43.0


From a4672d099e7587f4d65d560c63235d9cfc325998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 21/33] fix: honour timeouts to the full and of any length

Timeouts were cut to whole milliseconds, so that waiting ended too early,
did not count the time before an interruption on systems where select
leaves the timeout alone, and panicked for very long durations.
---
 src/unix/terminal.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 3f5e5b0..98c5369 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -7,7 +7,7 @@ use std::path::Path;
 use std::str::from_utf8;
 use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering};
 use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 use libc::{
     ioctl,
@@ -468,7 +468,8 @@ impl<'a> TerminalReadGuard<'a> {
             _ => return Ok(true)
         }
 
-        let mut timeout = timeout.map(to_timeval);
+        // A deadline too far in the future to be represented is never reached
+        let deadline = timeout.map(|t| Instant::now().checked_add(t));
 
         loop {
             if get_signal().is_some() {
@@ -481,6 +482,13 @@ impl<'a> TerminalReadGuard<'a> {
             let mut r_fds = FdSet::new();
             r_fds.insert(in_fd);
 
+            let mut timeout = match deadline {
+                Some(Some(deadline)) => Some(
+                    to_timeval(deadline.saturating_duration_since(Instant::now()))),
+                Some(None) => Some(to_timeval(Duration::from_secs(u64::max_value()))),
+                None => None
+            };
+
             // A signal may arrive before select begins to wait,
             // or it may interrupt another thread.
             if sig_fd != -1 {
@@ -493,7 +501,12 @@ impl<'a> TerminalReadGuard<'a> {
 
             match select(in_fd.max(sig_fd) + 1,
                     Some(&mut r_fds), None, Some(&mut e_fds), timeout.as_mut()) {
-                Ok(0) => return Ok(false),
+                Ok(0) => match deadline {
+                    // The longest time to wait at once may be shorter
+                    Some(Some(deadline)) if Instant::now() < deadline => (),
+                    Some(None) => (),
+                    _ => return Ok(false)
+                },
                 Ok(_) => {
                     if r_fds.contains(in_fd) || e_fds.contains(in_fd) {
                         return Ok(true);
@@ -1254,17 +1267,17 @@ fn ti_to_io(e: terminfo::Error) -> io::Error {
     }
 }
 
+/// Converts to a `TimeVal`, rounding up.
 fn to_timeval(d: Duration) -> TimeVal {
-    const MAX_SECS: i64 = i64::max_value() / 1_000;
-
-    let secs = match d.as_secs() {
-        n if n > MAX_SECS as u64 => MAX_SECS,
-        n => n as i64,
-    };
+    // Greater values are not accepted on all systems
+    const MAX_SECS: u64 = 100_000_000;
 
-    let millis = d.subsec_millis() as i64;
-
-    TimeVal::milliseconds(secs * 1_000 + millis)
+    if d.as_secs() >= MAX_SECS {
+        TimeVal::seconds(MAX_SECS as i64)
+    } else {
+        let micros = (d.subsec_nanos() as i64 + 999) / 1_000;
+        TimeVal::microseconds(d.as_secs() as i64 * 1_000_000 + micros)
+    }
 }
 
 fn peek_event(buf: &[u8], sequences: &SeqMap)
-- 
2.43.0


From 3be60b27cb829cfac1a155966dd161b2788d6193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 22/33] fix: keep terminal flags unknown to nix

---
 src/unix/terminal.rs | 65 +++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 98c5369..16e00a9 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -21,10 +21,6 @@ use nix::sys::signal::{
     sigaction,
     SaFlags, SigAction, SigHandler, Signal as NixSignal, SigSet,
 };
-use nix::sys::termios::{
-    tcgetattr, tcsetattr,
-    SetArg, InputFlags, LocalFlags,
-};
 use nix::sys::time::{TimeVal, TimeValLike};
 use nix::unistd::{close, pipe, read, write};
 
@@ -321,15 +317,13 @@ impl<'a> TerminalReadGuard<'a> {
 
     pub fn prepare_with_lock(&mut self, writer: &mut TerminalWriteGuard,
             config: PrepareConfig) -> io::Result<PrepareState> {
-        use nix::sys::termios::SpecialCharacterIndices::*;
-
         init_signal_pipe()?;
 
-        let old_tio = tcgetattr(self.term.in_fd).map_err(nix_to_io)?;
-        let mut tio = old_tio.clone();
+        let old_tio = get_attr(self.term.in_fd)?;
+        let mut tio = old_tio;
 
         let mut state = PrepareState{
-            old_tio: old_tio.into(),
+            old_tio,
             old_sigcont: None,
             old_sigint: None,
             old_sigtstp: None,
@@ -340,40 +334,36 @@ impl<'a> TerminalReadGuard<'a> {
             prev_resume: self.reader.resume,
         };
 
-        tio.input_flags.remove(
-            // Disable carriage return/line feed conversion
-            InputFlags::INLCR | InputFlags::ICRNL
-        );
+        // Disable carriage return/line feed conversion
+        tio.c_iflag &= !(libc::INLCR | libc::ICRNL);
 
-        tio.local_flags.remove(
-            // Disable canonical mode;
-            // this gives us input without waiting for newline or EOF
-            // and disables line-editing, treating such inputs as characters.
-            // Disable ECHO, preventing input from being written to output.
-            LocalFlags::ICANON | LocalFlags::ECHO
-        );
+        // Disable canonical mode;
+        // this gives us input without waiting for newline or EOF
+        // and disables line-editing, treating such inputs as characters.
+        // Disable ECHO, preventing input from being written to output.
+        tio.c_lflag &= !(libc::ICANON | libc::ECHO);
 
         // ISIG, when enabled, causes the process to receive signals when
         // Ctrl-C, Ctrl-\, etc. are input
         if config.block_signals {
-            tio.local_flags.remove(LocalFlags::ISIG);
+            tio.c_lflag &= !libc::ISIG;
         } else {
-            tio.local_flags.insert(LocalFlags::ISIG);
+            tio.c_lflag |= libc::ISIG;
         }
 
         // IXON, when enabled, allows Ctrl-S/Ctrl-Q to suspend and restart inputs
         if config.enable_control_flow {
-            tio.input_flags.insert(InputFlags::IXON);
+            tio.c_iflag |= libc::IXON;
         } else {
-            tio.input_flags.remove(InputFlags::IXON);
+            tio.c_iflag &= !libc::IXON;
         }
 
         // Allow a read to return with 0 characters ready
-        tio.control_chars[VMIN as usize] = 0;
+        tio.c_cc[libc::VMIN] = 0;
         // Allow a read to return after 0 deciseconds
-        tio.control_chars[VTIME as usize] = 0;
+        tio.c_cc[libc::VTIME] = 0;
 
-        tcsetattr(self.term.in_fd, SetArg::TCSANOW, &tio).map_err(nix_to_io)?;
+        set_attr(self.term.in_fd, &tio)?;
 
         if config.enable_mouse {
             if writer.enable_mouse(config.always_track_motion)? {
@@ -434,7 +424,7 @@ impl<'a> TerminalReadGuard<'a> {
 
         writer.flush()?;
 
-        tcsetattr(self.term.in_fd, SetArg::TCSANOW, &state.old_tio.into()).map_err(nix_to_io)?;
+        set_attr(self.term.in_fd, &state.old_tio)?;
 
         unsafe {
             if let Some(ref old) = state.old_sigcont {
@@ -1251,6 +1241,25 @@ fn get_winsize(fd: c_int) -> io::Result<Size> {
     }
 }
 
+// `nix::sys::termios` would lose any flag it does not know of
+fn get_attr(fd: RawFd) -> io::Result<termios> {
+    let mut tio: termios = unsafe { zeroed() };
+
+    if unsafe { libc::tcgetattr(fd, &mut tio) } == -1 {
+        Err(io::Error::last_os_error())
+    } else {
+        Ok(tio)
+    }
+}
+
+fn set_attr(fd: RawFd, tio: &termios) -> io::Result<()> {
+    if unsafe { libc::tcsetattr(fd, libc::TCSANOW, tio) } == -1 {
+        Err(io::Error::last_os_error())
+    } else {
+        Ok(())
+    }
+}
+
 fn nix_to_io(e: nix::Error) -> io::Error {
     io::Error::from_raw_os_error(e as i32)
 }
-- 
2.43.0


From ed3d634d9c55753366f341c207bcfa468b30aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 23/33] fix: return to the outer mouse and keypad modes on
 nested restore

---
 src/unix/terminal.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 16e00a9..99159d5 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -365,17 +365,9 @@ impl<'a> TerminalReadGuard<'a> {
 
         set_attr(self.term.in_fd, &tio)?;
 
-        if config.enable_mouse {
-            if writer.enable_mouse(config.always_track_motion)? {
-                state.restore_mouse = true;
-            }
-        }
-
-        if config.enable_keypad {
-            if writer.enable_keypad()? {
-                state.restore_keypad = true;
-            }
-        }
+        let (mouse, keypad) = writer.enable_modes(&config)?;
+        state.restore_mouse = mouse;
+        state.restore_keypad = keypad;
 
         writer.flush()?;
 
@@ -422,6 +414,11 @@ impl<'a> TerminalReadGuard<'a> {
             writer.disable_keypad()?;
         }
 
+        // The terminal is still prepared if this call to `prepare` was nested
+        if let Some(Resume{config}) = state.prev_resume {
+            writer.enable_modes(&config)?;
+        }
+
         writer.flush()?;
 
         set_attr(self.term.in_fd, &state.old_tio)?;
@@ -739,6 +736,16 @@ impl<'a> TerminalWriteGuard<'a> {
         get_winsize(self.term.out_fd)
     }
 
+    /// Enables mouse and keypad modes if requested.
+    /// Returns whether each of them has been enabled.
+    fn enable_modes(&mut self, config: &PrepareConfig) -> io::Result<(bool, bool)> {
+        let mouse = config.enable_mouse &&
+            self.enable_mouse(config.always_track_motion)?;
+        let keypad = config.enable_keypad && self.enable_keypad()?;
+
+        Ok((mouse, keypad))
+    }
+
     fn disable_keypad(&mut self) -> io::Result<()> {
         if let Some(local) = self.term.info.get::<cap::KeypadLocal>() {
             self.expand(local.expand())?;
-- 
2.43.0


From bce8449487cea55ba56f41f01cf6cc9fa0502ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 24/33] fix: undo what a failing prepare did, carry out every
 step of restore

---
 src/unix/screen.rs   |   2 +-
 src/unix/terminal.rs | 121 ++++++++++++++++++++++++-------------------
 2 files changed, 70 insertions(+), 53 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 199b880..1753535 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -137,7 +137,7 @@ impl Drop for Screen {
             Ok(())
         };
 
-        if let Err(e) = res.and_then(|_| self.term.exit_screen()) {
+        if let Err(e) = res.and(self.term.exit_screen()) {
             let _ = writeln!(io::stderr(), "failed to restore terminal: {}", e);
         }
     }
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 99159d5..9ea0e52 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -319,11 +319,8 @@ impl<'a> TerminalReadGuard<'a> {
             config: PrepareConfig) -> io::Result<PrepareState> {
         init_signal_pipe()?;
 
-        let old_tio = get_attr(self.term.in_fd)?;
-        let mut tio = old_tio;
-
         let mut state = PrepareState{
-            old_tio,
+            old_tio: get_attr(self.term.in_fd)?,
             old_sigcont: None,
             old_sigint: None,
             old_sigtstp: None,
@@ -334,6 +331,22 @@ impl<'a> TerminalReadGuard<'a> {
             prev_resume: self.reader.resume,
         };
 
+        if let Err(e) = self.apply_config(writer, &config, &mut state) {
+            let _ = self.undo_config(writer, &state);
+            return Err(e);
+        }
+
+        self.reader.report_signals = config.report_signals;
+        self.reader.resume = Some(Resume{config});
+
+        Ok(state)
+    }
+
+    /// Applies a configuration, noting in `state` all that has to be undone.
+    fn apply_config(&mut self, writer: &mut TerminalWriteGuard,
+            config: &PrepareConfig, state: &mut PrepareState) -> io::Result<()> {
+        let mut tio = state.old_tio;
+
         // Disable carriage return/line feed conversion
         tio.c_iflag &= !(libc::INLCR | libc::ICRNL);
 
@@ -365,7 +378,7 @@ impl<'a> TerminalReadGuard<'a> {
 
         set_attr(self.term.in_fd, &tio)?;
 
-        let (mouse, keypad) = writer.enable_modes(&config)?;
+        let (mouse, keypad) = writer.enable_modes(config)?;
         state.restore_mouse = mouse;
         state.restore_keypad = keypad;
 
@@ -389,59 +402,59 @@ impl<'a> TerminalReadGuard<'a> {
             state.old_sigquit = Some(unsafe { sigaction(NixSignal::SIGQUIT, &action).map_err(nix_to_io)? });
         }
 
-        self.reader.report_signals = config.report_signals;
-        self.reader.resume = Some(Resume{config});
-
-        Ok(state)
-    }
-
-    pub fn restore(&mut self, state: PrepareState) -> io::Result<()> {
-        let mut writer = self.term.lock_writer();
-        self.restore_with_lock(&mut writer, state)
+        Ok(())
     }
 
-    pub fn restore_with_lock(&mut self, writer: &mut TerminalWriteGuard,
-            state: PrepareState) -> io::Result<()> {
-        self.reader.resume = state.prev_resume;
-        self.reader.report_signals = state.prev_resume
-            .map_or_else(SignalSet::new, |r| r.config.report_signals);
+    /// Undoes all that is noted in `state`.
+    /// If any step fails, the others are carried out nevertheless.
+    fn undo_config(&mut self, writer: &mut TerminalWriteGuard,
+            state: &PrepareState) -> io::Result<()> {
+        let mut res = Ok(());
 
         if state.restore_mouse {
-            writer.disable_mouse()?;
+            writer.disable_mouse();
         }
 
         if state.restore_keypad {
-            writer.disable_keypad()?;
+            res = res.and(writer.disable_keypad());
         }
 
         // The terminal is still prepared if this call to `prepare` was nested
         if let Some(Resume{config}) = state.prev_resume {
-            writer.enable_modes(&config)?;
+            res = res.and(writer.enable_modes(&config).map(|_| ()));
+        }
+
+        res = res.and(writer.flush());
+        res = res.and(set_attr(self.term.in_fd, &state.old_tio));
+
+        for &(sig, ref old) in &[
+            (NixSignal::SIGCONT, state.old_sigcont),
+            (NixSignal::SIGINT, state.old_sigint),
+            (NixSignal::SIGTSTP, state.old_sigtstp),
+            (NixSignal::SIGQUIT, state.old_sigquit),
+            (NixSignal::SIGWINCH, state.old_sigwinch),
+        ] {
+            if let Some(ref old) = *old {
+                let r = unsafe { sigaction(sig, old) };
+                res = res.and(r.map(|_| ()).map_err(nix_to_io));
+            }
         }
 
-        writer.flush()?;
+        res
+    }
 
-        set_attr(self.term.in_fd, &state.old_tio)?;
+    pub fn restore(&mut self, state: PrepareState) -> io::Result<()> {
+        let mut writer = self.term.lock_writer();
+        self.restore_with_lock(&mut writer, state)
+    }
 
-        unsafe {
-            if let Some(ref old) = state.old_sigcont {
-                sigaction(NixSignal::SIGCONT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigint {
-                sigaction(NixSignal::SIGINT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigtstp {
-                sigaction(NixSignal::SIGTSTP, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigquit {
-                sigaction(NixSignal::SIGQUIT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigwinch {
-                sigaction(NixSignal::SIGWINCH, old).map_err(nix_to_io)?;
-            }
-        }
+    pub fn restore_with_lock(&mut self, writer: &mut TerminalWriteGuard,
+            state: PrepareState) -> io::Result<()> {
+        self.reader.resume = state.prev_resume;
+        self.reader.report_signals = state.prev_resume
+            .map_or_else(SignalSet::new, |r| r.config.report_signals);
 
-        Ok(())
+        self.undo_config(writer, &state)
     }
 
     pub fn wait_event(&mut self, timeout: Option<Duration>) -> io::Result<bool> {
@@ -739,9 +752,9 @@ impl<'a> TerminalWriteGuard<'a> {
     /// Enables mouse and keypad modes if requested.
     /// Returns whether each of them has been enabled.
     fn enable_modes(&mut self, config: &PrepareConfig) -> io::Result<(bool, bool)> {
-        let mouse = config.enable_mouse &&
-            self.enable_mouse(config.always_track_motion)?;
         let keypad = config.enable_keypad && self.enable_keypad()?;
+        let mouse = config.enable_mouse &&
+            self.enable_mouse(config.always_track_motion);
 
         Ok((mouse, keypad))
     }
@@ -762,20 +775,24 @@ impl<'a> TerminalWriteGuard<'a> {
         }
     }
 
-    fn disable_mouse(&mut self) -> io::Result<()> {
-        self.write_bytes(XTERM_DISABLE_MOUSE.as_bytes())?;
-        self.write_bytes(XTERM_DISABLE_MOUSE_MOTION.as_bytes())
+    // Like `expand`, these queue output without sending any
+
+    fn disable_mouse(&mut self) {
+        let buf = &mut self.writer.out_buffer;
+        buf.extend(XTERM_DISABLE_MOUSE.as_bytes());
+        buf.extend(XTERM_DISABLE_MOUSE_MOTION.as_bytes());
     }
 
-    fn enable_mouse(&mut self, track_motion: bool) -> io::Result<bool> {
+    fn enable_mouse(&mut self, track_motion: bool) -> bool {
         if self.term.is_xterm() {
-            self.write_bytes(XTERM_ENABLE_MOUSE.as_bytes())?;
+            let buf = &mut self.writer.out_buffer;
+            buf.extend(XTERM_ENABLE_MOUSE.as_bytes());
             if track_motion {
-                self.write_bytes(XTERM_ENABLE_MOUSE_MOTION.as_bytes())?;
+                buf.extend(XTERM_ENABLE_MOUSE_MOTION.as_bytes());
             }
-            Ok(true)
+            true
         } else {
-            Ok(false)
+            false
         }
     }
 
-- 
2.43.0


From f1da3fb6e22b3a849dcb5f108a85850a0e42a085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 25/33] fix: restore the terminal even after a panic in another
 thread

---
 src/unix/screen.rs   |  8 ++++++--
 src/unix/terminal.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 1753535..ac8a351 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -131,13 +131,17 @@ impl Screen {
 
 impl Drop for Screen {
     fn drop(&mut self) {
+        // A panic in another thread is no reason not to restore the terminal
+        let mut reader = self.term.lock_read().unwrap_or_else(|e| e.into_inner());
+        let mut writer = self.term.lock_write().unwrap_or_else(|e| e.into_inner());
+
         let res = if let Some(state) = self.state.take() {
-            self.term.restore(state)
+            reader.restore_with_lock(&mut writer, state)
         } else {
             Ok(())
         };
 
-        if let Err(e) = res.and(self.term.exit_screen()) {
+        if let Err(e) = res.and(writer.exit_screen()) {
             let _ = writeln!(io::stderr(), "failed to restore terminal: {}", e);
         }
     }
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 9ea0e52..370a842 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -162,10 +162,6 @@ impl Terminal {
         self.lock_writer().enter_screen()
     }
 
-    pub fn exit_screen(&self) -> io::Result<()> {
-        self.lock_writer().exit_screen()
-    }
-
     pub fn prepare(&self, config: PrepareConfig) -> io::Result<PrepareState> {
         self.lock_reader().prepare(config)
     }
@@ -295,7 +291,11 @@ impl Terminal {
 
 impl Drop for Terminal {
     fn drop(&mut self) {
-        if let Err(e) = self.set_cursor_mode(CursorMode::Normal) {
+        // A panic in another thread is no reason to leave the cursor invisible
+        let res = self.lock_write().unwrap_or_else(|e| e.into_inner())
+            .set_cursor_mode(CursorMode::Normal);
+
+        if let Err(e) = res {
             let _ = writeln!(io::stderr(), "failed to restore terminal: {}", e);
         }
 
@@ -821,7 +821,7 @@ impl<'a> TerminalWriteGuard<'a> {
         Ok(())
     }
 
-    fn exit_screen(&mut self) -> io::Result<()> {
+    pub fn exit_screen(&mut self) -> io::Result<()> {
         if let Some(exit) = self.term.info.get::<cap::ExitCaMode>() {
             self.expand(exit.expand())?;
             self.flush()?;
-- 
2.43.0


From f248b284aed73f60ea6b9dc18b82757d6a49eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 26/33] fix: get the size of a resized terminal without the
 write lock

---
 src/unix/terminal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 370a842..5ab8ec5 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -685,7 +685,8 @@ impl<'a> TerminalReadGuard<'a> {
                 self.resume()?;
             }
             Signal::Resize => {
-                let size = self.term.size()?;
+                // The write lock may be held, even by this thread
+                let size = get_winsize(self.term.out_fd)?;
                 return Ok(Some(Event::Resize(size)));
             }
             _ => ()
-- 
2.43.0


From 83a8ea9d5193eec5c38a95a3723674f3d83bf716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 27/33] fix: report a resize even if the screen is locked for
 writing

---
 src/unix/screen.rs | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index ac8a351..6ee2c76 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -15,6 +15,9 @@ pub struct Screen {
 
     state: Option<PrepareState>,
     writer: Mutex<Writer>,
+    /// New size that has not been applied yet.
+    /// This is never locked for longer than it takes to access it.
+    new_size: Mutex<Option<Size>>,
 }
 
 pub struct ScreenReadGuard<'a> {
@@ -23,6 +26,7 @@ pub struct ScreenReadGuard<'a> {
 }
 
 pub struct ScreenWriteGuard<'a> {
+    screen: &'a Screen,
     writer: TerminalWriteGuard<'a>,
     data: MutexGuard<'a, Writer>,
 }
@@ -55,6 +59,7 @@ impl Screen {
                 clear_screen: false,
                 real_cursor: Cursor::default(),
             }),
+            new_size: Mutex::new(None),
         };
 
         screen.term.enter_screen()?;
@@ -84,12 +89,12 @@ impl Screen {
 
     pub fn lock_write(&self) -> LockResult<ScreenWriteGuard> {
         map2_lock_result(self.term.lock_write(), self.writer.lock(),
-            |a, b| ScreenWriteGuard::new(a, b))
+            |a, b| ScreenWriteGuard::new(self, a, b))
     }
 
     pub fn try_lock_write(&self) -> TryLockResult<ScreenWriteGuard> {
         map2_try_lock_result(self.term.try_lock_write(), self.writer.try_lock(),
-            |a, b| ScreenWriteGuard::new(a, b))
+            |a, b| ScreenWriteGuard::new(self, a, b))
     }
 
     fn lock_reader(&self) -> ScreenReadGuard {
@@ -101,7 +106,29 @@ impl Screen {
     }
 
     fn lock_write_data(&self) -> MutexGuard<Writer> {
-        self.writer.lock().expect("Screen::lock_write_data")
+        let mut data = self.writer.lock().expect("Screen::lock_write_data");
+        self.apply_new_size(&mut data);
+        data
+    }
+
+    /// Sets the size of the buffer. If it is locked, perhaps by this thread,
+    /// the size is changed when it is next refreshed or locked.
+    fn update_size(&self, size: Size) {
+        *self.lock_new_size() = Some(size);
+
+        if let Ok(mut data) = self.writer.try_lock() {
+            self.apply_new_size(&mut data);
+        }
+    }
+
+    fn apply_new_size(&self, data: &mut Writer) {
+        if let Some(size) = self.lock_new_size().take() {
+            data.update_size(size);
+        }
+    }
+
+    fn lock_new_size(&self) -> MutexGuard<Option<Size>> {
+        self.new_size.lock().unwrap_or_else(|e| e.into_inner())
     }
 
     pub fn name(&self) -> &str {
@@ -160,7 +187,7 @@ impl<'a> ScreenReadGuard<'a> {
         let r = self.reader.read_event(timeout)?;
 
         if let Some(Event::Resize(size)) = r {
-            self.screen.lock_write_data().update_size(size);
+            self.screen.update_size(size);
         }
 
         Ok(r)
@@ -170,7 +197,7 @@ impl<'a> ScreenReadGuard<'a> {
         let r = self.reader.read_raw(buf, timeout)?;
 
         if let Some(Event::Resize(size)) = r {
-            self.screen.lock_write_data().update_size(size);
+            self.screen.update_size(size);
         }
 
         Ok(r)
@@ -178,9 +205,10 @@ impl<'a> ScreenReadGuard<'a> {
 }
 
 impl<'a> ScreenWriteGuard<'a> {
-    fn new(writer: TerminalWriteGuard<'a>, data: MutexGuard<'a, Writer>)
-            -> ScreenWriteGuard<'a> {
-        ScreenWriteGuard{writer, data}
+    fn new(screen: &'a Screen, writer: TerminalWriteGuard<'a>,
+            mut data: MutexGuard<'a, Writer>) -> ScreenWriteGuard<'a> {
+        screen.apply_new_size(&mut data);
+        ScreenWriteGuard{screen, writer, data}
     }
 
     forward_screen_buffer_mut_methods!{ |slf| slf.data.buffer }
@@ -190,6 +218,8 @@ impl<'a> ScreenWriteGuard<'a> {
     }
 
     pub fn refresh(&mut self) -> io::Result<()> {
+        self.screen.apply_new_size(&mut self.data);
+
         let res = self.draw();
 
         if res.is_err() {
-- 
2.43.0


From b7eaef88c6e1cd33485049e016703c597a4f606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 28/33] fix: re-apply modes of a continued program without
 waiting for the write lock

---
 src/unix/terminal.rs | 103 +++++++++++++++++++++++++++++++++----------
 1 file changed, 80 insertions(+), 23 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 5ab8ec5..9985e43 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -6,7 +6,7 @@ use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::path::Path;
 use std::str::from_utf8;
 use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering};
-use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
+use std::sync::{LockResult, Mutex, MutexGuard, TryLockError, TryLockResult};
 use std::time::{Duration, Instant};
 
 use libc::{
@@ -68,6 +68,9 @@ pub struct Terminal {
     sequences: SeqMap,
     reader: Mutex<Reader>,
     writer: Mutex<Writer>,
+    /// Configuration whose keypad and mouse modes are to be enabled again.
+    /// This is never locked for longer than it takes to access it.
+    resume_modes: Mutex<Option<PrepareConfig>>,
 }
 
 pub struct TerminalReadGuard<'a> {
@@ -78,8 +81,14 @@ pub struct TerminalReadGuard<'a> {
 pub struct TerminalWriteGuard<'a> {
     term: &'a Terminal,
     writer: MutexGuard<'a, Writer>,
+    // Must be dropped after `writer`
+    _resume: ResumeOnUnlock<'a>,
 }
 
+/// Enables modes that are to be enabled again,
+/// if the write lock was held when that was found out.
+struct ResumeOnUnlock<'a>(&'a Terminal);
+
 struct Reader {
     in_buffer: Vec<u8>,
     resume: Option<Resume>,
@@ -111,6 +120,7 @@ impl Terminal {
                 report_signals: SignalSet::new(),
             }),
             writer: Mutex::new(Writer::new()),
+            resume_modes: Mutex::new(None),
         })
     }
 
@@ -287,6 +297,10 @@ impl Terminal {
     fn lock_writer(&self) -> TerminalWriteGuard {
         self.lock_write().expect("Terminal::lock_writer")
     }
+
+    fn lock_resume_modes(&self) -> MutexGuard<Option<PrepareConfig>> {
+        self.resume_modes.lock().unwrap_or_else(|e| e.into_inner())
+    }
 }
 
 impl Drop for Terminal {
@@ -319,17 +333,7 @@ impl<'a> TerminalReadGuard<'a> {
             config: PrepareConfig) -> io::Result<PrepareState> {
         init_signal_pipe()?;
 
-        let mut state = PrepareState{
-            old_tio: get_attr(self.term.in_fd)?,
-            old_sigcont: None,
-            old_sigint: None,
-            old_sigtstp: None,
-            old_sigquit: None,
-            old_sigwinch: None,
-            restore_keypad: false,
-            restore_mouse: false,
-            prev_resume: self.reader.resume,
-        };
+        let mut state = self.current_state()?;
 
         if let Err(e) = self.apply_config(writer, &config, &mut state) {
             let _ = self.undo_config(writer, &state);
@@ -342,11 +346,38 @@ impl<'a> TerminalReadGuard<'a> {
         Ok(state)
     }
 
+    fn current_state(&self) -> io::Result<PrepareState> {
+        Ok(PrepareState{
+            old_tio: get_attr(self.term.in_fd)?,
+            old_sigcont: None,
+            old_sigint: None,
+            old_sigtstp: None,
+            old_sigquit: None,
+            old_sigwinch: None,
+            restore_keypad: false,
+            restore_mouse: false,
+            prev_resume: self.reader.resume,
+        })
+    }
+
     /// Applies a configuration, noting in `state` all that has to be undone.
     fn apply_config(&mut self, writer: &mut TerminalWriteGuard,
             config: &PrepareConfig, state: &mut PrepareState) -> io::Result<()> {
-        let mut tio = state.old_tio;
+        // Modes are enabled here
+        *self.term.lock_resume_modes() = None;
+
+        self.apply_settings(config, state.old_tio)?;
+
+        let (mouse, keypad) = writer.enable_modes(config)?;
+        state.restore_mouse = mouse;
+        state.restore_keypad = keypad;
+
+        writer.flush()?;
+
+        self.apply_handlers(config, state)
+    }
 
+    fn apply_settings(&self, config: &PrepareConfig, mut tio: termios) -> io::Result<()> {
         // Disable carriage return/line feed conversion
         tio.c_iflag &= !(libc::INLCR | libc::ICRNL);
 
@@ -376,14 +407,10 @@ impl<'a> TerminalReadGuard<'a> {
         // Allow a read to return after 0 deciseconds
         tio.c_cc[libc::VTIME] = 0;
 
-        set_attr(self.term.in_fd, &tio)?;
-
-        let (mouse, keypad) = writer.enable_modes(config)?;
-        state.restore_mouse = mouse;
-        state.restore_keypad = keypad;
-
-        writer.flush()?;
+        set_attr(self.term.in_fd, &tio)
+    }
 
+    fn apply_handlers(&self, config: &PrepareConfig, state: &mut PrepareState) -> io::Result<()> {
         let action = SigAction::new(SigHandler::Handler(handle_signal),
             SaFlags::empty(), SigSet::all());
 
@@ -411,6 +438,8 @@ impl<'a> TerminalReadGuard<'a> {
             state: &PrepareState) -> io::Result<()> {
         let mut res = Ok(());
 
+        *self.term.lock_resume_modes() = None;
+
         if state.restore_mouse {
             writer.disable_mouse();
         }
@@ -700,8 +729,21 @@ impl<'a> TerminalReadGuard<'a> {
     }
 
     fn resume(&mut self) -> io::Result<()> {
-        if let Some(resume) = self.reader.resume {
-            let _ = self.prepare(resume.config)?;
+        if let Some(Resume{config}) = self.reader.resume {
+            let mut state = self.current_state()?;
+
+            self.apply_settings(&config, state.old_tio)?;
+            self.apply_handlers(&config, &mut state)?;
+
+            *self.term.lock_resume_modes() = Some(config);
+
+            // If the lock is held, perhaps by this thread,
+            // the modes are enabled when it is released, if not earlier.
+            match self.term.try_lock_write() {
+                Ok(mut writer) => writer.flush()?,
+                Err(TryLockError::Poisoned(e)) => e.into_inner().flush()?,
+                Err(TryLockError::WouldBlock) => ()
+            }
         }
         Ok(())
     }
@@ -743,7 +785,7 @@ macro_rules! expand_req {
 
 impl<'a> TerminalWriteGuard<'a> {
     fn new(term: &'a Terminal, writer: MutexGuard<'a, Writer>) -> TerminalWriteGuard<'a> {
-        TerminalWriteGuard{term, writer}
+        TerminalWriteGuard{term, writer, _resume: ResumeOnUnlock(term)}
     }
 
     pub fn size(&self) -> io::Result<Size> {
@@ -1106,6 +1148,12 @@ impl<'a> TerminalWriteGuard<'a> {
     }
 
     pub fn flush(&mut self) -> io::Result<()> {
+        let resume = self.term.lock_resume_modes().take();
+
+        if let Some(config) = resume {
+            self.enable_modes(&config)?;
+        }
+
         let (n, res) = self.write_data(&self.writer.out_buffer);
         self.writer.out_buffer.drain(..n);
         res
@@ -1147,6 +1195,15 @@ impl<'a> Drop for TerminalWriteGuard<'a> {
     }
 }
 
+impl<'a> Drop for ResumeOnUnlock<'a> {
+    fn drop(&mut self) {
+        if self.0.lock_resume_modes().is_some() {
+            // If the lock is held again, its next release does the same
+            let _ = self.0.try_lock_write();
+        }
+    }
+}
+
 impl Writer {
     fn new() -> Writer {
         Writer{
-- 
2.43.0


From 4df825734bde2cf6472dd1ae10761b96aa8f57a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 29/33] fix: set exactly the keypad and mouse modes of nested
 configurations

---
 src/unix/terminal.rs | 99 ++++++++++++++++++++++----------------------
 1 file changed, 50 insertions(+), 49 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 9985e43..6512734 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -101,6 +101,10 @@ struct Writer {
     fg: Option<Color>,
     bg: Option<Color>,
     cur_style: Style,
+    // Modes enabled by `prepare`
+    keypad: bool,
+    mouse: bool,
+    mouse_motion: bool,
 }
 
 impl Terminal {
@@ -354,8 +358,6 @@ impl<'a> TerminalReadGuard<'a> {
             old_sigtstp: None,
             old_sigquit: None,
             old_sigwinch: None,
-            restore_keypad: false,
-            restore_mouse: false,
             prev_resume: self.reader.resume,
         })
     }
@@ -363,15 +365,12 @@ impl<'a> TerminalReadGuard<'a> {
     /// Applies a configuration, noting in `state` all that has to be undone.
     fn apply_config(&mut self, writer: &mut TerminalWriteGuard,
             config: &PrepareConfig, state: &mut PrepareState) -> io::Result<()> {
-        // Modes are enabled here
+        // Modes are set here
         *self.term.lock_resume_modes() = None;
 
         self.apply_settings(config, state.old_tio)?;
 
-        let (mouse, keypad) = writer.enable_modes(config)?;
-        state.restore_mouse = mouse;
-        state.restore_keypad = keypad;
-
+        writer.set_modes(Some(config))?;
         writer.flush()?;
 
         self.apply_handlers(config, state)
@@ -436,22 +435,11 @@ impl<'a> TerminalReadGuard<'a> {
     /// If any step fails, the others are carried out nevertheless.
     fn undo_config(&mut self, writer: &mut TerminalWriteGuard,
             state: &PrepareState) -> io::Result<()> {
-        let mut res = Ok(());
-
         *self.term.lock_resume_modes() = None;
 
-        if state.restore_mouse {
-            writer.disable_mouse();
-        }
-
-        if state.restore_keypad {
-            res = res.and(writer.disable_keypad());
-        }
-
         // The terminal is still prepared if this call to `prepare` was nested
-        if let Some(Resume{config}) = state.prev_resume {
-            res = res.and(writer.enable_modes(&config).map(|_| ()));
-        }
+        let mut res = writer.set_modes(
+            state.prev_resume.as_ref().map(|r| &r.config));
 
         res = res.and(writer.flush());
         res = res.and(set_attr(self.term.in_fd, &state.old_tio));
@@ -792,51 +780,63 @@ impl<'a> TerminalWriteGuard<'a> {
         get_winsize(self.term.out_fd)
     }
 
-    /// Enables mouse and keypad modes if requested.
-    /// Returns whether each of them has been enabled.
-    fn enable_modes(&mut self, config: &PrepareConfig) -> io::Result<(bool, bool)> {
-        let keypad = config.enable_keypad && self.enable_keypad()?;
-        let mouse = config.enable_mouse &&
-            self.enable_mouse(config.always_track_motion);
+    /// Sets keypad and mouse modes to those of the configuration,
+    /// if there is any. Like `expand`, this does not send output.
+    fn set_modes(&mut self, config: Option<&PrepareConfig>) -> io::Result<()> {
+        let keypad = config.map_or(false, |c| c.enable_keypad);
+        let mouse = config.map_or(false, |c| c.enable_mouse);
+        let motion = config.map_or(false, |c| c.always_track_motion);
 
-        Ok((mouse, keypad))
+        if mouse && self.term.is_xterm() {
+            self.enable_mouse(motion);
+        } else if self.writer.mouse {
+            self.disable_mouse();
+        }
+
+        if keypad {
+            self.enable_keypad()
+        } else if self.writer.keypad {
+            self.disable_keypad()
+        } else {
+            Ok(())
+        }
     }
 
     fn disable_keypad(&mut self) -> io::Result<()> {
         if let Some(local) = self.term.info.get::<cap::KeypadLocal>() {
             self.expand(local.expand())?;
         }
+        self.writer.keypad = false;
         Ok(())
     }
 
-    fn enable_keypad(&mut self) -> io::Result<bool> {
+    fn enable_keypad(&mut self) -> io::Result<()> {
         if let Some(xmit) = self.term.info.get::<cap::KeypadXmit>() {
             self.expand(xmit.expand())?;
-            Ok(true)
-        } else {
-            Ok(false)
+            self.writer.keypad = true;
         }
+        Ok(())
     }
 
-    // Like `expand`, these queue output without sending any
-
     fn disable_mouse(&mut self) {
-        let buf = &mut self.writer.out_buffer;
-        buf.extend(XTERM_DISABLE_MOUSE.as_bytes());
-        buf.extend(XTERM_DISABLE_MOUSE_MOTION.as_bytes());
+        let writer = &mut *self.writer;
+        writer.out_buffer.extend(XTERM_DISABLE_MOUSE.as_bytes());
+        writer.out_buffer.extend(XTERM_DISABLE_MOUSE_MOTION.as_bytes());
+        writer.mouse = false;
+        writer.mouse_motion = false;
     }
 
-    fn enable_mouse(&mut self, track_motion: bool) -> bool {
-        if self.term.is_xterm() {
-            let buf = &mut self.writer.out_buffer;
-            buf.extend(XTERM_ENABLE_MOUSE.as_bytes());
-            if track_motion {
-                buf.extend(XTERM_ENABLE_MOUSE_MOTION.as_bytes());
-            }
-            true
-        } else {
-            false
+    fn enable_mouse(&mut self, track_motion: bool) {
+        let writer = &mut *self.writer;
+        if writer.mouse_motion && !track_motion {
+            writer.out_buffer.extend(XTERM_DISABLE_MOUSE_MOTION.as_bytes());
+        }
+        writer.out_buffer.extend(XTERM_ENABLE_MOUSE.as_bytes());
+        if track_motion {
+            writer.out_buffer.extend(XTERM_ENABLE_MOUSE_MOTION.as_bytes());
         }
+        writer.mouse = true;
+        writer.mouse_motion = track_motion;
     }
 
     fn enter_screen(&mut self) -> io::Result<()> {
@@ -1151,7 +1151,7 @@ impl<'a> TerminalWriteGuard<'a> {
         let resume = self.term.lock_resume_modes().take();
 
         if let Some(config) = resume {
-            self.enable_modes(&config)?;
+            self.set_modes(Some(&config))?;
         }
 
         let (n, res) = self.write_data(&self.writer.out_buffer);
@@ -1212,6 +1212,9 @@ impl Writer {
             fg: None,
             bg: None,
             cur_style: Style::empty(),
+            keypad: false,
+            mouse: false,
+            mouse_motion: false,
         }
     }
 }
@@ -1271,8 +1274,6 @@ pub struct PrepareState {
     old_sigtstp: Option<SigAction>,
     old_sigquit: Option<SigAction>,
     old_sigwinch: Option<SigAction>,
-    restore_keypad: bool,
-    restore_mouse: bool,
     prev_resume: Option<Resume>,
 }
 
-- 
2.43.0


From f205bc8c07f2091de9c01e7fac89fadd9e54b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 30/33] fix: apply every size reported while the screen was
 locked

---
 src/unix/screen.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 6ee2c76..bda0110 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -15,9 +15,9 @@ pub struct Screen {
 
     state: Option<PrepareState>,
     writer: Mutex<Writer>,
-    /// New size that has not been applied yet.
+    /// New sizes that have not been applied yet.
     /// This is never locked for longer than it takes to access it.
-    new_size: Mutex<Option<Size>>,
+    new_sizes: Mutex<Vec<Size>>,
 }
 
 pub struct ScreenReadGuard<'a> {
@@ -59,7 +59,7 @@ impl Screen {
                 clear_screen: false,
                 real_cursor: Cursor::default(),
             }),
-            new_size: Mutex::new(None),
+            new_sizes: Mutex::new(Vec::new()),
         };
 
         screen.term.enter_screen()?;
@@ -107,28 +107,28 @@ impl Screen {
 
     fn lock_write_data(&self) -> MutexGuard<Writer> {
         let mut data = self.writer.lock().expect("Screen::lock_write_data");
-        self.apply_new_size(&mut data);
+        self.apply_new_sizes(&mut data);
         data
     }
 
     /// Sets the size of the buffer. If it is locked, perhaps by this thread,
     /// the size is changed when it is next refreshed or locked.
     fn update_size(&self, size: Size) {
-        *self.lock_new_size() = Some(size);
+        self.lock_new_sizes().push(size);
 
         if let Ok(mut data) = self.writer.try_lock() {
-            self.apply_new_size(&mut data);
+            self.apply_new_sizes(&mut data);
         }
     }
 
-    fn apply_new_size(&self, data: &mut Writer) {
-        if let Some(size) = self.lock_new_size().take() {
+    fn apply_new_sizes(&self, data: &mut Writer) {
+        for size in self.lock_new_sizes().drain(..) {
             data.update_size(size);
         }
     }
 
-    fn lock_new_size(&self) -> MutexGuard<Option<Size>> {
-        self.new_size.lock().unwrap_or_else(|e| e.into_inner())
+    fn lock_new_sizes(&self) -> MutexGuard<Vec<Size>> {
+        self.new_sizes.lock().unwrap_or_else(|e| e.into_inner())
     }
 
     pub fn name(&self) -> &str {
@@ -207,7 +207,7 @@ impl<'a> ScreenReadGuard<'a> {
 impl<'a> ScreenWriteGuard<'a> {
     fn new(screen: &'a Screen, writer: TerminalWriteGuard<'a>,
             mut data: MutexGuard<'a, Writer>) -> ScreenWriteGuard<'a> {
-        screen.apply_new_size(&mut data);
+        screen.apply_new_sizes(&mut data);
         ScreenWriteGuard{screen, writer, data}
     }
 
@@ -218,7 +218,7 @@ impl<'a> ScreenWriteGuard<'a> {
     }
 
     pub fn refresh(&mut self) -> io::Result<()> {
-        self.screen.apply_new_size(&mut self.data);
+        self.screen.apply_new_sizes(&mut self.data);
 
         let res = self.draw();
 
-- 
2.43.0


From ce4efa91e5938d5985b7681c812b8249bb4dc943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 31/33] fix: reset attributes left by a failed refresh when
 leaving the screen

---
 src/unix/screen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index bda0110..b6e04fb 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -168,6 +168,9 @@ impl Drop for Screen {
             Ok(())
         };
 
+        // A failed refresh may have left some attributes set
+        let res = res.and(writer.clear_attributes());
+
         if let Err(e) = res.and(writer.exit_screen()) {
             let _ = writeln!(io::stderr(), "failed to restore terminal: {}", e);
         }
-- 
2.43.0


From bca0cee0e12b2b7f9dfa4b310dcb7c71a94179ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:40 +0000
Subject: [PATCH 32/33] fix: Do not exit a screen that was not entered

If the size of the terminal cannot be determined when a Screen is created,
the screen is not entered. Exiting it nevertheless erased the display on
terminals whose exit sequence begins by clearing the screen.
---
 src/unix/terminal.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 6512734..5fdea78 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -105,6 +105,8 @@ struct Writer {
     keypad: bool,
     mouse: bool,
     mouse_motion: bool,
+    // Whether exiting the screen is due
+    in_screen: bool,
 }
 
 impl Terminal {
@@ -846,6 +848,8 @@ impl<'a> TerminalWriteGuard<'a> {
             (enter, Some(scroll), Some(home)) => {
                 let size = self.size()?;
 
+                self.writer.in_screen = true;
+
                 if let Some(enter) = enter {
                     self.expand(enter.expand())?;
                 }
@@ -865,6 +869,13 @@ impl<'a> TerminalWriteGuard<'a> {
     }
 
     pub fn exit_screen(&mut self) -> io::Result<()> {
+        // Exiting a screen that was not entered may erase the display
+        if !self.writer.in_screen {
+            return Ok(());
+        }
+
+        self.writer.in_screen = false;
+
         if let Some(exit) = self.term.info.get::<cap::ExitCaMode>() {
             self.expand(exit.expand())?;
             self.flush()?;
@@ -1215,6 +1226,7 @@ impl Writer {
             keypad: false,
             mouse: false,
             mouse_motion: false,
+            in_screen: false,
         }
     }
 }
-- 
2.43.0


From 87523e4ac4c73ab2df9c753486fda14bb057d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:19 +0000
Subject: [PATCH 33/33] fix: Clear the attributes of styled text that could not
 be written

---
 src/unix/terminal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 5fdea78..6c7c7b0 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1141,8 +1141,9 @@ impl<'a> TerminalWriteGuard<'a> {
             -> io::Result<()> {
         self.set_attrs(fg, bg, style)?;
 
-        self.write_str(text)?;
-        self.clear_attributes()
+        // No attribute remains, even if the text could not be written
+        let res = self.write_str(text);
+        res.and(self.clear_attributes())
     }
 
     fn write_bytes(&mut self, buf: &[u8]) -> io::Result<()> {
-- 
2.43.0

