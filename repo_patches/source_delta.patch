From eb2c00dd110a46f9cf77a1f96366b4b1efc03036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 01/26] fix: do not overflow when checking addresses of @, !,
 move and the inner interpreter

---
 src/core.rs   | 18 ++++++++----------
 src/memory.rs |  5 +++++
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7b1c475..9407ad9 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -800,9 +800,7 @@ pub trait Core: Sized {
     #[inline(never)]
     fn run(&mut self) {
         let mut ip = self.state().instruction_pointer;
-        while self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
-        {
+        while self.data_space().has_range(ip, mem::size_of::<isize>()) {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
             self.execute_word(w);
@@ -815,9 +813,7 @@ pub trait Core: Sized {
     // Return true if there are more steps to execute, false if otherwise.
     fn forth(&mut self) -> bool {
         let mut ip = self.state().instruction_pointer;
-        if self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
-        {
+        if self.data_space().has_range(ip, mem::size_of::<isize>()) {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
             self.execute_word(w);
@@ -2780,7 +2776,8 @@ pub trait Core: Sized {
     /// `x` is the value stored at `a-addr`.
     fn fetch(&mut self) {
         let t = self.s_stack().pop() as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
+        if self.data_space().start() < t
+            && self.data_space().has_range(t, mem::size_of::<isize>())
         {
             let value = unsafe { self.data_space().get_isize(t as usize) as isize };
             self.s_stack().push(value);
@@ -2795,7 +2792,8 @@ pub trait Core: Sized {
     fn store(&mut self) {
         let (n, t) = self.s_stack().pop2();
         let t = t as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
+        if self.data_space().start() < t
+            && self.data_space().has_range(t, mem::size_of::<isize>())
         {
             unsafe { self.data_space().put_isize(n as isize, t as usize) };
         } else {
@@ -2846,9 +2844,9 @@ pub trait Core: Sized {
             let addr1 = addr1 as usize;
             let addr2 = addr2 as usize;
             if self.data_space().start() < addr1
-                && addr1 + u <= self.data_space().limit()
+                && self.data_space().has_range(addr1, u)
                 && self.data_space().start() < addr2
-                && addr2 + u <= self.data_space().limit()
+                && self.data_space().has_range(addr2, u)
             {
                 unsafe {
                     if addr1 < addr2 {
diff --git a/src/memory.rs b/src/memory.rs
index 61f3cc4..8e935fa 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -118,6 +118,11 @@ pub trait Memory {
         self.start() <= pos && pos < self.limit()
     }
 
+    /// Does memory contain the `len` address units starting at `pos`?
+    fn has_range(&self, pos: usize, len: usize) -> bool {
+        self.start() <= pos && pos <= self.limit() && len <= self.limit() - pos
+    }
+
     /// Next free space
     fn here(&self) -> usize;
 
-- 
2.43.0


From 57ccf1bc18222f37718c7bbe68aafe490eaf330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 02/26] fix: do not overflow when checking the address ranges
 of file words

---
 src/file_access.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index a36810f..78261db 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -177,7 +177,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().has_range(caddr, u) {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -220,7 +220,7 @@ pub trait FileAccess: Core {
             self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
-                if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+                if self.data_space().has_range(caddr, u) {
                     let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                     match fs::remove_file(path_name) {
                         Err(_) => FILE_IO_EXCEPTION.into(),
@@ -269,7 +269,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().has_range(caddr, u) {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -341,7 +341,7 @@ pub trait FileAccess: Core {
         } else {
             let mut file = self.files_mut()[fileid].take().unwrap();
             let result = {
-                if self.data_space().start() <= caddr && caddr + u1 <= self.data_space().limit() {
+                if self.data_space().has_range(caddr, u1) {
                     let mut buf = unsafe { self.data_space().buffer_from_raw_parts_mut(caddr, u1) };
                     file.read(&mut buf).or(Err(FILE_IO_EXCEPTION.into()))
                 } else {
@@ -383,9 +383,7 @@ pub trait FileAccess: Core {
             match self.files_mut()[fileid].take() {
                 Some(mut f) => {
                     let result = {
-                        if self.data_space().start() <= caddr
-                            && caddr + u <= self.data_space().limit()
-                        {
+                        if self.data_space().has_range(caddr, u) {
                             let buf = unsafe {
                                 self.data_space().buffer_from_raw_parts(caddr as _, u as _)
                             };
-- 
2.43.0


From b703d00f79bc927897131752c80fd87aa17b5a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 03/26] fix: address arithmetic words wrap instead of
 overflowing

---
 src/core.rs   | 8 +++++---
 src/float.rs  | 6 ++++--
 src/memory.rs | 6 +++---
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 9407ad9..c20a9e7 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2456,7 +2456,7 @@ pub trait Core: Sized {
     ///Add the size in address units of a character to `c-addr1`, giving `c-addr2`.
     fn char_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<u8>() as isize);
+        self.s_stack().push(v.wrapping_add(mem::size_of::<u8>() as isize));
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
@@ -2464,7 +2464,8 @@ pub trait Core: Sized {
     /// Add the size in address units of a cell to `a-addr1`, giving `a-addr2`.
     fn cell_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<isize>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<isize>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -2472,7 +2473,8 @@ pub trait Core: Sized {
     /// `n2` is the size in address units of `n1` cells.
     fn cells(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<isize>() as isize);
+        self.s_stack()
+            .push(v.wrapping_mul(mem::size_of::<isize>() as isize));
     }
 
     fn swap(&mut self) {
diff --git a/src/float.rs b/src/float.rs
index e52b370..9132710 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -74,7 +74,8 @@ pub trait Float: Core {
     /// Add the size in address units of a float to `a-addr1`, giving `a-addr2`.
     fn float_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<f64>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -82,7 +83,8 @@ pub trait Float: Core {
     /// `n2` is the size in address units of `n1` floats.
     fn floats(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<f64>() as isize);
+        self.s_stack()
+            .push(v.wrapping_mul(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( addr -- a-addr )
diff --git a/src/memory.rs b/src/memory.rs
index 8e935fa..c421d75 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -273,7 +273,7 @@ pub trait Memory {
     /// First aligned address greater than or equal to `pos`.
     fn aligned(pos: usize) -> usize {
         let align = mem::align_of::<isize>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not aligned, reserve enough space to align it.
@@ -285,7 +285,7 @@ pub trait Memory {
     /// First float-aligned address greater than or equal to `pos`.
     fn aligned_f64(pos: usize) -> usize {
         let align = mem::align_of::<f64>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not float-aligned, reserve enough space to align it.
@@ -297,7 +297,7 @@ pub trait Memory {
     /// First address aligned to 16-byte boundary greater than or equal to `pos`.
     fn aligned_16bytes(pos: usize) -> usize {
         let align = 16;
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the space pointer is not aligned to 16-byte boundary, reserve enough space to align it.
-- 
2.43.0


From 48661b80cb6c6e6037a2366d54d648f3b207a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 04/26] fix: type checks that the string is inside the data
 space

---
 src/output.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index feece3d..52a1f66 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1,7 +1,7 @@
 //! Words output to console
 
 use core::Core;
-use exception::{STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
+use exception::{INVALID_MEMORY_ADDRESS, STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
 use memory::Memory;
 use std::fmt::Write;
 
@@ -54,6 +54,13 @@ pub trait Output: Core {
             self.abort_with(STACK_UNDERFLOW);
             return;
         }
+        if len == 0 {
+            return;
+        }
+        if !self.data_space().has_range(addr as usize, len as usize) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         match self.output_buffer().take() {
             Some(mut buffer) => {
                 {
-- 
2.43.0


From 397b071f6864aa0d8f31c631080c2723be6f16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 05/26] fix: s" and ." at the end of the input must not panic

---
 src/output.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 52a1f66..de9c443 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -87,25 +87,22 @@ pub trait Output: Core {
     /// Return c-addr and u describing a string consisting of the characters ccc. A program
     /// shall not alter the returned string.
     fn s_quote(&mut self) {
-        let input_buffer = self.input_buffer().take().unwrap();
-        {
-            let source = &input_buffer[self.state().source_index + 1..input_buffer.len()];
-            let s = match source.find('"') {
-                Some(n) => {
-                    &input_buffer[self.state().source_index + 1..self.state().source_index + 1 + n]
-                }
-                None => source,
+        if let Some(input_buffer) = self.input_buffer().take() {
+            // ignore the space following S"
+            let start = self.state().source_index.saturating_add(1).min(input_buffer.len());
+            let source = input_buffer.get(start..).unwrap_or("");
+            let (s, next) = match source.find('"') {
+                Some(n) => (&source[..n], start + n + 1),
+                None => (source, input_buffer.len()),
             };
-            let cnt = s.len();
             let idx = self.references().idx_s_quote;
             let compilation_semantics = self.wordlist()[idx].compilation_semantics;
             compilation_semantics(self, idx);
             self.data_space().compile_str(s);
             self.data_space().align();
-            // ignore the space following S"
-            self.state().source_index = self.state().source_index + 1 + cnt as usize + 1;
+            self.state().source_index = next;
+            self.set_input_buffer(input_buffer);
         }
-        self.set_input_buffer(input_buffer);
     }
 
     /// Compilation: ( "ccc<quote>" -- )
-- 
2.43.0


From c3abb26a43599193b45e3f703c257eedcde3cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 06/26] fix: parsing words tolerate a source index outside the
 text and tasks without input

---
 src/core.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index c20a9e7..ca67a91 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1694,8 +1694,7 @@ pub trait Core: Sized {
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
         if let Some(input_buffer) = self.input_buffer().take() {
-            if self.state().source_index < input_buffer.len() {
-                let source = &input_buffer[self.state().source_index..];
+            if let Some(source) = input_buffer.get(self.state().source_index..) {
                 let mut cnt = source.len();
                 let mut char_indices = source.char_indices();
                 loop {
@@ -1763,12 +1762,11 @@ pub trait Core: Sized {
     ///
     /// Parse ccc delimited by the delimiter char.
     fn parse(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
         let v = self.s_stack().pop();
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
-        {
-            let source = &input_buffer[self.state().source_index..];
+        if let Some(input_buffer) = self.input_buffer().take() {
+            let source = input_buffer.get(self.state().source_index..).unwrap_or("");
             let mut cnt = source.len();
             let mut char_indices = source.char_indices();
             loop {
@@ -1792,19 +1790,18 @@ pub trait Core: Sized {
                 }
             }
             self.state().source_index = self.state().source_index + cnt;
+            self.set_input_buffer(input_buffer);
         }
         self.set_last_token(last_token);
-        self.set_input_buffer(input_buffer);
     }
 
     /// Run-time: ( char "ccc" -- )
     ///
     /// Skip all of the delimiter char.
     fn _skip(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
         let v = self.s_stack().pop();
-        {
-            let source = &input_buffer[self.state().source_index..];
+        if let Some(input_buffer) = self.input_buffer().take() {
+            let source = input_buffer.get(self.state().source_index..).unwrap_or("");
             let mut cnt = 0;
             let mut char_indices = source.char_indices();
             loop {
@@ -1822,8 +1819,8 @@ pub trait Core: Sized {
                 }
             }
             self.state().source_index = self.state().source_index + cnt;
+            self.set_input_buffer(input_buffer);
         }
-        self.set_input_buffer(input_buffer);
     }
 
     fn imm_paren(&mut self) {
-- 
2.43.0


From d319bc69d524719d3a726971a6cd25758844e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 07/26] fix: _skip skips whole characters

---
 src/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index ca67a91..5961d1c 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1806,9 +1806,9 @@ pub trait Core: Sized {
             let mut char_indices = source.char_indices();
             loop {
                 match char_indices.next() {
-                    Some((idx, ch)) => {
+                    Some((_, ch)) => {
                         if ch as isize == v {
-                            cnt += 1;
+                            cnt += ch.len_utf8();
                         } else {
                             break;
                         }
-- 
2.43.0


From 8aeea9e2d7576edf232ab94d4683461d2822d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 08/26] fix: i and j outside a loop must not panic

---
 src/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 5961d1c..0276b33 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1075,9 +1075,9 @@ pub trait Core: Sized {
     }
 
     fn p_j(&mut self) {
-        let pos = self.r_stack().len() - 4;
+        let pos = self.r_stack().len().wrapping_sub(4);
         match self.r_stack().get(pos) {
-            Some(jt) => match self.r_stack().get(pos - 1) {
+            Some(jt) => match self.r_stack().get(pos.wrapping_sub(1)) {
                 Some(jn) => {
                     self.s_stack().push(jt.wrapping_add(jn));
                 }
@@ -1647,7 +1647,7 @@ pub trait Core: Sized {
     fn p_i(&mut self) {
         match self.r_stack().last() {
             Some(it) => {
-                let next = self.r_stack().len - 2;
+                let next = self.r_stack().len.wrapping_sub(2);
                 match self.r_stack().get(next) {
                     Some(inext) => {
                         self.s_stack().push(it.wrapping_add(inext));
-- 
2.43.0


From 9d812a7c26737640722aa4846e810a6cc25858d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 09/26] fix: delete-file leaves one result for a long name too

---
 src/file_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index 78261db..9c7b5bc 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -217,7 +217,7 @@ pub trait FileAccess: Core {
         let caddr = caddr as usize;
         let u = u as usize;
         if u > PATH_NAME_MAX_LEN {
-            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
+            self.s_stack().push(INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
                 if self.data_space().has_range(caddr, u) {
-- 
2.43.0


From a53c7cc4d8851ba5d9d71557fd52f9a0f3b1adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 10/26] fix: abort_with does not recurse forever on an invalid
 handler

---
 src/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 0276b33..576d7df 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3194,7 +3194,10 @@ pub trait Core: Sized {
         self.set_error(Some(e));
         let h = self.handler();
         self.state().aborted_word_pointer = self.state().word_pointer;
-        self.execute_word(h);
+        // A handler removed by a marker would fail again and again.
+        if h < self.wordlist().len() {
+            self.execute_word(h);
+        }
     }
 
     /// Abort the inner loop with an exception, reset VM and clears stacks.
-- 
2.43.0


From f077149ded3e24fe9152fc1fa74c27a4297ad7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 11/26] fix: .backtrace must not panic after executing an
 invalid execution token

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 21ee4d2..528c57a 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -94,7 +94,7 @@ pub trait Tools: Output {
             }
 
             let xt = self.state().aborted_word_pointer;
-            if xt != 0 {
+            if xt != 0 && xt < self.wordlist().len() {
                 let nfa = self.wordlist()[xt].nfa();
                 let name = unsafe { self.data_space().get_str(nfa) };
                 write!(buf, "{} ", name).unwrap();
-- 
2.43.0


From 4a29060b9571b0dbd14aa4e123fda88f3983dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 12/26] fix: task words must not overflow on invalid task
 numbers

---
 src/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 576d7df..23fc94c 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1623,7 +1623,7 @@ pub trait Core: Sized {
     }
 
     fn activate(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             // Wake task `i`.
             self.set_awake(i, true);
@@ -3225,7 +3225,7 @@ pub trait Core: Sized {
 
     /// Suspend task `i`. `suspend ( i -- )`
     fn suspend(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, false);
         } else {
@@ -3235,7 +3235,7 @@ pub trait Core: Sized {
 
     /// Resume task `i`. `resume ( i -- )`
     fn resume(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, true);
         } else {
-- 
2.43.0


From 2ff3031a1481073017e5135c5a3258ea4be67036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 13/26] fix: allot reports a pointer outside the data space

---
 src/core.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 23fc94c..9f1e301 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2977,7 +2977,12 @@ pub trait Core: Sized {
     /// zero, leave the data-space pointer unchanged.
     fn allot(&mut self) {
         let v = self.s_stack().pop();
-        self.data_space().allot(v);
+        let here = self.data_space().here().wrapping_add(v as usize);
+        if self.s_stack().underflow() {
+            self.abort_with(STACK_UNDERFLOW);
+        } else if self.data_space().set_here(here).is_err() {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+        }
     }
 
     /// Run-time: ( addr -- a-addr )
-- 
2.43.0


From a53c9748434aca90104e1193ab1163ac090515c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 14/26] fix: a base prefix or sign without digits is not a
 number

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index cd15872..d641490 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -54,6 +54,9 @@ pub fn base(input: &[u8], default_base: isize) -> IResult<isize> {
 }
 
 pub fn uint_in_base(input: &[u8], base: isize) -> IResult<isize> {
+    if input.is_empty() {
+        return IResult::Err(RESULT_OUT_OF_RANGE);
+    }
     let mut len = 0;
     let mut bytes = input;
     let mut value = 0isize;
-- 
2.43.0


From 21891d1e14c6cd5d437760395cfc539e6c211ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 15/26] fix: !token must not panic on addresses outside the
 data space

---
 src/core.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 9f1e301..0c7236a 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2004,7 +2004,11 @@ pub trait Core: Sized {
     /// Store token in counted string at `c-addr`.`
     fn store_token(&mut self) {
         let c_addr = self.s_stack().pop() as usize;
-        if self.data_space().start() <= c_addr {
+        let len = self.last_token().as_ref().map_or(0, |t| t.len().min(255));
+        if self
+            .data_space()
+            .has_range(c_addr, len + mem::size_of::<usize>())
+        {
             match self.last_token().take() {
                 Some(mut t) => {
                     self.data_space().put_cstr(&t, c_addr);
-- 
2.43.0


From 7d484668c4560427a1489ee9e5877ae5b0a7f1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 16/26] fix: .r and f.r must not overflow on negative widths

---
 src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index de9c443..c6a27c2 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -160,7 +160,7 @@ pub trait Output: Core {
                 }
             }
             if valid_base {
-                for _ in 0..(n2 - self.hold_buffer().len() as isize) {
+                for _ in 0..n2.saturating_sub(self.hold_buffer().len() as isize) {
                     buf.push(' ');
                 }
                 buf.push_str(self.hold_buffer());
@@ -203,7 +203,7 @@ pub trait Output: Core {
                 16 => write!(self.hold_buffer(), "{:.16}", r).unwrap(),
                 _ => write!(self.hold_buffer(), "{:.17}", r).unwrap(),
             }
-            for _ in 0..(n1 - self.hold_buffer().len() as isize) {
+            for _ in 0..n1.saturating_sub(self.hold_buffer().len() as isize) {
                 buf.push(' ');
             }
             buf.push_str(self.hold_buffer());
-- 
2.43.0


From ac653f3b936bafdab4d5c1c4d3b1444dbfbd47bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 17/26] fix: (xtime) and _postpone must not panic on invalid
 execution tokens

---
 src/core.rs  | 4 ++++
 src/tools.rs | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 0c7236a..43f154a 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1884,6 +1884,10 @@ pub trait Core: Sized {
         // --+------+---------+-----------+--
         // Because B comes after A, the xt of A is valid during execution of B.
         let xt = self.s_stack().pop() as usize;
+        if xt >= self.wordlist().len() {
+            self.abort_with(UNSUPPORTED_OPERATION);
+            return;
+        }
         let compilation_semantics = self.wordlist()[xt].compilation_semantics;
         compilation_semantics(self, xt);
     }
diff --git a/src/tools.rs b/src/tools.rs
index 528c57a..6dec932 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -1,5 +1,6 @@
 //! Tools to inspect the rtforth system
 
+use exception::UNSUPPORTED_OPERATION;
 use memory::Memory;
 use output::Output;
 use std::fmt::Write;
@@ -151,7 +152,11 @@ pub trait Tools: Output {
     /// ```
     fn set_execution_times(&mut self) {
         let (t0, xt) = self.s_stack().pop2();
-        let t = (self.system_time_ns() / 1_000) as usize - t0 as usize;
+        if xt as usize >= self.wordlist().len() {
+            self.abort_with(UNSUPPORTED_OPERATION);
+            return;
+        }
+        let t = ((self.system_time_ns() / 1_000) as usize).wrapping_sub(t0 as usize);
         let word = &mut self.wordlist_mut()[xt as usize];
         if word.min_execution_time != 0 {
             word.min_execution_time = word.min_execution_time.min(t);
-- 
2.43.0


From 567b5c67a45180c49db3aa96ca95fc2942e31fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 18/26] fix: postpone of an immediate word executes it

---
 src/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 43f154a..00c3fd3 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1888,6 +1888,11 @@ pub trait Core: Sized {
             self.abort_with(UNSUPPORTED_OPERATION);
             return;
         }
+        // The compilation semantics of an immediate word is its execution.
+        if self.wordlist()[xt].is_immediate() {
+            self.execute_word(xt);
+            return;
+        }
         let compilation_semantics = self.wordlist()[xt].compilation_semantics;
         compilation_semantics(self, xt);
     }
-- 
2.43.0


From 2a3f85c58169162b12b3c3f7cc8feb321f7df626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 19/26] fix: marker and fconstant without a name allot nothing

---
 src/core.rs  | 3 +++
 src/float.rs | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 00c3fd3..aceeabd 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2366,6 +2366,9 @@ pub trait Core: Sized {
         let x = self.wordlist().last;
         self.wordlist_mut().temp_buckets = self.wordlist().buckets;
         self.define(Core::unmark, Core::compile_unmark);
+        if self.last_error().is_some() {
+            return;
+        }
         self.data_space().compile_usize(x);
         for i in 0..BUCKET_SIZE {
             let x = self.wordlist().temp_buckets[i];
diff --git a/src/float.rs b/src/float.rs
index 9132710..ce72901 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -65,8 +65,10 @@ pub trait Float: Core {
     fn fconstant(&mut self) {
         let v = self.f_stack().pop();
         self.define(Float::p_fconst, Core::compile_fconst);
-        self.data_space().align_f64();
-        self.data_space().compile_f64(v);
+        if self.last_error().is_none() {
+            self.data_space().align_f64();
+            self.data_space().compile_f64(v);
+        }
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
-- 
2.43.0


From cf8fa96758eed8d99541dad11bea8245b45c9995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 20/26] fix: cells at unaligned addresses must not abort the
 host

---
 src/memory.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index c421d75..54fc5a1 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -134,15 +134,15 @@ pub trait Memory {
     }
 
     unsafe fn get_usize(&self, addr: usize) -> usize {
-        *(addr as *mut usize)
+        (addr as *const usize).read_unaligned()
     }
 
     unsafe fn get_isize(&self, addr: usize) -> isize {
-        *(addr as *mut isize)
+        (addr as *const isize).read_unaligned()
     }
 
     unsafe fn get_f64(&self, addr: usize) -> f64 {
-        *(addr as *mut f64)
+        (addr as *const f64).read_unaligned()
     }
 
     unsafe fn get_str(&self, addr: usize) -> &str {
@@ -183,7 +183,7 @@ pub trait Memory {
     }
 
     unsafe fn put_usize(&mut self, v: usize, pos: usize) {
-        *(pos as *mut usize) = v;
+        (pos as *mut usize).write_unaligned(v);
     }
 
     fn compile_usize(&mut self, v: usize) {
@@ -205,7 +205,7 @@ pub trait Memory {
     }
 
     unsafe fn put_isize(&mut self, v: isize, pos: usize) {
-        *(pos as *mut isize) = v;
+        (pos as *mut isize).write_unaligned(v);
     }
 
     fn compile_isize(&mut self, v: isize) {
@@ -220,7 +220,7 @@ pub trait Memory {
         }
     }
     unsafe fn put_f64(&mut self, v: f64, pos: usize) {
-        *(pos as *mut f64) = v;
+        (pos as *mut f64).write_unaligned(v);
     }
 
     fn compile_f64(&mut self, v: f64) {
-- 
2.43.0


From 77c2f3ae1a7291fbce69878d3d99f65a597de9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 21/26] fix: open-source checks the address range of the path

---
 src/loader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/loader.rs b/src/loader.rs
index e23754e..1e777f5 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -1,7 +1,7 @@
 //! Source input
 
 use core::Core;
-use exception::{Exception, FILE_IO_EXCEPTION, INVALID_NUMERIC_ARGUMENT};
+use exception::{Exception, FILE_IO_EXCEPTION, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT};
 use memory::Memory;
 use output::Output;
 use std::fs::File;
@@ -39,6 +39,12 @@ pub trait HasLoader: Core + Output {
     fn open_source(&mut self) {
         let (caddr, u, id) = self.s_stack().pop3();
         if id > 0 && id - 1 < self.files().len() as isize {
+            if self.files()[id as usize - 1].is_some()
+                && !self.data_space().has_range(caddr as usize, u as usize)
+            {
+                self.abort_with(INVALID_MEMORY_ADDRESS);
+                return;
+            }
             match self.files_mut()[id as usize - 1].take() {
                 Some(file) => {
                     let position = self.sources().iter().position(|x| x.is_none());
-- 
2.43.0


From 1df98e2c83433d8e8fefbe5748ecdf5996a6c1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 22/26] fix: huge exponents of floating-point literals must not
 be truncated

---
 src/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index aceeabd..6aa880f 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2240,7 +2240,10 @@ pub trait Core: Sized {
             } else {
                 let value = (significand_sign as f64)
                     * (integer_part as f64 + fraction_part)
-                    * ((10.0f64).powi((exponent_sign.wrapping_mul(exponent_part)) as i32) as f64);
+                    * ((10.0f64).powi(exponent_sign
+                        .wrapping_mul(exponent_part)
+                        .max(-(i32::max_value() as isize))
+                        .min(i32::max_value() as isize) as i32) as f64);
                 if self.state().is_compiling {
                     self.compile_float(value);
                 } else {
-- 
2.43.0


From 89dec2ab53bfdd9f45775c0addea77e823f86c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 23/26] fix: quit forgets the includers of an aborted include

---
 rtf/rtf.fth | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtf/rtf.fth b/rtf/rtf.fth
index f799058..dcb056a 100644
--- a/rtf/rtf.fth
+++ b/rtf/rtf.fth
@@ -1,7 +1,7 @@
 -work
 
 : quit
-    reset
+    reset  0 src-stack cell+ !
     begin receive ."  " evaluate-input
     compiling? not if ."  ok"  then
     13 emit flush-output
-- 
2.43.0


From 249557c4373379701403fef661a1328ad553291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 24/26] fix: (abort) prints the line number in decimal,
 whatever the base

---
 rtf/rtf.fth | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtf/rtf.fth b/rtf/rtf.fth
index dcb056a..1cef99c 100644
--- a/rtf/rtf.fth
+++ b/rtf/rtf.fth
@@ -12,7 +12,7 @@
       .token space .error
       source-id dup if dup
         ."  (" .source-path
-        ." :"  load-line# @  0 .r ." : " .source-line ." )"
+        ." :"  base @ decimal  load-line# @  0 .r  base !  ." : " .source-line ." )"
       else drop
       then
       ." , " .backtrace  13 emit
-- 
2.43.0


From e939e31f02f381a6aaade315eeb19c22d26f7521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 25/26] fix: an exception or quit in a background task stops
 that task instead of the shell

---
 rtf/rtf.fth | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rtf/rtf.fth b/rtf/rtf.fth
index 1cef99c..63cea00 100644
--- a/rtf/rtf.fth
+++ b/rtf/rtf.fth
@@ -1,7 +1,10 @@
 -work
 
 : quit
-    reset  0 src-stack cell+ !
+    reset
+    \ Only the operator task has a terminal.
+    begin me 1 = not while stop repeat
+    0 src-stack cell+ !
     begin receive ."  " evaluate-input
     compiling? not if ."  ok"  then
     13 emit flush-output
-- 
2.43.0


From 3162cca52c04fa7df8051b1bc1bda596478442f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:09 +0000
Subject: [PATCH 26/26] fix: floating-point literals with negative exponents
 are exact when representable

---
 src/core.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 6aa880f..8364064 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2238,12 +2238,14 @@ pub trait Core: Sized {
             if self.references().idx_flit == 0 {
                 self.set_error(Some(UNSUPPORTED_OPERATION));
             } else {
-                let value = (significand_sign as f64)
-                    * (integer_part as f64 + fraction_part)
-                    * ((10.0f64).powi(exponent_sign
-                        .wrapping_mul(exponent_part)
-                        .max(-(i32::max_value() as isize))
-                        .min(i32::max_value() as isize) as i32) as f64);
+                let significand = (significand_sign as f64) * (integer_part as f64 + fraction_part);
+                let scale = (10.0f64).powi(exponent_part.min(i32::max_value() as isize) as i32);
+                // A negative power of ten is inexact, dividing by the positive one is not.
+                let value = if exponent_sign < 0 {
+                    significand / scale
+                } else {
+                    significand * scale
+                };
                 if self.state().is_compiling {
                     self.compile_float(value);
                 } else {
-- 
2.43.0

