From e6972084d6af27abe9e25e9de0a6a68be2c62961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 01/23] fix: collect must fail on a terminating error instead
 of reporting success

---
 crates/parcom-parsers/src/iterative/collect.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-parsers/src/iterative/collect.rs b/crates/parcom-parsers/src/iterative/collect.rs
index 7e6b8cf..c32cc2f 100644
--- a/crates/parcom-parsers/src/iterative/collect.rs
+++ b/crates/parcom-parsers/src/iterative/collect.rs
@@ -1,8 +1,8 @@
 use parcom_core::{
-    IterativeParser, IterativeParserOnce, IterativeParserState, ParseResult, Parser, ParserOnce,
-    RewindSequence,
+    IterativeParser, IterativeParserOnce, IterativeParserState, ParseError, ParseResult, Parser,
+    ParserOnce, RewindSequence,
 };
-use parcom_util::done;
+use parcom_util::{done, fail};
 use std::marker::PhantomData;
 
 #[derive(Debug)]
@@ -57,6 +57,7 @@ async fn parse<S: RewindSequence, P: IterativeParserState<S>, C: Extend<P::Outpu
                 collection.extend(std::iter::once(v));
                 rest = r;
             }
+            Err((e, r)) if e.should_terminate() => return fail(e, r),
             Err((e, r)) => {
                 return done((collection, Some(e)), r.rewind(anchor).await);
             }
-- 
2.43.0


From ec83d2e56a81bfc604222e9139bd2b2fbaacc46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 02/23] fix: comparing operator precedences must not overflow

---
 crates/parcom-parsers/src/combinator/bin_expr.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/parcom-parsers/src/combinator/bin_expr.rs b/crates/parcom-parsers/src/combinator/bin_expr.rs
index 5e5f015..0acff6d 100644
--- a/crates/parcom-parsers/src/combinator/bin_expr.rs
+++ b/crates/parcom-parsers/src/combinator/bin_expr.rs
@@ -130,8 +130,7 @@ where
                     rhs = term;
                     break;
                 };
-                let prec = next_precedence(&last_op);
-                if op.precedence() >= prec {
+                if binds_tighter(&op, &last_op) {
                     // ひとつ前の演算子より優先度が高い．
                     stack.push((lhs, last_op));
                     stack.push((rhs, op));
@@ -151,10 +150,12 @@ where
         done((rhs, reason), rest)
     }
 }
-fn next_precedence<T: Operator>(op: &T) -> usize {
-    match op.associativity() {
-        Associativity::Left => op.precedence() + 1,
-        Associativity::Right => op.precedence(),
+
+/// Whether `op` takes the operand between `last_op` and `op`.
+fn binds_tighter<T: Operator>(op: &T, last_op: &T) -> bool {
+    match last_op.associativity() {
+        Associativity::Left => op.precedence() > last_op.precedence(),
+        Associativity::Right => op.precedence() >= last_op.precedence(),
     }
 }
 
-- 
2.43.0


From d5707595086453e65cfa0dd932b4f9add9bbddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 03/23] fix: matching a literal must not split text inside a
 character

---
 crates/parcom-core/src/primitive/str.rs     |  4 ++++
 crates/parcom-core/src/sequence/segment.rs  |  5 +++++
 crates/parcom-parsers/src/primitive/atom.rs | 19 ++++++++++---------
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index d326b55..1751ae1 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -139,4 +139,8 @@ impl SequenceSegment for str {
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self) {
         str::split_at(&self, mid.0)
     }
+
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        str::split_at_checked(self, mid.0)
+    }
 }
diff --git a/crates/parcom-core/src/sequence/segment.rs b/crates/parcom-core/src/sequence/segment.rs
index df41402..fff6d19 100644
--- a/crates/parcom-core/src/sequence/segment.rs
+++ b/crates/parcom-core/src/sequence/segment.rs
@@ -3,4 +3,9 @@ pub trait SequenceSegment {
 
     fn len(&self) -> Self::Length;
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self);
+
+    /// Splits like [`split_at`](Self::split_at), or returns `None` if the segment cannot be split at `mid`.
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        (mid <= self.len()).then(|| self.split_at(mid))
+    }
 }
diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 020e87a..fefbb04 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -39,8 +39,10 @@ where
 
         while let Some(segment) = segments.next(remain.len()).await {
             if segment.len() >= remain.len() {
-                let s = segment.split_at(remain.len()).0;
-                let matched = s == remain;
+                let matched = match segment.split_at_checked(remain.len()) {
+                    Some((s, _)) => s == remain,
+                    None => false,
+                };
                 drop(segments);
                 return if matched {
                     done((), input.advance(remain.len()).await)
@@ -49,14 +51,13 @@ where
                 };
             }
 
-            let (p, r) = remain.split_at(segment.len());
-
-            if &*segment != p {
-                drop(segments);
-                return fail(Miss(()), input);
+            match remain.split_at_checked(segment.len()) {
+                Some((p, r)) if &*segment == p => remain = r,
+                _ => {
+                    drop(segments);
+                    return fail(Miss(()), input);
+                }
             }
-
-            remain = r;
         }
 
         drop(segments);
-- 
2.43.0


From 53048377df21e4c26da8f6446bc72243e24b000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 04/23] fix: the empty literal matches at the end of the input

---
 crates/parcom-parsers/src/primitive/atom.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index fefbb04..d3a78c8 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -35,6 +35,11 @@ where
 {
     async fn parse(&self, mut input: S) -> ParserResult<S, Self> {
         let mut remain = self.pattern.pattern();
+
+        if remain.len() == Default::default() {
+            return done((), input);
+        }
+
         let mut segments = input.segments();
 
         while let Some(segment) = segments.next(remain.len()).await {
-- 
2.43.0


From a8527967c1cb8947b0a4979f98c001fb7facc409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 05/23] fix: a literal spanning several segments consumes all
 of it

---
 crates/parcom-parsers/src/primitive/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index d3a78c8..0e56273 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -50,7 +50,7 @@ where
                 };
                 drop(segments);
                 return if matched {
-                    done((), input.advance(remain.len()).await)
+                    done((), input.advance(self.pattern.pattern().len()).await)
                 } else {
                     fail(Miss(()), input)
                 };
-- 
2.43.0


From 561e157af1f56dcc0df064a9e085cbd9931f1a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 06/23] fix: advancing past the end of an in-memory input stops
 at its end

---
 crates/parcom-core/src/primitive/slice.rs | 2 +-
 crates/parcom-core/src/primitive/str.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index dac8954..bfffe20 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -18,7 +18,7 @@ impl<'a, T> Sequence for &'a [T] {
     }
 
     fn advance(self, count: usize) -> Self::Advance {
-        std::future::ready(&self[count..])
+        std::future::ready(&self[count.min(self.len())..])
     }
 }
 
diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index 1751ae1..07ef93f 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -19,7 +19,7 @@ impl<'a> Sequence for &'a str {
 
     fn advance(self, delta: BytesDelta) -> Self::Advance {
         let delta = delta.to_bytes();
-        let rest = self.get(delta..).unwrap_or("");
+        let rest = self.get(delta..).unwrap_or(&self[self.len()..]);
         std::future::ready(rest)
     }
 }
-- 
2.43.0


From c3262869f514d7ff8172cb0686fbb7a1e0503e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 07/23] fix: rewinding must reject a position of another input

---
 crates/parcom-core/src/primitive/slice.rs | 7 +++----
 crates/parcom-core/src/primitive/str.rs   | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index bfffe20..017ae97 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -31,10 +31,9 @@ impl<T> RewindSequence for &[T] {
     }
 
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
-        let ptr = anchor.me.as_ptr();
-        let len = anchor.me.len();
-        let offset = unsafe { self.as_ptr().offset_from(ptr) };
-        if !offset.is_negative() && (offset as usize) <= len {
+        let current = self.as_ptr_range();
+        let target = anchor.me.as_ptr_range();
+        if target.start <= current.start && target.end == current.end {
             std::future::ready(anchor.me)
         } else {
             panic!("the anchor is not an anchor of this stream.")
diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index 07ef93f..07a599f 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -33,10 +33,9 @@ impl RewindSequence for &str {
     }
 
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
-        let ptr = anchor.me.as_ptr();
-        let len = anchor.me.len();
-        let offset = unsafe { self.as_ptr().offset_from(ptr) };
-        if !offset.is_negative() && (offset as usize) <= len {
+        let current = self.as_bytes().as_ptr_range();
+        let target = anchor.me.as_bytes().as_ptr_range();
+        if target.start <= current.start && target.end == current.end {
             std::future::ready(anchor.me)
         } else {
             panic!("the anchor is not an anchor of this stream.")
-- 
2.43.0


From 876a889834157aa193bcdec4f6b2e0e0f8bfc0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 08/23] fix: CRLF must be recognised after a lone carriage
 return

---
 crates/parcom-metrics/src/end_of_line.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/parcom-metrics/src/end_of_line.rs b/crates/parcom-metrics/src/end_of_line.rs
index 960dd61..dc736e8 100644
--- a/crates/parcom-metrics/src/end_of_line.rs
+++ b/crates/parcom-metrics/src/end_of_line.rs
@@ -55,13 +55,17 @@ impl EndOfLine for CRLF {
                 }
                 _ => EndOfLineMatch::NotMatch,
             },
-            CRLFState::CR => {
-                self.state = CRLFState::Initial;
-                match c {
-                    '\n' => EndOfLineMatch::Match,
-                    _ => EndOfLineMatch::NotMatch,
+            CRLFState::CR => match c {
+                // another CR may itself begin the terminator
+                '\r' => EndOfLineMatch::PartialMatch,
+                c => {
+                    self.state = CRLFState::Initial;
+                    match c {
+                        '\n' => EndOfLineMatch::Match,
+                        _ => EndOfLineMatch::NotMatch,
+                    }
                 }
-            }
+            },
         }
     }
 }
-- 
2.43.0


From 49deee387f642b9d817d659749ca9a5e43c47cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 09/23] fix: the order of positions must agree with their
 equality

---
 crates/parcom-metrics/src/line_colmn.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-metrics/src/line_colmn.rs b/crates/parcom-metrics/src/line_colmn.rs
index 3cb024f..dd5ba6f 100644
--- a/crates/parcom-metrics/src/line_colmn.rs
+++ b/crates/parcom-metrics/src/line_colmn.rs
@@ -43,12 +43,15 @@ impl<EOL: EndOfLine> PartialEq for LineColumn<EOL> {
 
 impl<EOL: EndOfLine> Ord for LineColumn<EOL> {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.partial_cmp(other).unwrap()
+        self.total_count
+            .cmp(&other.total_count)
+            .then(self.line.cmp(&other.line))
+            .then(self.column.cmp(&other.column))
     }
 }
 impl<EOL: EndOfLine> PartialOrd for LineColumn<EOL> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        Some(self.total_count.cmp(&other.total_count))
+        Some(self.cmp(other))
     }
 }
 
-- 
2.43.0


From 2e2811ab2f59852df9e2f7483d01851aae683c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 10/23] fix: the small vector may be sent and shared between
 threads

A pointer to its heap buffer made it neither Send nor Sync, so the future of
a binary expression parser could not be sent between threads either.
---
 crates/parcom-internals/src/shortvec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index 1a23c94..a9ad71e 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -20,6 +20,10 @@ union ShortVecData<T, const N: usize> {
     heap: ManuallyDrop<NonNull<T>>,
 }
 
+// SAFETY: a `ShortVec` owns its elements exclusively, just as `Vec` does.
+unsafe impl<T: Send, const N: usize> Send for ShortVec<T, N> {}
+unsafe impl<T: Sync, const N: usize> Sync for ShortVec<T, N> {}
+
 impl<T, const N: usize> ShortVec<T, N> {
     pub fn new() -> Self {
         Self::with_capacity(0)
-- 
2.43.0


From fb654c419863405a9d0b0b12e4bee861bcba184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 11/23] fix: an empty array is not a type without values

[Never; 0] carried the ShouldNever marker, so safe code could reach the unreachable branch of the accessors relying on it.
---
 crates/parcom-core/src/never.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-core/src/never.rs b/crates/parcom-core/src/never.rs
index 236e0f1..3fb046e 100644
--- a/crates/parcom-core/src/never.rs
+++ b/crates/parcom-core/src/never.rs
@@ -7,7 +7,16 @@ pub enum Never {}
 unsafe impl ShouldNever for Never {}
 
 unsafe impl<T: ShouldNever, E: ShouldNever> ShouldNever for Result<T, E> {}
-unsafe impl<T: ShouldNever, const N: usize> ShouldNever for [T; N] {}
+
+// the empty array `[T; 0]` has a value whatever `T` is.
+macro_rules! impl_should_never_for_array {
+    ($($n: literal)*) => {
+        $(unsafe impl<T: ShouldNever> ShouldNever for [T; $n] {})*
+    };
+}
+
+impl_should_never_for_array!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16);
+impl_should_never_for_array!(17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
 
 pub trait ShouldNeverExtension: ShouldNever {
     fn never<T>(&self) -> T {
-- 
2.43.0


From 14153ffcdba31130228c0c4f2bc5556e06bda280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 12/23] fix: ShortVec of zero-sized items no longer requests
 zero-sized storage from the allocator

---
 crates/parcom-internals/src/shortvec.rs | 35 +++++++++++++++----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index a9ad71e..7f8706f 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -37,14 +37,8 @@ impl<T, const N: usize> ShortVec<T, N> {
 
         if cap > N {
             let layout = Layout::array::<T>(cap).unwrap();
-            let ptr = unsafe { alloc::alloc(layout) as *mut T };
-            let ptr = match NonNull::new(ptr) {
-                Some(v) => v,
-                None => alloc::handle_alloc_error(layout),
-            };
-
             let data = ShortVecData {
-                heap: ManuallyDrop::new(ptr),
+                heap: ManuallyDrop::new(Self::allocate(layout)),
             };
             Self { cap, len: 0, data }
         } else {
@@ -129,6 +123,10 @@ impl<T, const N: usize> ShortVec<T, N> {
         // `cap`の不変条件によって、`self.cap >= N`をかならず満たすため、ここではヒープアロケーションが必ず行われる。
         let layout = Layout::array::<T>(cap).unwrap();
         if self.is_heap() {
+            if layout.size() == 0 {
+                self.cap = cap;
+                return;
+            }
             let old_layout = Layout::array::<T>(self.cap).unwrap();
             let ptr = unsafe {
                 let ptr = self.data.heap.as_ptr() as *mut u8;
@@ -143,13 +141,7 @@ impl<T, const N: usize> ShortVec<T, N> {
             self.cap = cap;
             self.data.heap = ptr;
         } else {
-            let buf = unsafe {
-                let ptr = alloc::alloc(layout) as *mut T;
-                match NonNull::new(ptr) {
-                    Some(v) => v,
-                    None => alloc::handle_alloc_error(layout),
-                }
-            };
+            let buf = Self::allocate(layout);
 
             unsafe {
                 let src = self.as_ptr_stack_unchecked();
@@ -167,6 +159,18 @@ impl<T, const N: usize> ShortVec<T, N> {
         self.cap > N
     }
 
+    /// obtains storage of `layout`. zero sized storage must not be requested from the allocator.
+    fn allocate(layout: Layout) -> NonNull<T> {
+        if layout.size() == 0 {
+            return NonNull::dangling();
+        }
+        let ptr = unsafe { alloc::alloc(layout) as *mut T };
+        match NonNull::new(ptr) {
+            Some(v) => v,
+            None => alloc::handle_alloc_error(layout),
+        }
+    }
+
     unsafe fn as_ptr_stack_unchecked(&self) -> *const T {
         unsafe { self.data.stack.as_ptr() as *const T }
     }
@@ -186,6 +190,9 @@ impl<T, const N: usize> Drop for ShortVec<T, N> {
 
         if self.is_heap() {
             let layout = Layout::array::<T>(self.cap).unwrap();
+            if layout.size() == 0 {
+                return;
+            }
             unsafe {
                 alloc::dealloc(ptr as *mut u8, layout);
             }
-- 
2.43.0


From 4cb87e4e6d7a7cbdb09a23d2550fe7ff9e48f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 13/23] fix: shorten a buffer before dropping the removed items

---
 crates/parcom-sequence-core/src/buffer_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-sequence-core/src/buffer_writer.rs b/crates/parcom-sequence-core/src/buffer_writer.rs
index 26385f2..dbdd10e 100644
--- a/crates/parcom-sequence-core/src/buffer_writer.rs
+++ b/crates/parcom-sequence-core/src/buffer_writer.rs
@@ -74,8 +74,9 @@ pub trait BufferWriter {
 
         unsafe {
             let slice = std::ptr::slice_from_raw_parts_mut(ptr.add(new_len), len - new_len);
-            std::ptr::drop_in_place(slice);
+            // shorten first, so that a panicking drop cannot lead to a second drop of the same items
             self.set_len(new_len);
+            std::ptr::drop_in_place(slice);
         }
     }
 }
-- 
2.43.0


From 96020ecffe9753ddf866cdfe64e0ee6390ccbbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 14/23] fix: a character cut off by the end of the stream is an
 invalid sequence

---
 crates/parcom-sequence-sources/src/utf8_validator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/parcom-sequence-sources/src/utf8_validator.rs b/crates/parcom-sequence-sources/src/utf8_validator.rs
index 337c9bc..2cfb998 100644
--- a/crates/parcom-sequence-sources/src/utf8_validator.rs
+++ b/crates/parcom-sequence-sources/src/utf8_validator.rs
@@ -142,6 +142,15 @@ where
     }
 
     fn finish(self) -> Self::Result {
+        if self.buffered > 0 {
+            // ソースが文字の途中で終わっている
+            let res = self.control.cancel(Utf8ValidationError::InvalidSequence);
+            return Response {
+                inner: InnerResponse::Err { res },
+                _phantom: PhantomData,
+            };
+        }
+
         let res = self.control.finish();
         Response {
             inner: InnerResponse::Finish { res },
-- 
2.43.0


From 58c9b86fb3f71f32bab6398a5c8d5c746eb24c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 15/23] verification hook: constructor of
 GenericSequenceBuilder under cfg(parcom_verif)

---
 crates/parcom-sequences/src/generic.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index f927fc8..8903151 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -19,6 +19,13 @@ pub struct GenericSequenceBuilder<B: BufferStrategy> {
     strategy: Arc<B>,
 }
 
+#[cfg(parcom_verif)]
+impl<B: BufferStrategy> GenericSequenceBuilder<B> {
+    pub fn new(strategy: Arc<B>) -> Self {
+        Self { strategy }
+    }
+}
+
 impl<B: BufferStrategy, S: SequenceSource> SequenceBuilder<S> for GenericSequenceBuilder<B> {
     type Length = <GenericSequenceBuffer<S::Item> as SequenceBuffer>::Length;
     type Segment = <GenericSequenceBuffer<S::Item> as SequenceBuffer>::Segment;
-- 
2.43.0


From a2b99b2b1f68fef223889e2b6788c9c845840104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 16/23] fix: the capacity of a request does not shrink while it
 is written

---
 crates/parcom-sequences/src/generic/control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 351fb59..d804f97 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -80,7 +80,7 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     type Error = E;
 
     fn capacity(&self) -> usize {
-        self.buf.capacity() - self.buf.len()
+        self.buf.capacity() - self.offset
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 066d5f9056799e634743021f6c0fabd5c3a76362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 17/23] fix: a request offers the space asked for whatever the
 growth policy answers

---
 crates/parcom-sequences/src/generic/control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index d804f97..7ce468b 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -39,7 +39,7 @@ impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
                 _phantom: PhantomData,
             }
         } else {
-            let cap = self.strategy.calc_capacity(min_size);
+            let cap = self.strategy.calc_capacity(min_size).max(min_size);
             let to_append = std::mem::replace(buf, Vec::with_capacity(cap));
             Request {
                 to_append,
-- 
2.43.0


From a85ee6161da307a54a885725e70229f3a098be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 18/23] fix: a cancelled or abandoned request leaves the buffer
 as it was before

---
 .../parcom-sequences/src/generic/control.rs   | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 7ce468b..e143c5e 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -99,15 +99,18 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
         self.buf.set_len(new_len + self.offset);
     }
 
-    fn advance(self) -> Self::Result {
-        if self.to_append.is_empty() {
+    fn advance(mut self) -> Self::Result {
+        let to_append = std::mem::take(&mut self.to_append);
+        self.offset = self.buf.len();
+
+        if to_append.is_empty() {
             Response::Appended {
                 cap: self.buf.capacity(),
                 len: self.buf.len(),
             }
         } else {
             Response::Advance {
-                buf: self.to_append,
+                buf: to_append,
                 cap: self.buf.capacity(),
                 len: self.buf.len(),
             }
@@ -115,7 +118,18 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     }
 
     fn cancel(self, err: Self::Error) -> Self::Result {
-        self.buf.drain(self.offset..);
+        drop(self);
         Response::Cancel(err)
     }
 }
+
+impl<'a, T, E> Drop for Request<'a, T, E> {
+    /// `advance`されなかったリクエストを取り消す。
+    fn drop(&mut self) {
+        if self.to_append.is_empty() {
+            self.buf.truncate(self.offset);
+        } else {
+            *self.buf = std::mem::take(&mut self.to_append);
+        }
+    }
+}
-- 
2.43.0


From edca6cd0d005c1f27ca38b3421a711158c6accc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 19/23] fix: wakers are woken after the list of waiters is
 unlocked

---
 crates/parcom-internals/src/future/notify.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-internals/src/future/notify.rs b/crates/parcom-internals/src/future/notify.rs
index 9abb471..1ca75ba 100644
--- a/crates/parcom-internals/src/future/notify.rs
+++ b/crates/parcom-internals/src/future/notify.rs
@@ -25,7 +25,11 @@ impl Notify {
     pub fn send(&self) {
         self.version.fetch_add(1, Ordering::SeqCst);
         let mut wakers = self.wakers.lock().unwrap();
-        for waker in wakers.drain() {
+        let woken = std::mem::take(&mut *wakers);
+        // `wake`から`self`が操作されうるため、ロックを解放してから呼び出す。
+        drop(wakers);
+
+        for (_, waker) in woken {
             waker.wake();
         }
     }
-- 
2.43.0


From 7c7a80196218525ab67940fe04c9952b7362a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 20/23] hook: signals of the default sequence, under
 cfg(parcom_verif)

---
 crates/parcom-runners/src/default_runner/sequence.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/parcom-runners/src/default_runner/sequence.rs b/crates/parcom-runners/src/default_runner/sequence.rs
index bff0df4..335b638 100644
--- a/crates/parcom-runners/src/default_runner/sequence.rs
+++ b/crates/parcom-runners/src/default_runner/sequence.rs
@@ -34,6 +34,14 @@ where
             }),
         }
     }
+
+    #[cfg(parcom_verif)]
+    pub fn signals(&self) -> (Arc<Notify>, Arc<AtomicBool>) {
+        (
+            Arc::clone(&self.inner.append_signal),
+            Arc::clone(&self.inner.done_flag),
+        )
+    }
 }
 
 struct DefaultSequenceInner<S, B>
-- 
2.43.0


From c9ec851b924353263eeef4a7250df526efff43b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 21/23] fix: an advance that has to wait keeps what is still
 missing

---
 crates/parcom-runners/src/default_runner/sequence/advance.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index b2915aa..f8a0d69 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -59,6 +59,7 @@ where
             return Poll::Ready(DefaultSequence { inner: sequence });
         }
 
+        *this.remain = remain;
         cx.waker().wake_by_ref();
 
         Poll::Pending
-- 
2.43.0


From 9258ffcb9134a6c8a12e804eafbfc364a1ba44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 22/23] fix: the end is read before the last look for data

---
 crates/parcom-runners/src/default_runner/sequence/advance.rs | 4 +++-
 .../parcom-runners/src/default_runner/sequence/segments.rs   | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index f8a0d69..2b85bda 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -47,10 +47,12 @@ where
         };
         this.fut.set(OptionFuture::some(fut));
 
+        // `advance`の後に読み取ると、その間に追加されたデータを見落とす。
+        let done = sequence.done_flag.load(Ordering::SeqCst);
         let remain = std::mem::replace(this.remain, Default::default());
         let remain = sequence.buffer.advance(remain);
 
-        if &remain == this.remain || sequence.done_flag.load(Ordering::SeqCst) {
+        if &remain == this.remain || done {
             // `sequence`をtakeする前に`fut`がdropされることを保証する。
             this.fut.set(OptionFuture::none());
             // `this.remain == Default::default()`であるため、`remain == Default::default()`つまり`remain`が0になっている。
diff --git a/crates/parcom-runners/src/default_runner/sequence/segments.rs b/crates/parcom-runners/src/default_runner/sequence/segments.rs
index 10374a8..dffe59b 100644
--- a/crates/parcom-runners/src/default_runner/sequence/segments.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/segments.rs
@@ -91,13 +91,16 @@ where
         let fut = this.host.append_signal.wait();
         // `this.host.iter.next()`が`None`を返したあと、`this.host.append_signal.wait()`を呼ぶ前に次のセグメントが追加されたか終了した場合のため、(1)・(2)のチェックをする。
 
+        // (1)の後に読み取ると、その間に追加されたセグメントを見落とす。
+        let done = this.host.done_flag.load(Ordering::SeqCst);
+
         // (1): セグメントが末尾に追加されたか。
         if let Some(seg) = this.host.iter.next() {
             return Poll::Ready(Some(seg));
         }
 
         // (2): シーケンスが終了したか。
-        if this.host.done_flag.load(Ordering::SeqCst) {
+        if done {
             return Poll::Ready(None);
         }
 
-- 
2.43.0


From 359c08c52ee094b77e497badb98b2fc606985512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:50 +0000
Subject: [PATCH 23/23] fix: release the blocks of the growable buffer without
 recursion

Dropping (or advancing past) a chain of blocks released each block from within the
release of the one before it, so that a long input overflowed the stack.
---
 crates/parcom-sequences/src/generic.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index 8903151..a332cfa 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -15,6 +15,16 @@ struct Node<T> {
     next: Arc<OnceLock<Node<T>>>,
 }
 
+impl<T> Drop for Node<T> {
+    /// 後続のノードを解放する。再帰的に解放すると、ノード数に比例してスタックを消費してしまう。
+    fn drop(&mut self) {
+        while let Some(mut node) = Arc::get_mut(&mut self.next).and_then(OnceLock::take) {
+            // `node.next`は空になったセルになるため、`node`のdropは後続のノードに及ばない。
+            std::mem::swap(&mut self.next, &mut node.next);
+        }
+    }
+}
+
 pub struct GenericSequenceBuilder<B: BufferStrategy> {
     strategy: Arc<B>,
 }
-- 
2.43.0

