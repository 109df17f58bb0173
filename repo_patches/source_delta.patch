From e5b46963b6adb2f0480daec3acb40e0565c0aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 01/81] fix: tokenize_abe keeps the empty component after a
 trailing delimiter

---
 crates/abe/src/ast.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/abe/src/ast.rs b/crates/abe/src/ast.rs
index 3b33bbd..8d299ab 100644
--- a/crates/abe/src/ast.rs
+++ b/crates/abe/src/ast.rs
@@ -572,8 +572,10 @@ pub fn tokenize_abe_b(
     let mut start_comp = 0;
     let mut with_inner = false;
     let len = todo.len();
+    // a trailing delimiter is followed by an empty component
+    let mut finished = st.is_empty();
     std::iter::from_fn(move || {
-        if todo.is_empty() {
+        if finished {
             return None;
         };
         loop {
@@ -586,9 +588,8 @@ pub fn tokenize_abe_b(
                     if depth != 0 {
                         return Some(Err(ASTParseError::UnmatchedOpen));
                     }
-                    let at = len - todo.len();
-                    todo = &[];
-                    return Some(Ok((head_ctr, with_inner, &st[start_comp..at])));
+                    finished = true;
+                    return Some(Ok((head_ctr, with_inner, &st[start_comp..])));
                 }
                 Byte::Ctr { kind, rest } => {
                     if depth == 0 && !kind.is_bracket() {
-- 
2.43.0


From 2ac610aaf60b1a762b6b16ad35966e0ef921cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 02/81] fix: padding to a length that can not be allocated is
 an error instead of an abort

---
 crates/abe/src/scope/bytes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 442da63..a143a54 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -54,7 +54,9 @@ impl EvalScopeImpl for BytesFE {
             if padb.len() != 1 {
                 return Err(anyhow!("pad byte should be a single byte"));
             };
-            let mut v = vec![padb[0]; len];
+            let mut v = Vec::new();
+            v.try_reserve_exact(len)?;
+            v.resize(len, padb[0]);
             if !left {
                 &mut v[0..bytes.len()]
             } else {
-- 
2.43.0


From e9235b1c76569af63efea5ac43516530cd1740b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 03/81] fix: 'replace' with an empty pattern is an error
 instead of an endless loop

---
 crates/abe/src/scope/bytes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index a143a54..6eb1693 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -116,7 +116,10 @@ impl EvalScopeImpl for BytesFE {
             ("~rcut",1..=2,"[bytes,length = 16] - lcut without error",|_,i:&[&[u8]]| cut(i,false,false)),
             ("lfixed",1..=3,"[bytes,length = 16,pad_byte = \\0] - left pad and cut input bytes",|_,i:&[&[u8]]| pad(i,true,0,false,true)),
             ("rfixed",1..=3,"[bytes,length = 16,pad_byte = \\0] - right pad and cut input bytes",|_,i:&[&[u8]]| pad(i,false,0,false,true)),
-            ("replace",3..=3,"[bytes,from,to] - replace pattern from to to",|_,i:&[&[u8]]| replace(i.try_into().unwrap())),
+            ("replace",3..=3,"[bytes,from,to] - replace pattern from to to",|_,i:&[&[u8]]| {
+                if i[1].is_empty() { return Err(anyhow!("the pattern is empty")); }
+                Ok(replace(i.try_into().unwrap()))
+            }),
 
             ("slice",1..=4,"[bytes,start=0,stop=len,step=1] - python like slice indexing",|_,i:&[&[u8]]|{
                 slice(i[0],&i[1..]).map(|i| i.copied().collect::<Vec<u8>>() )
-- 
2.43.0


From a28bd20f36238e4df0627b70a1f8f24a7ba98131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 04/81] fix: 'slice' with bounds or steps near the integer
 limits

---
 crates/abe/src/scope/bytes.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 6eb1693..a4244e6 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -181,13 +181,14 @@ pub fn slice<'o, F>(
 
     let (sb, eb) = if step >= 0 { (0, len) } else { (len - 1, -1) };
 
+    let to_isize = |val: usize| isize::try_from(val).unwrap_or(isize::MAX);
     let to_bound = |v: Option<SignedInt>| -> Option<isize> {
         match v {
             Some(SignedInt { neg: false, val }) => {
-                Some((val as isize).clamp(sb.min(eb), sb.max(eb)))
+                Some(to_isize(val).clamp(sb.min(eb), sb.max(eb)))
             }
             Some(SignedInt { neg: true, val }) => {
-                Some((len - val as isize).clamp(sb.min(eb), sb.max(eb)))
+                Some((len - to_isize(val)).clamp(sb.min(eb), sb.max(eb)))
             }
             None => None,
         }
@@ -201,7 +202,7 @@ pub fn slice<'o, F>(
             return None;
         }
         let result = bytes.get(i as usize)?;
-        i += step;
+        i = i.saturating_add(step);
         Some(result)
     }))
 }
-- 
2.43.0


From c1f1562e21471216c243e55618706d2921f1a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 05/81] fix: replace_abe with an empty pattern replaces nothing
 instead of panicking

---
 crates/abe/src/ast.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/abe/src/ast.rs b/crates/abe/src/ast.rs
index 8d299ab..d76bc76 100644
--- a/crates/abe/src/ast.rs
+++ b/crates/abe/src/ast.rs
@@ -635,6 +635,9 @@ pub fn replace_abe(inp: &mut Vec<ABE>, pattern: &[ABE], new: &[ABE]) {
             replace_abe(lst, pattern, new)
         }
     }
+    if pattern.is_empty() {
+        return;
+    }
     let mut i = 0;
     while let Some(r) = &inp[i..].windows(pattern.len()).position(|w| w == pattern) {
         i += r;
-- 
2.43.0


From f7f4cc89b687c45073345aab95d1fe5335672424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 06/81] fix: '+' and '-' on empty operands do not index out of
 bounds

---
 crates/abe/src/scope/uint.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/crates/abe/src/scope/uint.rs b/crates/abe/src/scope/uint.rs
index 2a7489c..2dacff5 100644
--- a/crates/abe/src/scope/uint.rs
+++ b/crates/abe/src/scope/uint.rs
@@ -16,30 +16,20 @@ where
 pub fn carry_add_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
-    loop {
+    for idx in (0..bytes.len()).rev() {
         let (ni, nc) = bytes[idx].carrying_add(val[idx], carry);
         bytes[idx] = ni;
         carry = nc;
-        if idx == 0 {
-            break;
-        }
-        idx -= 1;
     }
     carry
 }
 pub fn carry_sub_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
-    loop {
+    for idx in (0..bytes.len()).rev() {
         let (ni, nc) = bytes[idx].borrowing_sub(val[idx], carry);
         bytes[idx] = ni;
         carry = nc;
-        if idx == 0 {
-            break;
-        }
-        idx -= 1;
     }
     carry
 }
-- 
2.43.0


From 666c32bff08922fe982a3f3399655ec9166fdfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 07/81] fix: the b2 and b16 encoders only accept bytes that
 decode to the same value

---
 crates/abe/src/scope/base.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/abe/src/scope/base.rs b/crates/abe/src/scope/base.rs
index 88ba3a4..243591c 100644
--- a/crates/abe/src/scope/base.rs
+++ b/crates/abe/src/scope/base.rs
@@ -31,6 +31,11 @@ fn enc_bin(bytes: &[u8], opts: &[ABE], radix: u32) -> ApplyResult<String> {
     if !len_set.is_empty() && !len_set.contains(&bytes.len()) {
         return ApplyResult::NoValue;
     }
+    // decoding yields a number of at most 16 bytes without leading zeros
+    let is_number = bytes == [0] || (bytes.len() <= 16 && bytes.first().is_some_and(|b| *b != 0));
+    if !is_number {
+        return ApplyResult::NoValue;
+    }
     use std::fmt::Write;
     match radix {
         2 => {
-- 
2.43.0


From c19fe1c8591c8f8c4683723fcc3a3656dac01930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 08/81] fix: deeply nested expressions are refused instead of
 overflowing the stack

---
 crates/abe/src/ast.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/abe/src/ast.rs b/crates/abe/src/ast.rs
index d76bc76..675a12a 100644
--- a/crates/abe/src/ast.rs
+++ b/crates/abe/src/ast.rs
@@ -372,6 +372,10 @@ impl Display for Expr {
 use thiserror::Error;
 
 use self::collect::ABTok;
+
+/// Expressions are read, evaluated, and dropped recursively. Deeper nesting could overflow the stack.
+pub const MAX_DEPTH: usize = 256;
+
 #[derive(Error, Debug)]
 pub enum ASTParseError {
     #[error("ABTxt Error {}",.0)]
@@ -382,6 +386,8 @@ pub enum ASTParseError {
     UnmatchedOpen,
     #[error("Newline in brackets")]
     NewlineInBrackets,
+    #[error("Brackets are nested more than {MAX_DEPTH} deep")]
+    TooDeep,
 }
 
 mod collect {
@@ -456,6 +462,9 @@ pub fn parse_abe_strict_b(st: &[u8]) -> Result<Vec<ABE>, ASTParseError> {
                 todo = rest;
                 // Open Brackets increase the depth, and match their close brackets
                 match kind {
+                    CtrChar::OpenBracket if depth == MAX_DEPTH => {
+                        return Err(ASTParseError::TooDeep)
+                    }
                     CtrChar::OpenBracket => depth += 1,
                     CtrChar::CloseBracket if depth == 0 => {
                         return Err(ASTParseError::UnmatchedClose)
@@ -509,6 +518,9 @@ pub fn parse_abe_with_unencoded_b(st: &[u8]) -> Result<Vec<ABE>, ASTParseError>
                 todo = rest;
                 // Open Brackets increase the depth, and match their close brackets
                 match kind {
+                    CtrChar::OpenBracket if depth == MAX_DEPTH => {
+                        return Err(ASTParseError::TooDeep)
+                    }
                     CtrChar::OpenBracket => depth += 1,
                     CtrChar::CloseBracket if depth == 0 => {
                         return Err(ASTParseError::UnmatchedClose)
-- 
2.43.0


From 2aa8d19e8ea14ac6636ddc9c5b0d177da91f312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 09/81] fix: options without a value are found, and lists
 without a leading delimiter give the right value

---
 crates/abe/src/abconf.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/crates/abe/src/abconf.rs b/crates/abe/src/abconf.rs
index 348f1cc..0495b30 100644
--- a/crates/abe/src/abconf.rs
+++ b/crates/abe/src/abconf.rs
@@ -57,11 +57,15 @@ impl ABConf {
         starts_with: &[&[u8]],
     ) -> Option<Result<Option<&[u8]>, &ABList>> {
         match &self.get_checked(starts_with).next()? {
-            Ok(lst) => match &lst[starts_with.len() - 1..] {
-                [(Some(Ctr::Colon), bytes)] => Some(Ok(Some(bytes.as_slice()))),
-                [] => Some(Ok(None)),
-                _ => Some(Err(lst)),
-            },
+            Ok(lst) => {
+                // the empty component in front of a leading delimiter has no entry of its own
+                let head = lst.first().is_some_and(|(ctr, _)| ctr.is_some()) as usize;
+                match &lst[starts_with.len().saturating_sub(head)..] {
+                    [(Some(Ctr::Colon), bytes)] => Some(Ok(Some(bytes.as_slice()))),
+                    [] => Some(Ok(None)),
+                    _ => Some(Err(lst)),
+                }
+            }
             Err(v) => Some(Err(v)),
         }
     }
@@ -86,14 +90,8 @@ impl ABConf {
         starts_with: &'b [&[u8]],
     ) -> impl Iterator<Item = &'a ABList> + 'b {
         self.0.iter().rev().filter(move |a| {
-            if a.len() < starts_with.len() {
-                return false;
-            }
-            let ok = starts_with
-                .iter()
-                .zip(a.iter_bytes())
-                .all(|(b, opt)| b == &opt);
-            ok
+            let mut components = a.iter_bytes();
+            starts_with.iter().all(|b| components.next() == Some(*b))
         })
     }
     pub fn try_from(mut inp: &[u8]) -> anyhow::Result<Self> {
-- 
2.43.0


From 024ab746c6dfcc380f6c977999b4facb91d84989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 10/81] fix: fields written as expressions keep their bytes
 instead of escaping them twice

---
 crates/byte-fmt/src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/byte-fmt/src/lib.rs b/crates/byte-fmt/src/lib.rs
index c7a5042..5450058 100644
--- a/crates/byte-fmt/src/lib.rs
+++ b/crates/byte-fmt/src/lib.rs
@@ -159,12 +159,11 @@ where
     fn write_abe(&self, out: &mut dyn FnMut(ABE)) {
         let (max_padded, bytes) = self.x_prefix_cut();
         let mode = if max_padded { MAX_STR } else { "a" };
-        let st = abe::abtxt::as_abtxt(bytes);
-        let st: &str = st.borrow();
+        // expressions hold plain bytes, they are escaped once printed
         if self.as_ref().len() == 16 {
-            abe::abe!({ mode : st  }).for_each(out)
+            abe::abe!({ mode : bytes }).for_each(out)
         } else {
-            abe::abe!({ mode : st : (self.as_ref().len().to_string()) }).for_each(out)
+            abe::abe!({ mode : bytes : (self.as_ref().len().to_string()) }).for_each(out)
         }
     }
     fn to_abe_str(&self) -> String {
-- 
2.43.0


From 69a22b9f4ddac88c0b3f9eff8ca0fa04da4de739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 11/81] fix: a cut record in the port map no longer shifts the
 records after it

---
 crates/ipcbus/src/udp_procbus.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index daaba3f..c0faf55 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -43,6 +43,8 @@ pub fn get_port(bus_id: u64) -> std::io::Result<u16> {
             return Ok(saved_port);
         };
     }
+    // a record that was only partially written is dropped, otherwise every record after it is misread
+    bytes.truncate(bytes.len() - bytes.len() % 10);
     bytes.extend(bus_id.to_ne_bytes());
     new_port = new_port.saturating_add(1);
     bytes.extend(new_port.to_ne_bytes());
-- 
2.43.0


From d56c39822855df7678a0e7e8a9960e041152f4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 12/81] fix: the port map survives a process that dies while
 writing it

---
 crates/ipcbus/src/udp_procbus.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index c0faf55..f86cdd3 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -48,7 +48,10 @@ pub fn get_port(bus_id: u64) -> std::io::Result<u16> {
     bytes.extend(bus_id.to_ne_bytes());
     new_port = new_port.saturating_add(1);
     bytes.extend(new_port.to_ne_bytes());
-    std::fs::write(&path, bytes).unwrap();
+    // replaced in one step, dying halfway must not lose the ports other processes already use
+    let tmp = path.with_extension("map.tmp");
+    std::fs::write(&tmp, bytes).unwrap();
+    std::fs::rename(&tmp, &path).unwrap();
     lockfile.unlock().unwrap();
     Ok(new_port)
 }
-- 
2.43.0


From 901e6386a35fa18e74ba5083d383824955871cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 13/81] fix: a malformed message no longer ends the thread that
 listens to the bus

---
 crates/ipcbus/src/udp_procbus.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index f86cdd3..3d4e5bb 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -131,6 +131,11 @@ impl ProcBus {
         self.0.listener.get_or_init(move || {
             let this = ProcBus(self.0.clone());
             self.0.udp.rx_thread(move |b| {
+                // any process can send to this port, an odd message must not end the thread
+                if b.len() != 8 + 4 + 8 {
+                    tracing::warn!(len = b.len(), "Ignoring malformed message");
+                    return;
+                }
                 let (busid, rest) = b.split_at(8);
                 let busid = u64::from_ne_bytes(busid.try_into().unwrap());
                 if busid != this.0.bus_id {
-- 
2.43.0


From a1bab5fa201dc9aafb06a534092dabe4ed47c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 14/81] fix: a point whose size is less than its own header is
 refused

---
 crates/pkt/src/point.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/pkt/src/point.rs b/crates/pkt/src/point.rs
index 2769730..cf66618 100644
--- a/crates/pkt/src/point.rs
+++ b/crates/pkt/src/point.rs
@@ -67,6 +67,9 @@ impl PointHeader {
         if self.reserved != 0 {
             return Err(Error::HeaderReservedSet(self.reserved));
         }
+        if (self.upoint_size() as usize) < size_of::<PointHeader>() {
+            return Err(Error::ContentLen);
+        }
         let len = self.ucontent_size() as usize;
         if len > MAX_CONTENT_SIZE {
             return Err(Error::ContentLen);
-- 
2.43.0


From acfef70b399e3e280114a9c0c45bcded1847ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 15/81] fix: reading a packet with a malformed space fails
 instead of panicking in debug builds

---
 crates/pkt/src/point_ptr.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/pkt/src/point_ptr.rs b/crates/pkt/src/point_ptr.rs
index f182c6c..0914fab 100644
--- a/crates/pkt/src/point_ptr.rs
+++ b/crates/pkt/src/point_ptr.rs
@@ -254,7 +254,6 @@ impl PointThinPtr {
         let isp_bytes = core::slice::from_ptr_range(ptr.add(is_offset)..ptr.add(data_offset));
         let data = core::slice::from_ptr_range(ptr.add(data_offset)..ptr.add(size.into()));
         let rspace = RootedSpace::from_unchecked(isp_bytes);
-        debug_assert!(rspace.check_components().is_ok(), "{rspace:?}");
         Tail {
             rspace,
             data,
-- 
2.43.0


From caa04125e769c2b927e6a5a638e9edb38f891cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 16/81] fix: the depth of a rooted space with 8 components is
 checked

---
 crates/pkt/src/rooted_space.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/pkt/src/rooted_space.rs b/crates/pkt/src/rooted_space.rs
index 84a622e..73d2082 100644
--- a/crates/pkt/src/rooted_space.rs
+++ b/crates/pkt/src/rooted_space.rs
@@ -231,6 +231,10 @@ impl RootedSpace {
             }
             i += 1;
         }
+        // with all 8 components in use the loop never came to the end of the space
+        if len != 8 {
+            return Err(SpaceError::EmptyComponentIdx);
+        }
         Ok(())
     }
 
-- 
2.43.0


From bd7188dd6d406e07a5bb2816bc403da5c4f36f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 17/81] fix: a space never has more than 8 components

---
 crates/pkt/src/space.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index a193cb5..4770c2a 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -252,6 +252,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + p.inner_bytes.len() > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.iter().count() + p.iter().count() > MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.splice(0..0, p.inner_bytes.iter().cloned());
         Ok(self)
     }
@@ -265,6 +268,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + component.len() + 1 > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.iter().count() >= MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.push(component.len().try_into().unwrap());
         self.inner_bytes.extend_from_slice(component);
         Ok(self)
@@ -283,6 +289,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + component.len() + 1 > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.iter().count() >= MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.splice(
             0..0,
             [component.len().try_into().unwrap()]
@@ -344,6 +353,9 @@ impl Space {
                         Err(e) => return Err(e),
                     }
                     i += 1;
+                    if i > MAX_SPACE_DEPTH as u8 {
+                        return Err(SpaceError::MaxDepth);
+                    }
                 }
                 Ok(i)
             }
@@ -712,6 +724,9 @@ impl Space {
                 count += 1;
             }
         }
+        if it.next().is_some() {
+            return Err(SpaceError::MaxDepth);
+        }
         data[0] = count;
         let v = RootedSpaceBuf::from_unchecked(data);
         debug_assert!(
-- 
2.43.0


From 5eaa2a0c1dc8fd4c06b28b75fe809ad487296bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 18/81] fix: the free space of a signed packet accounts for the
 link point header

---
 crates/pkt/src/consts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pkt/src/consts.rs b/crates/pkt/src/consts.rs
index 278179c..dd6940c 100644
--- a/crates/pkt/src/consts.rs
+++ b/crates/pkt/src/consts.rs
@@ -17,7 +17,7 @@ pub const MAX_CONTENT_SIZE: usize = MAX_POINT_SIZE - size_of::<PointHeader>();
 
 pub const MAX_DATA_SIZE: usize = MAX_CONTENT_SIZE;
 pub const MAX_LINKPOINT_DATA_SIZE: usize = MAX_CONTENT_SIZE - size_of::<LinkPointHeader>();
-pub const MAX_KEYPOINT_DATA_SIZE: usize = MAX_CONTENT_SIZE - size_of::<Signed>();
+pub const MAX_KEYPOINT_DATA_SIZE: usize = MAX_LINKPOINT_DATA_SIZE - size_of::<Signed>();
 pub const MAX_LINKS_LEN: usize = (MAX_POINT_SIZE - MAX_SPACENAME_SIZE) / size_of::<Link>();
 pub const MAX_SPACENAME_SIZE: usize = 242;
 pub const MAX_ROOTED_SPACENAME_SIZE: usize = MAX_SPACENAME_SIZE + 8;
-- 
2.43.0


From ec3129adafba2804a7043d96ff91f9b84afdd4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 19/81] fix: a signed packet with a replaced network header
 keeps its signature

---
 crates/pkt/src/byte_segments.rs  | 20 ++++++++++++--------
 crates/pkt/src/netpkt/reroute.rs |  7 ++++++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/pkt/src/byte_segments.rs b/crates/pkt/src/byte_segments.rs
index fb5fa7b..232919c 100644
--- a/crates/pkt/src/byte_segments.rs
+++ b/crates/pkt/src/byte_segments.rs
@@ -6,7 +6,7 @@
 Utility to create packets from multiple byte slices without allocating.
 **/
 #[derive(Clone, Debug)]
-pub struct ByteSegments<'a>(pub(crate) [&'a [u8]; 8]);
+pub struct ByteSegments<'a>(pub(crate) [&'a [u8]; 9]);
 
 impl<'a> ExactSizeIterator for ByteSegments<'a> {
     #[inline(always)]
@@ -16,7 +16,7 @@ impl<'a> ExactSizeIterator for ByteSegments<'a> {
     }
     #[inline]
     fn is_empty(&self) -> bool {
-        self.0 == [&[] as &[u8]; 8]
+        self.0 == [&[] as &[u8]; 9]
     }
 }
 
@@ -62,6 +62,10 @@ impl<'a> Iterator for ByteSegments<'a> {
             self.0[7] = tail;
             return Some(*h);
         }
+        if let Some((h, tail)) = self.0[8].split_first() {
+            self.0[8] = tail;
+            return Some(*h);
+        }
         None
     }
 }
@@ -79,7 +83,7 @@ impl<'a> ByteSegments<'a> {
     #[inline(always)]
     pub const fn from_array<const N: usize>(segments: [&'a [u8]; N]) -> Self {
         assert!(N < 8, "not supported");
-        let mut r: [&'a [u8]; 8] = [&[]; 8];
+        let mut r: [&'a [u8]; 9] = [&[]; 9];
         let mut i = 0;
         while i < N {
             r[i] = segments[i];
@@ -95,12 +99,12 @@ impl<'a> ByteSegments<'a> {
     #[must_use]
     #[inline(always)]
     pub(crate) fn push_front(self, head: &'a [u8]) -> Self {
-        let [a, b, c, d, e, f, g, h] = self.0;
+        let [a, b, c, d, e, f, g, h, i] = self.0;
         debug_assert!(
-            h.is_empty(),
+            i.is_empty(),
             "segmented packet construction stacked to deep"
         );
-        ByteSegments([head, a, b, c, d, e, f, g])
+        ByteSegments([head, a, b, c, d, e, f, g, h])
     }
     #[inline]
     pub fn to_bytes(self) -> Box<[u8]> {
@@ -113,7 +117,7 @@ impl<'a> ByteSegments<'a> {
     #[inline(always)]
     pub const unsafe fn write_segments_unchecked(self, mut dest: *mut u8) -> *mut u8 {
         let mut i = 0;
-        while i < 8 {
+        while i < 9 {
             let len = self.0[i].len();
             if len > 0 {
                 core::ptr::copy_nonoverlapping(self.0[i].as_ptr(), dest, len);
@@ -124,7 +128,7 @@ impl<'a> ByteSegments<'a> {
         dest
     }
     #[inline(always)]
-    pub fn io_slices(self) -> [std::io::IoSlice<'a>; 8] {
+    pub fn io_slices(self) -> [std::io::IoSlice<'a>; 9] {
         self.0.map(std::io::IoSlice::new)
     }
     #[inline(always)]
diff --git a/crates/pkt/src/netpkt/reroute.rs b/crates/pkt/src/netpkt/reroute.rs
index 7fb3d30..2c91ea5 100644
--- a/crates/pkt/src/netpkt/reroute.rs
+++ b/crates/pkt/src/netpkt/reroute.rs
@@ -44,7 +44,12 @@ impl<T: NetPkt + ?Sized> NetPkt for ReroutePkt<T> {
     }
     fn byte_segments(&self) -> ByteSegments {
         let mut segm = self.pkt.byte_segments();
-        segm.0[0] = &segm.0[0][size_of::<NetPktHeader>()..];
+        let rest = &segm.0[0][size_of::<NetPktHeader>()..];
+        if rest.is_empty() {
+            segm.0[0] = self.net_header.as_bytes();
+            return segm;
+        }
+        segm.0[0] = rest;
         segm.push_front(self.net_header.as_bytes())
     }
     fn as_netbox(&self) -> crate::NetPktBox {
-- 
2.43.0


From 44d543b973d7eb0a040cb8ac4d94d6793c16655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 20/81] fix: escaped characters in html end with a semicolon

---
 crates/pkt/src/repr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/pkt/src/repr.rs b/crates/pkt/src/repr.rs
index 4cd479b..99ee5f1 100644
--- a/crates/pkt/src/repr.rs
+++ b/crates/pkt/src/repr.rs
@@ -223,9 +223,9 @@ impl<X: Display> Display for EscapeHTML<X> {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         for ch in self.0.to_string().chars() {
             match ch {
-                '&' => f.write_str("&amp")?,
-                '<' => f.write_str("&lt")?,
-                '>' => f.write_str("&gt")?,
+                '&' => f.write_str("&amp;")?,
+                '<' => f.write_str("&lt;")?,
+                '>' => f.write_str("&gt;")?,
                 o => write!(f, "{o}")?,
             }
         }
-- 
2.43.0


From 707714cb2587da8c544dd535a075242d9b9fbe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 21/81] fix: [si] takes a range of components instead of
 panicking

---
 crates/pkt/src/space_fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/pkt/src/space_fmt.rs b/crates/pkt/src/space_fmt.rs
index 3784f2c..c0851e4 100644
--- a/crates/pkt/src/space_fmt.rs
+++ b/crates/pkt/src/space_fmt.rs
@@ -316,8 +316,8 @@ impl EvalScopeImpl for SpaceFE {
                 .get(2)
                 .map(|i| parse_b::<usize>(i))
                 .transpose()?
-                .unwrap_or(start + 1)
-                .max(9);
+                .unwrap_or(start.saturating_add(1))
+                .min(8);
             ensure!(start <= 8, "space max depth is 8");
             ensure!(end >= start, "end < start");
             Ok(start..end)
-- 
2.43.0


From 9ce670b50af28b4f5d32b11e5a7db5284e291668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 22/81] fix: a contradictory mask predicate matches no value
 instead of panicking

---
 crates/core/src/predicate/value_test.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index fc73bfe..d1c6438 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -352,6 +352,9 @@ impl<U: UInt> Mask<U> {
     }
 
     pub fn in_set(&self, val: U) -> Option<U> {
+        if !self.has_any() {
+            return None;
+        }
         let (overflow, v) = self.overflowing_in_set(val);
         if overflow {
             None
-- 
2.43.0


From 35980e8ed83bd568dc57381787ce572cae1389a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 23/81] fix: >= and <= at the end of a range keep requiring the
 field and accept short domains

---
 crates/core/src/predicate/exprs.rs | 45 +++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/crates/core/src/predicate/exprs.rs b/crates/core/src/predicate/exprs.rs
index f6f2992..f5cd338 100644
--- a/crates/core/src/predicate/exprs.rs
+++ b/crates/core/src/predicate/exprs.rs
@@ -104,28 +104,29 @@ impl From<Predicate> for ExtPredicate {
 impl ExtPredicate {
     pub fn try_iter(self) -> Result<impl Iterator<Item = Predicate>, TestEvalErr> {
         let ExtPredicate { kind, op, mut val } = self;
-        let once_op: Option<TestOp> = match op {
+        // the test that's always true still requires the packet to have the field.
+        let op: TestOp = match op {
             ExtendedTestOp::GreaterEq => {
-                if val.len() != 1 {
-                    return Err(TestEvalErr::Err("Can't >= this value"));
-                }
-                if super::uint::u8_be::sub_one(&mut val.get_mut()[0].1).is_some() {
-                    Some(TestOp::Greater)
+                let bytes = kind
+                    .ord_bytes(&mut val)
+                    .ok_or(TestEvalErr::Err("Can't >= this value"))?;
+                if super::uint::u8_be::sub_one(bytes).is_some() {
+                    TestOp::Greater
                 } else {
-                    None
+                    TestOp::Nop
                 }
             }
             ExtendedTestOp::LessEq => {
-                if val.len() != 1 {
-                    return Err(TestEvalErr::Err("Can't <= this value"));
-                }
-                if super::uint::u8_be::add_one(&mut val.get_mut()[0].1).is_some() {
-                    Some(TestOp::Less)
+                let bytes = kind
+                    .ord_bytes(&mut val)
+                    .ok_or(TestEvalErr::Err("Can't <= this value"))?;
+                if super::uint::u8_be::add_one(bytes).is_some() {
+                    TestOp::Less
                 } else {
-                    None
+                    TestOp::Nop
                 }
             }
-            ExtendedTestOp::Op(op) => Some(op),
+            ExtendedTestOp::Op(op) => op,
             ExtendedTestOp::TailMask | ExtendedTestOp::HeadMask => {
                 let e = || TestEvalErr::Err("head/tail mask can only apply to fixed len fields");
                 let size = kind.fixed_size().ok_or(e())?;
@@ -164,9 +165,7 @@ impl ExtPredicate {
                 ));
             }
         };
-        Ok(Either::Left(
-            once_op.map(|op| Predicate { kind, op, val }).into_iter(),
-        ))
+        Ok(Either::Left(std::iter::once(Predicate { kind, op, val })))
     }
 }
 
@@ -267,6 +266,18 @@ impl RuleType {
         self.try_canonical(abl.clone())
             .unwrap_or_else(|_| abl.clone().into())
     }
+    /// The bytes of a value to compare by order. A short domain is extended to its padded form.
+    fn ord_bytes(self, val: &mut ABList) -> Option<&mut [u8]> {
+        if val.len() != 1 || val[0].1.is_empty() {
+            return None;
+        }
+        let bytes = &mut val.get_mut()[0].1;
+        if let (RuleType::Field(FieldEnum::DomainF), Some(size)) = (self, self.fixed_size()) {
+            let missing = size.saturating_sub(bytes.len());
+            bytes.splice(0..0, std::iter::repeat(0).take(missing));
+        }
+        Some(bytes)
+    }
     pub fn fixed_size(self) -> Option<usize> {
         match self {
             RuleType::Field(f) => f.fixed_size(),
-- 
2.43.0


From 69f412faf20c33003df447eef0fb155bd554ca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 24/81] fix: fields without a predicate are refused in a query
 instead of panicking

---
 crates/core/src/predicate/pkt_predicates.rs | 24 ++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 5d38b6b..b23f975 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -12,7 +12,7 @@ use crate::{
     predicate::{bitset_test::BitTestSet, exprs::RuleType},
     prelude::ExtPredicate,
 };
-use anyhow::{ensure, Context};
+use anyhow::{bail, ensure, Context};
 
 use super::{
     exprs::{Predicate, QScope},
@@ -280,8 +280,6 @@ impl PktPredicates {
                     FieldEnum::PubKeyF => {
                         self.pubkey.try_add(op, PubKey::try_from(val)?.into())?;
                     }
-                    FieldEnum::SignatureF => todo!(),
-                    FieldEnum::DataF => todo!(),
                     FieldEnum::VarNetFlagsF => self.var_flags.try_add(op, U8::try_from(val)?.0)?,
                     FieldEnum::VarHopF => self.var_hop.try_add(op, U32::try_from(val)?.get())?,
                     FieldEnum::VarStampF => {
@@ -299,15 +297,17 @@ impl PktPredicates {
                     FieldEnum::VarUBits3F => {
                         self.var_ubits[3].try_add(op, U32::try_from(val)?.get())?
                     }
-                    FieldEnum::RSpaceNameF => todo!(),
-                    FieldEnum::SpaceComp0F => todo!(),
-                    FieldEnum::SpaceComp1F => todo!(),
-                    FieldEnum::SpaceComp2F => todo!(),
-                    FieldEnum::SpaceComp3F => todo!(),
-                    FieldEnum::SpaceComp4F => todo!(),
-                    FieldEnum::SpaceComp5F => todo!(),
-                    FieldEnum::SpaceComp6F => todo!(),
-                    FieldEnum::SpaceComp7F => todo!(),
+                    FieldEnum::SignatureF
+                    | FieldEnum::DataF
+                    | FieldEnum::RSpaceNameF
+                    | FieldEnum::SpaceComp0F
+                    | FieldEnum::SpaceComp1F
+                    | FieldEnum::SpaceComp2F
+                    | FieldEnum::SpaceComp3F
+                    | FieldEnum::SpaceComp4F
+                    | FieldEnum::SpaceComp5F
+                    | FieldEnum::SpaceComp6F
+                    | FieldEnum::SpaceComp7F => bail!("field {f} has no predicate"),
                     FieldEnum::DataSizeF => {
                         self.data_size.try_add(op, U16::try_from(val)?.get())?
                     }
-- 
2.43.0


From b102496170b59bccd9e838ec33411ee5a9067328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 25/81] fix: the first of several options in one text is the
 one found

---
 crates/core/src/query.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/query.rs b/crates/core/src/query.rs
index 1db32c1..6ca38e0 100644
--- a/crates/core/src/query.rs
+++ b/crates/core/src/query.rs
@@ -143,12 +143,21 @@ impl Query {
         }
     }
     pub fn parse(&mut self, multiline_stament: &[u8], scope: &dyn Scope) -> anyhow::Result<()> {
+        let mut options = vec![];
         for line in multiline_stament.split(|ch| *ch == b'\n') {
             if line.is_empty() {
                 continue;
             }
             let e = eval(scope, &abe::parse_abe_strict_b(line)?)?;
-            self.add_stmt(e)?;
+            if e.first().is_some_and(|(ctr, _)| ctr.is_some()) {
+                options.push(e);
+            } else {
+                self.add_stmt(e)?;
+            }
+        }
+        // an option is found by reading from top to bottom
+        for e in options.into_iter().rev() {
+            self.add_option_abl(e)?;
         }
         Ok(())
     }
-- 
2.43.0


From 159e5c9041f3ab1688a9afd31b433cbd54c4e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 26/81] fix: taking the first of an empty list is None instead
 of a panic

---
 crates/abe/src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/abe/src/eval.rs b/crates/abe/src/eval.rs
index 9655a37..837be34 100644
--- a/crates/abe/src/eval.rs
+++ b/crates/abe/src/eval.rs
@@ -270,7 +270,7 @@ impl ABList {
         self.0
     }
     pub fn pop_front(&mut self) -> Option<ABLV> {
-        self.0.splice(0..1, None).next()
+        (!self.0.is_empty()).then(|| self.0.remove(0))
     }
 }
 pub type ApplyErr = anyhow::Error;
-- 
2.43.0


From 2a29f4f6bf13089dd8c0cc690853006b9bd45a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 27/81] fix: bit tests on recv are refused instead of ignored

---
 crates/core/src/predicate/pkt_predicates.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index b23f975..12aa893 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -316,7 +316,13 @@ impl PktPredicates {
                     }
                 }
             }
-            RuleType::RecvStamp => self.recv_stamp.try_add(op, U64::try_from(val)?.get())?,
+            RuleType::RecvStamp => {
+                ensure!(
+                    !matches!(op, TestOp::Mask0 | TestOp::Mask1),
+                    "recv only supports a range"
+                );
+                self.recv_stamp.try_add(op, U64::try_from(val)?.get())?
+            }
             RuleType::SpacePrefix => {
                 ensure!(op == TestOp::Equal, "prefix only supports equallity ");
                 let sp = SpaceBuf::try_from(val)?;
-- 
2.43.0


From e78f8686f3f06e9a99793f6d9877ffe4edd215f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 28/81] fix: log queries keep to the recv range in both
 directions and ignore i_branch

---
 crates/core/src/env/lmdb/db.rs      | 28 +++++++++++++++++++---------
 crates/core/src/env/lmdb/queries.rs | 14 ++++++++------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 4f22170..9ed60c9 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -215,6 +215,24 @@ pub mod pktlog {
     }
 }
 
+/// iterate backwards starting from the last key that is not after start
+fn iter_rev_from<'txn>(cursor: RoCursor<'txn>, start: &[u8]) -> Iter<'txn> {
+    let at = match cursor.get(Some(start), None, ffi::MDB_SET_RANGE) {
+        Ok((Some(k), _)) if k == start => Ok(()),
+        Ok(_) => cursor.get(None, None, ffi::MDB_PREV).map(|_| ()),
+        Err(Error::NotFound) => cursor.get(None, None, ffi::MDB_LAST).map(|_| ()),
+        Err(e) => Err(e),
+    };
+    match at {
+        Ok(()) => Iter::Ok {
+            cursor,
+            op: ffi::MDB_GET_CURRENT,
+            next_op: ffi::MDB_PREV,
+        },
+        Err(error) => Iter::Err(error),
+    }
+}
+
 impl<'txn> PktLogCursor<'txn> {
     pub(crate) fn range_uniq(self, start: &u64) -> impl Iterator<Item = (u64, &'txn [u8])> {
         let c = self.0.iter_from(pktlog::bytes(*start));
@@ -229,15 +247,7 @@ impl<'txn> PktLogCursor<'txn> {
         })
     }
     pub(crate) fn range_uniq_rev(self, start: &u64) -> impl Iterator<Item = (u64, &'txn [u8])> {
-        let start = *start;
-        let it = match self.0.get(Some(&pktlog::bytes(start)), None, ffi::MDB_LAST) {
-            Ok(_) | Err(Error::NotFound) => Iter::Ok {
-                cursor: self.0,
-                op: ffi::MDB_GET_CURRENT,
-                next_op: ffi::MDB_PREV,
-            },
-            Err(error) => Iter::Err(error),
-        };
+        let it = iter_rev_from(self.0, &pktlog::bytes(*start));
         it.map_while(|kv| kv.ok()).map(|(k, v)| {
             let k = pktlog::val(k.try_into().unwrap());
             let v = assert_align(v);
diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 7392685..b9bbb55 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -32,7 +32,7 @@ use crate::prelude::{Bound, TestSet};
 use crate::env::query_mode::{Mode, Order, Table};
 use crate::env::tree_key::treekey_checked;
 
-use super::get::{read_pkt, ReadTxn};
+use super::get::{as_recv_ptr, read_pkt, ReadTxn};
 use super::tree_iter::TreeKeysIter;
 use crate::env::RecvPktPtr;
 
@@ -156,11 +156,13 @@ impl<'txn> ReadTxn<'txn> {
     ) -> impl Iterator<Item = RecvPktPtr<'txn>> {
         let (it, recv) = compile_predicates(rules);
         let tests = it.map(|(t, _)| t).collect::<Vec<_>>().into_boxed_slice();
-        let log_range = recv.stamp_range(ord.is_asc());
-        let it = self.log_range(log_range);
-
-        let nth_find_set = rules.state.i_branch.iter(0);
-        let it = it.zip(nth_find_set).filter_map(|(v, ok)| ok.then_some(v));
+        let log = self.0.pkt_cursor();
+        let it = if ord.is_asc() {
+            Either::Left(log.range_uniq(&recv.low).map(as_recv_ptr))
+        } else {
+            Either::Right(log.range_uniq_rev(&recv.high).map(as_recv_ptr))
+        };
+        let it = it.take_while(move |pkt| recv.test(pkt.recv.get()));
         let it = it.filter(move |pkt| tests.test(**pkt));
 
         let nth_log_set = rules.state.i_db.iter(0);
-- 
2.43.0


From 4632e18fa50ee3d6b7627f71aa4b2f474a0a78fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 29/81] fix: hash queries in descending order

---
 crates/core/src/env/lmdb/db.rs      | 10 ++++++++
 crates/core/src/env/lmdb/queries.rs | 40 +++++++++++++----------------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 9ed60c9..7afa104 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -283,6 +283,16 @@ impl<'txn> HashCursor<'txn> {
             (k.try_into().unwrap(), v)
         })
     }
+    pub(crate) fn range_uniq_rev(
+        self,
+        start: &[u8; 32],
+    ) -> impl Iterator<Item = (&'txn [u8; 32], u64)> {
+        let it = iter_rev_from(self.0, start);
+        it.map_while(|kv| kv.ok()).map(|(k, v)| {
+            let v = u64::from_ne_bytes(v.try_into().unwrap());
+            (k.try_into().unwrap(), v)
+        })
+    }
     pub(crate) fn read_uniq(&self, key: &[u8; 32]) -> Result<Option<u64>> {
         match self.0.get(Some(key), None, ffi::MDB_SET) {
             Err(lmdb::Error::NotFound) => Ok(None),
diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index b9bbb55..e515829 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -176,32 +176,28 @@ impl<'txn> ReadTxn<'txn> {
         ord: Order,
     ) -> impl Iterator<Item = Stamp> + '_ {
         use crate::predicate::value_test::*;
-        match ord {
+        let TestSet {
+            bound: Bound { low, high },
+            mask,
+        } = hashset;
+        if mask != Mask::DEFAULT {
+            tracing::warn!("todo impl hash mask jumping");
+        }
+        let cursor = self.0.hash_cursor();
+        let it = match ord {
             Order::Asc => {
-                let TestSet {
-                    bound:
-                        Bound {
-                            low: greater_eq,
-                            high: less_eq,
-                        },
-                    mask,
-                } = hashset;
-                if mask != Mask::DEFAULT {
-                    tracing::warn!("todo impl hash mask jumping");
-                }
-                let greater_eq: B64<[u8; 32]> = greater_eq.into();
-                self.0
-                    .hash_cursor()
-                    .range_uniq(&greater_eq)
-                    .map(|(hash, stamp)| (B64(*hash).into(), stamp))
-                    .take_while(move |(v, _)| *v <= less_eq)
-                    .filter(move |(v, stamp): &(U256, _)| recv_bound.test(*stamp) && mask.test(v))
-                    .map(|(_, stamp)| stamp.into())
+                let start: B64<[u8; 32]> = low.into();
+                Either::Left(cursor.range_uniq(&start))
             }
             Order::Desc => {
-                todo!("hash desc not yet impl");
+                let start: B64<[u8; 32]> = high.into();
+                Either::Right(cursor.range_uniq_rev(&start))
             }
-        }
+        };
+        it.map(|(hash, stamp)| (B64(*hash).into(), stamp))
+            .take_while(move |(v, _)| low <= *v && *v <= high)
+            .filter(move |(v, stamp): &(U256, _)| recv_bound.test(*stamp) && mask.test(v))
+            .map(|(_, stamp)| stamp.into())
     }
     pub fn query_hash(
         &'txn self,
-- 
2.43.0


From b9530a43db48d31ae39e4191a83352282c3050b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 30/81] fix: a tree query without possible depths has no
 results instead of a panic

---
 crates/core/src/env/lmdb/queries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index e515829..7e8fc3d 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -43,7 +43,7 @@ impl<'txn> ReadTxn<'txn> {
         order: Order,
     ) -> Option<(TreeEntryRef<'txn>, TreeKeysIter<'txn>)> {
         let req = rules.compile_tree_keys(order.is_asc()).unwrap();
-        let lower_bound = req.lower_bound().unwrap();
+        let lower_bound = req.lower_bound().ok()?;
         let iter_dup = self.0.tree_cursor().iter_dup(order.is_asc());
         let at = iter_dup
             .set_range(&lower_bound)
-- 
2.43.0


From ac2ee6257f3faeafcb5a032606489c10ff8f5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 31/81] fix: tree queries by depth, prefix and key no longer
 jump over matching branches

---
 crates/core/src/env/lmdb/tree_iter.rs | 21 +++++++++------------
 crates/core/src/predicate/treekey.rs  | 15 ++++++++-------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/crates/core/src/env/lmdb/tree_iter.rs b/crates/core/src/env/lmdb/tree_iter.rs
index 1ccab16..8c74c37 100644
--- a/crates/core/src/env/lmdb/tree_iter.rs
+++ b/crates/core/src/env/lmdb/tree_iter.rs
@@ -91,20 +91,17 @@ impl<'txn> TreeKeysIter<'txn> {
                         (true, true, true) => unreachable!(),
                         (false, _, _) => {
                             tracing::trace!(?depth, "Depth OOB, setting next depth");
-                            jump.push(
-                                self.req
-                                    .depth
-                                    .next_depth(depth.val.unwrap_or(255))
-                                    .unwrap_or(255),
-                            );
+                            jump.push(depth.val.unwrap_or(255));
                         }
                         (true, false, _) => {
-                            jump.push(
-                                self.req
-                                    .depth
-                                    .next_depth(depth.val.unwrap_or(255))
-                                    .unwrap_or(255),
-                            );
+                            let sp_len = at.btree_key.space_segments();
+                            let before_prefix = at.btree_key.space().space_bytes()
+                                < self.req.rspace.space_bytes();
+                            jump.push(if before_prefix {
+                                sp_len
+                            } else {
+                                self.req.depth.next_depth(sp_len).unwrap_or(255)
+                            });
                             tracing::trace!("Prefix OOB, extinding with lowerbound ");
                         }
                         (true, true, false) => {
diff --git a/crates/core/src/predicate/treekey.rs b/crates/core/src/predicate/treekey.rs
index d1418af..9a4352a 100644
--- a/crates/core/src/predicate/treekey.rs
+++ b/crates/core/src/predicate/treekey.rs
@@ -29,7 +29,7 @@ pub struct TreeKeys {
 impl TreeKeys {
     pub fn lower_bound(&self) -> anyhow::Result<Vec<u8>> {
         let mut btree_key = vec![];
-        let (group, domain, depth, rspace, pubkey) = (
+        let (group, domain, depth, rspace) = (
             self.group.info(UInt::MIN).val.context("Empty group set")?,
             self.domain
                 .info(UInt::MIN)
@@ -37,17 +37,18 @@ impl TreeKeys {
                 .context("Empty domain set")?,
             self.depth.info(0).val.context("Empty depthset")?,
             &self.rspace,
-            self.pubkey
-                .info(UInt::MIN)
-                .val
-                .context("Empty pubkey set")?,
         );
-        tracing::trace!(?group,?domain,?depth,%rspace,?pubkey, "lowerbounds");
+        self.pubkey
+            .info(UInt::MIN)
+            .val
+            .context("Empty pubkey set")?;
+        tracing::trace!(?group,?domain,?depth,%rspace, "lowerbounds");
         btree_key.extend_from_slice(&group.to_be_bytes::<32>());
         btree_key.extend_from_slice(&Domain::from(domain).0);
         btree_key.push(depth);
         btree_key.extend(rspace.space_bytes());
-        btree_key.extend_from_slice(&pubkey.to_be_bytes::<32>());
+        // a pubkey is no bound, deeper spaces have a component in its place
+        btree_key.extend_from_slice(&[0; 32]);
         Ok(btree_key)
     }
 }
-- 
2.43.0


From fa6a4a5d50230e561231aef20f566d34139d9c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 32/81] fix: descending tree queries find a single create stamp
 behind newer entries

---
 crates/core/src/env/lmdb/db.rs        |  2 +-
 crates/core/src/env/lmdb/tree_iter.rs | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 7afa104..3834629 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -304,7 +304,7 @@ impl<'txn> HashCursor<'txn> {
 
 pub struct IterDup<'txn> {
     cur: RoCursor<'txn>,
-    value_asc: bool,
+    pub(super) value_asc: bool,
 }
 impl<'o> Debug for IterDup<'o> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
diff --git a/crates/core/src/env/lmdb/tree_iter.rs b/crates/core/src/env/lmdb/tree_iter.rs
index 8c74c37..2631995 100644
--- a/crates/core/src/env/lmdb/tree_iter.rs
+++ b/crates/core/src/env/lmdb/tree_iter.rs
@@ -1,6 +1,6 @@
 use linkspace_pkt::{
     tree_order::{TreeEntryRef, TreeKey, TreeValueBytes},
-    Domain, GroupID,
+    Domain, GroupID, Stamp,
 };
 
 use crate::{prelude::treekey::TreeKeys, stamp_range::IterCmp};
@@ -26,11 +26,22 @@ impl<'txn> TreeKeysIter<'txn> {
             .map(spd)
             .filter(|v| self.req.cstamp.contains(v.create()))
     }
+    // a range with a single stamp has no direction of its own
+    fn stamp_cmp(&self, create: Stamp) -> IterCmp {
+        let range = &self.req.cstamp;
+        if range.contains(create) {
+            IterCmp::In
+        } else if (create < range.lower_bound()) == self.iter_dup.value_asc {
+            IterCmp::Pre
+        } else {
+            IterCmp::Post
+        }
+    }
     fn next_stamp_match(&self, at: &mut TreeEntryRef<'txn>) -> Result<(), ()> {
-        let mut cmp = self.req.cstamp.iter_cmp(at.create());
+        let mut cmp = self.stamp_cmp(at.create());
         while cmp == IterCmp::Pre {
             *at = self.iter_dup.get_next_entry().map(spd).ok_or(())?;
-            cmp = self.req.cstamp.iter_cmp(at.create());
+            cmp = self.stamp_cmp(at.create());
         }
         if cmp == IterCmp::In {
             Ok(())
-- 
2.43.0


From fa624b5781922eb31e5e4f4729c5e8515838fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 33/81] fix: a tree query limited per branch ends after the
 last branch

---
 crates/core/src/env/lmdb/queries.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 7e8fc3d..3caf1e2 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -115,6 +115,7 @@ impl<'txn> ReadTxn<'txn> {
                         Some(false) => {}
                         None => {
                             key_ptr = keys_iter.as_mut().and_then(|v| v.next_scope());
+                            cnt = key_ptr.is_some();
                             yields = nth_find_set.iter(0);
                         }
                     }
-- 
2.43.0


From 7663408a54ca08b1004af26b95f99cb3e412b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 34/81] fix: saving at the stamp of the last packet continues
 after it instead of failing

---
 crates/core/src/env/lmdb/save.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/env/lmdb/save.rs b/crates/core/src/env/lmdb/save.rs
index a2fd020..3efc901 100644
--- a/crates/core/src/env/lmdb/save.rs
+++ b/crates/core/src/env/lmdb/save.rs
@@ -27,7 +27,7 @@ impl LMDBEnv {
         match pktlog.ro().get(None, None, lmdb_sys::MDB_LAST) {
             Ok((Some(recv), _)) => {
                 let last: u64 = super::db::pktlog::val(recv.try_into().unwrap());
-                if last > start {
+                if last >= start {
                     eprintln!("db log saved entries from the future? - this could become undefined behavior");
 
                     start = last + 1;
-- 
2.43.0


From 49c564671237c675d3528e29aa5b5399d7468f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 35/81] fix: a process that dies while it creates a database no
 longer leaves a torn type or id file

---
 crates/core/src/env/lmdb/db.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 3834629..0a33a53 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -10,7 +10,8 @@ use linkspace_pkt::tree_order::TreeValueBytes;
 use lmdb_sys as ffi;
 use std::io;
 use std::io::{ErrorKind, Result};
-use std::{fmt::Debug, io::Write, marker::PhantomData, path::Path};
+use std::sync::atomic::{AtomicUsize, Ordering};
+use std::{fmt::Debug, marker::PhantomData, path::Path};
 
 pub use lmdb::Error;
 
@@ -88,6 +89,24 @@ pub fn as_io(e: lmdb::Error) -> std::io::Error {
     }
 }
 
+/// create a file if it does not exist, other processes see it with all its content or not at all
+fn create_whole(dir: &Path, name: &str, content: &[u8]) -> std::io::Result<()> {
+    static NTH: AtomicUsize = AtomicUsize::new(0);
+    let file = dir.join(name);
+    if file.exists() {
+        return Ok(());
+    }
+    let nth = NTH.fetch_add(1, Ordering::Relaxed);
+    let tmp = dir.join(format!("{name}.{}.{nth}", std::process::id()));
+    std::fs::write(&tmp, content)?;
+    let linked = std::fs::hard_link(&tmp, &file);
+    let _ = std::fs::remove_file(&tmp);
+    match linked {
+        Err(e) if e.kind() != ErrorKind::AlreadyExists => Err(e),
+        _ => Ok(()),
+    }
+}
+
 pub(crate) fn open(path: &Path, make_dir: bool) -> std::io::Result<LMDBEnv> {
     tracing::trace!(?path, make_dir, "open db");
     path.as_os_str().to_str().ok_or(io::Error::new(
@@ -97,19 +116,12 @@ pub(crate) fn open(path: &Path, make_dir: bool) -> std::io::Result<LMDBEnv> {
     if make_dir {
         std::fs::create_dir_all(path)?
     };
-    if let Ok(mut f) = std::fs::File::create_new(path.join("type")) {
-        f.write_all(b"lmdb")?;
-        f.flush()?;
-    }
+    create_whole(path, "type", b"lmdb")?;
     if std::fs::read(path.join("type"))? != b"lmdb" {
         return Err(io::Error::other("db type mismatch"));
     }
     let idfile = path.join("id");
-    if let Ok(mut file) = std::fs::File::create_new(&idfile) {
-        let id: [u8; 8] = linkspace_pkt::now().0;
-        file.write_all(&id)?;
-        file.flush()?;
-    }
+    create_whole(path, "id", &linkspace_pkt::now().0)?;
     let env = open_env(
         path,
         EnvironmentFlags::empty() | EnvironmentFlags::WRITE_MAP | EnvironmentFlags::NO_TLS,
-- 
2.43.0


From eedf6873bd7af692fa470248efb898f0eb522f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 36/81] fix: the initial packets of a database are saved at
 once, a crash no longer loses the roots

---
 crates/core/src/env/lmdb/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/env/lmdb/mod.rs b/crates/core/src/env/lmdb/mod.rs
index 876efad..2fafc3a 100644
--- a/crates/core/src/env/lmdb/mod.rs
+++ b/crates/core/src/env/lmdb/mod.rs
@@ -8,7 +8,7 @@ use std::{
 
 use crate::LNS_ROOTS;
 pub use ipcbus::ProcBus;
-use linkspace_pkt::{NetPkt, NetPktPtr, Stamp, PUBLIC_GROUP_PKT};
+use linkspace_pkt::{NetPkt, NetPktExt, NetPktPtr, Stamp, PUBLIC_GROUP_PKT};
 use lmdb_sys::MDB_envinfo;
 
 use self::{
@@ -56,10 +56,17 @@ impl BTreeEnv {
         if std::env::var_os("LK_FORCE_EMPTY").is_some() {
             return Ok(env);
         }
-        let new = env.save_ptr_one(&PUBLIC_GROUP_PKT)?.is_written();
-        if new && std::env::var_os("LK_NO_LNS").is_none() {
-            let mut roots: Vec<_> = LNS_ROOTS.iter().map(|p| (p, SaveState::Pending)).collect();
-            env.save_ptr(&mut roots)?;
+        let known = env.0.lmdb.read_txn().map(ReadTxn)?;
+        let public: &NetPktPtr = &PUBLIC_GROUP_PKT;
+        let new = known.read_ptr(&public.hash())?.is_none();
+        std::mem::drop(known);
+        if new {
+            // all at once, what is missing is not added later
+            let mut initial = vec![(public, SaveState::Pending)];
+            if std::env::var_os("LK_NO_LNS").is_none() {
+                initial.extend(LNS_ROOTS.iter().map(|p| (p, SaveState::Pending)));
+            }
+            env.save_ptr(&mut initial)?;
         }
         Ok(env)
     }
-- 
2.43.0


From 2203145b7cf4068d56c714036aba32583ac44ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 37/81] Revert "fix: a contradictory mask predicate matches no
 value instead of panicking"

This reverts commit 9ce670b50af28b4f5d32b11e5a7db5284e291668.
---
 crates/core/src/predicate/value_test.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index d1c6438..fc73bfe 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -352,9 +352,6 @@ impl<U: UInt> Mask<U> {
     }
 
     pub fn in_set(&self, val: U) -> Option<U> {
-        if !self.has_any() {
-            return None;
-        }
         let (overflow, v) = self.overflowing_in_set(val);
         if overflow {
             None
-- 
2.43.0


From aaf14a4d66b7af9503a7df9b5bee2d2b90453197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 38/81] fix: a packet saved between reading the log and waiting
 for news no longer goes unnoticed

---
 crates/common/src/runtime/rx.rs  |  9 +++++++--
 crates/core/src/env/lmdb/mod.rs  | 14 ++++++++++++++
 crates/ipcbus/src/udp_procbus.rs | 17 +++++++++++++++++
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index a9b45f9..b9a1514 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -129,13 +129,16 @@ impl Linkspace {
         }
     }
     pub async fn poll(&self) -> Stamp {
+        let mut seen = Stamp::ZERO;
         loop {
             self.process();
             let rt_head = self.0.exec.process_upto.get();
-            let env_head = self.env().log_head().await;
+            seen = seen.max(rt_head);
+            let env_head = self.env().log_head_after(seen).await;
             if env_head == rt_head {
                 return env_head;
             }
+            seen = seen.max(env_head);
         }
     }
 
@@ -249,7 +252,9 @@ impl Linkspace {
             };
 
             tracing::debug!(wakeup=?d(next_check), "waiting for new event");
-            awoken = self.env().next_deadline(Some(next_check));
+            // a packet saved since `process` read the log (by a callback, or another thread) does not notify again
+            let seen = log_head.max(awoken.unwrap_or(0).into());
+            awoken = self.env().next_deadline_after(seen, Some(next_check));
         }
     }
 
diff --git a/crates/core/src/env/lmdb/mod.rs b/crates/core/src/env/lmdb/mod.rs
index 2fafc3a..04ac7a6 100644
--- a/crates/core/src/env/lmdb/mod.rs
+++ b/crates/core/src/env/lmdb/mod.rs
@@ -83,9 +83,23 @@ impl BTreeEnv {
         Stamp::new(v)
     }
 
+    /// as [Self::log_head], but returns at once if a head after `seen` was announced
+    pub async fn log_head_after(&self, seen: Stamp) -> Stamp {
+        let v = self.0.log_head.next_async_after(seen.get()).await;
+        Stamp::new(v)
+    }
+
     pub fn next_deadline(&self, deadline: Option<std::time::Instant>) -> Option<u64> {
         self.0.log_head.next_deadline(deadline)
     }
+    /// as [Self::next_deadline], but returns at once if a head after `seen` was announced
+    pub fn next_deadline_after(
+        &self,
+        seen: Stamp,
+        deadline: Option<std::time::Instant>,
+    ) -> Option<u64> {
+        self.0.log_head.next_deadline_after(seen.get(), deadline)
+    }
     // private generic function.
     fn save<P: NetPkt>(&self, pkts: &mut [(P, SaveState)]) -> io::Result<Range<u64>> {
         let range = self.0.lmdb.save(pkts).map_err(db::as_io)?;
diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index 3d4e5bb..05f5393 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -156,11 +156,20 @@ impl ProcBus {
         self.0.val.load(Ordering::SeqCst)
     }
     pub fn next_deadline(&self, deadline: Option<Instant>) -> Option<u64> {
+        self.next_deadline_after(u64::MAX, deadline)
+    }
+    /// as [ProcBus::next_deadline], but a value larger than `seen` that is already there is returned at once.
+    pub fn next_deadline_after(&self, seen: u64, deadline: Option<Instant>) -> Option<u64> {
         tracing::trace!(ptr=%format!("{:p}",&self.0.val)
                         ,val=&self.0.val.load(Ordering::Relaxed),"Waiting");
         let mut listener = EventListener::new(&self.0.proc);
         let mut listener = unsafe { std::pin::Pin::new_unchecked(&mut listener) };
         listener.as_mut().listen();
+        // only after the listener is set, so that no emit is missed
+        let val = self.0.val.load(Ordering::SeqCst);
+        if val > seen {
+            return Some(val);
+        }
         match deadline {
             Some(d) => {
                 if listener.as_mut().wait_deadline(d).is_none() {
@@ -175,9 +184,17 @@ impl ProcBus {
         Some(val)
     }
     pub async fn next_async(&self) -> u64 {
+        self.next_async_after(u64::MAX).await
+    }
+    /// as [ProcBus::next_async], but a value larger than `seen` that is already there is returned at once.
+    pub async fn next_async_after(&self, seen: u64) -> u64 {
         let mut listener = EventListener::new(&self.0.proc);
         let mut listener = unsafe { std::pin::Pin::new_unchecked(&mut listener) };
         listener.as_mut().listen();
+        let val = self.0.val.load(Ordering::SeqCst);
+        if val > seen {
+            return val;
+        }
         tracing::trace!("Async Wait");
         listener.await;
         tracing::trace!("Async Ok");
-- 
2.43.0


From ceeea20379dde1eb1f1fee9e7bd7f83fa8c62a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 39/81] fix: stopping a range of watches works when no watch
 has exactly the prefix as id

---
 crates/core/src/matcher/mod.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/crates/core/src/matcher/mod.rs b/crates/core/src/matcher/mod.rs
index 84046c6..417c660 100644
--- a/crates/core/src/matcher/mod.rs
+++ b/crates/core/src/matcher/mod.rs
@@ -211,25 +211,27 @@ impl<C> Matcher<C> {
         range: bool,
         mut on_drop: impl FnMut(WatchEntry<C>),
     ) -> usize {
+        if range {
+            let i = self
+                .watch_entries
+                .partition_point(|e| e.query_id.as_slice() < id);
+            let c = self.watch_entries[i..]
+                .iter()
+                .take_while(|v| v.query_id.starts_with(id))
+                .count();
+            for w in self.watch_entries.drain(i..c + i) {
+                on_drop(w)
+            }
+            return c;
+        }
         match self
             .watch_entries
             .binary_search_by_key(&id, |e| &e.query_id)
         {
             Ok(i) => {
-                if !range {
-                    let w = self.watch_entries.remove(i);
-                    on_drop(w);
-                    1
-                } else {
-                    let c = self.watch_entries[i..]
-                        .iter()
-                        .take_while(|v| v.query_id.starts_with(id))
-                        .count();
-                    for w in self.watch_entries.drain(i..c + i) {
-                        on_drop(w)
-                    }
-                    c
-                }
+                let w = self.watch_entries.remove(i);
+                on_drop(w);
+                1
             }
             Err(_) => 0,
         }
-- 
2.43.0


From bd078da58eff736a265ef2dde09ad97a8d3be8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 40/81] fix: the reasons Break and Finish of a stopped watch
 were exchanged

---
 crates/common/src/runtime/rx.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index b9a1514..77865a5 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -317,9 +317,9 @@ impl Linkspace {
                 },
                 |w| {
                     let reason = if w.last_test.1.is_break() {
-                        StopReason::Break
-                    } else {
                         StopReason::Finish
+                    } else {
+                        StopReason::Break
                     };
                     drop_watch(w, self, reason)
                 },
-- 
2.43.0


From 01ddaec0f8599765fb0aaf877aa117172e902f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 41/81] fix: a watch that is finished by the packets in the
 database reports so

---
 crates/common/src/runtime/rx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 77865a5..d994ee2 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -442,7 +442,10 @@ impl Linkspace {
                 tracing::debug!("Setup Watch");
                 self.insert_watch(e)
             }
-            Err(r) => tracing::info!(e=?r,"Did not register"),
+            Err(r) => {
+                tracing::info!(e=?r,"Did not register");
+                return Ok(crate::saturating_cast(counter));
+            }
         }
         Ok(crate::saturating_neg_cast(counter))
     }
-- 
2.43.0


From 64310027c089081f6ddb128422a92954fa909fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 42/81] fix: watching and stopping inside a stopped callback
 takes effect at once instead of panicking or waiting for a new packet

---
 crates/common/src/runtime/rx.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index d994ee2..489af5b 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -105,6 +105,7 @@ impl Linkspace {
                 if let Some(w) = lk.register(watch_entry) {
                     drop_watch(w, self, StopReason::Replaced)
                 }
+                self.drain_pending(&mut lk)
             }
             Err(_) => self
                 .0
@@ -114,16 +115,24 @@ impl Linkspace {
                 .push(Pending::NewWatch { watch_entry }),
         };
     }
+    /// whoever borrows the callbacks drains what was asked for in the mean time before letting go
     pub fn drain_pending(&self, lk: &mut Matcher) {
-        for cmd in self.0.exec.pending.borrow_mut().drain(..) {
-            match cmd {
-                Pending::NewWatch { watch_entry } => {
-                    if let Some(w) = lk.register(watch_entry) {
-                        drop_watch(w, self, StopReason::Replaced)
+        loop {
+            // dropping a watch calls `stopped`, which can add to pending
+            let cmds = self.0.exec.pending.take();
+            if cmds.is_empty() {
+                return;
+            }
+            for cmd in cmds {
+                match cmd {
+                    Pending::NewWatch { watch_entry } => {
+                        if let Some(w) = lk.register(watch_entry) {
+                            drop_watch(w, self, StopReason::Replaced)
+                        }
+                    }
+                    Pending::Close { id, range } => {
+                        lk.deregister(&id, range, |w| drop_watch(w, self, StopReason::Closed));
                     }
-                }
-                Pending::Close { id, range } => {
-                    lk.deregister(&id, range, |w| drop_watch(w, self, StopReason::Closed));
                 }
             }
         }
@@ -456,6 +465,7 @@ impl Linkspace {
                 lk.deregister(id.as_ref(), false, |w| {
                     drop_watch(w, self, StopReason::Closed)
                 });
+                self.drain_pending(&mut lk)
             }
             Err(_) => self.0.exec.pending.borrow_mut().push(Pending::Close {
                 id: id.as_ref().to_vec(),
@@ -469,6 +479,7 @@ impl Linkspace {
                 lk.deregister(prefix.as_ref(), true, |w| {
                     drop_watch(w, self, StopReason::Closed)
                 });
+                self.drain_pending(&mut lk)
             }
             Err(_) => self.0.exec.pending.borrow_mut().push(Pending::Close {
                 id: prefix.as_ref().to_vec(),
-- 
2.43.0


From e36354a9f3c4457d35267acf83c35265297285cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 43/81] fix: a watch limited by recv gets all packets in its
 range, is told when it is dropped, and waiting for it ends

---
 crates/common/src/runtime/rx.rs | 33 ++++++++++++++++++--------
 crates/core/src/matcher/mod.rs  | 42 +++++++++++----------------------
 2 files changed, 37 insertions(+), 38 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 489af5b..19e3b43 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -190,6 +190,8 @@ impl Linkspace {
         // check the break conditions, and update 'next_check' as required for next check
         let mut awoken = None;
         loop {
+            // everything received before this is seen by process
+            let start = now();
             let log_head = self.process();
             tracing::trace!(ev_notify=?awoken,db_head=?log_head,"step");
             if let Some(awoken) = awoken {
@@ -234,10 +236,10 @@ impl Linkspace {
                 next_check = next_check.min(last_step_constraint);
             }
 
-            match exec.next_work() {
+            match self.next_work(start) {
                 Ok(Some(next_oob)) => {
                     if next_oob != Stamp::MAX {
-                        match next_oob.get().checked_sub(now().get()) {
+                        match (next_oob.get() + 1).checked_sub(now().get()) {
                             Some(micros) => {
                                 let next_recv_oob = newtime + Duration::from_micros(micros);
                                 tracing::trace!(
@@ -447,6 +449,10 @@ impl Linkspace {
             Box::new(onmatch),
             span,
         ) {
+            Ok(e) if e.recv_bounds.high <= exec.process_upto.get().get() => {
+                tracing::debug!("No new packet can match");
+                return Ok(crate::saturating_cast(counter));
+            }
             Ok(e) => {
                 tracing::debug!("Setup Watch");
                 self.insert_watch(e)
@@ -492,21 +498,28 @@ impl Linkspace {
         self.0.exec.callbacks.borrow()
     }
 }
-impl Executor {
-    /** return when next to process.
-    Ok(None) means immediatly, Ok(Some(stamp)) means at stamp a watch can be dropped, Err means no current watches
+impl Linkspace {
+    /** drop the watches that can not match anything received since `at`, and return when next to process.
+    Ok(None) means immediatly, Ok(Some(stamp)) means a watch can be dropped after stamp, Err means no current watches
      **/
     #[instrument(skip(self), ret)]
-    fn next_work(&self) -> Result<Option<Stamp>, ()> {
-        if self.is_running.get() {
+    fn next_work(&self, at: Stamp) -> Result<Option<Stamp>, ()> {
+        if self.0.exec.is_running.get() {
             tracing::warn!("has_work called during work");
             panic!();
             //return true;
         }
-        if !self.pending.borrow().is_empty() {
+        let mut lk = self.0.exec.callbacks.borrow_mut();
+        let mut dropped = false;
+        let next = lk.gc(at, |w| {
+            dropped = true;
+            drop_watch(w, self, StopReason::Finish)
+        });
+        self.drain_pending(&mut lk);
+        if dropped && !lk.entries().is_empty() {
             return Ok(None);
-        };
-        self.callbacks.borrow_mut().gc(now()).ok_or(()).map(Some)
+        }
+        next.ok_or(()).map(Some)
     }
 }
 
diff --git a/crates/core/src/matcher/mod.rs b/crates/core/src/matcher/mod.rs
index 417c660..5ef7373 100644
--- a/crates/core/src/matcher/mod.rs
+++ b/crates/core/src/matcher/mod.rs
@@ -189,20 +189,15 @@ impl<C> Matcher<C> {
             .and_then(|i| self.watch_entries.get(i))
     }
     pub fn register(&mut self, watch_e: WatchEntry<C>) -> Option<WatchEntry<C>> {
-        let ok = watch_e.recv_bounds.high > linkspace_pkt::now().get();
-        tracing::debug!(register_ok=?ok);
-        match (
-            ok,
-            self.watch_entries
-                .binary_search_by_key(&watch_e.query_id.as_ref(), |v| &v.query_id),
-        ) {
-            (true, Ok(i)) => Some(::std::mem::replace(&mut self.watch_entries[i], watch_e)),
-            (false, Ok(i)) => Some(self.watch_entries.remove(i)),
-            (true, Err(i)) => {
+        match self
+            .watch_entries
+            .binary_search_by_key(&watch_e.query_id.as_ref(), |v| &v.query_id)
+        {
+            Ok(i) => Some(::std::mem::replace(&mut self.watch_entries[i], watch_e)),
+            Err(i) => {
                 self.watch_entries.insert(i, watch_e);
                 None
             }
-            (false, Err(_i)) => None,
         }
     }
     pub fn deregister(
@@ -253,25 +248,16 @@ impl<C> Matcher<C> {
             })
             .for_each(on_drop);
     }
-    /// clears out of bound watches and determine when the next gc should be run ( none means empty, Some(MAX) means no oob set)
-    #[instrument(skip(self))]
-    pub fn gc(&mut self, logptr: Stamp) -> Option<Stamp> {
-        let mut min: u64 = u64::MAX;
+    /// clears watches that only want packets received before `at` and determine when the next gc should be run ( none means empty, Some(MAX) means no oob set)
+    #[instrument(skip(self, on_drop))]
+    pub fn gc(&mut self, at: Stamp, on_drop: impl FnMut(WatchEntry<C>)) -> Option<Stamp> {
         let old_len = self.watch_entries.len();
-        self.watch_entries.retain(|e| {
-            if e.recv_bounds.high > logptr.get() {
-                min = e.recv_bounds.high.min(min);
-                true
-            } else {
-                false
-            }
-        });
+        self.watch_entries
+            .extract_if(|e| e.recv_bounds.high < at.get())
+            .for_each(on_drop);
         tracing::trace!(old_len, len = self.watch_entries.len());
-        if self.watch_entries.is_empty() {
-            None
-        } else {
-            Some(min.into())
-        }
+        let min = self.watch_entries.iter().map(|e| e.recv_bounds.high).min();
+        min.map(Stamp::from)
     }
     pub fn entries(&self) -> &[WatchEntry<C>] {
         &self.watch_entries
-- 
2.43.0


From 6d81dad9bb6234940e2a6e21fd917a4bdf1ba8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 44/81] fix: processing inside a callback does nothing instead
 of panicking

---
 crates/common/src/runtime/rx.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 19e3b43..c424c11 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -169,7 +169,7 @@ impl Linkspace {
         user_qid: Option<&QueryIDRef>,
     ) -> anyhow::Result<isize> {
         let exec = &self.0.exec;
-        if exec.is_running.get() {
+        if exec.callbacks.try_borrow_mut().is_err() {
             bail!("already running")
         }
         if exec.is_reading.get() > 0 {
@@ -273,6 +273,10 @@ impl Linkspace {
     #[instrument(skip(self), ret)]
     pub fn process(&self) -> Stamp {
         let exec = &self.0.exec;
+        if exec.callbacks.try_borrow_mut().is_err() {
+            tracing::warn!("process called inside a callback");
+            return exec.process_upto.get();
+        }
         exec.written.set(false);
         let (txn, from, mut upto): (Rc<ReadTxn>, Stamp, Stamp) = {
             let mut txn = exec.process_txn.borrow_mut();
-- 
2.43.0


From dd952e0ef445cf1fc196832bdebffc44d4703d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 45/81] fix: watching a query without an id is an error instead
 of a panic

---
 crates/common/src/runtime/rx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index c424c11..13c1701 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -387,7 +387,7 @@ impl Linkspace {
         let id: &[u8] = query
             .qid()?
             .flatten()
-            .expect("watch always requires a :qid:...  option");
+            .context("watch always requires a :qid:...  option")?;
         let follow = query.get_known_opt(KnownOptions::Follow)?;
         let start = None; //query.get_known_opt(KnownOptions::Start).map(|v| Ptr::try_from(v.clone())).transpose()?;
                           // TODO span should already have these fields.
-- 
2.43.0


From 18bbbaeafd902183ae815e5daaf1971c1802d381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 46/81] fix: a watch stopped by a callback gets no further
 packets

---
 crates/common/src/runtime/rx.rs | 44 ++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 13c1701..63bfadb 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -117,24 +117,45 @@ impl Linkspace {
     }
     /// whoever borrows the callbacks drains what was asked for in the mean time before letting go
     pub fn drain_pending(&self, lk: &mut Matcher) {
+        // dropping a watch calls `stopped`, which can add to pending
         loop {
-            // dropping a watch calls `stopped`, which can add to pending
-            let cmds = self.0.exec.pending.take();
-            if cmds.is_empty() {
+            self.drain_closed(lk);
+            let new = self.0.exec.pending.take();
+            if new.is_empty() {
                 return;
             }
-            for cmd in cmds {
-                match cmd {
-                    Pending::NewWatch { watch_entry } => {
-                        if let Some(w) = lk.register(watch_entry) {
-                            drop_watch(w, self, StopReason::Replaced)
-                        }
+            for cmd in new {
+                if let Pending::NewWatch { watch_entry } = cmd {
+                    if let Some(w) = lk.register(watch_entry) {
+                        drop_watch(w, self, StopReason::Replaced)
                     }
+                }
+            }
+        }
+    }
+    /// drop the watches a callback stopped, leaves only new watches pending
+    fn drain_closed(&self, lk: &mut Matcher) {
+        let pending = &self.0.exec.pending;
+        while pending
+            .borrow()
+            .iter()
+            .any(|p| matches!(p, Pending::Close { .. }))
+        {
+            let mut new: Vec<RxEntry> = vec![];
+            for cmd in pending.take() {
+                match cmd {
+                    Pending::NewWatch { watch_entry } => new.push(watch_entry),
                     Pending::Close { id, range } => {
                         lk.deregister(&id, range, |w| drop_watch(w, self, StopReason::Closed));
+                        new.extract_if(|w| is_closed_by(&w.query_id, &id, range))
+                            .for_each(|w| drop_watch(w, self, StopReason::Closed));
                     }
                 }
             }
+            let new = new
+                .into_iter()
+                .map(|watch_entry| Pending::NewWatch { watch_entry });
+            pending.borrow_mut().splice(0..0, new);
         }
     }
     pub async fn poll(&self) -> Stamp {
@@ -339,6 +360,8 @@ impl Linkspace {
                     drop_watch(w, self, reason)
                 },
             );
+            // a new watch starts after this log, its first packets came from the reader
+            self.drain_closed(&mut lock);
         }
         self.drain_pending(&mut lock);
 
@@ -527,6 +550,9 @@ impl Linkspace {
     }
 }
 
+fn is_closed_by(watch_id: &QueryIDRef, id: &QueryIDRef, range: bool) -> bool {
+    watch_id == id || (range && watch_id.starts_with(id))
+}
 fn drop_watch(w: RxEntry, rt: &Linkspace, reason: StopReason) {
     let (mut handler, entry) = w.map(());
     handler.stopped(entry, rt, reason)
-- 
2.43.0


From 9cc40746d1e666694a0282b0b19276a0d35c497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 47/81] fix: a watch that is stopped or replaced by its
 callback while it reads the database is not registered

---
 crates/common/src/runtime/rx.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 63bfadb..25780ff 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -49,6 +49,8 @@ struct Executor {
     written: Cell<bool>,
     callbacks: RefCell<Matcher>,
     pending: RefCell<Vec<Pending>>,
+    // watches that are reading the database, and if they were closed while doing so
+    opening: RefCell<Vec<(QueryID, bool)>>,
     // This is a fake lifetime
     process_txn: RefCell<Rc<ReadTxn<'static>>>,
     process_upto: Cell<Stamp>,
@@ -90,6 +92,7 @@ impl Linkspace {
                 written: Cell::new(false),
                 callbacks: Default::default(),
                 pending: Default::default(),
+                opening: Default::default(),
                 process_txn: RefCell::new(Rc::new(reader)),
                 process_upto: at.into(),
                 is_running: Cell::new(false),
@@ -446,14 +449,21 @@ impl Linkspace {
             let local_span = tracing::debug_span!(parent: &span, "DB Callback").entered();
             tracing::trace!(?mode);
             let reader = self.get_reader();
+            let mut pkts = reader.query(mode, &q.predicates, &mut counter)?;
             exec.is_reading.update(|i| i + 1);
-            let r = reader
-                .query(mode, &q.predicates, &mut counter)?
-                .try_for_each(|dbp| {
-                    let _g = local_span.enter();
-                    tracing::debug!(pkt=%PktFmtDebug(&dbp.pkt), recv=%dbp.recv().unwrap(),"Match");
-                    onmatch.handle_pkt(&dbp, self)
-                });
+            exec.opening.borrow_mut().push((watch_id.to_vec(), false));
+            let r = pkts.try_for_each(|dbp| {
+                let _g = local_span.enter();
+                tracing::debug!(pkt=%PktFmtDebug(&dbp.pkt), recv=%dbp.recv().unwrap(),"Match");
+                onmatch.handle_pkt(&dbp, self)?;
+                // the callback can stop or replace this watch
+                match exec.opening.borrow().last() {
+                    Some((_, true)) => ControlFlow::Break(()),
+                    _ => ControlFlow::Continue(()),
+                }
+            });
+            std::mem::drop(pkts);
+            exec.opening.borrow_mut().pop();
 
             let strong_count = Rc::strong_count(&reader);
             if strong_count > 2 {
@@ -492,7 +502,13 @@ impl Linkspace {
         Ok(crate::saturating_neg_cast(counter))
     }
 
+    fn close_opening(&self, id: &QueryIDRef, range: bool) {
+        for (watch_id, closed) in self.0.exec.opening.borrow_mut().iter_mut() {
+            *closed |= is_closed_by(watch_id, id, range)
+        }
+    }
     pub fn close(&self, id: impl AsRef<QueryIDRef>) {
+        self.close_opening(id.as_ref(), false);
         match self.0.exec.callbacks.try_borrow_mut() {
             Ok(mut lk) => {
                 lk.deregister(id.as_ref(), false, |w| {
@@ -507,6 +523,7 @@ impl Linkspace {
         }
     }
     pub fn close_range(&self, prefix: impl AsRef<QueryIDRef>) {
+        self.close_opening(prefix.as_ref(), true);
         match self.0.exec.callbacks.try_borrow_mut() {
             Ok(mut lk) => {
                 lk.deregister(prefix.as_ref(), true, |w| {
-- 
2.43.0


From 292eb389981f94c34a19359498b970a97edf7f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 48/81] fix: a watch gets the packets that its own callback
 processed while it read the database

---
 crates/common/src/runtime/rx.rs | 43 ++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 25780ff..36c4caf 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -444,6 +444,7 @@ impl Linkspace {
         let span = debug_span!(parent:&span,"query", preds=%q.predicates);
         let mut counter = 0;
         let check_db = q.predicates.state.check_db();
+        let mut db_head = exec.process_upto.get();
         self.close(watch_id); // this is not ideal. But other close semantics seem worse.
         if check_db {
             let local_span = tracing::debug_span!(parent: &span, "DB Callback").entered();
@@ -474,33 +475,57 @@ impl Linkspace {
                 };
             }
             exec.is_reading.update(|i| i - 1);
+            db_head = reader.log_head();
             tracing::debug!(?r, "Done with DB");
             if matches!(r, ControlFlow::Break(_)) {
                 return Ok(crate::saturating_cast(counter));
             }
         }
-        match RxEntry::new(
+        let mut watch_entry = match RxEntry::new(
             watch_id.to_vec(),
             q.into_owned(),
             counter,
             Box::new(onmatch),
             span,
         ) {
-            Ok(e) if e.recv_bounds.high <= exec.process_upto.get().get() => {
-                tracing::debug!("No new packet can match");
-                return Ok(crate::saturating_cast(counter));
-            }
-            Ok(e) => {
-                tracing::debug!("Setup Watch");
-                self.insert_watch(e)
-            }
+            Ok(e) => e,
             Err(r) => {
                 tracing::info!(e=?r,"Did not register");
                 return Ok(crate::saturating_cast(counter));
             }
+        };
+        let r = self.catch_up(&mut watch_entry, db_head);
+        counter = watch_entry.nth_query;
+        if r.is_break() || watch_entry.recv_bounds.high <= exec.process_upto.get().get() {
+            tracing::debug!("No new packet can match");
+            return Ok(crate::saturating_cast(counter));
         }
+        tracing::debug!("Setup Watch");
+        self.insert_watch(watch_entry);
         Ok(crate::saturating_neg_cast(counter))
     }
+    /// test the packets after `from` that were processed before the watch is registered ( i.e. by its callback )
+    fn catch_up(&self, w: &mut RxEntry, mut from: Stamp) -> ControlFlow<()> {
+        let exec = &self.0.exec;
+        let mut r = ControlFlow::Continue(());
+        exec.opening.borrow_mut().push((w.query_id.clone(), false));
+        while r.is_continue() && from < exec.process_upto.get() {
+            let reader = self.get_reader();
+            r = reader.pkts_after(from).try_for_each(|pkt| {
+                from = pkt.recv;
+                let (test_ok, test_finish) = w.test(pkt);
+                if test_ok {
+                    w.ctx.handle_pkt(&pkt, self)?;
+                }
+                match exec.opening.borrow().last() {
+                    Some((_, true)) => ControlFlow::Break(()),
+                    _ => test_finish,
+                }
+            });
+        }
+        exec.opening.borrow_mut().pop();
+        r
+    }
 
     fn close_opening(&self, id: &QueryIDRef, range: bool) {
         for (watch_id, closed) in self.0.exec.opening.borrow_mut().iter_mut() {
-- 
2.43.0


From b080e7184a1317f2a1bd0e882d598129116f98d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:25 +0000
Subject: [PATCH 49/81] fix: lk_status_set answers requests of its own domain
 that are private only

---
 crates/linkspace/src/conventions/status.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index bcd88e9..a2267f0 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -216,6 +216,8 @@ pub fn lk_status_set(
         instance: None,
         ..status
     })?;
+    q = lk_query_push(q, "group", "=", &*PRIVATE)?;
+    q = lk_query_push(q, "domain", "=", &*domain)?;
     q = lk_query_push(q, "data_size", "=", &*U16::ZERO)?;
     q = lk_query_push(q, "links_len", "=", &*U16::ZERO)?;
     q = lk_query_push(q, "prefix", "=", prefix.space_bytes())?;
-- 
2.43.0


From 5a17284f2c6126fbe93b20e090043d80e24e0952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 50/81] fix: lk_status_set does not answer requests below its
 own instance

---
 crates/linkspace/src/conventions/status.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index a2267f0..b1d1f75 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -236,7 +236,7 @@ pub fn lk_status_set(
                 qid: &[],
             };
             let p = pkt.get_rooted_spacename();
-            if p.depth() == space.depth() && p.space() != space.as_ref() {
+            if p.depth() >= space.depth() && p.space() != space.as_ref() {
                 return Ok(());
             }
             let link = Link {
-- 
2.43.0


From 7ec319e2e905946c32211b14703dbd0b75b8032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 51/81] fix: lk_status_watch takes only a request for the same
 instances as already made, and waits from the latest one

---
 crates/linkspace/src/conventions/status.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index b1d1f75..6129568 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -125,11 +125,15 @@ pub fn lk_status_watch(
     let _ = span.enter();
     let mut ok = false;
     let mut last_request = Stamp::ZERO;
+    let space = lk_status_space(status)?;
     let mut query: Query = lk_status_overwatch(status, d_timeout)?;
     // We want to capture any old request, so we first lk_get_all both requests and replies.
     lk_get_all(lk, &query, &mut |pkt| {
         if pkt.get_links().is_empty() && pkt.data().is_empty() {
-            last_request = *pkt.get_create_stamp();
+            // a request for another instance is not answered by all of ours
+            if pkt.get_rooted_spacename() == &*space {
+                last_request = last_request.max(*pkt.get_create_stamp());
+            }
             tracing::debug!(pkt=%PktFmt(&pkt),"recently requested");
             false
         } else {
-- 
2.43.0


From 91754dd283cf72a031fb9f2cc0120b15d3b4ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 52/81] fix: lk_status_watch passes on only replies

---
 crates/linkspace/src/conventions/status.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index 6129568..adda840 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -136,6 +136,8 @@ pub fn lk_status_watch(
             }
             tracing::debug!(pkt=%PktFmt(&pkt),"recently requested");
             false
+        } else if pkt.get_links().is_empty() || pkt.data().is_empty() {
+            false
         } else {
             ok = true;
             let cnt = (cb).handle_pkt(pkt, lk);
-- 
2.43.0


From 1fe9997066b24ff4478b2c05738d607bd6f50069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 53/81] fix: lk_status_watch does not call a callback that
 ended itself again

---
 crates/linkspace/src/conventions/status.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index adda840..af0b868 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -124,6 +124,7 @@ pub fn lk_status_watch(
     let span = debug_span!("status_poll", ?status, ?d_timeout);
     let _ = span.enter();
     let mut ok = false;
+    let mut stop = false;
     let mut last_request = Stamp::ZERO;
     let space = lk_status_space(status)?;
     let mut query: Query = lk_status_overwatch(status, d_timeout)?;
@@ -140,11 +141,15 @@ pub fn lk_status_watch(
             false
         } else {
             ok = true;
-            let cnt = (cb).handle_pkt(pkt, lk);
+            stop = (cb).handle_pkt(pkt, lk).is_break();
             tracing::debug!("recently replied");
-            cnt.is_break()
+            stop
         }
     })?;
+    if stop {
+        lk_stop(lk, status.qid, false);
+        return Ok(ok);
+    }
     if last_request == Stamp::ZERO {
         tracing::debug!("creating new req");
         let req = lk_status_request(status).unwrap();
-- 
2.43.0


From cb9818eb8243523a60cf564980723306795af7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 54/81] fix: a pull request whose id does not fit a spacename
 is refused instead of a panic

---
 crates/linkspace/src/conventions/pull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/linkspace/src/conventions/pull.rs b/crates/linkspace/src/conventions/pull.rs
index d9890ca..e28c54b 100644
--- a/crates/linkspace/src/conventions/pull.rs
+++ b/crates/linkspace/src/conventions/pull.rs
@@ -42,7 +42,7 @@ pub fn lk_pull_point(query: &Query) -> LkResult<NetPktBox> {
         .context("missing :qid:... option")?;
     let data = query.0.to_string();
     tracing::trace!(data);
-    let pull_space = rspace_buf(&[b"pull", &*group, &*domain, id]);
+    let pull_space = RootedSpaceBuf::try_from_iter([b"pull" as &[u8], &*group, &*domain, id])?;
     let pkt = lk_linkpoint(
         data.as_bytes(),
         EXCHANGE_DOMAIN,
-- 
2.43.0


From a3cb6975e270e05dff9b3728abd3d65900bae9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:05 +0000
Subject: [PATCH 55/81] fix: an interrupted read of a packet header loses the
 packet and its place in the stream

---
 crates/common/src/pkt_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/pkt_reader.rs b/crates/common/src/pkt_reader.rs
index b8e2e62..504b87b 100644
--- a/crates/common/src/pkt_reader.rs
+++ b/crates/common/src/pkt_reader.rs
@@ -58,7 +58,7 @@ impl<T: Read> Iterator for NetPktDecoder<T> {
                         buf = &mut tmp[n..];
                     }
                     Err(ref e) if e.kind() == ErrorKind::UnexpectedEof => return None,
-                    //Err(ref e) if e.kind() == ErrorKind::Interrupted && buf.len() == UPTO_PKT_SIZE => {return None}
+                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                     Err(e) => return Some(Err(Error::IO(e))),
                 }
             }
-- 
2.43.0


From 0c32742c6b4a82f2a53bb355ed9c4dbb3b4b219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:05 +0000
Subject: [PATCH 56/81] fix: a packet stream that ends inside a packet header
 is an error, as it is inside the rest of a packet

---
 crates/common/src/pkt_reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/pkt_reader.rs b/crates/common/src/pkt_reader.rs
index 504b87b..8f0f536 100644
--- a/crates/common/src/pkt_reader.rs
+++ b/crates/common/src/pkt_reader.rs
@@ -47,17 +47,22 @@ impl<T: Read> Iterator for NetPktDecoder<T> {
                 )
             };
             let mut zeros = 0;
+            let header_size = buf.len();
             while !buf.is_empty() {
+                let started = buf.len() != header_size;
                 let r = self.reader.read(buf);
                 tracing::trace!(?r, "read");
                 match r {
+                    Ok(0) if zeros > 3 && started => {
+                        return Some(Err(Error::IO(ErrorKind::UnexpectedEof.into())))
+                    }
                     Ok(0) if zeros > 3 => return None,
                     Ok(0) => zeros += 1,
                     Ok(n) => {
                         let tmp = buf;
                         buf = &mut tmp[n..];
                     }
-                    Err(ref e) if e.kind() == ErrorKind::UnexpectedEof => return None,
+                    Err(ref e) if e.kind() == ErrorKind::UnexpectedEof && !started => return None,
                     Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                     Err(e) => return Some(Err(Error::IO(e))),
                 }
-- 
2.43.0


From 4c31114c834fed098c53166cc52b8f27f2ca796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 57/81] fix: the handshake server answers only a first message
 of a handshake: any other answer could prove a client that is not there

---
 crates/common/src/protocols/handshake.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/common/src/protocols/handshake.rs b/crates/common/src/protocols/handshake.rs
index 26d9b9e..9337efb 100644
--- a/crates/common/src/protocols/handshake.rs
+++ b/crates/common/src/protocols/handshake.rs
@@ -67,6 +67,19 @@ pub fn phase1_server_signs(
         None => anyhow::bail!("not signed"),
     };
     valid_stamp_range(*theirs.get_create_stamp(), max_diff_sec)?;
+    // only what phase0 makes: answering any packet of theirs would let others use our answer as a phase2 proof
+    ensure!(
+        theirs.domain() == Some(&HANDSHAKE_D),
+        "not in the session domain"
+    );
+    ensure!(
+        theirs.group() == Some(&their_key),
+        "not in the right group"
+    );
+    ensure!(
+        theirs.get_rooted_spacename() == ID_SENTINAL_SPACENAME.as_ref(),
+        "wrong spacename"
+    );
     let our_group = unicast_group(their_key, id.pubkey());
     ensure!(
         our_group != PRIVATE,
-- 
2.43.0


From d9f9db476d967e61b73e476b9447b639713095f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 58/81] fix: a duration that is not utf8 is an error instead of
 a panic

---
 crates/core/src/stamp_fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/stamp_fmt.rs b/crates/core/src/stamp_fmt.rs
index 62f0415..defeec5 100644
--- a/crates/core/src/stamp_fmt.rs
+++ b/crates/core/src/stamp_fmt.rs
@@ -79,7 +79,7 @@ pub fn parse_duration_str(st: impl AsRef<[u8]>) -> anyhow::Result<Duration> {
     let mut fmts = DELTA_FORMATS.iter();
     for segm in st.as_ref().split_inclusive(|a| a.is_ascii_alphabetic()) {
         let (unit, digits) = segm.split_last().unwrap();
-        let count = u32::from_str(std::str::from_utf8(digits).unwrap())?;
+        let count = u32::from_str(std::str::from_utf8(digits)?)?;
         loop {
             let (ch, val) = fmts.next().with_context(|| match char_as_dur(*unit) {
                 Some(_) => format!("Out of order '{}'", *unit as char),
-- 
2.43.0


From 9203b9a3f50298c795064f821ca9bc6a54934f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 59/81] fix: a printed duration can be off by one because of
 rounding

---
 crates/core/src/stamp_fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/stamp_fmt.rs b/crates/core/src/stamp_fmt.rs
index defeec5..41fa9f2 100644
--- a/crates/core/src/stamp_fmt.rs
+++ b/crates/core/src/stamp_fmt.rs
@@ -138,7 +138,7 @@ pub fn duration_to_string(
         return format!("0{}", formats.last().unwrap().0);
     }
     for (unit, dur) in &parts {
-        let c = delta.div_duration_f64(*dur).floor() as u32;
+        let c = (delta.as_nanos() / dur.as_nanos()) as u32;
         delta = delta.saturating_sub(*dur * c);
         if zeros || c != 0 {
             st.push_str(&format!("{delim}{}{}", c as u64, unit));
-- 
2.43.0


From d48a36672644de4c18d947c00b1814f1ea211c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 60/81] fix: a checked sum or difference of a moment and a
 longer duration than there are moments is refused

---
 crates/pkt/src/stamp.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/pkt/src/stamp.rs b/crates/pkt/src/stamp.rs
index 154170a..2b4d473 100644
--- a/crates/pkt/src/stamp.rs
+++ b/crates/pkt/src/stamp.rs
@@ -59,8 +59,7 @@ pub fn stamp_add(stamp: Stamp, dur: Duration) -> Stamp {
     Stamp::new(stamp.get().saturating_add(plus))
 }
 pub fn checked_stamp_add(stamp: Stamp, dur: Duration) -> Option<Stamp> {
-    let plus = dur.as_micros().min(u64::MAX.into());
-    let plus = unsafe { u64::try_from(plus).unwrap_unchecked() };
+    let plus = u64::try_from(dur.as_micros()).ok()?;
     stamp.get().checked_add(plus).map(Stamp::new)
 }
 /// saturating sub
@@ -70,8 +69,7 @@ pub fn stamp_sub(stamp: Stamp, dur: Duration) -> Stamp {
     Stamp::new(stamp.get().saturating_sub(sub))
 }
 pub fn checked_stamp_sub(stamp: Stamp, dur: Duration) -> Option<Stamp> {
-    let sub = dur.as_micros().min(u64::MAX.into());
-    let sub = unsafe { u64::try_from(sub).unwrap_unchecked() };
+    let sub = u64::try_from(dur.as_micros()).ok()?;
     stamp.get().checked_sub(sub).map(Stamp::new)
 }
 #[cfg(target_arch = "wasm32")]
-- 
2.43.0


From 9012f46d9c16ffd966f764c6a51dd878be27d781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:53 +0000
Subject: [PATCH 61/81] fix: an ascending range from a moment includes the
 moment

---
 crates/core/src/stamp_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/stamp_range.rs b/crates/core/src/stamp_range.rs
index 2acf6c6..a991b3c 100644
--- a/crates/core/src/stamp_range.rs
+++ b/crates/core/src/stamp_range.rs
@@ -44,7 +44,7 @@ impl StampRange {
     /// Ascending range include start
     pub const fn asc_from(start: Stamp) -> StampRange {
         StampRange {
-            start: start.get() + 1,
+            start: start.get(),
             end: u64::MAX,
         }
     }
-- 
2.43.0


From 86009b96259c3d78df5af1c642638afd3d3ecd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 62/81] fix: mutating a header reads it as if it were aligned

---
 crates/core/src/mut_header.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/mut_header.rs b/crates/core/src/mut_header.rs
index a0cba6f..e057e0d 100644
--- a/crates/core/src/mut_header.rs
+++ b/crates/core/src/mut_header.rs
@@ -28,14 +28,13 @@ impl NetHeaderMutate {
         set: NetPktHeader::cfrom([0; 32]),
     };
     pub fn mutate(&self, h: &mut NetPktHeader) {
-        let b: &mut [u128; 2] = unsafe { &mut *(h as *mut NetPktHeader as *mut [u128; 2]) };
-        let clear: &[u128; 2] =
-            unsafe { &*(&self.clear as *const NetPktHeader as *const [u128; 2]) };
-        let set: &[u128; 2] = unsafe { &*(&self.set as *const NetPktHeader as *const [u128; 2]) };
-        b[0] &= clear[0];
-        b[0] |= set[0];
-        b[1] &= clear[1];
-        b[1] |= set[1];
+        // NetPktHeader is packed and has no alignment
+        let mut bytes = *h.as_bytes();
+        let masks = self.clear.as_bytes().iter().zip(self.set.as_bytes());
+        for (b, (clear, set)) in bytes.iter_mut().zip(masks) {
+            *b = (*b & clear) | set;
+        }
+        *h = NetPktHeader::cfrom(bytes);
     }
     pub fn from_lst(lst: &[MutFieldExpr], scope: &dyn Scope) -> anyhow::Result<Self> {
         let mut m = NetHeaderMutate::DEFAULT;
-- 
2.43.0


From 4740df10bd281eba1ce5c523f53100e4c6d5e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:56 +0000
Subject: [PATCH 63/81] fix: setting a route field keeps the bits it had

---
 crates/core/src/mut_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/mut_header.rs b/crates/core/src/mut_header.rs
index e057e0d..cc7eab1 100644
--- a/crates/core/src/mut_header.rs
+++ b/crates/core/src/mut_header.rs
@@ -82,7 +82,7 @@ pub fn mutate(op: TestOp, val: ABList, clear: &mut [u8], set: &mut [u8]) -> anyh
                 .into_exact_bytes()
                 .map_err(|_| anyhow::anyhow!("Eq expects exact bytes"))?;
             anyhow::ensure!(v.len() == clear.len());
-            clear.iter_mut().for_each(|v| *v = 255);
+            clear.iter_mut().for_each(|v| *v = 0);
             set.iter_mut().zip(v).for_each(|(set, val)| *set = val);
         }
         e => anyhow::bail!("op not yet supported {}", e),
-- 
2.43.0


From 0583e9223894d244c6a1546295139a9fd5841a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:13 +0000
Subject: [PATCH 64/81] fix: removing duplicates with a capacity of zero panics

---
 crates/common/src/pkt_stream_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/pkt_stream_utils.rs b/crates/common/src/pkt_stream_utils.rs
index aa0f296..4d75ac3 100644
--- a/crates/common/src/pkt_stream_utils.rs
+++ b/crates/common/src/pkt_stream_utils.rs
@@ -54,7 +54,7 @@ pub struct QuickDedup {
 impl QuickDedup {
     pub fn new(cap: usize) -> Self {
         QuickDedup {
-            bufs: vec![B64([0; 32]); cap].into_boxed_slice(),
+            bufs: vec![B64([0; 32]); cap.max(1)].into_boxed_slice(),
         }
     }
     pub fn probable_contains(&mut self, h: LkHash) -> bool {
-- 
2.43.0


From 4dba01714e20768649a8e6717766344433fc18d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 65/81] fix: a local name given anew keeps its old key when the
 claims sort the other way: claims had no creation moment

---
 crates/common/src/protocols/lns/claim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/protocols/lns/claim.rs b/crates/common/src/protocols/lns/claim.rs
index 2963935..3aed762 100644
--- a/crates/common/src/protocols/lns/claim.rs
+++ b/crates/common/src/protocols/lns/claim.rs
@@ -101,7 +101,7 @@ impl Claim {
         links[0].tag[0..8].copy_from_slice(&until.0);
         let path = name.claim_space();
         let group = name.claim_group();
-        let pkt = linkpoint(group, LNS, &path, links, data, Stamp::ZERO, ()).as_netbox();
+        let pkt = linkpoint(group, LNS, &path, links, data, now(), ()).as_netbox();
         ensure!(*pkt.get_create_stamp() < until);
         Self::from(pkt)
     }
-- 
2.43.0


From 2d886878723ce341576c4b355b69895b02059596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:42 +0000
Subject: [PATCH 66/81] fix: setting up a key goes by a reader that may not
 have seen the key that is there, and gives its name to another

---
 crates/common/src/protocols/lns/admin.rs |  4 ++--
 crates/common/src/protocols/lns/mod.rs   | 28 ++++++++++++++++++------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/crates/common/src/protocols/lns/admin.rs b/crates/common/src/protocols/lns/admin.rs
index 09a9c89..3816137 100644
--- a/crates/common/src/protocols/lns/admin.rs
+++ b/crates/common/src/protocols/lns/admin.rs
@@ -24,11 +24,11 @@ pub(crate) fn save_private_claim(
     and: &[&dyn NetPkt],
     priority: bool,
 ) -> anyhow::Result<bool> {
-    let read = lk.get_reader();
+    let read = lk.env().new_read_txn()?;
     let admin_k = admin.map(|v| v.pubkey());
     let now = now();
     // This claim is being overwritten. This means its old by-tag ptrs must be removed as well.
-    let old_claim = super::lookup_claim(lk, &new_claim.name)?;
+    let old_claim = super::lookup_claim_in(&read, &new_claim.name)?;
     let old_claim = old_claim.as_ref();
     let old_chash = old_claim.map(|o| o.pkt.hash());
     if let Some(c) = old_claim {
diff --git a/crates/common/src/protocols/lns/mod.rs b/crates/common/src/protocols/lns/mod.rs
index bb1cf29..bf50144 100644
--- a/crates/common/src/protocols/lns/mod.rs
+++ b/crates/common/src/protocols/lns/mod.rs
@@ -20,6 +20,7 @@ use abe::eval::ApplyResult;
 use anyhow::ensure;
 use byte_fmt::{ab, AB};
 use linkspace_argon2_identity::pubkey;
+use linkspace_core::prelude::ReadTxn;
 use linkspace_pkt::{
     rspace1, Domain, GroupID, Link, LkHash, Point, PubKey, RootedStaticSpace, Stamp, Tag,
 };
@@ -124,11 +125,19 @@ pub fn lookup_live_chain(
     lk: &Linkspace,
     name: &Name,
     issue_handler: IssueHandler,
+) -> anyhow::Result<Result<LiveClaim, LiveClaim>> {
+    lookup_live_chain_in(&lk.get_reader(), name, issue_handler)
+}
+
+fn lookup_live_chain_in(
+    reader: &ReadTxn,
+    name: &Name,
+    issue_handler: IssueHandler,
 ) -> anyhow::Result<Result<LiveClaim, LiveClaim>> {
     match name.name_type() {
         NameType::Local => {
             // No admin process exists yet so we pretend something setup the correct :local claims
-            match local_claim::get_private_claim(&lk.get_reader(), name, None).into_ok()? {
+            match local_claim::get_private_claim(reader, name, None).into_ok()? {
                 Some(claim) => Ok(Ok(LiveClaim {
                     claim: Claim::from(claim)?,
                     signatures: vec![],
@@ -139,7 +148,7 @@ pub fn lookup_live_chain(
         }
         // The admin process doesn't exist yet so we walk the chain for now
         NameType::Public => public_claim::walk_live_claims(
-            &lk.get_reader(),
+            reader,
             public_claim::root_claim(),
             &mut name.space().iter(),
             issue_handler,
@@ -148,13 +157,14 @@ pub fn lookup_live_chain(
 }
 
 pub fn lookup_enckey(lk: &Linkspace, name: &Name) -> anyhow::Result<Option<(PubKey, String)>> {
-    let claim = lookup_claim(lk, name)?;
+    // keys are opened and set up by what is saved now, which the reader of lk might not have seen.
+    let reader = lk.env().new_read_txn()?;
+    let claim = lookup_claim_in(&reader, name)?;
     if let Some(c) = claim {
         return match c.enckey() {
             Ok(k) => Ok(Some(k)),
             Err(None) => Ok(None),
-            Err(Some(link)) => Ok(lk
-                .get_reader()
+            Err(Some(link)) => Ok(reader
                 .read(&link.ptr)?
                 .map(|pkt| read_enckey(pkt.data()))
                 .transpose()?),
@@ -172,7 +182,11 @@ pub fn lookup_group(lk: &Linkspace, name: &Name) -> anyhow::Result<Option<GroupI
 }
 
 pub fn lookup_claim(lk: &Linkspace, name: &Name) -> anyhow::Result<Option<Claim>> {
-    lookup_live_chain(lk, name, &mut |_| Ok(())).map(|o| o.ok().map(|o| o.claim))
+    lookup_claim_in(&lk.get_reader(), name)
+}
+
+fn lookup_claim_in(reader: &ReadTxn, name: &Name) -> anyhow::Result<Option<Claim>> {
+    lookup_live_chain_in(reader, name, &mut |_| Ok(())).map(|o| o.ok().map(|o| o.claim))
 }
 
 #[instrument(skip(lk), ret)]
@@ -204,7 +218,7 @@ pub fn setup_special_keyclaim(
         sp == NameType::Local,
         "you can only setup :local key claims this way"
     );
-    if let Ok(Some(c)) = lookup_claim(lk, &name) {
+    if let Ok(Some(c)) = lookup_claim_in(&lk.env().new_read_txn()?, &name) {
         if !overwrite {
             anyhow::bail!("claim already set but overwrite is false")
         } else {
-- 
2.43.0


From befc5750b3bffe0d836b93eae4671f5e1091c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:21 +0000
Subject: [PATCH 67/81] fix: reading by hash evaluates the fields of the packet
 that is in scope already, not of the packet that was read

---
 crates/common/src/eval/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/eval/mod.rs b/crates/common/src/eval/mod.rs
index 8493382..8ba6287 100644
--- a/crates/common/src/eval/mod.rs
+++ b/crates/common/src/eval/mod.rs
@@ -167,7 +167,7 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                         ApplyResult::Value(r)
                     }
                     Some(pkt) => {
-                        let r = eval(&(scope, pkt_scope(&pkt)), expr)?.concat();
+                        let r = eval(&(pkt_scope(&pkt), scope), expr)?.concat();
                         //drop(pkt); drop(reader);
                         ApplyResult::Value(r)
                     }
-- 
2.43.0


From 8be67f79b1b71c00e0a2c0099a200edb1a3054a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:30 +0000
Subject: [PATCH 68/81] fix: reading by hash with an alternative always fails
 when the packet is not there: it asks for one argument more

---
 crates/common/src/eval/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/eval/mod.rs b/crates/common/src/eval/mod.rs
index 8ba6287..f9dcb1d 100644
--- a/crates/common/src/eval/mod.rs
+++ b/crates/common/src/eval/mod.rs
@@ -162,7 +162,9 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                 match reader.read(&hash)? {
                     None => {
                         let alt = alt.with_context(|| format!("could not find pkt {}", hash))?;
-                        it.next().context("to many args?")?;
+                        if it.next().is_some() {
+                            return ApplyResult::Err(anyhow::anyhow!("too many args").into());
+                        }
                         let r = eval(scope, alt)?.concat();
                         ApplyResult::Value(r)
                     }
-- 
2.43.0


From c8c1a6e220ad3593e705f9794dc04fcfd9ff5f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:30 +0000
Subject: [PATCH 69/81] fix: expressions can read private packets by their hash
 without being allowed to

---
 crates/common/src/eval/mod.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/common/src/eval/mod.rs b/crates/common/src/eval/mod.rs
index f9dcb1d..4184208 100644
--- a/crates/common/src/eval/mod.rs
+++ b/crates/common/src/eval/mod.rs
@@ -66,6 +66,16 @@ where
     (core_scope(), (lns, local_lns, (files, readhash, env)))
 }
 
+// TODO decide on thread model
+fn check_read_private() -> anyhow::Result<()> {
+    if !std::env::var("LK_PRIVATE")?.parse::<bool>()? {
+        return Err(anyhow::anyhow!(
+            "prevent reading [#:0] group or set LK_PRIVATE=true to enable ( dangerous if you're evaluating external abe )"
+        ));
+    }
+    Ok(())
+}
+
 #[derive(Copy, Clone)]
 pub struct ReadHash<GT>(GT);
 impl<R: LKS> ReadHash<R> {
@@ -77,12 +87,7 @@ impl<R: LKS> ReadHash<R> {
             .transpose()?
             .unwrap_or(PUBLIC);
         if group == PRIVATE {
-            // TODO decide on thread model
-            if !std::env::var("LK_PRIVATE")?.parse::<bool>()? {
-                return Err(anyhow::anyhow!(
-                    "prevent reading [#:0] group or set LK_PRIVATE=true to enable ( dangerous if you're evaluating external abe )"
-                ));
-            }
+            check_read_private()?;
         }
         let space = Space::from_slice(inp.get(2).copied().unwrap_or(&[]))?.try_into_rooted()?;
         let key = inp
@@ -123,6 +128,7 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                     let env = this.0.lk()?;
                     let reader = env.get_reader();
                     let pkt = reader.read(&hash)?.with_context(||format!("could not find pkt {}",hash))?;
+                    if pkt.check_private().is_err() { check_read_private()? }
                     let (id, args) = inp[1..].split_first().unwrap_or((&{b"pkt" as &[u8]},&[]));
                     let r = pkt_scope(&*pkt).try_apply_func(id, args, true,scope);
                     drop(reader);
@@ -169,6 +175,9 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                         ApplyResult::Value(r)
                     }
                     Some(pkt) => {
+                        if pkt.check_private().is_err() {
+                            check_read_private()?
+                        }
                         let r = eval(&(pkt_scope(&pkt), scope), expr)?.concat();
                         //drop(pkt); drop(reader);
                         ApplyResult::Value(r)
-- 
2.43.0


From 83cb6f5ea64f0850240317d70e6fd12cf34f5c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:30 +0000
Subject: [PATCH 70/81] fix: reading by place gives what is below the place
 when nothing is at it

---
 crates/common/src/eval/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/eval/mod.rs b/crates/common/src/eval/mod.rs
index 4184208..4970620 100644
--- a/crates/common/src/eval/mod.rs
+++ b/crates/common/src/eval/mod.rs
@@ -98,7 +98,10 @@ impl<R: LKS> ReadHash<R> {
         let env = self.0.lk()?;
         let reader = env.get_reader();
 
-        let predicates = Query::dgsk(domain, group, space, key).predicates;
+        let depth = *space.space_depth();
+        let mut predicates = Query::dgsk(domain, group, space, key).predicates;
+        // only what is at the space, not what is below it
+        predicates.depth.add(TestOp::Equal, depth);
         let pkt = reader
             .query_tree(query_mode::Order::Desc, &predicates)
             .next()
-- 
2.43.0


From a283dd53d74728ca6da4b140eb98439473e1fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:07 +0000
Subject: [PATCH 71/81] fix: packets that expressions read from the database
 have lost the moment they were received

---
 crates/common/src/eval/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/eval/mod.rs b/crates/common/src/eval/mod.rs
index 4970620..7fc9bc3 100644
--- a/crates/common/src/eval/mod.rs
+++ b/crates/common/src/eval/mod.rs
@@ -108,7 +108,7 @@ impl<R: LKS> ReadHash<R> {
             .context("no matching packet")?;
         let id = inp.get(4).copied().unwrap_or(b"pkt");
         let args = inp.get(5..).unwrap_or(&[]);
-        let r = pkt_scope(&*pkt).try_apply_func(id, args, true, scope);
+        let r = pkt_scope(&pkt).try_apply_func(id, args, true, scope);
         drop(reader);
         match r.into_opt() {
             Some(o) => o,
@@ -133,7 +133,7 @@ funcs evaluate as if [/[func + args]:[rest]]. (e.g. [/readhash:HASH:[group:str]]
                     let pkt = reader.read(&hash)?.with_context(||format!("could not find pkt {}",hash))?;
                     if pkt.check_private().is_err() { check_read_private()? }
                     let (id, args) = inp[1..].split_first().unwrap_or((&{b"pkt" as &[u8]},&[]));
-                    let r = pkt_scope(&*pkt).try_apply_func(id, args, true,scope);
+                    let r = pkt_scope(&pkt).try_apply_func(id, args, true,scope);
                     drop(reader);
                     r
                 },
-- 
2.43.0


From a9f8e16016054318ee61c9b6be9f234730bf0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:54 +0000
Subject: [PATCH 72/81] fix: a delimiter that is excluded twice from splitting
 is not excluded

---
 crates/linkspace/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/linkspace/src/lib.rs b/crates/linkspace/src/lib.rs
index 9ff5c2a..ef0e157 100644
--- a/crates/linkspace/src/lib.rs
+++ b/crates/linkspace/src/lib.rs
@@ -320,7 +320,7 @@ pub mod abe {
         let plain = exclude_ctr
             .iter()
             .filter_map(|v| CtrChar::try_from_char(*v))
-            .fold(0, |a, b| a ^ b as u32);
+            .fold(0, |a, b| a | b as u32);
         for (a, b, c) in tokenize_abe(expr, plain, 0)? {
             if !per_comp(a, b, c) {
                 return Ok(());
-- 
2.43.0


From 620fb12549377bc2939b2797edbfc336e717c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:02 +0000
Subject: [PATCH 73/81] fix: reading without the check of the hash checks it in
 builds without debug assertions

---
 crates/linkspace/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/linkspace/src/lib.rs b/crates/linkspace/src/lib.rs
index ef0e157..4ced329 100644
--- a/crates/linkspace/src/lib.rs
+++ b/crates/linkspace/src/lib.rs
@@ -184,7 +184,7 @@ pub mod point {
         buf: &[u8],
         allow_private: bool,
     ) -> Result<(Cow<NetPktPtr>, &[u8]), PktError> {
-        let pkt = linkspace_common::pkt::read::read_pkt(buf, cfg!(debug_assertions))?;
+        let pkt = linkspace_common::pkt::read::read_pkt(buf, true)?;
         if !allow_private {
             pkt.check_private()?
         };
-- 
2.43.0


From 9e065eb0f1d85f7f70df1299d67747e9072d6ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:10 +0000
Subject: [PATCH 74/81] fix: what did not fit in a packet is lost when the last
 of a limited number of reads is done

---
 crates/common/src/cli/reader.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/common/src/cli/reader.rs b/crates/common/src/cli/reader.rs
index 60766c3..0a28501 100644
--- a/crates/common/src/cli/reader.rs
+++ b/crates/common/src/cli/reader.rs
@@ -236,10 +236,6 @@ impl Reader {
         freespace: usize,
         buf: &mut Vec<u8>,
     ) -> anyhow::Result<Option<()>> {
-        if self.call_limit == 0 {
-            return Ok(None);
-        }
-
         if let Some(mut b) = self.next.take() {
             if self.on_overflow == EMode::Carry {
                 self.read_next_data(scope, freespace, buf)?;
@@ -251,6 +247,9 @@ impl Reader {
             self.check_size(buf, freespace)?;
             return Ok(Some(()));
         }
+        if self.call_limit == 0 {
+            return Ok(None);
+        }
         let take = self.take_max.unwrap_or(freespace) as u64;
 
         self.call_limit -= 1;
-- 
2.43.0


From 20d965e21d0dcf4c01cf901242d144bed2800a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:52 +0000
Subject: [PATCH 75/81] fix: a limited read up to a delimiter reads one byte
 more than its limit

---
 crates/common/src/cli/reader.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/crates/common/src/cli/reader.rs b/crates/common/src/cli/reader.rs
index 0a28501..f194801 100644
--- a/crates/common/src/cli/reader.rs
+++ b/crates/common/src/cli/reader.rs
@@ -184,10 +184,25 @@ impl ReadSource {
         buf: &mut Vec<u8>,
     ) -> std::io::Result<usize> {
         match delim {
-            Some(byte) => self
-                .bufr()
-                .take(take.saturating_add(1))
-                .read_until(byte, buf),
+            Some(byte) => {
+                let r = self.bufr();
+                let mut len = r.take(take).read_until(byte, buf)?;
+                // a delimiter right behind the last byte belongs to this read
+                if len as u64 == take && buf.last() != Some(&byte) {
+                    let behind = loop {
+                        match r.fill_buf() {
+                            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                            next => break next?.first().copied(),
+                        }
+                    };
+                    if behind == Some(byte) {
+                        r.consume(1);
+                        buf.push(byte);
+                        len += 1;
+                    }
+                }
+                Ok(len)
+            }
             None => self.bufr().take(take).read_to_end(buf),
         }
     }
@@ -250,7 +265,11 @@ impl Reader {
         if self.call_limit == 0 {
             return Ok(None);
         }
-        let take = self.take_max.unwrap_or(freespace) as u64;
+        // without a maximum one byte more is read, to notice data that is too long for the packet
+        let take = self
+            .take_max
+            .unwrap_or(freespace.saturating_add(self.delim.is_some() as usize))
+            as u64;
 
         self.call_limit -= 1;
 
-- 
2.43.0


From b435badc04dcb8b80f598b62297c2346b3888e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 76/81] fix: carried data comes before data that was read
 earlier

---
 crates/common/src/cli/reader.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/common/src/cli/reader.rs b/crates/common/src/cli/reader.rs
index f194801..59a70be 100644
--- a/crates/common/src/cli/reader.rs
+++ b/crates/common/src/cli/reader.rs
@@ -255,6 +255,8 @@ impl Reader {
             if self.on_overflow == EMode::Carry {
                 self.read_next_data(scope, freespace, buf)?;
                 b.extend_from_slice(buf);
+                // what did not fit of this read comes behind what did
+                b.extend_from_slice(&self.next.take().unwrap_or_default());
                 *buf = b;
             } else {
                 *buf = b;
@@ -301,12 +303,6 @@ impl Reader {
         Ok(Some(()))
     }
     fn check_size(&mut self, buf: &mut Vec<u8>, freespace: usize) -> anyhow::Result<()> {
-        if self.on_overflow == EMode::Carry {
-            if let Some(mut carry) = self.next.take() {
-                carry.extend_from_slice(buf);
-                *buf = carry;
-            }
-        }
         if freespace < buf.len() {
             match self.on_overflow {
                 EMode::Error => anyhow::bail!(
-- 
2.43.0


From bbef946f7eaca6656f3a2b273ed3127cab5e1e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:56 +0000
Subject: [PATCH 77/81] fix: a place without a space panics when given as
 expressions

---
 crates/common/src/dgs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/common/src/dgs.rs b/crates/common/src/dgs.rs
index 472ba07..0baaa5f 100644
--- a/crates/common/src/dgs.rs
+++ b/crates/common/src/dgs.rs
@@ -113,12 +113,12 @@ impl DGS {
         .into_iter()
     }
     pub fn as_predicate_exprs(&self) -> impl Iterator<Item = PredicateExpr> {
-        [
-            abe!(<ExtPredicate> "prefix" : "=" : +(self.space.to_abe())),
+        let prefix = (!self.space.is_empty())
+            .then(|| abe!(<ExtPredicate> "prefix" : "=" : +(self.space.to_abe())));
+        prefix.into_iter().chain([
             abe!(<ExtPredicate> "domain" : "=" : +(self.domain.to_abe())),
             abe!(<ExtPredicate> "group"  : "=" : +(self.group.to_abe())),
-        ]
-        .into_iter()
+        ])
     }
 }
 
-- 
2.43.0


From 629bac2b480a20ae7673729d55a74057bdcaecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:03 +0000
Subject: [PATCH 78/81] fix: an error while following links recursively was
 swallowed

---
 cli/linkspace/src/get_links.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cli/linkspace/src/get_links.rs b/cli/linkspace/src/get_links.rs
index cfbb567..7c0bc6f 100644
--- a/cli/linkspace/src/get_links.rs
+++ b/cli/linkspace/src/get_links.rs
@@ -53,17 +53,28 @@ pub fn get_links(
         let qid = [&count_be as &[u8], &*link.ptr].concat();
         let q = lk_query_push(lk_hash_query(link.ptr), "", "qid", &qid)?;
         let print_fnc = out.clone();
+        // an error in a callback only ends its watch
+        let failed = Rc::new(RefCell::new(Ok(())));
+        let on_fail = failed.clone();
         let res = lk_watch(
             lk,
             &q,
             try_cb(move |p, lk| -> anyhow::Result<()> {
-                print_fnc.borrow_mut()(p)?;
-                if level > 0 {
-                    get_links(lk, p, level - 1, mode, print_fnc.clone())?;
-                }
-                Ok(())
+                let mut follow = || -> anyhow::Result<()> {
+                    print_fnc.borrow_mut()(p)?;
+                    if level > 0 {
+                        get_links(lk, p, level - 1, mode, print_fnc.clone())?;
+                    }
+                    Ok(())
+                };
+                follow().map_err(|e| {
+                    let msg = format!("{e:#}");
+                    *on_fail.borrow_mut() = Err(e);
+                    anyhow::Error::msg(msg)
+                })
             }),
         )?;
+        failed.replace(Ok(()))?;
         if res != 0 {
             continue;
         }
@@ -84,6 +95,7 @@ pub fn get_links(
             }
             GetLinksMode::Error => bail!("link {link} not found (from {})", pkt.hash()),
         };
+        failed.replace(Ok(()))?;
     }
     Ok(())
 }
-- 
2.43.0


From 19da72724109557b691a5d6e0e74499f0c3efa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:03 +0000
Subject: [PATCH 79/81] fix: a command told to read no packets panicked

---
 crates/common/src/cli/opts.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/common/src/cli/opts.rs b/crates/common/src/cli/opts.rs
index 3d22d27..ed8816b 100644
--- a/crates/common/src/cli/opts.rs
+++ b/crates/common/src/cli/opts.rs
@@ -256,10 +256,10 @@ impl CommonOpts {
         inp: &PktReadOpts,
     ) -> io::Result<NetPktDecoder<Box<dyn std::io::Read>>> {
         // Do not buffer. cli like handshake must not buffer partial packets and have  subsequent programs fail
-        let reader = inp
-            .open()?
-            .expect("bug: - should be empty reader")
-            .into_read();
+        let reader = match inp.open()? {
+            Some(reader) => reader.into_read(),
+            None => Box::new(io::empty()),
+        };
         Ok(NetPktDecoder {
             reader,
             allow_private: self.read_private().unwrap_or(false),
-- 
2.43.0


From 9edd2f529487a7f7ca48075f0bd7cb5d4952a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:40 +0000
Subject: [PATCH 80/81] fix: giving a stored key a new password replaced it by
 another key

---
 crates/common/src/cli/keys.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/cli/keys.rs b/crates/common/src/cli/keys.rs
index 2e65599..c2889de 100644
--- a/crates/common/src/cli/keys.rs
+++ b/crates/common/src/cli/keys.rs
@@ -198,7 +198,8 @@ pub fn keygen(common: &CommonOpts, opts: KeyGenOpts) -> anyhow::Result<()> {
         },
     };
     tracing::debug!(?enckey);
-    if new_pass || new_pass_str.is_some() {
+    let change_pass = new_pass || new_pass_str.is_some();
+    if change_pass {
         let keystr = enckey.context("new_pass but no --enckey found")?;
         let old_password = key.password_bytes_prompt(common, true, "old password: ")?;
         let skey = decrypt(&keystr, &old_password)?;
@@ -210,7 +211,8 @@ pub fn keygen(common: &CommonOpts, opts: KeyGenOpts) -> anyhow::Result<()> {
     }
 
     if overwrite {
-        let enckey = match user_enckey_input {
+        // a key with a new password takes the place of the old one, a new key would be another identity
+        let enckey = match user_enckey_input || change_pass {
             true => {
                 let enckey = enckey.unwrap();
                 if !no_check {
-- 
2.43.0


From 21eb2c66a1905ea428638d5bd19ad48f6039d694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:42 +0000
Subject: [PATCH 81/81] fix: a limit that could not be used still narrowed the
 query it was tried on

---
 cli/linkspace/src/multi_watch.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/linkspace/src/multi_watch.rs b/cli/linkspace/src/multi_watch.rs
index 8e02d62..7b8aee1 100644
--- a/cli/linkspace/src/multi_watch.rs
+++ b/cli/linkspace/src/multi_watch.rs
@@ -84,7 +84,10 @@ pub fn setup_watch(
 
     let mut ok = mv.constraint.or.is_empty();
     for opt in mv.constraint.or.iter() {
-        if query.parse(opt.as_bytes(), &cli_scope).is_ok() {
+        // what is read of an option that can not be used must not stay
+        let mut with_opt = query.clone();
+        if with_opt.parse(opt.as_bytes(), &cli_scope).is_ok() {
+            query = with_opt;
             ok = true;
             break;
         }
-- 
2.43.0

