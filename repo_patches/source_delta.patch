From 0ea48ef756435dc9a688035c909009e464a921e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 01/32] fix: report I/O errors while reading bits instead of a
 zero byte

---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index fe3217d..28e6e28 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -313,6 +313,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
@@ -326,6 +327,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
-- 
2.43.0


From 96e8fdfc1ffec7b9a870ea8c400f8b251d97a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 02/32] fix: do not take an I/O error at an element boundary
 for a zero byte

Reader::end() treated every error except UnexpectedEof as a successfully
read zero byte and buffered it, so read_all containers decoded a byte that
the stream never delivered.
---
 src/impls/hashmap.rs |  2 +-
 src/impls/hashset.rs |  2 +-
 src/impls/vec.rs     |  2 +-
 src/reader.rs        | 14 +++++++++++---
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index 9ebff2e..1406636 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -56,7 +56,7 @@ where
     let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
 
     loop {
-        if reader.end() {
+        if reader.try_end()? {
             break;
         }
         let val = <(K, V)>::from_reader_with_ctx(reader, ctx)?;
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index bd9ba58..a87689c 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -54,7 +54,7 @@ where
     let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
 
     loop {
-        if reader.end() {
+        if reader.try_end()? {
             break;
         }
         let val = <T>::from_reader_with_ctx(reader, ctx)?;
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 4140ae7..bc33d94 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -99,7 +99,7 @@ where
 
     let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
     loop {
-        if reader.end() {
+        if reader.try_end()? {
             break;
         }
         let val = <T>::from_reader_with_ctx(reader, ctx)?;
diff --git a/src/reader.rs b/src/reader.rs
index 28e6e28..165347b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -150,25 +150,33 @@ impl<R: Read + Seek> Reader<R> {
     /// The byte that was read will be internally buffered and will *not* be included in the `bits_read` count.
     #[inline]
     pub fn end(&mut self) -> bool {
+        // An I/O error is not the end: the next read reports it.
+        self.try_end().unwrap_or(false)
+    }
+
+    /// Same as [`Reader::end`], but reports any I/O error other than the end of the stream
+    #[inline]
+    pub(crate) fn try_end(&mut self) -> Result<bool, DekuError> {
         if self.leftover.is_some() {
             #[cfg(feature = "logging")]
             log::trace!("not end");
-            false
+            Ok(false)
         } else {
             let mut buf = [0; 1];
             if let Err(e) = self.inner.read_exact(&mut buf) {
                 if e.kind() == ErrorKind::UnexpectedEof {
                     #[cfg(feature = "logging")]
                     log::trace!("end");
-                    return true;
+                    return Ok(true);
                 }
+                return Err(DekuError::Io(e.kind()));
             }
 
             #[cfg(feature = "logging")]
             log::trace!("not end: read {:02x?}", buf);
 
             self.leftover = Some(Leftover::Byte(buf[0]));
-            false
+            Ok(false)
         }
     }
 
-- 
2.43.0


From a4eb7635e429496ba9c725f47ccb9366a2d58001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 03/32] fix: skip padding by reading it

skip_bits() seeked over whole bytes. That ignored a byte buffered by end(),
so a read_all container of elements that start with padding lost a byte per
element; it made bits_read the absolute stream position instead of the amount
read by this Reader; it failed on streams that cannot seek; and it accepted
input that ends within the padding.
---
 src/reader.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 165347b..f44dae5 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -202,13 +202,12 @@ impl<R: Read + Seek> Reader<R> {
             let bytes_amt = amt / 8;
             let bits_amt = amt % 8;
 
-            // first, seek with bytes
-            if bytes_amt != 0 {
-                debug_assert_eq!(self.bits_read % 8, 0);
-                self.seek(SeekFrom::Current(
-                    i64::try_from(bytes_amt).expect("could not convert seek usize into i64"),
-                ))
-                .map_err(|e| DekuError::Io(e.kind()))?;
+            // first, discard whole bytes. These are read rather than seeked over, as this has to
+            // account for a byte already buffered by `end()`, work for streams that can't seek and
+            // notice when the stream doesn't contain that many bytes.
+            let mut discard = [0u8; 1];
+            for _ in 0..bytes_amt {
+                self.read_bytes(1, &mut discard, _order)?;
             }
 
             // Save, and keep the leftover bits since the read will most likely be less than a byte
-- 
2.43.0


From f215d86dfe935aebd817266f6cdb77819dc23c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:29 +0000
Subject: [PATCH 04/32] fix: seek from the current position when a byte is
 buffered by end()

---
 src/reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index f44dae5..0cd2e69 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -48,6 +48,14 @@ impl<R: Read + Seek> Seek for Reader<R> {
         #[cfg(feature = "logging")]
         log::trace!("seek: {pos:?}");
 
+        // A byte buffered by `end()` has left the inner reader, but isn't consumed yet
+        let pos = match (pos, &self.leftover) {
+            (SeekFrom::Current(n), Some(Leftover::Byte(_))) => {
+                SeekFrom::Current(n.saturating_sub(1))
+            }
+            (pos, _) => pos,
+        };
+
         // clear leftover
         self.leftover = None;
 
-- 
2.43.0


From 6b7e94fd7dbd074176657bc32c244b840403a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 05/32] fix: report a seek on NoSeek as an error without std
 too

---
 src/noseek.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/noseek.rs b/src/noseek.rs
index 84e222f..2c0e367 100644
--- a/src/noseek.rs
+++ b/src/noseek.rs
@@ -47,7 +47,7 @@ impl<T> Seek for NoSeek<T> {
             #[cfg(feature = "std")]
             _ => Err(std::io::Error::other("seek on unseekable file")),
             #[cfg(not(feature = "std"))]
-            _ => panic!("seek on unseekable file"),
+            _ => Err(no_std_io::io::ErrorKind::Other.into()),
         }
     }
 
-- 
2.43.0


From e05296a686e85b157310d4c8e2f50afa343bec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 06/32] fix: read a counted Vec<u8> like any other counted
 container

The bounds check ignored a byte buffered by end(), overflowed for huge counts,
underflowed when the stream is positioned behind its end, and failed on streams
that cannot seek. Unaligned bytes were read in lsb order although they are
written in msb order.
---
 src/impls/vec.rs | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index bc33d94..c5836c7 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -5,7 +5,7 @@ use no_std_io::io::{Read, Seek, SeekFrom, Write};
 use alloc::vec::Vec;
 
 use crate::error::NeedSize;
-use crate::reader::Reader;
+use crate::reader::{Leftover, Reader};
 use crate::writer::Writer;
 use crate::{ctx::*, DekuReader};
 use crate::{DekuError, DekuWriter};
@@ -18,26 +18,41 @@ impl DekuReader<'_, ReadExact> for Vec<u8> {
     where
         Self: Sized,
     {
+        let incomplete = || DekuError::Incomplete(NeedSize::new(exact.0.saturating_mul(8)));
+
         // Check remaining bytes via the inner reader before allocating,
         // so a bogus count from untrusted input doesn't cause a huge
         // allocation that will immediately fail on read.
+        // A byte buffered by `end()` is not in the inner reader anymore.
+        let buffered = u64::from(matches!(reader.leftover, Some(Leftover::Byte(_))));
         let inner = reader.as_mut();
-        let pos = inner
-            .stream_position()
-            .map_err(|e| DekuError::Io(e.kind()))?;
-        let end = inner
-            .seek(SeekFrom::End(0))
-            .map_err(|e| DekuError::Io(e.kind()))?;
-        inner
-            .seek(SeekFrom::Start(pos))
-            .map_err(|e| DekuError::Io(e.kind()))?;
-
-        if (end - pos) < exact.0 as u64 {
-            return Err(DekuError::Incomplete(NeedSize::new(exact.0 * 8)));
+        if let Ok(pos) = inner.stream_position() {
+            // Not every stream can tell its size
+            if let Ok(end) = inner.seek(SeekFrom::End(0)) {
+                inner
+                    .seek(SeekFrom::Start(pos))
+                    .map_err(|e| DekuError::Io(e.kind()))?;
+
+                if end.saturating_sub(pos) + buffered < exact.0 as u64 {
+                    return Err(incomplete());
+                }
+            }
         }
 
-        let mut bytes = alloc::vec![0x00; exact.0];
-        let _ = reader.read_bytes(exact.0, &mut bytes, Order::Lsb0)?;
+        // For the same reason, grow as the data arrives
+        const CHUNK: usize = 64 * 1024;
+        let mut bytes = Vec::new();
+        while bytes.len() < exact.0 {
+            let start = bytes.len();
+            let amt = core::cmp::min(exact.0 - start, CHUNK);
+            bytes.resize(start + amt, 0x00);
+            reader
+                .read_bytes(amt, &mut bytes[start..], Order::default())
+                .map_err(|e| match e {
+                    DekuError::Incomplete(_) => incomplete(),
+                    e => e,
+                })?;
+        }
         Ok(bytes)
     }
 }
-- 
2.43.0


From b6d7adf6906eb0fafa2ab1092910da3b4e24f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 07/32] fix: respect bits, bytes, bit_order and ctx of a
 counted Vec<u8> when reading

---
 deku-derive/src/macros/deku_read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 89d3839..2285286 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -832,6 +832,12 @@ fn emit_field_read(
                     }
                 }
             }
+            // The bytes can only be read as a whole if nothing changes how each of them is read
+            is_vec_u8 &= f.bytes.is_none() && f.ctx.is_none() && field_bit_order.is_none();
+            #[cfg(feature = "bits")]
+            {
+                is_vec_u8 &= f.bits.is_none();
+            }
             if is_vec_u8 {
                 quote! {
                     {
-- 
2.43.0


From 390c2d338fea5dcc497228eaf1ff58592222479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 08/32] fix: return an error instead of panicking for a seek
 offset that does not fit

---
 deku-derive/src/macros/deku_read.rs  | 12 ++++++------
 deku-derive/src/macros/deku_write.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 2285286..27485b6 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -48,7 +48,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num)?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -59,7 +59,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num)?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -70,7 +70,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num)?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -685,7 +685,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -695,7 +695,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -705,7 +705,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 461c5e8..60b34a5 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -38,7 +38,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num)?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -49,7 +49,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num)?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -60,7 +60,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num)?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -653,7 +653,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -663,7 +663,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -673,7 +673,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num)?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
-- 
2.43.0


From f1c5058afe12432b7e5fc3575fcd01037b253dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 09/32] fix: do not overflow on a large bytes_read limit

---
 src/impls/hashmap.rs | 2 +-
 src/impls/hashset.rs | 2 +-
 src/impls/vec.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index 1406636..f4e34ff 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -155,7 +155,7 @@ where
 
             // Read until a given quantity of byte bits have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashmap
                 if bit_size == 0 {
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index a87689c..f32ee42 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -140,7 +140,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashset
                 if bit_size == 0 {
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index c5836c7..77db8a8 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -173,7 +173,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty vector
                 if bit_size == 0 {
-- 
2.43.0


From b41336f8f8e5520f96c9af4076200d56a211ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 10/32] fix: do not allocate for an untrusted element count up
 front

---
 src/impls/hashmap.rs | 13 ++++++++++---
 src/impls/hashset.rs | 13 ++++++++++---
 src/impls/mod.rs     | 13 +++++++++++++
 src/impls/vec.rs     |  7 ++++---
 4 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index f4e34ff..263ae8f 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -4,11 +4,12 @@ use std::collections::HashMap;
 use no_std_io::io::{Read, Seek, Write};
 
 use crate::ctx::*;
+use crate::impls::initial_capacity;
 use crate::writer::Writer;
 use crate::{DekuError, DekuReader, DekuWriter};
 
 /// Read `K, V`s into a hashmap until a given predicate returns true
-/// * `capacity` - an optional capacity to pre-allocate the hashmap with
+/// * `capacity` - an optional hint of the capacity to pre-allocate the hashmap with
 /// * `ctx` - The context required by `K, V`. It will be passed to every `K, V` when constructing.
 /// * `predicate` - the predicate that decides when to stop reading `K, V`s
 ///   The predicate takes two parameters: the number of bits that have been read so far,
@@ -28,7 +29,10 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &(K, V)) -> bool,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashMap::with_capacity_and_hasher(
+        initial_capacity::<(K, V)>(capacity.unwrap_or(0)),
+        S::default(),
+    );
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -53,7 +57,10 @@ where
     S: BuildHasher + Default,
     Ctx: Copy,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashMap::with_capacity_and_hasher(
+        initial_capacity::<(K, V)>(capacity.unwrap_or(0)),
+        S::default(),
+    );
 
     loop {
         if reader.try_end()? {
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index f32ee42..2d17a15 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -5,10 +5,11 @@ use crate::writer::Writer;
 use no_std_io::io::{Read, Seek, Write};
 
 use crate::ctx::*;
+use crate::impls::initial_capacity;
 use crate::{DekuError, DekuReader, DekuWriter};
 
 /// Read `T`s into a hashset until a given predicate returns true
-/// * `capacity` - an optional capacity to pre-allocate the hashset with
+/// * `capacity` - an optional hint of the capacity to pre-allocate the hashset with
 /// * `ctx` - The context required by `T`. It will be passed to every `T` when constructing.
 /// * `predicate` - the predicate that decides when to stop reading `T`s
 ///   The predicate takes two parameters: the number of bits that have been read so far,
@@ -27,7 +28,10 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &T) -> bool,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashSet::with_capacity_and_hasher(
+        initial_capacity::<T>(capacity.unwrap_or(0)),
+        S::default(),
+    );
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -51,7 +55,10 @@ where
     S: BuildHasher + Default,
     Ctx: Copy,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashSet::with_capacity_and_hasher(
+        initial_capacity::<T>(capacity.unwrap_or(0)),
+        S::default(),
+    );
 
     loop {
         if reader.try_end()? {
diff --git a/src/impls/mod.rs b/src/impls/mod.rs
index 6b9905a..f108453 100644
--- a/src/impls/mod.rs
+++ b/src/impls/mod.rs
@@ -27,3 +27,16 @@ mod hashset;
 
 #[cfg(feature = "alloc")]
 mod boxed;
+
+/// Elements to allocate for up front, of the `count` elements which are to be read
+///
+/// The count often comes from the input and isn't to be trusted: past this the
+/// container grows as the elements arrive.
+#[cfg(feature = "alloc")]
+pub(crate) fn initial_capacity<T>(count: usize) -> usize {
+    const MAX_BYTES: usize = 64 * 1024;
+    core::cmp::min(
+        count,
+        MAX_BYTES / core::cmp::max(1, core::mem::size_of::<T>()),
+    )
+}
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 77db8a8..54f0dde 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -5,6 +5,7 @@ use no_std_io::io::{Read, Seek, SeekFrom, Write};
 use alloc::vec::Vec;
 
 use crate::error::NeedSize;
+use crate::impls::initial_capacity;
 use crate::reader::{Leftover, Reader};
 use crate::writer::Writer;
 use crate::{ctx::*, DekuReader};
@@ -58,7 +59,7 @@ impl DekuReader<'_, ReadExact> for Vec<u8> {
 }
 
 /// Read `T`s into a vec until a given predicate returns true
-/// * `capacity` - an optional capacity to pre-allocate the vector with
+/// * `capacity` - an optional hint of the capacity to pre-allocate the vector with
 /// * `ctx` - The context required by `T`. It will be passed to every `T` when constructing.
 /// * `predicate` - the predicate that decides when to stop reading `T`s
 ///   The predicate takes two parameters: the number of bits that have been read so far,
@@ -80,7 +81,7 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    let mut res = capacity.map_or_else(Vec::new, |c| Vec::with_capacity(initial_capacity::<T>(c)));
 
     let start_read = reader.bits_read;
 
@@ -112,7 +113,7 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    let mut res = capacity.map_or_else(Vec::new, |c| Vec::with_capacity(initial_capacity::<T>(c)));
     loop {
         if reader.try_end()? {
             break;
-- 
2.43.0


From 05378660cbed435dbccb4fe28fde44d4c45a315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 11/32] fix: do not overflow when an element of a container
 seeks backwards

---
 src/impls/hashmap.rs | 2 +-
 src/impls/hashset.rs | 2 +-
 src/impls/vec.rs     | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index 263ae8f..88c0ba7 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -39,7 +39,7 @@ where
 
     while !found_predicate {
         let val = <(K, V)>::from_reader_with_ctx(reader, ctx)?;
-        found_predicate = predicate(reader.bits_read - orig_bits_read, &val);
+        found_predicate = predicate(reader.bits_read.saturating_sub(orig_bits_read), &val);
         res.insert(val.0, val.1);
     }
 
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index 2d17a15..aa02ac5 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -38,7 +38,7 @@ where
 
     while !found_predicate {
         let val = <T>::from_reader_with_ctx(reader, ctx)?;
-        found_predicate = predicate(reader.bits_read - orig_bits_read, &val);
+        found_predicate = predicate(reader.bits_read.saturating_sub(orig_bits_read), &val);
         res.insert(val);
     }
 
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 54f0dde..3244541 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -91,7 +91,10 @@ where
 
         // This unwrap is safe as we are pushing to the vec immediately before it,
         // so there will always be a last element
-        if predicate(reader.bits_read - start_read, res.last().unwrap()) {
+        if predicate(
+            reader.bits_read.saturating_sub(start_read),
+            res.last().unwrap(),
+        ) {
             break;
         }
     }
-- 
2.43.0


From c1c9361eef4fa708f53176962790fa12a950e145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 12/32] fix: sign-extend a signed integer read from fewer bytes
 than its size

---
 src/impls/primitive.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 8ab9e29..6e9fce6 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -653,15 +653,21 @@ macro_rules! ImplDekuReadSignExtend {
                 let ret = reader.read_bytes(size.0, &mut buf, order)?;
                 let a = match ret {
                     ReaderRet::Bytes => {
-                        if endian.is_le() {
+                        let padding = MAX_TYPE_BYTES - size.0;
+                        let value = if endian.is_le() {
                             <$typ>::from_le_bytes(buf.try_into().unwrap())
                         } else {
-                            if size.0 != core::mem::size_of::<$typ>() {
-                                let padding = core::mem::size_of::<$typ>() - size.0;
+                            if padding != 0 {
                                 buf.copy_within(0..size.0, padding);
                                 buf[..padding].fill(0x00);
                             }
                             <$typ>::from_be_bytes(buf.try_into().unwrap())
+                        };
+                        if padding == 0 || size.0 == 0 {
+                            value
+                        } else {
+                            let shift = padding * 8;
+                            value << shift >> shift
                         }
                     }
                     #[cfg(all(feature = "bits", feature = "alloc"))]
-- 
2.43.0


From 247a2ef530bcafc1a90f5eb385bc230e3c64ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 13/32] fix: write negative integers with bits and bit_order

---
 src/impls/primitive.rs | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 6e9fce6..1e7bcbf 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -800,8 +800,8 @@ macro_rules! ForwardDekuRead {
     };
 }
 
-macro_rules! ImplDekuWrite {
-    ($typ:ty, $signed_type:ident) => {
+macro_rules! ImplDekuWriteBitsOrder {
+    ($typ:ty) => {
         #[cfg(feature = "bits")]
         impl DekuWriter<(Endian, BitSize, Order)> for $typ {
             #[inline]
@@ -957,7 +957,42 @@ macro_rules! ImplDekuWrite {
                 Ok(())
             }
         }
+    };
+    // A signed value which fits is written as the lower bits of its two's complement
+    ($typ:ty, $inner:ty) => {
+        #[cfg(feature = "bits")]
+        impl DekuWriter<(Endian, BitSize, Order)> for $typ {
+            #[inline]
+            fn to_writer<W: Write + Seek>(
+                &self,
+                writer: &mut Writer<W>,
+                (endian, size, order): (Endian, BitSize, Order),
+            ) -> Result<(), DekuError> {
+                const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
+                let bit_size: usize = size.0;
+
+                let mut value = *self as $inner;
+                if bit_size > 0 && bit_size < MAX_TYPE_BITS {
+                    let shift = MAX_TYPE_BITS - bit_size;
+                    if *self << shift >> shift != *self {
+                        return Err(deku_error!(
+                            DekuError::InvalidParam,
+                            "bit size of input is larger than bit requested size",
+                            "{} exceeds {} bits",
+                            self,
+                            bit_size
+                        ));
+                    }
+                    value = value << shift >> shift;
+                }
+                <$inner>::to_writer(&value, writer, (endian, size, order))
+            }
+        }
+    };
+}
 
+macro_rules! ImplDekuWrite {
+    ($typ:ty, $signed_type:ident) => {
         ImplDekuWriteDetails!($typ, $signed_type);
 
         impl DekuWriter<(Endian, ByteSize)> for $typ {
@@ -1300,6 +1335,7 @@ macro_rules! ForwardDekuWrite {
 macro_rules! ImplDekuTraitsBytesUnsigned {
     ($typ:ty) => {
         ImplDekuReadBytes!($typ, $typ);
+        ImplDekuWriteBitsOrder!($typ);
         ImplDekuWrite!($typ, Unsigned);
     };
     ($typ:ty, $inner:ty) => {
@@ -1319,6 +1355,7 @@ macro_rules! ImplDekuTraitsUnsigned {
         ImplDekuReadBits!($typ, $inner);
         ForwardDekuRead!($typ);
 
+        ImplDekuWriteBitsOrder!($typ);
         ImplDekuWrite!($typ, Unsigned);
         ImplDekuWriteOnlyEndian!($typ);
         ForwardDekuWrite!($typ);
@@ -1330,6 +1367,7 @@ macro_rules! ImplDekuTraitsSigned {
         ImplDekuReadSignExtend!($typ, $inner);
         ForwardDekuRead!($typ);
 
+        ImplDekuWriteBitsOrder!($typ, $inner);
         ImplDekuWrite!($typ, Signed);
         ImplDekuWriteOnlyEndian!($typ);
         ForwardDekuWrite!($typ);
-- 
2.43.0


From 6423d02be8611ee13f944f50ae1c9e96b8c24d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 14/32] fix: write whole bytes in the requested bit order when
 not byte aligned

---
 src/impls/primitive.rs | 19 +++++++++----------
 src/writer.rs          | 18 +++++++++++++++++-
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 1e7bcbf..d02b55b 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -140,10 +140,10 @@ impl DekuWriter<(Endian, ByteSize, Order)> for u8 {
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _, _): (Endian, ByteSize, Order),
+        (_, _, order): (Endian, ByteSize, Order),
     ) -> Result<(), DekuError> {
         let input = self.to_le_bytes();
-        writer.write_bytes(&input)?;
+        writer.write_bytes_order(&input, order)?;
         Ok(())
     }
 }
@@ -995,12 +995,12 @@ macro_rules! ImplDekuWrite {
     ($typ:ty, $signed_type:ident) => {
         ImplDekuWriteDetails!($typ, $signed_type);
 
-        impl DekuWriter<(Endian, ByteSize)> for $typ {
+        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
             #[inline(always)]
             fn to_writer<W: Write + Seek>(
                 &self,
                 writer: &mut Writer<W>,
-                (endian, size): (Endian, ByteSize),
+                (endian, size, order): (Endian, ByteSize, Order),
             ) -> Result<(), DekuError> {
                 let input = match endian {
                     Endian::Little => self.to_le_bytes(),
@@ -1024,20 +1024,19 @@ macro_rules! ImplDekuWrite {
                     &input[..size.0 as usize]
                 };
 
-                writer.write_bytes(&input)?;
+                writer.write_bytes_order(input, order)?;
                 Ok(())
             }
         }
 
-        /// When using Endian and ByteSize, Order is not used
-        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
-            #[inline]
+        impl DekuWriter<(Endian, ByteSize)> for $typ {
+            #[inline(always)]
             fn to_writer<W: Write + Seek>(
                 &self,
                 writer: &mut Writer<W>,
-                (endian, size, _order): (Endian, ByteSize, Order),
+                (endian, size): (Endian, ByteSize),
             ) -> Result<(), DekuError> {
-                <$typ>::to_writer(self, writer, (endian, size))
+                <$typ>::to_writer(self, writer, (endian, size, Order::default()))
             }
         }
     };
diff --git a/src/writer.rs b/src/writer.rs
index 0a6c641..2bf80a2 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -7,7 +7,6 @@ use no_std_io::io::{Seek, SeekFrom, Write};
 #[cfg(feature = "logging")]
 use log;
 
-#[cfg(feature = "bits")]
 use crate::ctx::Order;
 
 use crate::DekuError;
@@ -398,6 +397,23 @@ impl<W: Write + Seek> Writer<W> {
         Ok(())
     }
 
+    /// Write `buf` into `Writer`, byte by byte with the bits of each byte in `order`
+    #[inline]
+    pub(crate) fn write_bytes_order(&mut self, buf: &[u8], order: Order) -> Result<(), DekuError> {
+        #[cfg(feature = "bits")]
+        if order == Order::Lsb0 && !self.leftover.0.is_empty() {
+            for byte in buf {
+                self.write_bits_order(BitSlice::from_element(byte), order)?;
+            }
+            return Ok(());
+        }
+
+        #[cfg(not(feature = "bits"))]
+        let _ = order;
+
+        self.write_bytes(buf)
+    }
+
     /// Write all remaining bits into `Writer`, adding empty bits to the end so that we can write
     /// into a byte buffer
     #[inline]
-- 
2.43.0


From 9caf2b95e2d2a31d0df3a42b7d1a30cbe88175f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 15/32] fix: do not continue with the bit order of a finished
 byte when writing

---
 src/writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 2bf80a2..9ded579 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -345,6 +345,11 @@ impl<W: Write + Seek> Writer<W> {
         bits: &BitSlice<u8, Msb0>,
         order: Order,
     ) -> Result<(), DekuError> {
+        // Without leftover bits there is no order to continue with
+        if self.leftover.0.is_empty() {
+            self.leftover.1 = order;
+        }
+
         match self.leftover.1 {
             Order::Msb0 => match order {
                 Order::Msb0 => self.write_bits_order_msb_msb(bits, order),
-- 
2.43.0


From 54eb62c94918c12304304bb839cca1e8d4d15cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 16/32] fix: write the low bytes of a big endian lsb integer
 narrower than its type

---
 src/impls/primitive.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index d02b55b..6f5b30c 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -881,8 +881,10 @@ macro_rules! ImplDekuWriteBitsOrder {
                                 order,
                             )?;
                         } else {
+                            // The bytes which hold the requested bits are the last ones
+                            let start = input_bits.len() - 8 * bit_size.div_ceil(8);
                             let mut remaining_bits = bit_size;
-                            for chunk in input_bits.chunks(8) {
+                            for chunk in input_bits[start..].chunks(8) {
                                 if chunk.len() > remaining_bits {
                                     writer.write_bits_order(
                                         &chunk[chunk.len() - remaining_bits..],
-- 
2.43.0


From 599a00a15a9dc904bf1af37a22ef5a20c80525cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 17/32] fix: reject a big endian lsb value whose bits would be
 dropped when written

---
 src/impls/primitive.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 6f5b30c..e068bc5 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -862,17 +862,27 @@ macro_rules! ImplDekuWriteBitsOrder {
                     }
                     (Endian::Big, Order::Lsb0) => {
                         const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
-                        if let Some(first) = input_bits.first_one() {
-                            let max = MAX_TYPE_BITS - bit_size;
-                            if max > first {
-                                return Err(deku_error!(
-                                    DekuError::InvalidParam,
-                                    "bit size of input is larger than requested size",
-                                    "{} exceeds {}",
-                                    MAX_TYPE_BITS - first,
-                                    bit_size
-                                ));
-                            }
+                        // Past 8 bits, bits which don't make a byte are the lower bits of the
+                        // least significant byte: the bytes before are whole
+                        let (bits, partial) = if bit_size <= 8 {
+                            (bit_size, 0)
+                        } else {
+                            (8 * bit_size.div_ceil(8), bit_size % 8)
+                        };
+                        let significant = match input_bits.first_one() {
+                            Some(first) => MAX_TYPE_BITS - first,
+                            None => 0,
+                        };
+                        if significant > bits
+                            || (partial != 0 && (input[input.len() - 1] >> partial) != 0)
+                        {
+                            return Err(deku_error!(
+                                DekuError::InvalidParam,
+                                "bit size of input is larger than requested size",
+                                "{} exceeds {}",
+                                significant,
+                                bit_size
+                            ));
                         }
 
                         if bit_size <= 8 {
@@ -882,7 +892,7 @@ macro_rules! ImplDekuWriteBitsOrder {
                             )?;
                         } else {
                             // The bytes which hold the requested bits are the last ones
-                            let start = input_bits.len() - 8 * bit_size.div_ceil(8);
+                            let start = input_bits.len() - bits;
                             let mut remaining_bits = bit_size;
                             for chunk in input_bits[start..].chunks(8) {
                                 if chunk.len() > remaining_bits {
-- 
2.43.0


From 040be54f8987bc07fbc5f20caf3c9ec50f08b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 18/32] fix: write the id stored by an id_pat variant in the
 endian it was read in

---
 deku-derive/src/macros/deku_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 60b34a5..480c7ce 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -616,7 +616,7 @@ fn emit_field_write(
         // TODO: This should error on some attributes that don't make sense aren't used?
         // Such as magic, seek*
         let crate_ = super::get_crate_name();
-        let field_endian = input.id_endian.as_ref();
+        let field_endian = input.id_endian.as_ref().or(input.endian.as_ref());
         #[cfg(feature = "bits")]
         let field_bits = input.bits.as_ref();
         #[cfg(not(feature = "bits"))]
-- 
2.43.0


From 5ce241af3e7ced2aae6353d428643224b5b0eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:53 +0000
Subject: [PATCH 19/32] fix: write all fields of an id_pat variant when the id
 comes from the context

---
 deku-derive/src/macros/deku_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 480c7ce..974dced 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -327,7 +327,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             let field_writes = emit_field_writes(
                 input,
                 &variant.fields.as_ref(),
-                variant.id_pat.is_some(),
+                variant.id_pat.is_some() && id.is_none(),
                 None,
                 &ident,
             )?;
-- 
2.43.0


From 862914b2aa4af86dc0ae96c203a5183c8f59aa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:26 +0000
Subject: [PATCH 20/32] fix: count temp fields in DekuSize, they are on the
 wire

---
 deku-derive/src/macros/deku_size.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index e731c2c..d90a397 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -32,10 +32,6 @@ fn calculate_fields_size<'a>(
             return None;
         }
 
-        if f.temp {
-            return None;
-        }
-
         let mut components = Vec::new();
 
         if let Some(magic) = &f.magic {
@@ -159,19 +155,17 @@ fn add_field_bounds<'a>(
             continue;
         }
 
-        if !field.temp {
-            let field_type = &field.ty;
-            #[cfg(feature = "bits")]
-            let needs_bound = field.bits.is_none() && field.bytes.is_none();
-            #[cfg(not(feature = "bits"))]
-            let needs_bound = field.bytes.is_none();
-
-            if needs_bound {
-                let where_clause = where_clause.get_or_insert_with(|| syn::parse_quote! { where });
-                where_clause.predicates.push(syn::parse_quote! {
-                    #field_type: ::#crate_::DekuSize
-                });
-            }
+        let field_type = &field.ty;
+        #[cfg(feature = "bits")]
+        let needs_bound = field.bits.is_none() && field.bytes.is_none();
+        #[cfg(not(feature = "bits"))]
+        let needs_bound = field.bytes.is_none();
+
+        if needs_bound {
+            let where_clause = where_clause.get_or_insert_with(|| syn::parse_quote! { where });
+            where_clause.predicates.push(syn::parse_quote! {
+                #field_type: ::#crate_::DekuSize
+            });
         }
     }
 }
-- 
2.43.0


From 661255d8bcfe681954778f3e97375e9e9aa5dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 21/32] fix: count bits and bytes of each element in DekuSize

---
 deku-derive/src/macros/deku_size.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index d90a397..c81196a 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -55,18 +55,19 @@ fn calculate_fields_size<'a>(
         }
 
         let field_type = &f.ty;
+        let elements = calculate_elements(field_type);
         #[cfg(feature = "bits")]
         if let Some(bits) = &f.bits {
-            components.push(quote! { (#bits) });
+            components.push(quote! { (#bits) * #elements });
         } else if let Some(bytes) = &f.bytes {
-            components.push(quote! { (#bytes) * 8 });
+            components.push(quote! { (#bytes) * 8 * #elements });
         } else {
             components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
         }
 
         #[cfg(not(feature = "bits"))]
         if let Some(bytes) = &f.bytes {
-            components.push(quote! { (#bytes) * 8 });
+            components.push(quote! { (#bytes) * 8 * #elements });
         } else {
             components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
         }
@@ -96,6 +97,25 @@ fn calculate_fields_size<'a>(
     quote! { 0 #(+ (#field_components))* }
 }
 
+/// Amount of values of this type which `bits` or `bytes` apply to: arrays and tuples pass them on to
+/// each element
+fn calculate_elements(ty: &syn::Type) -> TokenStream {
+    match ty {
+        syn::Type::Array(array) => {
+            let len = &array.len;
+            let elements = calculate_elements(&array.elem);
+            quote! { ((#len) * #elements) }
+        }
+        syn::Type::Tuple(tuple) => {
+            let elements = tuple.elems.iter().map(calculate_elements);
+            quote! { (0 #(+ #elements)*) }
+        }
+        syn::Type::Paren(paren) => calculate_elements(&paren.elem),
+        syn::Type::Group(group) => calculate_elements(&group.elem),
+        _ => quote! { 1 },
+    }
+}
+
 /// Check if struct/enum has seek attributes
 fn has_seek_attributes(input: &DekuData) -> bool {
     input.seek_rewind
-- 
2.43.0


From 16245756fb733dc18094e9207b307c7f569fa682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 22/32] fix: do not count skipped fields in DekuSize

---
 deku-derive/src/macros/deku_size.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index c81196a..5daa5ae 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -57,7 +57,9 @@ fn calculate_fields_size<'a>(
         let field_type = &f.ty;
         let elements = calculate_elements(field_type);
         #[cfg(feature = "bits")]
-        if let Some(bits) = &f.bits {
+        if is_skipped(f) {
+            // Neither read nor written
+        } else if let Some(bits) = &f.bits {
             components.push(quote! { (#bits) * #elements });
         } else if let Some(bytes) = &f.bytes {
             components.push(quote! { (#bytes) * 8 * #elements });
@@ -66,7 +68,9 @@ fn calculate_fields_size<'a>(
         }
 
         #[cfg(not(feature = "bits"))]
-        if let Some(bytes) = &f.bytes {
+        if is_skipped(f) {
+            // Neither read nor written
+        } else if let Some(bytes) = &f.bytes {
             components.push(quote! { (#bytes) * 8 * #elements });
         } else {
             components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
@@ -116,6 +120,11 @@ fn calculate_elements(ty: &syn::Type) -> TokenStream {
     }
 }
 
+/// Check if the value of the field is never on the wire
+fn is_skipped(field: &FieldData) -> bool {
+    matches!(field.skip, Some(crate::SkipMode::All)) && field.cond.is_none()
+}
+
 /// Check if struct/enum has seek attributes
 fn has_seek_attributes(input: &DekuData) -> bool {
     input.seek_rewind
@@ -181,7 +190,7 @@ fn add_field_bounds<'a>(
         #[cfg(not(feature = "bits"))]
         let needs_bound = field.bytes.is_none();
 
-        if needs_bound {
+        if needs_bound && !is_skipped(field) {
             let where_clause = where_clause.get_or_insert_with(|| syn::parse_quote! { where });
             where_clause.predicates.push(syn::parse_quote! {
                 #field_type: ::#crate_::DekuSize
-- 
2.43.0


From df3c9cc1b7e220a4a768a98a8cc8bb755cecbc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 23/32] fix: count the bytes transferred before an error in the
 position of NoSeek

---
 src/noseek.rs | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/noseek.rs b/src/noseek.rs
index 2c0e367..633d061 100644
--- a/src/noseek.rs
+++ b/src/noseek.rs
@@ -71,25 +71,8 @@ impl<T: Read> Read for NoSeek<T> {
         Ok(n)
     }
 
-    #[cfg(feature = "std")]
-    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> Result<usize> {
-        let n = self.inner.read_to_end(buf)?;
-        self.pos += n as u64;
-        Ok(n)
-    }
-
-    #[cfg(feature = "std")]
-    fn read_to_string(&mut self, buf: &mut String) -> Result<usize> {
-        let n = self.inner.read_to_string(buf)?;
-        self.pos += n as u64;
-        Ok(n)
-    }
-
-    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
-        self.inner.read_exact(buf)?;
-        self.pos += buf.len() as u64;
-        Ok(())
-    }
+    // `read_exact`, `read_to_end` and `read_to_string` are left to their defaults, which go through
+    // `read`: the bytes read before an error count for the position too
 }
 
 impl<T: Write> Write for NoSeek<T> {
@@ -110,9 +93,5 @@ impl<T: Write> Write for NoSeek<T> {
         Ok(n)
     }
 
-    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
-        self.inner.write_all(buf)?;
-        self.pos += buf.len() as u64;
-        Ok(())
-    }
+    // `write_all` is left to its default as well
 }
-- 
2.43.0


From ebde99b8a92849c0febc6e97687adfc1b09e827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 24/32] fix: reading zero bytes after end() must not panic

Reader::read_bytes and read_bytes_const indexed the first byte of an empty
buffer while a byte looked ahead by end() was pending, e.g. for a [u8; 0]
field behind a read_all check.
---
 src/reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 0cd2e69..aca9d94 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -546,6 +546,9 @@ impl<R: Read + Seek> Reader<R> {
         byte: u8,
         amt: usize,
     ) -> Result<ReaderRet, DekuError> {
+        if amt == 0 {
+            return Ok(ReaderRet::Bytes);
+        }
         buf[0] = byte;
 
         #[cfg(feature = "logging")]
@@ -684,6 +687,9 @@ impl<R: Read + Seek> Reader<R> {
         buf: &mut [u8; N],
         byte: u8,
     ) -> Result<(), DekuError> {
+        if N == 0 {
+            return Ok(());
+        }
         buf[0] = byte;
 
         #[cfg(feature = "logging")]
-- 
2.43.0


From a99c110f95a2aed60fe1d3233abd16894ed43ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 25/32] fix: drop array elements when reading a later one
 panics

[T; N] dropped the elements read so far when a later one failed with an
error, but leaked them when it panicked (a panicking map, reader or stream);
Vec<T> and Box<[T]> drop them.
---
 src/impls/slice.rs | 48 ++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/impls/slice.rs b/src/impls/slice.rs
index d63758d..5f45307 100644
--- a/src/impls/slice.rs
+++ b/src/impls/slice.rs
@@ -6,6 +6,23 @@ use crate::{DekuError, DekuReader, DekuWriter};
 use core::mem::MaybeUninit;
 use no_std_io::io::{Read, Seek, Write};
 
+/// Drops the initialized items when reading stops early, by an error or a panic
+struct Guard<T, const N: usize> {
+    array: [MaybeUninit<T>; N],
+    init: usize,
+}
+
+impl<T, const N: usize> Drop for Guard<T, N> {
+    fn drop(&mut self) {
+        for item in &mut self.array[..self.init] {
+            // SAFETY: the first `init` items are certain to be initialized
+            unsafe {
+                item.assume_init_drop();
+            }
+        }
+    }
+}
+
 impl<'a, Ctx: Copy, T, const N: usize> DekuReader<'a, Ctx> for [T; N]
 where
     T: DekuReader<'a, Ctx>,
@@ -17,30 +34,23 @@ where
     where
         Self: Sized,
     {
-        let mut array: [MaybeUninit<T>; N] = [const { MaybeUninit::uninit() }; N];
-        for (n, item) in array.iter_mut().enumerate() {
-            match T::from_reader_with_ctx(reader, ctx) {
-                Ok(value) => {
-                    item.write(value);
-                }
-                Err(err) => {
-                    // Drop initialized items
-                    for item in &mut array[0..n] {
-                        // SAFETY: `item` is certain to be initialized
-                        unsafe {
-                            item.assume_init_drop();
-                        }
-                    }
-
-                    return Err(err);
-                }
-            };
+        let mut guard = Guard::<T, N> {
+            array: [const { MaybeUninit::uninit() }; N],
+            init: 0,
+        };
+        while guard.init < N {
+            let value = T::from_reader_with_ctx(reader, ctx)?;
+            guard.array[guard.init].write(value);
+            guard.init += 1;
         }
 
+        // The items are moved out below
+        guard.init = 0;
+
         // SAFETY: `array` is certain to be initialized
         let array = unsafe {
             // TODO: array_assume_init: https://github.com/rust-lang/rust/issues/96097
-            (&raw const array).cast::<[T; N]>().read()
+            (&raw const guard.array).cast::<[T; N]>().read()
         };
         Ok(array)
     }
-- 
2.43.0


From 8266f6b585359c83977b04a4669be7d738986cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 26/32] fix: implement DekuContainerWrite for enums without the
 alloc feature

---
 deku-derive/src/macros/deku_write.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 974dced..e50581c 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -387,7 +387,9 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                     }
                 }
             };
+        });
 
+        tokens.extend(quote! {
             #[automatically_derived]
             impl #imp ::#crate_::DekuContainerWrite for #ident #wher {}
         });
-- 
2.43.0


From e149d8d0f3d355fe94de783df0e4487d08d6ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 27/32] fix: update the right field of a tuple struct with
 temporary fields

The index of a field in the struct doesn't count the temporary fields, which aren't part of it.
---
 deku-derive/src/macros/deku_write.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index e50581c..c3580e4 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -486,6 +486,9 @@ fn emit_field_updates(
 ) -> Vec<TokenStream> {
     fields
         .iter()
+        // The temporary fields aren't part of the struct, so they have no index in it. The bindings
+        // of an enum variant do count them.
+        .filter(|f| !(f.temp && object_prefix.is_some()))
         .enumerate()
         .filter_map(|(i, f)| emit_field_update(i, f, &object_prefix))
         .collect()
-- 
2.43.0


From 705bea3478efade9db27c5b12eeff664c6853653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 28/32] fix: the current offset for padding, seeks and
 temporary values

These attributes saw the offset of an earlier field, or none at all.
---
 deku-derive/src/macros/deku_read.rs  | 21 +++++++++++++++++++++
 deku-derive/src/macros/deku_write.rs | 22 ++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 27485b6..228654d 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -725,6 +725,20 @@ fn emit_field_read(
 
     let (bit_offset, byte_offset) = emit_bit_byte_offsets(&field_check_vars);
 
+    // The current offset changes between these parts of a field
+    let (seek_bit_offset, seek_byte_offset) =
+        emit_bit_byte_offsets(&[&f.seek_from_current, &f.seek_from_end, &f.seek_from_start]);
+    let (pad_before_bit_offset, pad_before_byte_offset) = emit_bit_byte_offsets(&[
+        #[cfg(feature = "bits")]
+        &f.pad_bits_before,
+        &f.pad_bytes_before,
+    ]);
+    let (pad_after_bit_offset, pad_after_byte_offset) = emit_bit_byte_offsets(&[
+        #[cfg(feature = "bits")]
+        &f.pad_bits_after,
+        &f.pad_bytes_after,
+    ]);
+
     let field_map = f
         .map
         .as_ref()
@@ -994,8 +1008,13 @@ fn emit_field_read(
     };
 
     let field_read = quote! {
+        #seek_bit_offset
+        #seek_byte_offset
         #seek
         #magic_read
+
+        #pad_before_bit_offset
+        #pad_before_byte_offset
         #pad_bits_before
 
         #bit_offset
@@ -1010,6 +1029,8 @@ fn emit_field_read(
         #field_assert
         #field_assert_eq
 
+        #pad_after_bit_offset
+        #pad_after_byte_offset
         #pad_bits_after
     };
 
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index c3580e4..fe5ed24 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -703,10 +703,25 @@ fn emit_field_write(
         &f.ctx.as_ref().map(|v| quote!(#v)),
         &f.assert,
         &f.assert_eq,
+        &f.temp_value,
     ];
 
     let (bit_offset, byte_offset) = emit_bit_byte_offsets(&field_check_vars);
 
+    // The current offset changes between these parts of a field
+    let (seek_bit_offset, seek_byte_offset) =
+        emit_bit_byte_offsets(&[&f.seek_from_current, &f.seek_from_end, &f.seek_from_start]);
+    let (pad_before_bit_offset, pad_before_byte_offset) = emit_bit_byte_offsets(&[
+        #[cfg(feature = "bits")]
+        &f.pad_bits_before,
+        &f.pad_bytes_before,
+    ]);
+    let (pad_after_bit_offset, pad_after_byte_offset) = emit_bit_byte_offsets(&[
+        #[cfg(feature = "bits")]
+        &f.pad_bits_after,
+        &f.pad_bytes_after,
+    ]);
+
     let ident = &ident.to_string();
     let field_writer = &f.writer;
     let field_ident = f.get_ident(i, object_prefix.is_none());
@@ -847,8 +862,13 @@ fn emit_field_write(
     };
 
     let field_write = quote! {
+        #seek_bit_offset
+        #seek_byte_offset
         #seek
         #magic_write
+
+        #pad_before_bit_offset
+        #pad_before_byte_offset
         #pad_bits_before
 
         #bit_offset
@@ -860,6 +880,8 @@ fn emit_field_write(
 
         #field_write_tokens
 
+        #pad_after_bit_offset
+        #pad_after_byte_offset
         #pad_bits_after
     };
 
-- 
2.43.0


From 2d9bd5e7feb1b22511907b1f6c92e551bf693fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 29/32] fix: the current bit offset when writing didn't count
 the bits of an unfinished byte

A format which depends on deku::bit_offset wasn't written the way it is read.
---
 deku-derive/src/macros/deku_write.rs |  4 ++--
 src/writer.rs                        | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index fe5ed24..49b0d22 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -525,7 +525,7 @@ fn emit_bit_byte_offsets(
         .any(|v| token_contains_string(v, "__deku_byte_offset"))
     {
         Some(quote! {
-            let __deku_byte_offset = __deku_writer.bits_written / 8;
+            let __deku_byte_offset = __deku_writer.bit_offset() / 8;
         })
     } else {
         None
@@ -537,7 +537,7 @@ fn emit_bit_byte_offsets(
         || byte_offset.is_some()
     {
         Some(quote! {
-            let __deku_bit_offset = __deku_writer.bits_written;
+            let __deku_bit_offset = __deku_writer.bit_offset();
         })
     } else {
         None
diff --git a/src/writer.rs b/src/writer.rs
index 9ded579..bdcd1db 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -54,6 +54,18 @@ impl<W: Write + Seek> Writer<W> {
         }
     }
 
+    /// Current offset in bits, which includes the bits of a byte that isn't complete, and therefore
+    /// not written, yet
+    #[inline]
+    pub fn bit_offset(&self) -> usize {
+        #[cfg(feature = "bits")]
+        let pending = self.leftover.0.as_bitslice().len();
+        #[cfg(not(feature = "bits"))]
+        let pending = 0;
+
+        self.bits_written + pending
+    }
+
     /// Return the unused bits
     #[inline]
     #[cfg(all(feature = "bits", feature = "alloc"))]
-- 
2.43.0


From 942de898e89f55c19b76f19bbd5f8bef8a76af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 30/32] fix: a field of zero bits, which its size from the
 input can ask for, panicked

A size that comes from other data, as in ctx = "BitSize(*n)", is chosen by
whoever wrote the input. Reading zero bits underflowed or shifted by the whole
width of the type where overflow is checked; elsewhere the value was 0.
---
 src/impls/primitive.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index e068bc5..75ccbf6 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -89,7 +89,10 @@ impl DekuWriter<(Endian, BitSize, Order)> for u8 {
         // Fast path, ahead of the bit-slice view: for a `u8` the checks below are
         // "does it fit" and "are there bits above `bit_size`", both of which are
         // integer comparisons. `first_one` over a bit-slice is not.
-        if order == Order::Msb0 && writer.leftover.1 == Order::Msb0 && bit_size <= MAX_TYPE_BITS {
+        if order == Order::Msb0
+            && writer.leftover.1 == Order::Msb0
+            && (1..=MAX_TYPE_BITS).contains(&bit_size)
+        {
             if bit_size < MAX_TYPE_BITS && (*self >> bit_size) != 0 {
                 return Err(deku_error!(
                     DekuError::InvalidParam,
@@ -397,6 +400,9 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::default());
+                }
                 // Fast path: big-endian, and `Order::default()` is Msb0. Reads the
                 // field straight into an integer, with no `BitSlice` in between.
                 if !endian.is_le() && size.0 > 0 && size.0 <= 64 {
@@ -429,6 +435,9 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::default());
+                }
                 // Fast path: big-endian, Msb0. See the `(Endian, BitSize)` impl above.
                 if !endian.is_le() && order == Order::Msb0 && size.0 > 0 && size.0 <= 64 {
                     let value = reader.read_bits_uint_msb0(size.0)? as $inner;
@@ -623,6 +632,9 @@ macro_rules! ImplDekuReadSignExtend {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::default());
+                }
                 let mut bits = ::bitvec::array::BitArray::<[u8; { MAX_TYPE_BITS / 8 }], Msb0>::new(
                     [0; { MAX_TYPE_BITS / 8 }],
                 );
@@ -917,7 +929,7 @@ macro_rules! ImplDekuWriteBitsOrder {
                         // `MAX_TYPE_BITS - bit_size > first`, i.e. when
                         // `MAX_TYPE_BITS - first` (the significant bits) exceeds
                         // `bit_size`.
-                        if bit_size <= 64 && writer.leftover.1 == Order::Msb0 {
+                        if (1..=64).contains(&bit_size) && writer.leftover.1 == Order::Msb0 {
                             let significant = match input.iter().position(|b| *b != 0) {
                                 Some(i) => {
                                     (input.len() - i) * 8 - (input[i].leading_zeros() as usize)
-- 
2.43.0


From 1f09370b652eb4d9c50c5ae87bcf21fc5e48c129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 31/32] fix: -1 was written as a signed field of zero bits

---
 src/impls/primitive.rs | 45 +++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 75ccbf6..0510905 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -1196,18 +1196,17 @@ macro_rules! ImplDekuWriteDetails {
                         }
                     } else {
                         let input_bits_lsb = input.view_bits::<Lsb0>();
-                        if let Some(last) = input_bits_lsb.last_zero() {
-                            let last = last + 2;
-                            let max = bit_size;
-                            if last > max {
-                                return Err(deku_error!(
-                                    DekuError::InvalidParam,
-                                    "bit size of input is larger than requested bit size",
-                                    "{} exceeds {}",
-                                    last,
-                                    bit_size
-                                ));
-                            }
+                        // -1 is all ones: the sign bit is enough
+                        let last = input_bits_lsb.last_zero().map_or(1, |last| last + 2);
+                        let max = bit_size;
+                        if last > max {
+                            return Err(deku_error!(
+                                DekuError::InvalidParam,
+                                "bit size of input is larger than requested bit size",
+                                "{} exceeds {}",
+                                last,
+                                bit_size
+                            ));
                         }
                     }
 
@@ -1240,17 +1239,17 @@ macro_rules! ImplDekuWriteDetails {
                             }
                         }
                     } else {
-                        if let Some(first) = input_bits.first_zero() {
-                            let max = (MAX_TYPE_BITS - bit_size);
-                            if max + 1 > first {
-                                return Err(deku_error!(
-                                    DekuError::InvalidParam,
-                                    "bit size of input is larger than bit requested size",
-                                    "{} exceeds {}",
-                                    MAX_TYPE_BITS - first,
-                                    bit_size
-                                ));
-                            }
+                        // -1 is all ones: the sign bit is enough
+                        let first = input_bits.first_zero().unwrap_or(MAX_TYPE_BITS);
+                        let max = (MAX_TYPE_BITS - bit_size);
+                        if max + 1 > first {
+                            return Err(deku_error!(
+                                DekuError::InvalidParam,
+                                "bit size of input is larger than bit requested size",
+                                "{} exceeds {}",
+                                MAX_TYPE_BITS - first,
+                                bit_size
+                            ));
                         }
                     }
                     // Example read 10 bits u32 [0xAB, 0b11_000000]
-- 
2.43.0


From 56b714e0a8cc78b8946a1a10306b649b1f5d955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 32/32] fix: a u8 was read from a whole byte when its size in
 bits, without an endian, is zero or too large

---
 src/impls/primitive.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 0510905..b7943f6 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -762,9 +762,10 @@ macro_rules! ForwardDekuRead {
                 reader: &mut Reader<R>,
                 bit_size: BitSize,
             ) -> Result<$typ, DekuError> {
+                const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
                 let endian = Endian::default();
 
-                if (bit_size.0 % 8) == 0 {
+                if (bit_size.0 % 8) == 0 && (1..=MAX_TYPE_BITS).contains(&bit_size.0) {
                     <$typ>::from_reader_with_ctx(reader, (endian, ByteSize(bit_size.0 / 8)))
                 } else {
                     <$typ>::from_reader_with_ctx(reader, (endian, bit_size))
@@ -780,9 +781,10 @@ macro_rules! ForwardDekuRead {
                 reader: &mut Reader<R>,
                 (bit_size, order): (BitSize, Order),
             ) -> Result<$typ, DekuError> {
+                const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
                 let endian = Endian::default();
 
-                if (bit_size.0 % 8) == 0 {
+                if (bit_size.0 % 8) == 0 && (1..=MAX_TYPE_BITS).contains(&bit_size.0) {
                     <$typ>::from_reader_with_ctx(reader, (endian, ByteSize(bit_size.0 / 8), order))
                 } else {
                     <$typ>::from_reader_with_ctx(reader, (endian, bit_size, order))
-- 
2.43.0

