From a856c4a456cab387b0aac35ba67bd595c0b09de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:22 +0000
Subject: [PATCH 01/22] fix: leave the input slice alone when DerRef::parse or
 BerRef::parse fails

The documentation promises that the slice is not updated on error, but
both functions parsed through the caller's slice and left it in the
middle of the broken element.
---
 bsn1/src/ber_ref.rs | 4 +++-
 bsn1/src/der_ref.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bsn1/src/ber_ref.rs b/bsn1/src/ber_ref.rs
index 6dce192..b7afaaa 100644
--- a/bsn1/src/ber_ref.rs
+++ b/bsn1/src/ber_ref.rs
@@ -87,12 +87,14 @@ impl BerRef {
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
         let init_bytes = *bytes;
+        let mut readable = init_bytes;
         let mut stack_depth: isize = 0;
 
         while {
-            stack_depth += Self::do_parse(bytes)? as isize;
+            stack_depth += Self::do_parse(&mut readable)? as isize;
             stack_depth > 0
         } {}
+        *bytes = readable;
 
         let total_len = init_bytes.len() - bytes.len();
         unsafe { Ok(Self::from_bytes_unchecked(&init_bytes[..total_len])) }
diff --git a/bsn1/src/der_ref.rs b/bsn1/src/der_ref.rs
index 35fdacd..12d5f7b 100644
--- a/bsn1/src/der_ref.rs
+++ b/bsn1/src/der_ref.rs
@@ -92,7 +92,9 @@ impl DerRef {
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
         let init_bytes = *bytes;
-        Self::do_parse(bytes)?;
+        let mut readable = init_bytes;
+        Self::do_parse(&mut readable)?;
+        *bytes = readable;
 
         let total_len = init_bytes.len() - bytes.len();
         let read = &init_bytes[..total_len];
-- 
2.43.0


From 2c52d0dd5cf5fc187f0592cb5aeca27da2b1459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:40 +0000
Subject: [PATCH 02/22] fix: retry interrupted reads while parsing identifier
 and length octets

Read::read may return ErrorKind::Interrupted at any time, in which case
the call should simply be retried.
---
 bsn1/src/misc.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bsn1/src/misc.rs b/bsn1/src/misc.rs
index 1e5f817..6c079c5 100644
--- a/bsn1/src/misc.rs
+++ b/bsn1/src/misc.rs
@@ -15,7 +15,7 @@
 // not, see <https://www.gnu.org/licenses/>.
 
 use crate::{Error, Length};
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 
 /// Tries to read one byte from `readable`.
 pub fn read_u8<T>(readable: &mut T) -> Result<u8, Error>
@@ -23,11 +23,14 @@ where
     T: ?Sized + Read,
 {
     let mut buf = [0; 1];
-    match readable.read(&mut buf) {
-        Err(e) => Err(e.into()),
-        Ok(0) => Err(Error::UnterminatedBytes),
-        Ok(1) => Ok(buf[0]),
-        _ => unreachable!(),
+    loop {
+        return match readable.read(&mut buf) {
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => Err(e.into()),
+            Ok(0) => Err(Error::UnterminatedBytes),
+            Ok(1) => Ok(buf[0]),
+            _ => unreachable!(),
+        };
     }
 }
 
-- 
2.43.0


From cd3b6824d0d15f565630c37c455bacb2fa8cdd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:30 +0000
Subject: [PATCH 03/22] fix: read the contents of Der::parse and Ber::parse as
 they arrive

Both functions allocated the announced length before reading a single
contents octet, so a few hostile octets could make them panic or abort.
The contents are now read in growing chunks.
Der::parse issued only one read() and took a short read for the end of
the stream.  It now keeps reading until the end of the contents.
A stream which ends too early is UnterminatedBytes in both functions.
---
 bsn1/src/ber.rs  |  7 +------
 bsn1/src/der.rs  | 19 ++-----------------
 bsn1/src/misc.rs | 40 +++++++++++++++++++++++++++++++++++++++-
 3 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index f0c7194..0a6e3c5 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -323,12 +323,7 @@ impl Ber {
 
         match unsafe { crate::misc::parse_id_length(readable, writeable)? } {
             Length::Definite(length) => {
-                writeable.reserve(length);
-                let current_len = writeable.len();
-                unsafe { writeable.set_len(current_len + length) };
-
-                let buffer = &mut writeable.as_mut_slice()[current_len..];
-                readable.read_exact(buffer).map_err(Error::from)?;
+                crate::misc::read_contents(readable, length, writeable)?;
 
                 let read = &(writeable.as_slice()[init_len..]);
                 if read == BerRef::eoc().as_ref() {
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 584cebb..39a4fec 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -178,23 +178,8 @@ impl Der {
                 Length::Definite(length) => length,
             };
 
-        let id_length_len = writeable.len();
-        let total_length = id_length_len + contents_length;
-
-        writeable.reserve(contents_length);
-        unsafe { writeable.set_len(total_length) };
-
-        let buffer = &mut writeable.as_mut_slice()[id_length_len..];
-        match readable.read(buffer) {
-            Err(e) => Err(e.into()),
-            Ok(read) => {
-                if read < contents_length {
-                    Err(Error::UnterminatedBytes)
-                } else {
-                    Ok(Self { buffer: writeable })
-                }
-            }
-        }
+        crate::misc::read_contents(readable, contents_length, &mut writeable)?;
+        Ok(Self { buffer: writeable })
     }
 
     /// Builds a new instance holding `bytes` without any check.
diff --git a/bsn1/src/misc.rs b/bsn1/src/misc.rs
index 6c079c5..e09960e 100644
--- a/bsn1/src/misc.rs
+++ b/bsn1/src/misc.rs
@@ -14,7 +14,7 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
-use crate::{Error, Length};
+use crate::{Buffer, Error, Length};
 use std::io::{ErrorKind, Read, Write};
 
 /// Tries to read one byte from `readable`.
@@ -67,3 +67,41 @@ where
     let _ = crate::identifier_ref::parse_id(readable, writeable)?;
     crate::length::parse_length(readable, writeable)
 }
+
+/// Reads `length` octets from `readable` and appends them to `buffer`.
+///
+/// `length` may be an arbitrary number sent by the peer, so `buffer` grows as the octets arrive
+/// instead of being allocated at once.
+pub fn read_contents<R>(readable: &mut R, length: usize, buffer: &mut Buffer) -> Result<(), Error>
+where
+    R: ?Sized + Read,
+{
+    const MIN_CHUNK: usize = 4096;
+
+    let mut rest = length;
+    while 0 < rest {
+        let init_len = buffer.len();
+        let chunk = rest.min(init_len.max(MIN_CHUNK));
+
+        buffer.reserve(chunk);
+        unsafe {
+            let dst = buffer.as_mut_ptr().add(init_len);
+            dst.write_bytes(0, chunk);
+            buffer.set_len(init_len + chunk);
+        }
+
+        let mut dst = &mut buffer.as_mut_slice()[init_len..];
+        while !dst.is_empty() {
+            match readable.read(dst) {
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e.into()),
+                Ok(0) => return Err(Error::UnterminatedBytes),
+                Ok(n) => dst = &mut dst[n..],
+            }
+        }
+
+        rest -= chunk;
+    }
+
+    Ok(())
+}
-- 
2.43.0


From a6adff98625bb974d07f44a0c599cf8bcda7f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:26 +0000
Subject: [PATCH 04/22] fix: refuse indefinite length for primitive types in
 from_ber

Length::Indefinite never equals anything, so the comparison was always
false.  A boolean, integer or string with indefinite length tripped a
debug assertion, or was read together with its end-of-contents octets.
---
 bsn1_serde/src/de/mod.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index fbca7bd..53dae5f 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -41,7 +41,7 @@ impl Deserialize for bool {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::boolean() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -60,7 +60,7 @@ impl Deserialize for bool {
 
 impl Deserialize for i8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -79,7 +79,7 @@ impl Deserialize for i8 {
 
 impl Deserialize for u8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -98,7 +98,7 @@ impl Deserialize for u8 {
 
 impl Deserialize for i16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -117,7 +117,7 @@ impl Deserialize for i16 {
 
 impl Deserialize for u16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -136,7 +136,7 @@ impl Deserialize for u16 {
 
 impl Deserialize for i32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -155,7 +155,7 @@ impl Deserialize for i32 {
 
 impl Deserialize for u32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -174,7 +174,7 @@ impl Deserialize for u32 {
 
 impl Deserialize for i64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -193,7 +193,7 @@ impl Deserialize for i64 {
 
 impl Deserialize for u64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -212,7 +212,7 @@ impl Deserialize for u64 {
 
 impl Deserialize for i128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -231,7 +231,7 @@ impl Deserialize for i128 {
 
 impl Deserialize for u128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -250,7 +250,7 @@ impl Deserialize for u128 {
 
 impl Deserialize for isize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -269,7 +269,7 @@ impl Deserialize for isize {
 
 impl Deserialize for usize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -290,7 +290,7 @@ impl Deserialize for String {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::utf8_string() && id != IdRef::utf8_string_constructed() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
-- 
2.43.0


From af5b4d85d603d8a0ac3954b54c4d9d90054d09ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:37 +0000
Subject: [PATCH 05/22] fix: accept map entries with indefinite length in
 from_ber

The end-of-contents octets of a key-value pair were taken for extra
octets, so a BTreeMap or HashMap whose entries use indefinite length
could not be deserialized.
---
 bsn1_serde/src/de/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index 53dae5f..dbeee1b 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -734,7 +734,8 @@ impl DeserializeHelper<'_> {
                 )));
             }
 
-            let mut pair_contents: &[u8] = pair.contents().as_ref();
+            let pair_contents = exclude_eoc(pair.length(), pair.contents())?;
+            let mut pair_contents: &[u8] = pair_contents.as_ref();
             let key = BerRef::parse(&mut pair_contents).map_err(|err| {
                 err.context(format!(
                     "Failed to parse BER of the key at index {}",
-- 
2.43.0


From 310234be98220bd322fb00836d647c12dc73f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:55 +0000
Subject: [PATCH 06/22] fix: HashMap does not announce its size when a key does
 not

Keys without a known size were left out of the sum, so the length octets
were too small and the output was not valid DER.
---
 bsn1_serde/src/ser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bsn1_serde/src/ser/mod.rs b/bsn1_serde/src/ser/mod.rs
index b0e1d74..660007f 100644
--- a/bsn1_serde/src/ser/mod.rs
+++ b/bsn1_serde/src/ser/mod.rs
@@ -654,6 +654,8 @@ where
                 } else {
                     return Ok(None);
                 }
+            } else {
+                return Ok(None);
             }
         }
         Ok(Some(ret))
-- 
2.43.0


From 703114cc633a03bb106207876df59db90e831e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:11 +0000
Subject: [PATCH 07/22] fix: look behind the contexts in Error::root_cause

The search stopped at the first error of another type, so a failure
wrapped with a context always returned itself.
---
 bsn1/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/bsn1/src/lib.rs b/bsn1/src/lib.rs
index 6385569..fa207f1 100644
--- a/bsn1/src/lib.rs
+++ b/bsn1/src/lib.rs
@@ -172,17 +172,10 @@ impl Error {
     /// in the chain; otherwise, returns `self`.
     pub fn root_cause(&self) -> &Self {
         match self {
-            Self::Anyhow(err) => {
-                let mut ret = self;
-                for cause in err.chain() {
-                    if let Some(e) = cause.downcast_ref::<Self>() {
-                        ret = e;
-                    } else {
-                        break;
-                    }
-                }
-                return ret;
-            }
+            Self::Anyhow(err) => err
+                .chain()
+                .find_map(|cause| cause.downcast_ref::<Self>())
+                .unwrap_or(self),
             _ => self,
         }
     }
-- 
2.43.0


From 13454e06545b902c17613e7af312399cf911a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:08 +0000
Subject: [PATCH 08/22] fix: write the elements of HashSet and HashMap in
 ascending order

DER requires the encodings of a SET OF to be sorted (X.690 11.6).  The
elements were written in the iteration order of the hash table, so equal
values could even give different octets.
---
 bsn1_serde/src/ser/mod.rs | 62 +++++++++++++++------------------------
 1 file changed, 23 insertions(+), 39 deletions(-)

diff --git a/bsn1_serde/src/ser/mod.rs b/bsn1_serde/src/ser/mod.rs
index 660007f..3ecddfb 100644
--- a/bsn1_serde/src/ser/mod.rs
+++ b/bsn1_serde/src/ser/mod.rs
@@ -16,7 +16,7 @@
 
 //! Provides trait `Serialize`.
 
-use bsn1::{Contents, ContentsRef, Error, IdRef, Length};
+use bsn1::{Contents, ContentsRef, Der, Error, IdRef, Length};
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
 use std::io::Write;
 
@@ -574,10 +574,11 @@ where
     }
 
     fn write_der_contents<W: ?Sized + Write>(&self, buffer: &mut W) -> Result<(), Error> {
+        let mut ders = Vec::with_capacity(self.len());
         for t in self.iter() {
-            crate::write_der(t, buffer)?;
+            ders.push(crate::to_der(t)?.into_vec());
         }
-        Ok(())
+        write_sorted(ders, buffer)
     }
 
     fn id_len(&self) -> Result<Option<usize>, Error> {
@@ -599,44 +600,12 @@ where
     }
 
     fn write_der_contents<W: ?Sized + Write>(&self, buffer: &mut W) -> Result<(), Error> {
+        let mut ders = Vec::with_capacity(self.len());
         for (k, v) in self.iter() {
-            let (k_len, der_k) = match der_len(k)? {
-                Some(k_len) => (k_len, None),
-                None => {
-                    let der_k = crate::to_der(k)?;
-                    let bytes: &[u8] = der_k.as_ref();
-                    (bytes.len(), Some(der_k))
-                }
-            };
-            let (v_len, der_v) = match der_len(v)? {
-                Some(v_len) => (v_len, None),
-                None => {
-                    let der_v = crate::to_der(v)?;
-                    let bytes: &[u8] = der_v.as_ref();
-                    (bytes.len(), Some(der_v))
-                }
-            };
-
-            let contents_len = k_len + v_len;
-            let length = Length::Definite(contents_len);
-
-            buffer.write_all(IdRef::sequence().as_ref())?;
-            buffer.write_all(length.to_bytes().as_ref())?;
-
-            if let Some(der_k) = der_k {
-                buffer.write_all(der_k.as_ref())?;
-            } else {
-                crate::write_der(k, buffer)?;
-            }
-
-            if let Some(der_v) = der_v {
-                buffer.write_all(der_v.as_ref())?;
-            } else {
-                crate::write_der(v, buffer)?;
-            }
+            let pair = [crate::to_der(k)?, crate::to_der(v)?];
+            ders.push(Der::from_id_iterator(IdRef::sequence(), pair.iter()).into_vec());
         }
-
-        Ok(())
+        write_sorted(ders, buffer)
     }
 
     fn id_len(&self) -> Result<Option<usize>, Error> {
@@ -662,6 +631,21 @@ where
     }
 }
 
+/// Writes the elements of SET OF to `buffer`.
+///
+/// DER requires the encodings to be in ascending order.
+/// It also makes the output independent from the iteration order of the container.
+fn write_sorted<W>(mut ders: Vec<Vec<u8>>, buffer: &mut W) -> Result<(), Error>
+where
+    W: ?Sized + Write,
+{
+    ders.sort_unstable();
+    for der in ders {
+        buffer.write_all(&der)?;
+    }
+    Ok(())
+}
+
 fn der_len<T: Serialize>(t: &T) -> Result<Option<usize>, Error> {
     if let Some(contents_len) = t.der_contents_len()? {
         if let Some(id_len) = t.id_len()? {
-- 
2.43.0


From 20b08620b1600244d8d43238b755b96749d791e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:29 +0000
Subject: [PATCH 09/22] fix: do not cast shared references to mutable ones in
 disassemble_mut

Writing through a mutable reference which is derived from a shared one is
undefined behaviour.  Split the mutable slice instead.
---
 bsn1/src/ber_ref.rs | 11 ++++++-----
 bsn1/src/der_ref.rs | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/bsn1/src/ber_ref.rs b/bsn1/src/ber_ref.rs
index b7afaaa..30ffed8 100644
--- a/bsn1/src/ber_ref.rs
+++ b/bsn1/src/ber_ref.rs
@@ -385,12 +385,13 @@ impl BerRef {
     pub fn disassemble_mut(&mut self) -> (&mut IdRef, Length, &mut ContentsRef) {
         let (id, length, contents) = self.disassemble();
 
-        let id_ptr = id as *const IdRef;
-        let id_ptr = id_ptr as *mut IdRef;
-        let contents_ptr = contents as *const ContentsRef;
-        let contents_ptr = contents_ptr as *mut ContentsRef;
+        let id_len = id.len();
+        let header_len = self.bytes.len() - contents.len();
 
-        unsafe { (&mut *id_ptr, length, &mut *contents_ptr) }
+        let (header, contents) = self.bytes.split_at_mut(header_len);
+        let id = unsafe { IdRef::from_mut_bytes_unchecked(&mut header[..id_len]) };
+
+        (id, length, contents.into())
     }
 }
 
diff --git a/bsn1/src/der_ref.rs b/bsn1/src/der_ref.rs
index 12d5f7b..e1f4a01 100644
--- a/bsn1/src/der_ref.rs
+++ b/bsn1/src/der_ref.rs
@@ -384,12 +384,13 @@ impl DerRef {
     pub fn disassemble_mut(&mut self) -> (&mut IdRef, Length, &mut ContentsRef) {
         let (id, length, contents) = self.disassemble();
 
-        let id_ptr = id as *const IdRef;
-        let id_ptr = id_ptr as *mut IdRef;
-        let contents_ptr = contents as *const ContentsRef;
-        let contents_ptr = contents_ptr as *mut ContentsRef;
+        let id_len = id.len();
+        let header_len = self.bytes.len() - contents.len();
 
-        unsafe { (&mut *id_ptr, length, &mut *contents_ptr) }
+        let (header, contents) = self.bytes.split_at_mut(header_len);
+        let id = unsafe { IdRef::from_mut_bytes_unchecked(&mut header[..id_len]) };
+
+        (id, length, contents.into())
     }
 }
 
-- 
2.43.0


From b24655109db0fda74adf8c9f9c1db38ae1b696a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:49 +0000
Subject: [PATCH 10/22] fix: derive the mutable pointer of Buffer from the
 mutable reference

The pointer was derived from a shared reference, and writing through it
is undefined behaviour.
---
 bsn1/src/buffer/little_endian/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bsn1/src/buffer/little_endian/mod.rs b/bsn1/src/buffer/little_endian/mod.rs
index 1235b7c..a81b809 100644
--- a/bsn1/src/buffer/little_endian/mod.rs
+++ b/bsn1/src/buffer/little_endian/mod.rs
@@ -176,8 +176,12 @@ impl Buffer {
     }
 
     pub fn as_mut_ptr(&mut self) -> *mut u8 {
-        let ptr = self.as_ptr();
-        ptr as *mut u8
+        if self.is_stack() {
+            let ptr = self as *mut Self;
+            ptr as *mut u8
+        } else {
+            self.data_
+        }
     }
 
     const fn is_stack(&self) -> bool {
-- 
2.43.0


From 0b394cd25a585f8c9b268c09aa4f3d800d4b11a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:07 +0000
Subject: [PATCH 11/22] fix: do not leave the referred element while
 serializing integers

The source pointer may go back into the previous element of the array,
so it must be derived from the whole array.
---
 bsn1/src/contents.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsn1/src/contents.rs b/bsn1/src/contents.rs
index f0f0759..7010a0e 100644
--- a/bsn1/src/contents.rs
+++ b/bsn1/src/contents.rs
@@ -59,7 +59,7 @@ impl Contents {
 
         let vals = [T::zero(), val.to_be()];
         let (src, len) = unsafe {
-            let mut src = (&vals[1] as *const T) as *const u8;
+            let mut src = vals.as_ptr().add(1) as *const u8;
             let mut len = mem::size_of::<T>();
 
             // This loop must be finished because 0 < val.
-- 
2.43.0


From f6ec0947597b1f3bbd1ed5dd26593cbdec02bebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:21 +0000
Subject: [PATCH 12/22] fix: panic when the total length of with_id_length
 overflows

The sum wrapped around without overflow checks, and the identifier and
length octets were written out of a too small buffer.
---
 bsn1/src/ber.rs | 4 +++-
 bsn1/src/der.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index 0a6e3c5..4ddf3de 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -233,7 +233,9 @@ impl Ber {
     /// ```
     pub unsafe fn with_id_length_indefinite(id: &IdRef, length: usize) -> Self {
         let length_ = Length::Indefinite.to_bytes();
-        let total_len = id.len() + length_.len() + length;
+        let total_len = (id.len() + length_.len())
+            .checked_add(length)
+            .expect("The total length overflows");
 
         let mut buffer = Buffer::with_capacity(total_len);
 
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 39a4fec..2b4690b 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -101,7 +101,9 @@ impl Der {
     /// ```
     pub fn with_id_length(id: &IdRef, length: usize) -> Self {
         let length_ = Length::Definite(length).to_bytes();
-        let total_len = id.len() + length_.len() + length;
+        let total_len = (id.len() + length_.len())
+            .checked_add(length)
+            .expect("The total length overflows");
 
         let mut buffer = Buffer::with_capacity(total_len);
 
-- 
2.43.0


From d290b76eb34ebd373a859ede0e0205da4fc5f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:41 +0000
Subject: [PATCH 13/22] fix: fill the contents of with_id_length

The contents can be read by safe methods before the caller writes them,
so they must not be left uninitialized.
---
 bsn1/src/ber.rs | 7 +++++--
 bsn1/src/der.rs | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index 4ddf3de..4a03e32 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -150,7 +150,7 @@ impl Ber {
     /// Creates a new instance with `id` and 'definite `length`'.
     ///
     /// The 'contents octets' of the return value holds `length` bytes,
-    /// but they are not initialized.
+    /// but their values are unspecified.
     /// Use [`mut_contents`] via `DerefMut` implementation to initialize them.
     ///
     /// # Warnings
@@ -186,7 +186,7 @@ impl Ber {
     /// Creates a new instance with `id` and 'indefinite length'.
     ///
     /// The 'contents octets' of the return value holds `length` bytes,
-    /// but they are not initialized.
+    /// but their values are unspecified.
     /// Use [`mut_contents`] via `DerefMut` implementation to initialize them.
     ///
     /// # Warnings
@@ -245,6 +245,9 @@ impl Ber {
         let dst = dst.add(id.len());
         dst.copy_from_nonoverlapping(length_.as_ptr(), length_.len());
 
+        let dst = dst.add(length_.len());
+        dst.write_bytes(0, length);
+
         buffer.set_len(total_len);
 
         Self { buffer }
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 2b4690b..c684d48 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -69,7 +69,7 @@ impl Der {
     /// Creates a new instance with `id` and 'definite `length`'.
     ///
     /// The 'contents octets' of the return value holds `length` bytes,
-    /// but they are not initialized.
+    /// but their values are unspecified.
     /// Use [`mut_contents`] via `DerefMut` implementation to initialize them.
     ///
     /// # Warnings
@@ -114,6 +114,9 @@ impl Der {
             let dst = dst.add(id.len());
             dst.copy_from_nonoverlapping(length_.as_ptr(), length_.len());
 
+            let dst = dst.add(length_.len());
+            dst.write_bytes(0, length);
+
             buffer.set_len(total_len);
         }
 
-- 
2.43.0


From 300b6956dd3e83a4d9ae4cfe7ed6912517cf801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:00 +0000
Subject: [PATCH 14/22] fix: check the octets written by from_id_iterator

The buffer was sized with a clone of the iterator and then filled without
any check, so an iterator whose clone returns fewer octets made safe code
write out of the buffer.
---
 bsn1/src/ber.rs | 21 ++++++++++++++++++---
 bsn1/src/der.rs | 23 +++++++++++++++++++----
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index 4a03e32..0588a23 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -474,16 +474,31 @@ impl Ber {
     {
         let length = contents
             .clone()
-            .fold(0, |acc, item| acc + item.as_ref().len());
+            .try_fold(0_usize, |acc, item| acc.checked_add(item.as_ref().len()))
+            .expect("The total length overflows");
         let length_bytes = Length::Indefinite.to_bytes();
-        let total_len = id.len() + length_bytes.len() + length;
+        let total_len = (id.len() + length_bytes.len())
+            .checked_add(length)
+            .expect("The total length overflows");
 
         let mut buffer = Buffer::with_capacity(total_len);
         unsafe {
             buffer.extend_from_slice(id.as_ref());
             buffer.extend_from_slice(&length_bytes);
-            contents.for_each(|c| buffer.extend_from_slice(c.as_ref()));
+            contents.for_each(|c| {
+                let c = c.as_ref();
+                assert!(
+                    c.len() <= total_len - buffer.len(),
+                    "The clone of the iterator returned different octets"
+                );
+                buffer.extend_from_slice(c);
+            });
         }
+        assert_eq!(
+            buffer.len(),
+            total_len,
+            "The clone of the iterator returned different octets"
+        );
 
         Self { buffer }
     }
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index c684d48..3803572 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -285,16 +285,31 @@ impl Der {
     {
         let length = contents
             .clone()
-            .fold(0, |acc, item| acc + item.as_ref().len());
+            .try_fold(0_usize, |acc, item| acc.checked_add(item.as_ref().len()))
+            .expect("The total length overflows");
         let length_bytes = Length::Definite(length).to_bytes();
-        let total_len = id.len() + length_bytes.len() + length;
+        let total_len = (id.len() + length_bytes.len())
+            .checked_add(length)
+            .expect("The total length overflows");
 
         let mut buffer = Buffer::with_capacity(total_len);
         unsafe {
             buffer.extend_from_slice(id.as_ref());
             buffer.extend_from_slice(&length_bytes);
-            contents.for_each(|c| buffer.extend_from_slice(c.as_ref()));
-        }
+            contents.for_each(|c| {
+                let c = c.as_ref();
+                assert!(
+                    c.len() <= total_len - buffer.len(),
+                    "The clone of the iterator returned different octets"
+                );
+                buffer.extend_from_slice(c);
+            });
+        }
+        assert_eq!(
+            buffer.len(),
+            total_len,
+            "The clone of the iterator returned different octets"
+        );
 
         Self { buffer }
     }
-- 
2.43.0


From 43b5292f1bd1d165d12cf76b889b11605e864d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:48 +0000
Subject: [PATCH 15/22] Allow selecting the big-endian buffer with a cfg flag

---
 bsn1/src/buffer/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bsn1/src/buffer/mod.rs b/bsn1/src/buffer/mod.rs
index 53b6f85..3c5fa88 100644
--- a/bsn1/src/buffer/mod.rs
+++ b/bsn1/src/buffer/mod.rs
@@ -14,14 +14,18 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
-#[cfg(target_endian = "little")]
+// `--cfg bsn1_universal_buffer` selects the implementation for big-endian targets everywhere, so
+// that it can be observed on little-endian hosts as well.
+#![allow(unexpected_cfgs)]
+
+#[cfg(all(target_endian = "little", not(bsn1_universal_buffer)))]
 mod little_endian;
-#[cfg(target_endian = "little")]
+#[cfg(all(target_endian = "little", not(bsn1_universal_buffer)))]
 use little_endian as endian;
 
-#[cfg(any(target_endian = "big"))]
+#[cfg(any(target_endian = "big", bsn1_universal_buffer))]
 mod universal_endian;
-#[cfg(any(target_endian = "big"))]
+#[cfg(any(target_endian = "big", bsn1_universal_buffer))]
 use universal_endian as endian;
 
 type Inner = endian::Buffer;
-- 
2.43.0


From c0a4bcdfff3778bc2ac024ff0ed78b30235c2130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:50 +0000
Subject: [PATCH 16/22] fix: take the pointer after set_len when building
 integer contents

---
 bsn1/src/contents.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsn1/src/contents.rs b/bsn1/src/contents.rs
index 7010a0e..6a98ab4 100644
--- a/bsn1/src/contents.rs
+++ b/bsn1/src/contents.rs
@@ -76,9 +76,9 @@ impl Contents {
         };
 
         let mut buffer = Buffer::with_capacity(len);
-        let dst = buffer.as_mut_ptr();
         unsafe {
             buffer.set_len(len);
+            let dst = buffer.as_mut_ptr();
             dst.copy_from_nonoverlapping(src, len);
         }
 
@@ -111,10 +111,10 @@ impl Contents {
         };
 
         let mut buffer = Buffer::with_capacity(len);
-        let dst = buffer.as_mut_ptr();
 
         unsafe {
             buffer.set_len(len);
+            let dst = buffer.as_mut_ptr();
             dst.copy_from_nonoverlapping(src, len);
         }
 
-- 
2.43.0


From 059461f31c803d2300e95bf968f615aeff18bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:52 +0000
Subject: [PATCH 17/22] fix: reject the attribute #[bsn1_serde = ...]

It was silently ignored, so a mistyped attribute changed the encoding
without any diagnostic.
---
 bsn1_serde_macros/src/attribute.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bsn1_serde_macros/src/attribute.rs b/bsn1_serde_macros/src/attribute.rs
index 9e81c52..ad1e57f 100644
--- a/bsn1_serde_macros/src/attribute.rs
+++ b/bsn1_serde_macros/src/attribute.rs
@@ -81,6 +81,12 @@ impl Attribute {
             syn::Meta::List(meta) if meta.path.is_ident("bsn1_serde") => {
                 meta.tokens.clone().into_iter()
             }
+            syn::Meta::NameValue(meta) if meta.path.is_ident("bsn1_serde") => {
+                return Err(syn::Error::new_spanned(
+                    meta,
+                    "Expected arguments like `#[bsn1_serde(...)]`.",
+                ));
+            }
             _ => return Ok(None),
         };
 
-- 
2.43.0


From b70db4bca71742df310fb90997b719d8419668a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:13 +0000
Subject: [PATCH 18/22] fix: accept raw identifiers as fields of enum variants

The prefix r# was taken over into the name of a local variable, and the
derive macro panicked.
---
 bsn1_serde_macros/src/data_container.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bsn1_serde_macros/src/data_container.rs b/bsn1_serde_macros/src/data_container.rs
index 2bd7293..dc75848 100644
--- a/bsn1_serde_macros/src/data_container.rs
+++ b/bsn1_serde_macros/src/data_container.rs
@@ -738,7 +738,9 @@ impl DataContainer {
                 self.field_idents()
                     .into_iter()
                     .map(|ident| {
-                        format_ident!("{}_{}", PREFIX, ident.to_string()).to_token_stream()
+                        let ident = ident.to_string();
+                        let ident = ident.trim_start_matches("r#");
+                        format_ident!("{}_{}", PREFIX, ident).to_token_stream()
                     })
                     .collect()
             }
-- 
2.43.0


From 699ba0c5ce40ba222000728cba21ca699ac70982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:34 +0000
Subject: [PATCH 19/22] fix: allow a type parameter named W in
 derive(Serialize)

The generated methods declared a type parameter of that name themselves,
so the derived implementation did not compile.
---
 bsn1_serde_macros/src/ser/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bsn1_serde_macros/src/ser/mod.rs b/bsn1_serde_macros/src/ser/mod.rs
index 2ada25d..d7f9a62 100644
--- a/bsn1_serde_macros/src/ser/mod.rs
+++ b/bsn1_serde_macros/src/ser/mod.rs
@@ -66,13 +66,13 @@ fn do_into_serialize(ty: &syn::Path) -> syn::Result<TokenStream> {
     let Serialize = quote! { ::bsn1_serde::ser::Serialize };
 
     Ok(quote! {
-        fn write_id<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+        fn write_id<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
             let this: Self = #Clone::clone(self);
             let this: #ty = #Into::into(this);
             #Serialize::write_id(&this, buffer)
         }
 
-        fn write_der_contents<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+        fn write_der_contents<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
             let this: Self = #Clone::clone(self);
             let this: #ty = #Into::into(this);
             #Serialize::write_der_contents(&this, buffer)
@@ -97,12 +97,12 @@ fn do_to_serialize(to_fn: &syn::Path) -> syn::Result<TokenStream> {
     let Serialize = quote! { ::bsn1_serde::ser::Serialize };
 
     Ok(quote! {
-        fn write_id<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+        fn write_id<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
             let this = #to_fn(self);
             #Serialize::write_id(&this, buffer)
         }
 
-        fn write_der_contents<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+        fn write_der_contents<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
             let this = #to_fn(self);
             #Serialize::write_der_contents(&this, buffer)
         }
@@ -149,11 +149,11 @@ fn do_serialize_struct(
         };
 
     Ok(quote! {
-            fn write_id<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+            fn write_id<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
                 #write_id
             }
 
-            fn write_der_contents<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+            fn write_der_contents<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
                 #write_der_contents
             }
 
@@ -201,13 +201,13 @@ fn do_serialize_enum(
     }
 
     Ok(quote! {
-            fn write_id<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+            fn write_id<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
                 match self {
                     #(#arms =>  { #write_ids } )*
                 }
             }
 
-            fn write_der_contents<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+            fn write_der_contents<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
                 match self {
                     #(#arms =>  { #write_der_contentses } )*
                 }
-- 
2.43.0


From 7aea60a8c6806c34abc09bab4038663947b42f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:09 +0000
Subject: [PATCH 20/22] fix: reject broken field attributes in converted
 structs and enums

A struct or enum with into, to, from or try_from is serialized or
deserialized as another type, so the attributes of its fields and variants
were not even looked at, and mistakes in them went unnoticed.
---
 bsn1_serde_macros/src/data_container.rs | 18 ++++++++++++++++++
 bsn1_serde_macros/src/de/mod.rs         |  2 ++
 bsn1_serde_macros/src/ser/mod.rs        |  2 ++
 3 files changed, 22 insertions(+)

diff --git a/bsn1_serde_macros/src/data_container.rs b/bsn1_serde_macros/src/data_container.rs
index dc75848..c768dad 100644
--- a/bsn1_serde_macros/src/data_container.rs
+++ b/bsn1_serde_macros/src/data_container.rs
@@ -82,6 +82,24 @@ impl TryFrom<(Ident, syn::Variant)> for DataContainer {
     }
 }
 
+/// Makes sure that the attributes of the variants and of the fields in `data` are valid.
+///
+/// (They are not used if the whole container is converted, but they must not be broken.)
+pub fn sanitize_data(data: &syn::Data) -> syn::Result<()> {
+    let sanitize_field = |field: &syn::Field| -> syn::Result<()> {
+        Attribute::try_from(&field.attrs[..])?.sanitize_as_field()
+    };
+
+    match data {
+        syn::Data::Struct(data) => data.fields.iter().try_for_each(sanitize_field),
+        syn::Data::Enum(data) => data.variants.iter().try_for_each(|variant| {
+            Attribute::try_from(&variant.attrs[..])?.sanitize_as_variant()?;
+            variant.fields.iter().try_for_each(sanitize_field)
+        }),
+        syn::Data::Union(data) => data.fields.named.iter().try_for_each(sanitize_field),
+    }
+}
+
 impl DataContainer {
     /// # Safety
     ///
diff --git a/bsn1_serde_macros/src/de/mod.rs b/bsn1_serde_macros/src/de/mod.rs
index 5a66e33..69ea2e7 100644
--- a/bsn1_serde_macros/src/de/mod.rs
+++ b/bsn1_serde_macros/src/de/mod.rs
@@ -14,6 +14,7 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
+use crate::data_container::sanitize_data;
 use crate::generics::Generics;
 use crate::{Attribute, DataContainer};
 use proc_macro2::{Ident, TokenStream};
@@ -25,6 +26,7 @@ pub fn do_deserialize(ast: syn::DeriveInput) -> syn::Result<TokenStream> {
 
     let attribute = Attribute::try_from(&ast.attrs[..])?;
     attribute.sanitize_as_container()?;
+    sanitize_data(&ast.data)?;
 
     let generics = Generics::from(ast.generics);
     let idents = generics.idents();
diff --git a/bsn1_serde_macros/src/ser/mod.rs b/bsn1_serde_macros/src/ser/mod.rs
index d7f9a62..7531073 100644
--- a/bsn1_serde_macros/src/ser/mod.rs
+++ b/bsn1_serde_macros/src/ser/mod.rs
@@ -14,6 +14,7 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
+use crate::data_container::sanitize_data;
 use crate::generics::Generics;
 use crate::{Attribute, DataContainer};
 use proc_macro2::{Ident, TokenStream};
@@ -25,6 +26,7 @@ pub fn do_serialize(ast: syn::DeriveInput) -> syn::Result<TokenStream> {
 
     let attribute = Attribute::try_from(&ast.attrs[..])?;
     attribute.sanitize_as_container()?;
+    sanitize_data(&ast.data)?;
 
     let generics = Generics::from(ast.generics);
     let idents = generics.idents();
-- 
2.43.0


From 9985348b13e7125083f3d11d26257aba2f7f65b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:00 +0000
Subject: [PATCH 21/22] fix: keep the cause of a wrapped Error::Anyhow
 reachable

An Error that was turned into an anyhow::Error with its contexts and
wrapped again hid its cause: it had no source, and root_cause returned
the wrapper.
---
 bsn1/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bsn1/src/lib.rs b/bsn1/src/lib.rs
index fa207f1..27b5f7b 100644
--- a/bsn1/src/lib.rs
+++ b/bsn1/src/lib.rs
@@ -106,7 +106,15 @@ impl fmt::Display for Error {
     }
 }
 
-impl std::error::Error for Error {}
+impl std::error::Error for Error {
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        match self {
+            Self::Io(err) => err.source(),
+            Self::Anyhow(err) => err.source(),
+            _ => None,
+        }
+    }
+}
 
 impl PartialEq for Error {
     fn eq(&self, other: &Self) -> bool {
@@ -170,11 +178,14 @@ impl Error {
 
     /// If `self` matches `Error::Anyhow`, returns a reference to the first `Self` type error
     /// in the chain; otherwise, returns `self`.
+    ///
+    /// If the found error is `Error::Anyhow` again, its chain is searched likewise.
     pub fn root_cause(&self) -> &Self {
         match self {
             Self::Anyhow(err) => err
                 .chain()
                 .find_map(|cause| cause.downcast_ref::<Self>())
+                .map(Self::root_cause)
                 .unwrap_or(self),
             _ => self,
         }
-- 
2.43.0


From 60ea3570c32e5f440faa929884cb7e395a858a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:39 +0000
Subject: [PATCH 22/22] fix: derive Deserialize with try_from in crates without
 anyhow

The generated code named ::anyhow::Error, so a crate that depends on
bsn1_serde but not on anyhow itself could not compile it.
---
 bsn1_serde/src/macro_alias.rs           | 1 +
 bsn1_serde_macros/src/data_container.rs | 8 ++++----
 bsn1_serde_macros/src/de/mod.rs         | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/bsn1_serde/src/macro_alias.rs b/bsn1_serde/src/macro_alias.rs
index e069e27..5aaca8a 100644
--- a/bsn1_serde/src/macro_alias.rs
+++ b/bsn1_serde/src/macro_alias.rs
@@ -14,4 +14,5 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
+pub use anyhow::Error as Anyhow;
 pub use bsn1::{BerRef, Buffer, ContentsRef, DerRef, Error, IdRef, Length};
diff --git a/bsn1_serde_macros/src/data_container.rs b/bsn1_serde_macros/src/data_container.rs
index c768dad..d63368a 100644
--- a/bsn1_serde_macros/src/data_container.rs
+++ b/bsn1_serde_macros/src/data_container.rs
@@ -361,7 +361,7 @@ impl DataContainer {
         let Error = quote! { ::bsn1_serde::macro_alias::Error };
         let Deserialize = quote! { ::bsn1_serde::de::Deserialize };
 
-        let Anyhow = quote! { ::anyhow::Error };
+        let Anyhow = quote! { ::bsn1_serde::macro_alias::Anyhow };
         let Result = quote! { ::std::result::Result };
 
         let ty = self.ty();
@@ -474,7 +474,7 @@ impl DataContainer {
         let Deserialize = quote! { ::bsn1_serde::de::Deserialize };
 
         let Result = quote! { ::std::result::Result };
-        let Anyhow = quote! { ::anyhow::Error };
+        let Anyhow = quote! { ::bsn1_serde::macro_alias::Anyhow };
 
         let ty = self.ty();
         let field_idents = self.field_idents();
@@ -549,7 +549,7 @@ impl DataContainer {
         let Deserialize = quote! { ::bsn1_serde::de::Deserialize };
 
         let Result = quote! { ::std::result::Result };
-        let Anyhow = quote! { ::anyhow::Error };
+        let Anyhow = quote! { ::bsn1_serde::macro_alias::Anyhow };
 
         let ty = self.ty();
         let contents_bytes = quote! { bsn1_macro_1704080283_contents_bytes };
@@ -642,7 +642,7 @@ impl DataContainer {
         let Deserialize = quote! { ::bsn1_serde::de::Deserialize };
 
         let Result = quote! { ::std::result::Result };
-        let Anyhow = quote! { ::anyhow::Error };
+        let Anyhow = quote! { ::bsn1_serde::macro_alias::Anyhow };
 
         let ty = self.ty();
         let field_idents = self.field_idents();
diff --git a/bsn1_serde_macros/src/de/mod.rs b/bsn1_serde_macros/src/de/mod.rs
index 69ea2e7..f1126fe 100644
--- a/bsn1_serde_macros/src/de/mod.rs
+++ b/bsn1_serde_macros/src/de/mod.rs
@@ -94,7 +94,7 @@ fn do_try_from_deserialize(ty: &syn::Path) -> syn::Result<TokenStream> {
 
     let Result = quote! { ::std::result::Result };
     let TryFrom = quote! { ::std::convert::TryFrom };
-    let Anyhow = quote! { ::anyhow::Error };
+    let Anyhow = quote! { ::bsn1_serde::macro_alias::Anyhow };
 
     let error_context = quote! { concat!("Failed to convert from `", stringify!(#ty), "`") };
 
-- 
2.43.0

