From 90425144b23aac74b1abecfe8ed3db94772c9a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:15 +0000
Subject: [PATCH 01/34] fix: reject truncated, cyclic and oversized names in
 DnsBuffer::extract_fqdn

Reading a name panicked when the input ended inside it, followed cyclic
compression pointers forever and had no limit for label and name sizes.
---
 src/buffer.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 38f4717..b06a682 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -134,10 +134,18 @@ impl<'a> DnsBuffer<'a> {
     pub fn extract_fqdn(&mut self) -> Result<FQDN, DnsError> {
         use crate::{COMPRESSION_MASK, COMPRESSION_MASK_U16};
 
+        // RFC 1035 Section 2.3.4 limits the size of a name to 255 octets
+        const MAX_NAME_SIZE: usize = 255;
+
         let mut data = Vec::<Vec<u8>>::new();
         let mut org_pos = None;
+        // Start of the run of labels that is currently read. A compression pointer has to point
+        // to a prior position which guarantees that the resolving process terminates.
+        let mut run_start = self.pos;
+        // Size of the uncompressed name including the termination byte
+        let mut name_size = 1;
         loop {
-            let len = self.data[self.pos];
+            let len = self.peek_bytes(1)?[0];
             if len & COMPRESSION_MASK == COMPRESSION_MASK {
                 // Instead of returning an error we should look up what the pointer value is
                 // and reolve the fqdn here
@@ -149,11 +157,15 @@ impl<'a> DnsBuffer<'a> {
                 self.pos = (u16::from_be_bytes(self.peek_bytes(2)?.try_into()?)
                     & !COMPRESSION_MASK_U16) as usize;
 
-                if self.pos >= org_pos.unwrap_or(0) {
+                if self.pos >= run_start {
                     self.pos = org_pos.unwrap_or(0);
                     return Err(DnsError::UnresolveableCompressionPointer);
                 }
-            } else if self.pos + len as usize > self.data.len() {
+                run_start = self.pos;
+            } else if len & COMPRESSION_MASK != 0 {
+                // Label types other than regular labels and compression pointers are reserved
+                return Err(DnsError::LengthViolation);
+            } else if self.pos + 1 + len as usize > self.data.len() {
                 // Length encoded in FQDN would run out of the buffer
                 return Err(DnsError::LengthViolation);
             } else if len == 0 {
@@ -166,6 +178,11 @@ impl<'a> DnsBuffer<'a> {
                 self.pos += 1;
                 return Ok(FQDN::from(data));
             } else {
+                name_size += 1 + len as usize;
+                if name_size > MAX_NAME_SIZE {
+                    return Err(DnsError::LengthViolation);
+                }
+
                 // Consume next part to FQDN
                 self.pos += 1;
                 data.push(self.data[self.pos..self.pos + len as usize].to_vec());
-- 
2.43.0


From d7a154ab48dcb01843480959e5b934938743661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:41 +0000
Subject: [PATCH 02/34] fix: do not overflow in DnsBuffer length checks

A requested length close to usize::MAX wrapped around the bounds check.
---
 src/buffer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index b06a682..4699eef 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -18,10 +18,10 @@ impl<'a> DnsBuffer<'a> {
     /// but with a custom length parameter. The start of the new buffer is at index 0 of
     /// the parent buffer.
     pub fn sub_buffer(&mut self, mut len: usize) -> Result<DnsBuffer, DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
+        len += self.pos;
         Ok(Self {
             data: &self.data[0..len],
             pos: self.pos,
@@ -50,10 +50,10 @@ impl<'a> DnsBuffer<'a> {
 
     /// Advances the current index by `len` bytes.
     pub fn advance(&mut self, mut len: usize) -> Result<(), DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
+        len += self.pos;
         self.pos = len;
         Ok(())
     }
@@ -61,7 +61,7 @@ impl<'a> DnsBuffer<'a> {
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len without modifying the internal state (e.g. the current index).
     pub fn peek_bytes(&self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
         Ok(&self.data[self.pos..self.pos + len])
@@ -70,7 +70,7 @@ impl<'a> DnsBuffer<'a> {
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len and sets the current index to the end of the returned slice.
     pub fn extract_bytes(&mut self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
 
-- 
2.43.0


From b2410bb94e796104c9f720cf623951b9b721e297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:43 +0000
Subject: [PATCH 03/34] fix: reject unknown response codes when parsing a
 header

Header::response_code() panicked for codes 11 to 15 read from the wire.
---
 src/header.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 91497a3..0a76b06 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -203,9 +203,14 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Header {
     type Error = DnsError;
 
     fn try_from(buffer: &mut DnsBuffer) -> Result<Self, Self::Error> {
+        let id = buffer.extract_u16()?;
+        let flags = FlagBitfield::from_bytes(buffer.extract_bytes(2)?.try_into()?);
+        // Not every value of the four bits on the wire is a known response code
+        ResponseCode::try_from(flags.rcode())?;
+
         Ok(Header {
-            id: buffer.extract_u16()?,
-            flags: FlagBitfield::from_bytes(buffer.extract_bytes(2)?.try_into()?),
+            id,
+            flags,
             ques_count: buffer.extract_u16()?,
             ans_count: buffer.extract_u16()?,
             auth_count: buffer.extract_u16()?,
-- 
2.43.0


From df3b75e4c0d24a09bddfa4586bc51fec75ada223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:11 +0000
Subject: [PATCH 04/34] fix: Packet::take_authorities resets the count of the
 authority section

It reset the answer count, so the compressed form of the packet announced
authorities that are gone and no answers.
---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index d542777..a702d58 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -205,7 +205,7 @@ impl Packet {
     }
 
     pub fn take_authorities(&mut self) -> Vec<ResourceRecord> {
-        self.header.ans_count = 0;
+        self.header.auth_count = 0;
         std::mem::take(&mut self.authorities)
     }
 
-- 
2.43.0


From d23aad8b23275f1676a91e863f694cd3204058a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:13 +0000
Subject: [PATCH 05/34] fix: write the actual section counts into every
 serialized packet

Packet::to_bytes_compressed used the counts stored in the header, which are
stale after with_questions, questions_mut and set_header. Packet::to_bytes
patched them in through a *mut u16 into a byte vector, which is undefined
behaviour whenever the vector is not aligned for u16.
---
 src/packet.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index a702d58..afa3914 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -238,11 +238,22 @@ impl Packet {
         self.header.add_count = self.additional.len() as u16;
     }
 
+    /// Creates a binary representation of the header of this `Packet` where the counts match the
+    /// number of elements that are actually present in the sections of the packet.
+    fn header_bytes(&self) -> Vec<u8> {
+        let mut header = self.header.clone();
+        header.ques_count = self.questions.len() as u16;
+        header.ans_count = self.answers.len() as u16;
+        header.auth_count = self.authorities.len() as u16;
+        header.add_count = self.additional.len() as u16;
+        header.to_bytes()
+    }
+
     /// Creates a binary representation of a `Packet` with DNS compression enabled.
     pub fn to_bytes_compressed(&self) -> Vec<u8> {
         let mut used_fqdn = std::collections::HashMap::<u64, usize>::new();
 
-        let mut bin = self.header.to_bytes();
+        let mut bin = self.header_bytes();
 
         for ques in self.questions.iter() {
             bin.extend_from_slice(&ques.to_bytes_compressed(&mut used_fqdn, bin.len()));
@@ -295,22 +306,7 @@ impl ByteConvertible for Packet {
         }
 
         let mut bin = Vec::with_capacity(byte_len);
-        bin.extend_from_slice(&self.header.to_bytes());
-
-        // Set correct number of element into the header
-        let mut ptr = bin.as_mut_ptr() as *mut u16;
-        // SAFETY: Safe to dereference the pointer because the vector the pointer points to
-        // was created with the expected capacity of the header struct beforehand
-        unsafe {
-            ptr = ptr.offset(2);
-            *ptr = (self.questions.len() as u16).to_be();
-            ptr = ptr.offset(1);
-            *ptr = (self.answers.len() as u16).to_be();
-            ptr = ptr.offset(1);
-            *ptr = (self.authorities.len() as u16).to_be();
-            ptr = ptr.offset(1);
-            *ptr = (self.additional.len() as u16).to_be();
-        };
+        bin.extend_from_slice(&self.header_bytes());
 
         for ques in self.questions.iter() {
             bin.extend_from_slice(&ques.to_bytes());
-- 
2.43.0


From fd3b7ccf28c2037673b1350c6eda90b154524ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:15 +0000
Subject: [PATCH 06/34] fix: adding an element to a packet cannot overflow the
 section count

The count was incremented on its own, so it panicked (or wrapped) when it had
been replaced by set_header or when the section already had 65535 elements.
---
 src/packet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index afa3914..5980ef1 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -173,7 +173,7 @@ impl Packet {
 
     pub fn add_question(&mut self, question: Question) {
         self.questions.push(question);
-        self.header.ques_count += 1;
+        self.header.ques_count = self.questions.len() as u16;
     }
 
     pub fn set_questions(&mut self, questions: Vec<Question>) {
@@ -192,7 +192,7 @@ impl Packet {
 
     pub fn add_answer(&mut self, answer: ResourceRecord) {
         self.answers.push(answer);
-        self.header.ans_count += 1;
+        self.header.ans_count = self.answers.len() as u16;
     }
 
     pub fn set_answers(&mut self, answers: Vec<ResourceRecord>) {
@@ -211,7 +211,7 @@ impl Packet {
 
     pub fn add_authority(&mut self, auth: ResourceRecord) {
         self.authorities.push(auth);
-        self.header.auth_count += 1;
+        self.header.auth_count = self.authorities.len() as u16;
     }
 
     pub fn set_authorities(&mut self, authorities: Vec<ResourceRecord>) {
@@ -230,7 +230,7 @@ impl Packet {
 
     pub fn add_additional(&mut self, add: ResourceRecord) {
         self.additional.push(add);
-        self.header.add_count += 1;
+        self.header.add_count = self.additional.len() as u16;
     }
 
     pub fn set_additionals(&mut self, additionals: Vec<ResourceRecord>) {
-- 
2.43.0


From 871bcddfd67c94de78487af1873818998d838e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:37 +0000
Subject: [PATCH 07/34] fix: Packet::with_questions sets the question count of
 the header

---
 src/packet.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 5980ef1..d62932a 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -76,8 +76,10 @@ impl Packet {
     /// This sets the necessary flags to make it a query dns packet. Other fields remain defaulted.
     /// This should only be used to query information from a name server.
     pub fn with_questions(id: u16, rc: bool, questions: Vec<Question>) -> Self {
+        let mut header = Header::new_query(id, rc);
+        header.ques_count = questions.len() as u16;
         Packet {
-            header: Header::new_query(id, rc),
+            header,
             questions,
             answers: Vec::new(),
             authorities: Vec::new(),
-- 
2.43.0


From f15b6beb739d68d8408ed8ae0d38225f6fcd90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:39 +0000
Subject: [PATCH 08/34] fix: do not preallocate packet sections from untrusted
 header counts

A header of 12 bytes was enough to make the parser allocate several megabytes
for records that are not there.
---
 src/packet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index d62932a..fd7c3af 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -346,14 +346,14 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Packet {
         packet.set_header(Header::try_from(buffer as &mut _)?);
 
         // Parse questions from buffer
-        let mut questions = Vec::with_capacity(packet.header.ques_count as usize);
+        let mut questions = Vec::new();
         for _ in 0..packet.header.ques_count {
             questions.push(Question::try_from(buffer as &mut _)?);
         }
         packet.questions = questions;
 
         // Parse answer records from buffer
-        let mut answers = Vec::with_capacity(packet.header.ans_count as usize);
+        let mut answers = Vec::new();
         for _ in 0..packet.header.ans_count {
             // packet.add_answer(ResourceRecord::try_from(buffer as &mut _)?);
             answers.push(ResourceRecord::try_from(buffer as &mut _)?);
@@ -361,14 +361,14 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Packet {
         packet.answers = answers;
 
         // Parse authority records from buffer
-        let mut authorities = Vec::with_capacity(packet.header.auth_count as usize);
+        let mut authorities = Vec::new();
         for _ in 0..packet.header.auth_count {
             authorities.push(ResourceRecord::try_from(buffer as &mut _)?);
         }
         packet.authorities = authorities;
 
         // Parse additional records from buffer
-        let mut additionals = Vec::with_capacity(packet.header.add_count as usize);
+        let mut additionals = Vec::new();
         for _ in 0..packet.header.add_count {
             additionals.push(ResourceRecord::try_from(buffer as &mut _)?);
         }
-- 
2.43.0


From bf9fa9fdef802e59d4a3c261faf6dc717a1d3aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:41 +0000
Subject: [PATCH 09/34] fix: displaying an FQDN with non UTF-8 labels is no
 undefined behaviour

---
 src/fqdn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index d1f37ed..cf2f357 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -87,8 +87,8 @@ impl FQDN {
 impl Display for FQDN {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         for (idx, name_part) in self.iter().enumerate() {
-            // SAFETY: Safe because the u8 in self.data are parsed from a &str in the constructor
-            write!(f, "{}", unsafe { std::str::from_utf8_unchecked(name_part) })?;
+            // Labels that are received from the network are not necessarily valid UTF-8
+            write!(f, "{}", String::from_utf8_lossy(name_part))?;
             if idx + 1 != self.data.len() {
                 write!(f, ".")?;
             }
-- 
2.43.0


From f0ccfc2254c9113fd08e3048d81c0673aca480aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:42 +0000
Subject: [PATCH 10/34] fix: FQDN::is_empty is true for an FQDN without labels

The size includes the termination byte and thus is never zero.
---
 src/fqdn.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index cf2f357..9b0f47c 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -35,7 +35,7 @@ impl FQDN {
 
     /// Checks if the FQDN does not contain any labels.
     pub fn is_empty(&self) -> bool {
-        self.byte_size() == 0
+        self.data.is_empty()
     }
 
     /// Returns the byte-size of this FQDN in its binary representation.
-- 
2.43.0


From 7d663c547261c0b7d08cfadc087d4361f5cf1317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:09 +0000
Subject: [PATCH 11/34] fix: never compress names with pointers that do not fit
 in 14 bits

Names at an offset of 16384 or more were remembered as pointer targets, the
offset was truncated and the pointer referred to unrelated data.
---
 src/fqdn.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index 9b0f47c..ee284c6 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -229,7 +229,10 @@ impl CompressedByteConvertible for FQDN {
                 buffer.push(self.data[i].len() as u8);
                 buffer.extend_from_slice(&self.data[i]);
 
-                names.insert(remaining_hash, offset);
+                // A pointer only has 14 bits to represent the position of the name
+                if offset <= !COMPRESSION_MASK_U16 as usize {
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
             }
         }
-- 
2.43.0


From 1aec4534561bfeee5f302bb243f0e09994660586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:11 +0000
Subject: [PATCH 12/34] fix: skip empty labels when compressing an FQDN

An empty label is written as the termination byte of the name and everything
behind it was read as different fields.
---
 src/fqdn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index ee284c6..fae5a5d 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -218,6 +218,11 @@ impl CompressedByteConvertible for FQDN {
         let mut buffer = Vec::new();
 
         for i in 0..self.data.len() {
+            if self.data[i].is_empty() {
+                // Same as in the uncompressed form, an empty label would terminate the name
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
-- 
2.43.0


From 00bf1c96d6ed4b1dcfc4f8aff107bc5b878b5a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:13 +0000
Subject: [PATCH 13/34] fix: take the RDLENGTH of a record from the RDATA that
 is written

The size that is calculated independently does not match for SVCB records.
---
 src/resource.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resource.rs b/src/resource.rs
index d79acb8..a51f2de 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -444,9 +444,10 @@ impl ByteConvertible for ResourceRecord {
 
         buffer.extend_from_slice(&u32::to_be_bytes(self.time_to_live));
 
-        buffer.extend_from_slice(&u16::to_be_bytes(self.rdata.byte_size() as u16));
+        let rdata = self.rdata.to_bytes();
+        buffer.extend_from_slice(&u16::to_be_bytes(rdata.len() as u16));
 
-        buffer.extend_from_slice(&self.rdata.to_bytes());
+        buffer.extend_from_slice(&rdata);
 
         buffer
     }
-- 
2.43.0


From 8926857bff8df5021f55a285672970fe3d431f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:15 +0000
Subject: [PATCH 14/34] fix: byte_size of CAA, OPT and RRSIG data matches the
 serialized size

---
 src/rdata/caa.rs    | 2 +-
 src/rdata/dnssec.rs | 2 +-
 src/rdata/opt.rs    | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rdata/caa.rs b/src/rdata/caa.rs
index 79a13f0..108ea95 100644
--- a/src/rdata/caa.rs
+++ b/src/rdata/caa.rs
@@ -68,7 +68,7 @@ impl RData for Caa {
 
 impl ByteConvertible for Caa {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.value.len()
+        (2 * std::mem::size_of::<u8>()) + self.tag.len() + self.value.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index ac8fa45..5629d77 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -707,7 +707,7 @@ impl RData for Rrsig {
 impl ByteConvertible for Rrsig {
     #[inline(always)]
     fn byte_size(&self) -> usize {
-        17 + self.signers_name.len() + self.signature.len()
+        18 + self.signers_name.len() + self.signature.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
diff --git a/src/rdata/opt.rs b/src/rdata/opt.rs
index e9ec4fa..1e89cff 100644
--- a/src/rdata/opt.rs
+++ b/src/rdata/opt.rs
@@ -53,7 +53,9 @@ impl RData for Opt {
 
 impl ByteConvertible for Opt {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.0.iter().fold(0, |acc, elem| acc + elem.1.len())
+        self.0.iter().fold(0, |acc, elem| {
+            acc + (2 * std::mem::size_of::<u16>()) + elem.1.len()
+        })
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From b936c633ecca00ecc4a1a2f57dac55147bd1b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:17 +0000
Subject: [PATCH 15/34] fix: parse CDS and CDNSKEY types

Packets with these types could be created but were rejected when parsing.
---
 src/question.rs | 4 ++++
 src/resource.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/question.rs b/src/question.rs
index 89667f3..59e5199 100644
--- a/src/question.rs
+++ b/src/question.rs
@@ -159,6 +159,10 @@ impl TryFrom<u16> for QType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
diff --git a/src/resource.rs b/src/resource.rs
index a51f2de..37880d1 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -193,6 +193,10 @@ impl TryFrom<u16> for RecordType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
-- 
2.43.0


From 2fb2c9d4c662e30ab28d4a0b32ed9dd820f4e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:07 +0000
Subject: [PATCH 16/34] fix: read the class of an OPT record as the complete
 UDP payload size

Sizes of 32768 and more lost their top bit (or were taken for the mDNS cache
flush bit) and sizes 1 to 4 were reported as class IN, CS, CH and HS.
---
 src/resource.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/resource.rs b/src/resource.rs
index 37880d1..fd23284 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -384,12 +384,19 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for ResourceRecord {
         let a_type = buffer.extract_u16_as::<RecordType>()?;
 
         #[cfg(not(feature = "mdns"))]
-        let a_class = RecordClass::from(buffer.extract_u16()?);
+        let a_class = match a_type {
+            // The class of OPT pseudo records always is the payload size of the sender
+            RecordType::OPT => RecordClass::UdpPayloadSize(buffer.extract_u16()?),
+            _ => RecordClass::from(buffer.extract_u16()?),
+        };
         #[cfg(feature = "mdns")]
         let (a_class, cache_flush) = {
             const MDNS_ENABLE_CACHE_FLUSH: u16 = 1 << 15;
             let bin_val = buffer.extract_u16()?;
-            if bin_val & MDNS_ENABLE_CACHE_FLUSH > 0 {
+            if a_type == RecordType::OPT {
+                // The class of OPT pseudo records always is the payload size of the sender
+                (RecordClass::UdpPayloadSize(bin_val), false)
+            } else if bin_val & MDNS_ENABLE_CACHE_FLUSH > 0 {
                 let class_val = bin_val & !MDNS_ENABLE_CACHE_FLUSH;
                 (RecordClass::from(class_val), true)
             } else {
-- 
2.43.0


From 4fac014707a158d8c1a0902390f8e55d578a25e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:09 +0000
Subject: [PATCH 17/34] fix: reject type bitmap windows of more than 32 octets

The position of a bit overflowed (panic in debug builds) or was taken for a
type of a different window.
---
 src/rdata/csync.rs  | 4 ++++
 src/rdata/dnssec.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index 5bd957e..f0e755d 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -85,6 +85,10 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Csync {
         while buffer.remaining() > 0 {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
+            if window_len > 32 {
+                // A window has 256 types at most
+                return Err(DnsError::LengthViolation);
+            }
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 5629d77..250d696 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -62,6 +62,10 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Nsec {
         while buffer.remaining() > 0 {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
+            if window_len > 32 {
+                // A window has 256 types at most
+                return Err(DnsError::LengthViolation);
+            }
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
-- 
2.43.0


From 6d9192d4b5cc82e9d27fac43324558653547fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:11 +0000
Subject: [PATCH 18/34] fix: parse the fingerprint of SSHFP data without a
 length byte

RFC 4255 has no length byte and none is written when serializing.
---
 src/rdata/sshfp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/sshfp.rs b/src/rdata/sshfp.rs
index 701afa1..80755e3 100644
--- a/src/rdata/sshfp.rs
+++ b/src/rdata/sshfp.rs
@@ -36,7 +36,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Sshfp {
         Ok(Self {
             algorithm: buffer.extract_u8()?.try_into()?,
             fingerprint_type: buffer.extract_u8()?.try_into()?,
-            fingerprint: buffer.extract_character_string()?,
+            fingerprint: buffer.extract_bytes(buffer.remaining())?.to_vec(),
         })
     }
 }
-- 
2.43.0


From 9ff70fe7e010e5d4a4c399d84e258e0e42e77f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:13 +0000
Subject: [PATCH 19/34] fix: use all seven length bits of an APL item

Odd lengths lost their last octet.
---
 src/rdata/apl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/apl.rs b/src/rdata/apl.rs
index f2febbe..48f62b9 100644
--- a/src/rdata/apl.rs
+++ b/src/rdata/apl.rs
@@ -52,7 +52,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Apl {
         let prefix = buffer.extract_u8()?;
         let coded_byte = buffer.extract_u8()?;
         let n = coded_byte & 0x80 != 0;
-        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7E) as usize)?.to_vec();
+        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7F) as usize)?.to_vec();
 
         let afd_part = match family {
             1 => {
-- 
2.43.0


From bb1fa83e1e7ada7247bc84efe8e986b9ce381de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:15 +0000
Subject: [PATCH 20/34] fix: do not print to stdout when serializing TSIG data

---
 src/rdata/tsig.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rdata/tsig.rs b/src/rdata/tsig.rs
index 7db281f..5238c08 100644
--- a/src/rdata/tsig.rs
+++ b/src/rdata/tsig.rs
@@ -106,7 +106,6 @@ impl ByteConvertible for Tsig {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buf = Vec::with_capacity(self.byte_size());
-        println!("Test: {:?}", self.algorithm.to_bytes());
         buf.extend(self.algorithm.to_bytes());
         buf.extend(&self.time_signed.to_be_bytes()[2..]); // 48 bytes
         buf.extend(self.fudge.to_be_bytes()); // 16 b
-- 
2.43.0


From 83210f09662ce223a15803e290b2c6722f4e4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:15 +0000
Subject: [PATCH 21/34] fix: serialize OPT options in a deterministic order

The same record had a different binary representation every time it was
created because it depended on the order of a hash map.
---
 src/rdata/opt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rdata/opt.rs b/src/rdata/opt.rs
index 1e89cff..19f777a 100644
--- a/src/rdata/opt.rs
+++ b/src/rdata/opt.rs
@@ -60,7 +60,10 @@ impl ByteConvertible for Opt {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buff = Vec::with_capacity(self.byte_size());
-        for (code, data) in self.0.iter() {
+        // Equal values have to create equal bytes, so do not rely on the order of the hash map
+        let mut options = self.0.iter().collect::<Vec<_>>();
+        options.sort();
+        for (code, data) in options {
             buff.extend_from_slice(&u16::to_be_bytes(*code));
             buff.extend_from_slice(&u16::to_be_bytes(data.len() as u16));
             buff.extend_from_slice(data);
-- 
2.43.0


From f6a518a6f577f7da39938d583ae072d5249ab31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:17 +0000
Subject: [PATCH 22/34] fix: DnsError is not its own source

Following the chain of sources of an error never came to an end.
---
 src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index ff3b1e0..b99fbc5 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -80,7 +80,10 @@ pub enum DnsError {
 
 impl std::error::Error for DnsError {
     fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
-        Some(self)
+        match self {
+            Self::InvalidDnsSecSignatureTimespan(err) => Some(err),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From 962c1c46184b75bc4d167767e23c0731e41c15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:03 +0000
Subject: [PATCH 23/34] fix: bound the value of a SVCB param by its length
 field

A mandatory or alpn value with a length that does not match its content
panicked, other values ignored the length and the following params were read
from the wrong position.
---
 src/rdata/svcb.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/rdata/svcb.rs b/src/rdata/svcb.rs
index f790ac8..b375f85 100644
--- a/src/rdata/svcb.rs
+++ b/src/rdata/svcb.rs
@@ -199,38 +199,44 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Param {
 
     fn try_from(buffer: &mut DnsBuffer<'a>) -> Result<Self, Self::Error> {
         let key = ParamKey::try_from(buffer.extract_u16()?)?;
-        let mut len = buffer.extract_u16()? as usize;
+        let len = buffer.extract_u16()? as usize;
+
+        // The value of a param must neither exceed nor fall short of its length
+        let mut value = buffer.sub_buffer(len)?;
         let val = match key {
             ParamKey::Mandatory => {
                 let mut keys = BTreeSet::default();
-                while len > 0 {
-                    keys.insert(buffer.extract_u16()?.try_into()?);
-                    len -= 2;
+                while value.remaining() > 0 {
+                    keys.insert(value.extract_u16()?.try_into()?);
                 }
                 Self::Mandatory(keys)
             }
             ParamKey::Alpn => {
                 let mut alpn = Vec::default();
-                while len > 0 {
-                    let inner_len = buffer.extract_u8()? as usize;
-                    alpn.push(buffer.extract_bytes(inner_len)?.to_vec());
-                    len -= inner_len + 1;
+                while value.remaining() > 0 {
+                    let inner_len = value.extract_u8()? as usize;
+                    alpn.push(value.extract_bytes(inner_len)?.to_vec());
                 }
                 Self::Alpn(alpn)
             }
             ParamKey::NoDefaultAlpn => Self::NoDefaultAlpn,
-            ParamKey::Port => Self::Port(buffer.extract_u16()?),
-            ParamKey::IpV4Hint => Self::IpV4Hint(Ipv4Addr::from(buffer.extract_u32()?)),
-            ParamKey::Ech => Self::Ech(buffer.extract_bytes(len)?.to_vec()),
+            ParamKey::Port => Self::Port(value.extract_u16()?),
+            ParamKey::IpV4Hint => Self::IpV4Hint(Ipv4Addr::from(value.extract_u32()?)),
+            ParamKey::Ech => Self::Ech(value.extract_bytes(len)?.to_vec()),
             ParamKey::IpV6Hint => Self::IpV6Hint(Ipv6Addr::from(u128::from_be_bytes(
-                buffer.extract_bytes(16)?.try_into()?,
+                value.extract_bytes(16)?.try_into()?,
             ))),
             ParamKey::Private(val) => Self::Private {
                 num: val,
-                bytes: buffer.extract_bytes(len)?.to_vec(),
+                bytes: value.extract_bytes(len)?.to_vec(),
             },
             ParamKey::Invalid => Self::Invalid,
         };
+        if value.remaining() > 0 {
+            return Err(DnsError::LengthViolation);
+        }
+        buffer.advance(len)?;
+
         Ok(val)
     }
 }
-- 
2.43.0


From 16bbb226c17ff107fc5e52b0b2abd9e339422f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:05 +0000
Subject: [PATCH 24/34] fix: reject CAA tags that are not valid UTF-8

The replacement characters changed the tag and could make it longer than its
length byte is able to express.
---
 src/rdata/caa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rdata/caa.rs b/src/rdata/caa.rs
index 108ea95..efecb8d 100644
--- a/src/rdata/caa.rs
+++ b/src/rdata/caa.rs
@@ -45,7 +45,8 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Caa {
             return Err(DnsError::InvalidPacketData);
         }
 
-        let tag = String::from_utf8_lossy(buffer.extract_bytes(tag_len as usize)?).to_string();
+        let tag = String::from_utf8(buffer.extract_bytes(tag_len as usize)?.to_vec())
+            .map_err(|_| DnsError::InvalidPacketData)?;
         let value = buffer.extract_bytes(buffer.remaining())?.to_vec();
 
         Ok(Self {
-- 
2.43.0


From 34a148adf203d0051b1eebab1d9abf0ac4755c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:41 +0000
Subject: [PATCH 25/34] fix: use the hash algorithm prefix in RSA signatures

Signatures with RSA/SHA-256 and RSA/SHA-512 contain the prefix (as required by
RFC 3110 and RFC 5702) but verifying did not expect it, so that not a single
one was valid. RSA/MD5 and RSA/SHA-1 were created and verified without it.
---
 src/rdata/dnssec.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 250d696..aa5897e 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -589,7 +589,7 @@ impl Rrsig {
 
                 Ok(verifier
                     .verify(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
+                        self.algorithm.rsa_padding(),
                         &sig,
                         &self.signature,
                     )
@@ -762,6 +762,29 @@ impl Algorithm {
         }
     }
 
+    /// Padding of RSA signatures which includes the prefix that identifies the hash algorithm as
+    /// required by RFC 3110 and RFC 5702.
+    fn rsa_padding(&self) -> rsa::pkcs1v15::Pkcs1v15Sign {
+        let prefix: &[u8] = match self {
+            Self::RSA_MD5 => {
+                b"\x30\x20\x30\x0c\x06\x08\x2a\x86\x48\x86\xf7\x0d\x02\x05\x05\x00\x04\x10"
+            }
+            Self::RSA_SHA1 => b"\x30\x21\x30\x09\x06\x05\x2b\x0e\x03\x02\x1a\x05\x00\x04\x14",
+            Self::RSA_SHA256 => {
+                b"\x30\x31\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x01\x05\x00\x04\x20"
+            }
+            Self::RSA_SHA512 => {
+                b"\x30\x51\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x03\x05\x00\x04\x40"
+            }
+            _ => &[],
+        };
+
+        rsa::pkcs1v15::Pkcs1v15Sign {
+            hash_len: self.len(),
+            prefix: prefix.into(),
+        }
+    }
+
     pub fn sign_data(&self, data: &[u8], private_key: &[u8]) -> Result<Vec<u8>, DnsError> {
         let rng = ring::rand::SystemRandom::new();
 
@@ -779,7 +802,7 @@ impl Algorithm {
 
                 let signature = private_key
                     .sign(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
+                        self.rsa_padding(),
                         digest.as_ref(),
                     )
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
@@ -816,7 +839,7 @@ impl Algorithm {
 
                 let signature = private_key
                     .sign(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
+                        self.rsa_padding(),
                         digest.as_ref(),
                     )
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
-- 
2.43.0


From 5e0b7744dc5277a79ad6eef910945f9197830a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:42 +0000
Subject: [PATCH 26/34] fix: create and verify DSA signatures as specified by
 RFC 2536

Signing concatenated R and S without padding while verifying expected DER and
hashed the data twice, so that not a single DSA signature was valid.
---
 src/rdata/dnssec.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index aa5897e..00869b8 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -596,7 +596,7 @@ impl Rrsig {
                     .is_ok())
             }
             Algorithm::DSA_SHA1 => {
-                use dsa::signature::Verifier;
+                use dsa::signature::hazmat::PrehashVerifier;
 
                 // Key data field:
                 // T         1  octet
@@ -617,10 +617,20 @@ impl Rrsig {
                 )
                 .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                let signature = dsa::Signature::try_from(self.signature.as_slice())
-                    .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
+                // Signature data field:
+                // T         1  octet
+                // R        20  octets
+                // S        20  octets
+                if self.signature.len() != 41 || self.signature[0] as usize != t {
+                    return Ok(false);
+                }
+                let signature = dsa::Signature::from_components(
+                    BigUint::from_bytes_be(&self.signature[1..21]),
+                    BigUint::from_bytes_be(&self.signature[21..]),
+                )
+                .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                Ok(verifier.verify(&sig, &signature).is_ok())
+                Ok(verifier.verify_prehash(&sig, &signature).is_ok())
             }
             Algorithm::ECDSA_P256 => {
                 // Key data field:
@@ -821,8 +831,24 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let signature = signing_key.sign_digest(hasher);
 
-                let mut sign_data = signature.r().to_bytes_be();
-                sign_data.extend_from_slice(&signature.s().to_bytes_be());
+                // Signature data field:
+                // T         1  octet
+                // R        20  octets
+                // S        20  octets
+                let p_len = (signing_key.verifying_key().components().p().bits() + 7) / 8;
+                let t = p_len.saturating_sub(64) / 8;
+                let r = signature.r().to_bytes_be();
+                let s = signature.s().to_bytes_be();
+                if t > u8::MAX as usize || r.len() > 20 || s.len() > 20 {
+                    return Err(DnsError::DnsSecSigningError(
+                        "Unsupported size of DSA key".into(),
+                    ));
+                }
+
+                let mut sign_data = vec![0; 41];
+                sign_data[0] = t as u8;
+                sign_data[21 - r.len()..21].copy_from_slice(&r);
+                sign_data[41 - s.len()..41].copy_from_slice(&s);
 
                 Ok(sign_data)
             }
-- 
2.43.0


From 5b0e7de0635a9736865ac12d6393d43a7aa02519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:44 +0000
Subject: [PATCH 27/34] fix: verify ECDSA signatures with DNSKEYs in the format
 of RFC 6605

The key in a DNSKEY record consists of the coordinates only, verifying with
such a key always failed.
---
 src/rdata/dnssec.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 00869b8..b049c4e 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -637,17 +637,17 @@ impl Rrsig {
                 // 64 bytes (x | y)
                 let verifier = ring::signature::UnparsedPublicKey::new(
                     &ring::signature::ECDSA_P256_SHA256_FIXED,
-                    public_key_data.extract_bytes(public_key_data.remaining())?,
+                    uncompressed_point(&dnskey.public_key, 64),
                 );
 
                 Ok(verifier.verify(&sig, &self.signature).is_ok())
             }
             Algorithm::ECDSA_P384 => {
                 // Key data field:
-                // 97 bytes (x | y)
+                // 96 bytes (x | y)
                 let verifier = ring::signature::UnparsedPublicKey::new(
                     &ring::signature::ECDSA_P384_SHA384_FIXED,
-                    public_key_data.extract_bytes(public_key_data.remaining())?,
+                    uncompressed_point(&dnskey.public_key, 96),
                 );
 
                 Ok(verifier.verify(&sig, &self.signature).is_ok())
@@ -690,6 +690,17 @@ impl Rrsig {
     }
 }
 
+/// DNSKEY records contain the bare coordinates of ECDSA keys (RFC 6605) which need to be prefixed
+/// to become the uncompressed representation of a point.
+fn uncompressed_point(public_key: &[u8], coordinates_len: usize) -> Vec<u8> {
+    let mut point = Vec::with_capacity(1 + public_key.len());
+    if public_key.len() == coordinates_len {
+        point.push(4);
+    }
+    point.extend_from_slice(public_key);
+    point
+}
+
 impl<'a> TryFrom<&mut DnsBuffer<'a>> for Rrsig {
     type Error = DnsError;
 
-- 
2.43.0


From f13e7d462380a884e750c475349912fe551957e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:45 +0000
Subject: [PATCH 28/34] fix: write RRSIG inception and expiration in seconds

RFC 4034 specifies seconds since the epoch, truncated milliseconds have no
relation to the given time.
---
 src/rdata/dnssec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index b049c4e..dc90a66 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -475,11 +475,11 @@ impl Rrsig {
         let expiration = expiration
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
         let inception = inception
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
 
         let mut rrsig = Self {
             type_covered: rr_set.set_type(),
-- 
2.43.0


From 580e0b80747a62ee2447ff39edb813370f643d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:47 +0000
Subject: [PATCH 29/34] fix: return an error if creating an RSA signature fails

---
 src/rdata/dnssec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index dc90a66..c79949b 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -887,28 +887,28 @@ impl Algorithm {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA256,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::RSA_SHA512 => {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA512,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::ECDSA_P256 => {
-- 
2.43.0


From 6eddc8f1323e9b5d40f08bcb2e9223107b98f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:49 +0000
Subject: [PATCH 30/34] fix: compute the key tag of RSA/MD5 keys as specified
 by RFC 4034

---
 src/rdata/dnssec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index c79949b..51f21c6 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -259,6 +259,11 @@ impl DnsKey {
     /// First octet of the key tag is the most significant 8 bits of the return value
     /// Second octet of the key tag is the least significant 8 bits of the return value
     fn compute_key_tag(&self) -> u16 {
+        if let (Algorithm::RSA_MD5, [.., a, b, _]) = (self.algorithm, &self.public_key[..]) {
+            // Defined differently for this algorithm (RFC 4034 Appendix B.1)
+            return u16::from_be_bytes([*a, *b]);
+        }
+
         let mut key_tag = self
             .to_bytes()
             .iter()
-- 
2.43.0


From ec43415ff69b75ddcd2756de32a5341d2dd763d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:23 +0000
Subject: [PATCH 31/34] fix: keep all flags of a parsed DNSKEY

Flags like REVOKE were dropped, which changes the key tag and the digest of
the key.
---
 src/rdata/dnssec.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 51f21c6..0545f72 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -222,6 +222,8 @@ impl CompressedByteConvertible for Nsec {
 pub struct DnsKey {
     pub zone_key: bool,
     pub secure_entry_point: bool,
+    /// Flags without a dedicated field (e.g. REVOKE) that are only kept to be written back.
+    other_flags: u16,
     protocol: u8,
     pub algorithm: Algorithm,
     pub public_key: Vec<u8>,
@@ -232,6 +234,7 @@ impl DnsKey {
         Self {
             zone_key: false,
             secure_entry_point: false,
+            other_flags: 0,
             protocol: 3,
             algorithm,
             public_key,
@@ -292,6 +295,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for DnsKey {
         Ok(Self {
             zone_key: (flags & 0b00000001_00000000) != 0,
             secure_entry_point: (flags & 0b00000000_00000001) != 0,
+            other_flags: flags & !0b00000001_00000001,
             protocol,
             algorithm,
             public_key,
@@ -317,7 +321,8 @@ impl ByteConvertible for DnsKey {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buff = Vec::with_capacity(4 + self.public_key.len());
-        let combined_flags = ((self.zone_key as u16) << 8) | self.secure_entry_point as u16;
+        let combined_flags =
+            self.other_flags | ((self.zone_key as u16) << 8) | self.secure_entry_point as u16;
         buff.extend_from_slice(&u16::to_be_bytes(combined_flags));
         buff.push(self.protocol);
         buff.push((self.algorithm).into());
-- 
2.43.0


From f1efefe629353548259ecd10f9589628a425d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 32/34] fix: omit empty windows from type bitmaps

RFC 4034 Section 4.1.2 requires that windows without types are not present,
but sets without types below 256 were written with an empty window.
---
 src/rdata/csync.rs  | 18 +++++++++++-------
 src/rdata/dnssec.rs | 36 ++++++++++++++++++++++--------------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index f0e755d..c3e29d3 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -132,9 +132,11 @@ impl ByteConvertible for Csync {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -162,10 +164,12 @@ impl ByteConvertible for Csync {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer, empty blocks must be omitted
+                if block_data != [0; 32] {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 0545f72..8543fd3 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -98,9 +98,11 @@ impl ByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -127,10 +129,12 @@ impl ByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer, empty blocks must be omitted
+                if block_data != [0; 32] {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
@@ -158,9 +162,11 @@ impl CompressedByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -191,10 +197,12 @@ impl CompressedByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer, empty blocks must be omitted
+                if block_data != [0; 32] {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
-- 
2.43.0


From 46031a7a9db371cfa1d86f7c9f418ffb9f2793b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:25 +0000
Subject: [PATCH 33/34] fix: serialize SVCB params with a value of up to 65535
 bytes

---
 src/rdata/svcb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/svcb.rs b/src/rdata/svcb.rs
index b375f85..e11900b 100644
--- a/src/rdata/svcb.rs
+++ b/src/rdata/svcb.rs
@@ -265,7 +265,7 @@ impl ByteConvertible for Param {
         buf.extend(u16::to_be_bytes(key));
 
         // Add the param val length to the buffer
-        buf.extend(u16::to_be_bytes(byte_size as u16 - 4));
+        buf.extend(u16::to_be_bytes((byte_size - 4) as u16));
 
         // Add the param val binary data to the buffer
         match self {
-- 
2.43.0


From b4c96d7b57dc854796a753e02a4bb22681f5b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:20 +0000
Subject: [PATCH 34/34] fix: leave the cursor unchanged if a character string
 exceeds the buffer

---
 src/buffer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 4699eef..b9fd408 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -110,10 +110,8 @@ impl<'a> DnsBuffer<'a> {
     /// Definition of a character string here is: Read a `u8` from the current index that
     /// represents the number of bytes that belong to the character string.
     pub fn extract_character_string(&mut self) -> Result<Vec<u8>, DnsError> {
-        let len = self.extract_u8()? as usize;
-        let mut data = Vec::with_capacity(len);
-        data.extend_from_slice(self.extract_bytes(len)?);
-        Ok(data)
+        let len = 1 + self.peek_bytes(1)?[0] as usize;
+        Ok(self.extract_bytes(len)?[1..].to_vec())
     }
 
     /// Extracts a DNS character string from the internal bufferand moves the the internal
-- 
2.43.0

