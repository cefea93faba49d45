From 52585116390f15e96452292da62b45246004df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 01/32] fix: address differences of 2^63 overflow and panic

---
 smdiff-common/src/lib.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/smdiff-common/src/lib.rs b/smdiff-common/src/lib.rs
index e04aa51..ceebea0 100644
--- a/smdiff-common/src/lib.rs
+++ b/smdiff-common/src/lib.rs
@@ -314,24 +314,15 @@ pub fn u_varint_encode_size(n: u64) -> usize {
 /// Helper fn to 'decode' a copy address from an i64 to the actual absolute address.
 #[inline]
 pub fn diff_addresses_to_u64(cur: u64, input: i64) -> u64 {
-    if input >= 0 {
-        // Safe to convert i64 to u64 because i is non-negative
-        cur.wrapping_add(input as u64)
-    } else {
-        // i is negative, so convert the absolute value to u64 and subtract
-        let positive_i = input.abs() as u64; // This is safe because `abs()` of a negative i64 can always fit in u64
-        cur.wrapping_sub(positive_i)
-    }
+    // Wraps modulo 2^64 (so that i64::MIN is handled like any other difference)
+    cur.wrapping_add_signed(input)
 }
 
 /// Helper fn to 'encode' a copy address from an absolute position (u64) to the relative difference from the last used absolute address.
 #[inline]
 pub fn diff_addresses_to_i64(cur: u64, target: u64) -> i64 {
-    if target > cur {
-        (target - cur) as i64
-    } else {
-        (cur - target) as i64 * -1
-    }
+    // The difference modulo 2^64; this is the inverse of `diff_addresses_to_u64`
+    target.wrapping_sub(cur) as i64
 }
 
 #[cfg(test)]
-- 
2.43.0


From ca98772b90729568d7e63c923d13023e2baf7562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 02/32] fix: a varint longer than ten bytes or 64 bits is
 misread or panics

---
 smdiff-common/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smdiff-common/src/lib.rs b/smdiff-common/src/lib.rs
index ceebea0..fe769ee 100644
--- a/smdiff-common/src/lib.rs
+++ b/smdiff-common/src/lib.rs
@@ -256,6 +256,10 @@ pub fn read_u_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<u64> {
     loop {
         reader.read_exact(&mut b)?;
         let byte = b[0];
+        // the tenth byte holds only the most significant bit of a u64
+        if shift == 63 && byte > 1 {
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "varint does not fit in 64 bits"));
+        }
         result |= ((byte & 0x7F) as u64) << shift;
         if byte & 0x80 == 0 {
             break;
-- 
2.43.0


From b8ff2008c83c8a62dc51f3abaa4f8a885a0a8a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 03/32] fix: section headers with sizes over the limits are
 truncated or overflow

---
 smdiff-reader/src/lib.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 2cbe7d1..f535260 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -9,7 +9,7 @@
 //!
 use std::io::Read;
 
-use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, ADD, COPY_D, COPY_O, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
+use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, ADD, COPY_D, COPY_O, MAX_WIN_SIZE, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
 /// Op Type alias for the Readers Add type
@@ -37,19 +37,24 @@ pub fn read_section_header<R: std::io::Read>(reader: &mut R) -> std::io::Result<
     let compression_algo = (header_byte & SECTION_COMPRESSION_MASK) >> SECTION_COMPRESSION_RSHIFT;
     let format = if header_byte & SECTION_FORMAT_BIT == SECTION_FORMAT_BIT{Format::Segregated} else {Format::Interleaved};
     let more_sections = (header_byte & SECTION_CONTINUE_BIT) == SECTION_CONTINUE_BIT;
-    let num_operations = read_u_varint(reader)? as u32;
+    let num_operations = read_u_varint(reader)?;
     let num_add_bytes = if format.is_segregated() {
-        read_u_varint(reader)? as u32
+        read_u_varint(reader)?
     } else {
         0
     };
-    let read_size = read_u_varint(reader)? as u32;
-    let output_size = if format.is_segregated(){
-        num_add_bytes + read_size
-    }else{
-        read_size
-    };
+    let read_size = read_u_varint(reader)?;
+    let output_size = num_add_bytes.saturating_add(read_size);
+    if output_size > MAX_WIN_SIZE as u64 {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Section output size {} exceeds the maximum of {}",output_size,MAX_WIN_SIZE)));
+    }
+    // Every operation generates at least one byte
+    if num_operations > output_size {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Section with {} operations cannot have an output size of {}",num_operations,output_size)));
+    }
 
+    // All three are now known to fit in 24 bits
+    let (num_operations, num_add_bytes, output_size) = (num_operations as u32, num_add_bytes as u32, output_size as u32);
     Ok(SectionHeader {
         compression_algo,
         format,
-- 
2.43.0


From e0827847e320440aa03531d5de62970be49a636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 04/32] fix: readers miscount Add bytes and trust sizes the
 operations do not bear out

---
 smdiff-reader/src/lib.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index f535260..7fb0b1d 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -71,11 +71,11 @@ pub fn read_section_header<R: std::io::Read>(reader: &mut R) -> std::io::Result<
 /// function can update the number of add bytes in the event the format is interleaved.
 /// This way the header reflects reality regardless of if it was originally encoded in the header.
 pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHeader,op_buffer:&mut Vec<Op>)-> std::io::Result<()>{
-    let SectionHeader { format, num_operations, output_size, .. } = header;
+    let SectionHeader { format, num_operations, output_size, num_add_bytes, .. } = header;
     //dbg!(&header);
     let mut cur_d_addr = 0;
     let mut cur_o_addr = 0;
-    op_buffer.reserve(*num_operations as usize);
+    let mut add_bytes = 0;
     match format {
         Format::Segregated => {
             let buffer_offset = op_buffer.len();
@@ -86,8 +86,9 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,false)?;
                 let len = op.oal() as u32;
                 check_size += len;
+                check_op_size(len, check_size, *output_size)?;
                 if op.is_add(){
-                    header.num_add_bytes += len;
+                    add_bytes += len;
                     add_idxs.push(buffer_offset+i as usize);
                 }
                 op_buffer.push(op);
@@ -95,6 +96,9 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
             if &check_size != output_size{
                 return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size)));
             }
+            if &add_bytes != num_add_bytes{
+                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header add bytes: {} != Sum(add bytes) {}",num_add_bytes,add_bytes)));
+            }
             //reader should be at the end of the instructions
             //now we go back and fill the add op buffers
             for i in add_idxs{
@@ -109,23 +113,42 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
             let mut check_size = 0;
             for _ in 0..*num_operations {
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,true)?;
-                check_size += op.oal() as u32;
+                let len = op.oal() as u32;
+                check_size += len;
+                check_op_size(len, check_size, *output_size)?;
+                if op.is_add(){
+                    add_bytes += len;
+                }
                 op_buffer.push(op);
             }
             if &check_size != output_size{
                 return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size)));
             }
+            *num_add_bytes = add_bytes;
             Ok(())
         }
     }
 }
 
+/// Every operation generates something, and all of them together no more than the header states.
+fn check_op_size(len:u32,total:u32,output_size:u32) -> std::io::Result<()>{
+    if len == 0 {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Operation with a length of zero"));
+    }
+    if total > output_size {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Operations exceed the output size {} of the section",output_size)));
+    }
+    Ok(())
+}
+
 ///Returns the ops and the output size. Cannot have secondary compression still applied.
 ///
 /// This is just a wrapper that completely reads a section from the reader.
 pub fn read_section<R: std::io::Read>(reader: &mut R, op_buffer:&mut Vec<Op>) -> std::io::Result<SectionHeader> {
     let mut header = read_section_header(reader)?;
-    op_buffer.reserve(header.num_operations as usize);
+    if header.is_compressed(){
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Section still has secondary compression applied"));
+    }
     read_ops_no_comp(reader, &mut header, op_buffer)?;
     Ok(header)
 }
-- 
2.43.0


From 3f1711e276c6ac55773606e77d46487f74bd58c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 05/32] fix: section iterators read on after an error

---
 smdiff-decoder/src/reader.rs |  4 ++++
 smdiff-reader/src/lib.rs     | 14 ++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index cb4ee30..7b42f9d 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -35,6 +35,7 @@ impl<R: Read+Seek> SectionIterator<R>{
         };
         self.ops.clear();
         if let Err(e) = self.read_ops(&mut header){
+            self.done = true;
             return Some(Err(e));
         }
         Some(Ok((&self.ops,header)))
@@ -49,6 +50,7 @@ impl<R: Read+Seek> SectionIterator<R>{
         };
         self.ops.clear();
         if let Err(e) = self.read_ops(&mut header){
+            self.done = true;
             return Some(Err(e));
         }
         Some(Ok((std::mem::take(&mut self.ops),header)))
@@ -60,6 +62,8 @@ impl<R: Read+Seek> SectionIterator<R>{
         match read_section_header(&mut self.source){
             Ok(h) => Some(Ok(h)),
             Err(e) => {
+                // there is no telling where the next section would start
+                self.done = true;
                 return Some(Err(e));
             }
         }
diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 7fb0b1d..9fe8ec8 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -247,8 +247,11 @@ impl<R: Read> SectionIterator<R>{
         self.op_buffer.clear();
         let header = match read_section(&mut self.source,&mut self.op_buffer){
             Ok(v) => v,
-            Err(e) => return Some(Err(e)),
-
+            Err(e) => {
+                // there is no telling where the next section would start
+                self.done = true;
+                return Some(Err(e));
+            }
         };
         if !header.more_sections{
             self.done = true;
@@ -263,8 +266,11 @@ impl<R: Read> SectionIterator<R>{
         let mut op_buffer = Vec::new();
         let header = match read_section(&mut self.source,&mut op_buffer){
             Ok(v) => v,
-            Err(e) => return Some(Err(e)),
-
+            Err(e) => {
+                // there is no telling where the next section would start
+                self.done = true;
+                return Some(Err(e));
+            }
         };
         if !header.more_sections{
             self.done = true;
-- 
2.43.0


From e2f5bb2d696f8e9f7ad9952c4c33dae94db96bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 06/32] fix: applying a patch that needs a source without one
 panics

---
 smdiff-decoder/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index 6141ec4..556d8a7 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -67,7 +67,7 @@ fn apply_ops<R:Read+Seek,W:Write+Read+Seek>(ops:&[smdiff_reader::Op],src:&mut Op
                     smdiff_common::CopySrc::Dict => {
                         let src = match src.as_mut(){
                             Some(s) => s,
-                            None => panic!("Copy operation without source data"),
+                            None => return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "Copy operation without source data")),
                         };
                         src.seek(std::io::SeekFrom::Start(copy.addr))?;
                         let len = copy.len as usize;
-- 
2.43.0


From 71bb1f39e16a339fb7a86c032e7e8480775d3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 07/32] fix: output copies can read what the sink held before

---
 smdiff-decoder/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index 556d8a7..e1f1a63 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -77,6 +77,10 @@ fn apply_ops<R:Read+Seek,W:Write+Read+Seek>(ops:&[smdiff_reader::Op],src:&mut Op
                     },
                     smdiff_common::CopySrc::Output => {
                         let start_pos = *cur_o_pos;
+                        // whatever the sink holds beyond this point is not part of our output
+                        if copy.addr.checked_add(copy.len as u64).map_or(true, |end| end > start_pos as u64) {
+                            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy of output that was not generated yet"));
+                        }
                         cur_o.seek(std::io::SeekFrom::Start(copy.addr as u64))?;
                         let len = copy.len as usize;
                         cur_o.read_exact(&mut copy_buffer[..len])?;
-- 
2.43.0


From 467d87f71c5f27a5f62a2b359fdb8d876234a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 08/32] fix: a bad zstd frame panics and unknown compression is
 read as none

---
 smdiff-decoder/src/reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 7b42f9d..25ca081 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -77,14 +77,17 @@ impl<R: Read+Seek> SectionIterator<R>{
             crsr.rewind()?;
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
         }else if header.compression_algo == 2 {
-            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source).unwrap();
+            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
             let _ = brot.into_inner()?;
-        }else{
+        }else if header.compression_algo == 0 {
             read_ops_no_comp(&mut self.source, header,&mut self.ops)?;
+        }else{
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Unknown secondary compression {}",header.compression_algo)));
         }
         if !header.more_sections{
             self.done = true;
-- 
2.43.0


From 7b3278fbc1d9866e0075e941c2856fafac942416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 09/32] fix: the end of a compressed section is not consumed

---
 smdiff-decoder/src/reader.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 25ca081..b274a9e 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -76,13 +76,16 @@ impl<R: Read+Seek> SectionIterator<R>{
             apply_no_sec_comp::<_,R,_>(&mut self.source, None, &mut crsr)?;
             crsr.rewind()?;
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
+            expect_end(&mut crsr)?;
         }else if header.compression_algo == 2 {
             let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
+            expect_end(&mut zstd)?;
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
+            expect_end(&mut brot)?;
             let _ = brot.into_inner()?;
         }else if header.compression_algo == 0 {
             read_ops_no_comp(&mut self.source, header,&mut self.ops)?;
@@ -99,6 +102,20 @@ impl<R: Read+Seek> SectionIterator<R>{
     }
 }
 
+/// Decompressors may not have consumed all of their frame when the last operation has been read.
+/// Reading on to the end of the section data positions the source at the next section.
+fn expect_end<R:Read>(section:&mut R) -> std::io::Result<()>{
+    let mut buf = [0u8; 1];
+    loop {
+        match section.read(&mut buf) {
+            Ok(0) => return Ok(()),
+            Ok(_) => return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Section data continues after the last operation")),
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {},
+            Err(e) => return Err(e),
+        }
+    }
+}
+
 impl<R: Read+Seek> Iterator for SectionIterator<R> {
     type Item = std::io::Result<(Vec<Op>, SectionHeader)>;
 
-- 
2.43.0


From df02ae507d060a7cd4bec912146c400a429fba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 10/32] fix: extraction counts every copy twice in its
 statistics

---
 smdiff-merger/src/lib.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index ec50168..b45d1b2 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -196,8 +196,6 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                         },
                     }
                     output.push((o_pos_start,inst));
-                    stats.copy_d(oal_len);
-
                 },
                 smdiff_common::Op::Add(_) => {
                     output.push((o_pos_start,inst));
-- 
2.43.0


From 1885fff9b5504dfc18ba449522cece80b98f7b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 11/32] fix: merging a patch whose only copies are output
 copies panics

---
 smdiff-merger/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index b45d1b2..4d41569 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -280,7 +280,10 @@ impl Merger {
         //will need to check this.
         let terminal_patch = deref_copy_o(terminal_patch);
         find_mergeable_copies(&terminal_patch,0,&mut terminal_copy_indices);
-        debug_assert!(!terminal_copy_indices.is_empty(), "terminal_copy_indices should not be empty");
+        if terminal_copy_indices.is_empty(){
+            //all copies were from the output, so there is nothing left to resolve
+            return Ok(Err(SummaryPatch(terminal_patch.into_iter().map(|s|s.1).collect())));
+        }
         Ok(Ok(Merger{
             terminal_patch,
             terminal_copy_indices,
-- 
2.43.0


From 45b34de94a6cd83440d5ce0e0a890bd0a9c2666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 12/32] fix: merging malformed or mismatched patches panics

---
 smdiff-merger/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index 4d41569..4b8d4dc 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -192,6 +192,9 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                             stats.copy_d(oal_len);
                         },
                         smdiff_common::CopySrc::Output => {
+                            if c.addr.checked_add(c.len as u64).map_or(true, |end| end > o_pos_start){
+                                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy of output that was not generated yet"));
+                            }
                             stats.copy_o(oal_len);
                         },
                     }
@@ -319,7 +322,8 @@ impl Merger {
             //this a src window copy that we need to resolve from the predecessor patch.
             debug_assert!(matches!(copy.src, smdiff_common::CopySrc::Dict));
             let o_start = copy.addr; //ssp is o_pos, u is offset from that.
-            let resolved = get_exact_slice(&predecessor_patch, o_start, copy.len as u32).unwrap();
+            let resolved = get_exact_slice(&predecessor_patch, o_start, copy.len as u32)
+                .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy from beyond the output of the predecessor patch"))?;
             //debug_assert_eq!(sum_len_in_o(&resolved), copy.len_in_o() as u64, "resolved: {:?} copy: {:?}",resolved,copy);
             find_mergeable_copies(&resolved, i+shift, &mut terminal_copy_indices);
             shift += resolved.len() - 1;
-- 
2.43.0


From c0e1f31c51766c9e5fdc0a595feaed5f55f3aece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 13/32] fix: transcoding a patch without operations panics

---
 smdiff-merger/src/transcoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smdiff-merger/src/transcoder.rs b/smdiff-merger/src/transcoder.rs
index de2c759..561a65e 100644
--- a/smdiff-merger/src/transcoder.rs
+++ b/smdiff-merger/src/transcoder.rs
@@ -84,7 +84,7 @@ fn optimize_and_convert_ops(mut ops: Vec<InnerOp>)->Vec<Op> {
 
 fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
     let mut i = 0;
-    while i < ops.len() - 1 {
+    while i + 1 < ops.len() {
         let (left, right) = ops.split_at_mut(i + 1);
         if let (Some(InnerOp::Add(first)), Some(InnerOp::Add(second))) = (left.last_mut(), right.first_mut()) {
             if !second.is_empty() && first.len() < MAX_INST_SIZE as usize {
@@ -98,7 +98,7 @@ fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
 
 fn join_adjacent_runs(ops: &mut Vec<InnerOp>) {
     let mut i = 0;
-    while i < ops.len() - 1 {
+    while i + 1 < ops.len() {
         let (left, right) = ops.split_at_mut(i + 1);
         if let (Some(InnerOp::Run { byte: byte1, len: len1,.. }), Some(InnerOp::Run { byte: byte2, len: len2, .. })) = (left.last_mut(), right.first_mut()) {
             if byte1 == byte2 {
-- 
2.43.0


From 917df2b9821ac1ec7f6baeb5df10508a08e6f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 14/32] fix: translating a VCDIFF run prints to standard output

---
 smdiff-vcdiff/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 8e28dde..69910f6 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -76,7 +76,6 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                             cur_o_pos += len as u64;
                         },
                         Inst::Run(RUN{ len, byte }) => {
-                            println!("Run @{}: of: {} let: {}",cur_o_pos,byte,len);
                             let total: u32 = len;
                             let mut processed: u32 = 0;
                             while processed < total {
-- 
2.43.0


From 0015c7a50a11ba6cfc5919554a8f2b0bef285aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 15/32] fix: implicit sequences longer than 65535 bytes are cut
 short in translation

---
 smdiff-vcdiff/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 69910f6..f4fa227 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -131,7 +131,9 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                                 let mut processed: u32 = 0;
                                 while processed < total {
                                     let remaining = total - processed;
-                                    let chunk_size = remaining.min(slice_len);
+                                    // one period at a time, or as much of it as fits a single operation
+                                    let in_slice = processed % slice_len;
+                                    let chunk_size = remaining.min(slice_len - in_slice).min(MAX_INST_SIZE);
                                     //dbg!(slice_len,chunk_size);
                                     if cur_win_size + chunk_size > MAX_WIN_SIZE as u32{
                                         let header = SectionHeader {
@@ -149,7 +151,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                                         cur_win_size = 0;
                                         num_add_bytes = 0;
                                     }
-                                    let op = Op::Copy(Copy{ src, addr, len: chunk_size as u16 });
+                                    let op = Op::Copy(Copy{ src, addr: addr + in_slice as u64, len: chunk_size as u16 });
                                     cur_win.push(op);
                                     processed += chunk_size;
                                     cur_win_size += chunk_size;
-- 
2.43.0


From 29266e395a29fda83c837a9b8d8ed0b278239cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 16/32] fix: damaged or truncated VCDIFF deltas are translated
 in part without an error

---
 smdiff-vcdiff/src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index f4fa227..5d1c92a 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -1,4 +1,4 @@
-use std::io::Seek;
+use std::io::{Seek, SeekFrom};
 
 use smdiff_common::{AddOp, Copy, CopySrc, Format, Run, SectionHeader, MAX_RUN_LEN, MAX_WIN_SIZE};
 use smdiff_writer::{write_section_header, write_ops};
@@ -19,6 +19,10 @@ impl AddOp for Add{
     }
 }
 
+fn invalid_data(msg: &str) -> std::io::Error {
+    std::io::Error::new(std::io::ErrorKind::InvalidData, msg)
+}
+
 pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader: R, mut writer: W) -> std::io::Result<()> {
     let mut cur_win = Vec::new();
     let mut reader = VCDReader::new(reader)?;
@@ -27,9 +31,14 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
     let mut cur_o_pos = 0;
     let mut cur_win_size = 0;
     let mut num_add_bytes = 0;
+    // where the patch ends as far as we know, and the output position the current window has to reach
+    let mut end_of_patch = reader.header.encoded_size() as u64;
+    let mut win_o_end = None;
     loop{
         match reader.next()?{
             VCDiffReadMsg::WindowSummary(ws) => {
+                end_of_patch = ws.end_of_window();
+                win_o_end = Some(cur_o_pos + ws.size_of_the_target_window);
                 ssp = ws.source_segment_position;
                 if ws.win_indicator == WinIndicator::VCD_TARGET{
                     vcd_trgt = true;
@@ -194,12 +203,19 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                 }
             },
             VCDiffReadMsg::EndOfWindow => {
+                if win_o_end.take() != Some(cur_o_pos) {
+                    return Err(invalid_data("The instructions of a window do not generate its target window"));
+                }
                 ssp = None;
                 vcd_trgt = false;
             },
             VCDiffReadMsg::EndOfFile => break,
         }
     }
+    // The reader reports any unexpected end as the end of the file.
+    if win_o_end.is_some() || reader.into_inner().seek(SeekFrom::End(0))? != end_of_patch {
+        return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "The patch does not end with a complete window"));
+    }
     //dbg!(cur_o_pos);
     //now we determine what we need to write
     let header = SectionHeader {
-- 
2.43.0


From f6879bd51f0c3cae67cdb87ba6413e8b19e1a90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 17/32] fix: VCDIFF features that are not supported panic

---
 smdiff-vcdiff/src/lib.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 5d1c92a..5264fbe 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -1,6 +1,6 @@
 use std::io::{Seek, SeekFrom};
 
-use smdiff_common::{AddOp, Copy, CopySrc, Format, Run, SectionHeader, MAX_RUN_LEN, MAX_WIN_SIZE};
+use smdiff_common::{read_u8, AddOp, Copy, CopySrc, Format, Run, SectionHeader, MAX_RUN_LEN, MAX_WIN_SIZE};
 use smdiff_writer::{write_section_header, write_ops};
 use vcdiff_common::{CopyType, Inst, Instruction, WinIndicator, ADD, RUN};
 use vcdiff_reader::{VCDReader, VCDiffReadMsg};
@@ -23,8 +23,13 @@ fn invalid_data(msg: &str) -> std::io::Error {
     std::io::Error::new(std::io::ErrorKind::InvalidData, msg)
 }
 
-pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader: R, mut writer: W) -> std::io::Result<()> {
+pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(mut reader: R, mut writer: W) -> std::io::Result<()> {
     let mut cur_win = Vec::new();
+    // The reader panics on anything these two bytes ask for that it does not support
+    reader.seek(SeekFrom::Start(4))?;
+    if read_u8(&mut reader)? != 0 {
+        return Err(invalid_data("Secondary compressors and application-defined code tables are not supported"));
+    }
     let mut reader = VCDReader::new(reader)?;
     let mut ssp = None;
     let mut vcd_trgt = false;
@@ -35,8 +40,30 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
     let mut end_of_patch = reader.header.encoded_size() as u64;
     let mut win_o_end = None;
     loop{
+        if win_o_end.is_none() {
+            match read_u8(reader.get_reader(end_of_patch)?) {
+                Ok(win_indicator) if win_indicator > WinIndicator::VCD_TARGET as u8 => return Err(invalid_data("Unknown window indicator")),
+                Err(e) if e.kind() != std::io::ErrorKind::UnexpectedEof => return Err(e),
+                _ => (),
+            }
+        }
         match reader.next()?{
             VCDiffReadMsg::WindowSummary(ws) => {
+                if ws.delta_indicator.0 != 0 {
+                    return Err(invalid_data("Secondary compressors are not supported"));
+                }
+                if ws.length_of_instructions_and_sizes == 0 {
+                    return Err(invalid_data("Window without instructions"));
+                }
+                if ws.source_segment_size.unwrap_or(0).checked_add(ws.size_of_the_target_window).map_or(true, |u_len| u_len > u32::MAX as u64) {
+                    return Err(invalid_data("Window is too large"));
+                }
+                if let (Some(pos), Some(size)) = (ws.source_segment_position, ws.source_segment_size) {
+                    let seg_end = pos.checked_add(size).ok_or_else(|| invalid_data("Source segment is out of bounds"))?;
+                    if ws.is_vcd_target() && seg_end > cur_o_pos {
+                        return Err(invalid_data("Target segment was not generated yet"));
+                    }
+                }
                 end_of_patch = ws.end_of_window();
                 win_o_end = Some(cur_o_pos + ws.size_of_the_target_window);
                 ssp = ws.source_segment_position;
@@ -117,7 +144,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                         Inst::Copy(copy) =>{
                             let (mut addr,src,seq) = match copy.copy_type{
                                 CopyType::CopyS => {
-                                    let ssp = ssp.expect("SSP not set");
+                                    let ssp = ssp.ok_or_else(|| invalid_data("Copy from the source segment of a window that has none"))?;
                                     let addr = ssp+copy.u_pos as u64;
                                     let src = if vcd_trgt {CopySrc::Output}else{CopySrc::Dict};
                                     (addr,src,None)
-- 
2.43.0


From 8c1e26132165e91cb1644698d6eaebaa5092804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 18/32] fix: target matching after a naive prefix match reads
 past the target

---
 smdiff-encoder/src/trgt_matcher.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index 222e6ec..1f0e615 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -166,14 +166,14 @@ impl TrgtMatcherConfig {
             chain: ChainList::new(self.prev_table_capacity.unwrap()),
             max_fwd_hash_pos: trgt.len().saturating_sub(4),
         };
-        if trgt_start_pos > 0 { //prefill with hash start positions.
-            let start = trgt_start_pos.saturating_sub(self.prev_table_capacity.unwrap());
-            let end = trgt_start_pos;
-            let mut hash = calculate_small_checksum(&trgt[start..]);
-            matcher.store(hash as usize, start);
-            for old_pos in start..end{
-                hash = update_small_checksum_fwd(hash, trgt[old_pos], trgt[old_pos + 4]);
-                matcher.store(hash as usize, old_pos + 1);
+        //prefill with hash start positions before our start (those with 4 bytes to hash).
+        let start = trgt_start_pos.saturating_sub(self.prev_table_capacity.unwrap());
+        let end = trgt_start_pos.min(matcher.max_fwd_hash_pos);
+        if start < end {
+            let mut hash = calculate_small_checksum(&trgt[start..start+4]);
+            for pos in start..end{
+                matcher.store(hash as usize, pos);
+                hash = update_small_checksum_fwd(hash, trgt[pos], trgt[pos + 4]);
             }
         }
         matcher
-- 
2.43.0


From b27fe98ea576b7fa724d5dd0313f66e41a8bb203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 19/32] fix: target matching starts from a wrong hash and finds
 nothing

---
 smdiff-encoder/src/trgt_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index 1f0e615..8d907ba 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -160,7 +160,7 @@ impl TrgtMatcherConfig {
         let mut matcher = TrgtMatcher{
             compress_early_exit: *compress_early_exit,
             chain_check: *chain_check,
-            fwd_hash: 0,
+            fwd_hash: trgt.get(trgt_start_pos..trgt_start_pos+4).map_or(0, calculate_small_checksum),
             fwd_pos: trgt_start_pos,
             table,
             chain: ChainList::new(self.prev_table_capacity.unwrap()),
-- 
2.43.0


From f9a2a1ad9c11ae7dff0499b6a8b5ae4f2eb391b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 20/32] fix: a match ending less than nine bytes before the end
 panics the encoder

---
 smdiff-encoder/src/encoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/encoder.rs b/smdiff-encoder/src/encoder.rs
index 2828885..14c373a 100644
--- a/smdiff-encoder/src/encoder.rs
+++ b/smdiff-encoder/src/encoder.rs
@@ -185,7 +185,10 @@ pub(crate) fn encode_inner(config:&mut GenericEncoderConfig,src:&[u8],trgt:&[u8]
                     if matcher.next_hash_pos <= cur_o_pos{
                         add_start_positions_to_matcher(matcher, cur_o_pos, src)
                     }
-                    if matcher.fwd_pos < matcher.max_fwd_hash_pos{
+                    if cur_o_pos > matcher.max_fwd_hash_pos{
+                        //not enough trgt left to hash
+                        matcher.fwd_pos = matcher.max_fwd_hash_pos;
+                    }else if matcher.fwd_pos < matcher.max_fwd_hash_pos{
                         if matcher.fwd_pos + 9 > cur_o_pos{
                             for old_pos in matcher.fwd_pos..cur_o_pos{
                                 matcher.fwd_hash = update_large_checksum_fwd(matcher.fwd_hash, trgt[old_pos], trgt[old_pos+9]);
-- 
2.43.0


From f8aaa0ed5641e88907e38c25be7e02705d19995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 21/32] fix: matcher capacities that are not a power of two or
 very large panic

---
 smdiff-encoder/src/src_matcher.rs  | 2 +-
 smdiff-encoder/src/trgt_matcher.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/smdiff-encoder/src/src_matcher.rs b/smdiff-encoder/src/src_matcher.rs
index a86811b..c552b81 100644
--- a/smdiff-encoder/src/src_matcher.rs
+++ b/smdiff-encoder/src/src_matcher.rs
@@ -157,7 +157,7 @@ impl SrcMatcherConfig {
 
         self.max_src_win_size = Some(self
             .max_src_win_size
-            .map(|s| s.next_power_of_two().max(MIN_SRC_WIN_SIZE))
+            .map(|s| s.checked_next_power_of_two().unwrap_or(1 << (usize::BITS - 1)).max(MIN_SRC_WIN_SIZE))
             .unwrap_or(
                 DEFAULT_SRC_WIN_SIZE
                 //calculate_default_win_size(src_len, trgt_len,None)
diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index 8d907ba..35b07ee 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -154,7 +154,12 @@ impl TrgtMatcherConfig {
         //         let exact = max_unique_substrings_gt_hash_len(*win_size, effective_len, 1);
         //         exact.next_power_of_two() >> 1
         //     }));
-        prev_table_capacity.get_or_insert(DEFAULT_PREV_SIZE.min(effective_len.next_power_of_two()>>1));
+        *prev_table_capacity = Some(match *prev_table_capacity {
+            None => DEFAULT_PREV_SIZE.min(effective_len.next_power_of_two()>>1),
+            Some(0) => 0,
+            //must be a power of 2, and more than the entire trgt is of no use
+            Some(capacity) => capacity.min(trgt.len()).next_power_of_two(),
+        });
         //let table = BasicHashTable::new(DEFAULT_TRGT_WIN_SIZE.min((effective_len + (effective_len/2)).next_power_of_two() >> 1), self.prev_table_capacity.unwrap(),if *win_size>4{8}else{4});
         let table = BasicHashTable::new(DEFAULT_TRGT_WIN_SIZE.min((effective_len + (effective_len/2)).next_power_of_two() >> 1), true);
         let mut matcher = TrgtMatcher{
-- 
2.43.0


From e96bd241e7c928b34f17f9f9eecac1726715ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 22/32] fix: merging a patch with a copy from beyond 2^64
 overflows

---
 smdiff-merger/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index 4b8d4dc..0e93f0d 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -189,6 +189,9 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                 smdiff_common::Op::Copy(c) => {
                     match c.src{
                         smdiff_common::CopySrc::Dict => {
+                            if c.addr.checked_add(c.len as u64).is_none(){
+                                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy from beyond any source"));
+                            }
                             stats.copy_d(oal_len);
                         },
                         smdiff_common::CopySrc::Output => {
-- 
2.43.0


From 8a409f83f8fa480f7004da4db06b586d32c26383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 23/32] fix: a nested patch in a compressed section can
 generate without bound

---
 smdiff-decoder/src/lib.rs    | 8 ++++++--
 smdiff-decoder/src/reader.rs | 8 +++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index e1f1a63..c163443 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -32,12 +32,16 @@ pub fn apply_patch<P:Read+Seek,R:Read+Seek,W:Write+Read+Seek>(patch:&mut P,mut s
 }
 
 
-fn apply_no_sec_comp<P:Read,R:Read+Seek,W:Write+Read+Seek>(patch:&mut P,mut src:Option<&mut R>,sink:&mut W) -> std::io::Result<()> {
+/// `limit` is the most the patch may generate.
+fn apply_no_sec_comp<P:Read,R:Read+Seek,W:Write+Read+Seek>(patch:&mut P,mut src:Option<&mut R>,sink:&mut W,limit:u64) -> std::io::Result<()> {
     //To avoid Seek on write, we must write all the output data to a Vec<u8> first
     let mut cur_o_pos = 0;
     let mut reader = smdiff_reader::SectionIterator::new(patch);
     while let Some(res) = reader.next_borrowed(){
-        let (ops,_header) = res?;
+        let (ops,header) = res?;
+        if cur_o_pos as u64 + header.output_size as u64 > limit {
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Section data exceeds what its operations can take up"));
+        }
         apply_ops(ops, &mut src, sink, &mut cur_o_pos)?;
 
     }
diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index b274a9e..57091a2 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -73,7 +73,7 @@ impl<R: Read+Seek> SectionIterator<R>{
         self.ops.clear();
         if header.compression_algo == 1 {
             let mut crsr = Cursor::new(&mut self.win_data);
-            apply_no_sec_comp::<_,R,_>(&mut self.source, None, &mut crsr)?;
+            apply_no_sec_comp::<_,R,_>(&mut self.source, None, &mut crsr, max_section_data(header))?;
             crsr.rewind()?;
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
             expect_end(&mut crsr)?;
@@ -102,6 +102,12 @@ impl<R: Read+Seek> SectionIterator<R>{
     }
 }
 
+/// The most bytes the operations of a section can take up, apart from the Add bytes each one has at most
+/// an operation byte, two bytes of size and ten bytes of address.
+fn max_section_data(header:&SectionHeader) -> u64{
+    header.output_size as u64 + header.num_operations as u64 * 13
+}
+
 /// Decompressors may not have consumed all of their frame when the last operation has been read.
 /// Reading on to the end of the section data positions the source at the next section.
 fn expect_end<R:Read>(section:&mut R) -> std::io::Result<()>{
-- 
2.43.0


From d1920884f8902066690d99c5005197cf5cb99adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 24/32] fix: a zstd frame can ask for a window of any size

---
 smdiff-decoder/src/reader.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 57091a2..b60a009 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -78,8 +78,7 @@ impl<R: Read+Seek> SectionIterator<R>{
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
             expect_end(&mut crsr)?;
         }else if header.compression_algo == 2 {
-            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
-                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))?;
+            let mut zstd = zstd_decoder(&mut self.source)?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
             expect_end(&mut zstd)?;
         }else if header.compression_algo == 3 {
@@ -102,6 +101,37 @@ impl<R: Read+Seek> SectionIterator<R>{
     }
 }
 
+/// The largest window a zstd frame may ask for, the limit that zstd itself has by default.
+/// All of the window is kept in memory while the frame is read.
+const MAX_ZSTD_WINDOW: u64 = 1 << 27;
+
+fn zstd_decoder<R:Read>(source:&mut R) -> std::io::Result<ruzstd::StreamingDecoder<impl Read + '_,ruzstd::FrameDecoder>>{
+    fn invalid<E:ToString>(e:E) -> std::io::Error{
+        std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string())
+    }
+    // the decoder does not tell the window size, so the frame header is read ahead
+    let mut head = Vec::new();
+    let mut tee = Tee{source:&mut *source,seen:&mut head};
+    let (frame,_) = ruzstd::frame::read_frame_header(&mut tee).map_err(invalid)?;
+    if frame.header.window_size().map_err(invalid)? > MAX_ZSTD_WINDOW {
+        return Err(invalid("Window size of the zstd frame is too large"));
+    }
+    ruzstd::StreamingDecoder::new(Cursor::new(head).chain(source)).map_err(invalid)
+}
+
+/// Keeps what was read.
+struct Tee<'a,R>{
+    source: &'a mut R,
+    seen: &'a mut Vec<u8>,
+}
+impl<R:Read> Read for Tee<'_,R>{
+    fn read(&mut self, buf:&mut [u8]) -> std::io::Result<usize>{
+        let n = self.source.read(buf)?;
+        self.seen.extend_from_slice(&buf[..n]);
+        Ok(n)
+    }
+}
+
 /// The most bytes the operations of a section can take up, apart from the Add bytes each one has at most
 /// an operation byte, two bytes of size and ten bytes of address.
 fn max_section_data(header:&SectionHeader) -> u64{
-- 
2.43.0


From f2bf2c8dba910093464a9055c61b3a836a815215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 25/32] fix: a VCDIFF window that reads past or short of its
 data section was translated

The instructions of a window must use exactly the bytes of its data
section; a damaged opcode could otherwise take instruction bytes as data
and yield a patch that generates something else.
---
 smdiff-vcdiff/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 5264fbe..1c514f6 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -39,6 +39,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(mut re
     // where the patch ends as far as we know, and the output position the current window has to reach
     let mut end_of_patch = reader.header.encoded_size() as u64;
     let mut win_o_end = None;
+    let mut unused_data = 0u64;
     loop{
         if win_o_end.is_none() {
             match read_u8(reader.get_reader(end_of_patch)?) {
@@ -66,6 +67,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(mut re
                 }
                 end_of_patch = ws.end_of_window();
                 win_o_end = Some(cur_o_pos + ws.size_of_the_target_window);
+                unused_data = ws.length_of_data_for_adds_and_runs;
                 ssp = ws.source_segment_position;
                 if ws.win_indicator == WinIndicator::VCD_TARGET{
                     vcd_trgt = true;
@@ -79,6 +81,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(mut re
                     let inst = inst.unwrap();
                     match inst{
                         Inst::Add(ADD{ len, p_pos }) => {
+                            unused_data = unused_data.checked_sub(len as u64).ok_or_else(|| invalid_data("Data section is too short"))?;
                             let r = reader.get_reader(p_pos)?;
                             let total: u32 = len;
                             let mut processed: u32 = 0;
@@ -112,6 +115,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(mut re
                             cur_o_pos += len as u64;
                         },
                         Inst::Run(RUN{ len, byte }) => {
+                            unused_data = unused_data.checked_sub(1).ok_or_else(|| invalid_data("Data section is too short"))?;
                             let total: u32 = len;
                             let mut processed: u32 = 0;
                             while processed < total {
@@ -230,7 +234,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(mut re
                 }
             },
             VCDiffReadMsg::EndOfWindow => {
-                if win_o_end.take() != Some(cur_o_pos) {
+                if win_o_end.take() != Some(cur_o_pos) || unused_data != 0 {
                     return Err(invalid_data("The instructions of a window do not generate its target window"));
                 }
                 ssp = None;
-- 
2.43.0


From baf9bd903581ea4ac7b6bed99bac28c7da3f993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:51 +0000
Subject: [PATCH 26/32] fix: a failing read between VCDIFF windows could be
 taken for nothing

---
 smdiff-vcdiff/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 1c514f6..f9240f6 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -44,7 +44,8 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(mut re
         if win_o_end.is_none() {
             match read_u8(reader.get_reader(end_of_patch)?) {
                 Ok(win_indicator) if win_indicator > WinIndicator::VCD_TARGET as u8 => return Err(invalid_data("Unknown window indicator")),
-                Err(e) if e.kind() != std::io::ErrorKind::UnexpectedEof => return Err(e),
+                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => break,
+                Err(e) => return Err(e),
                 _ => (),
             }
         }
-- 
2.43.0


From 1ddbd821ccc4190909b9045e018dcedf5380b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 27/32] fix: section_writer must not write section data left in
 the buffer by a call that failed

---
 smdiff-encoder/src/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smdiff-encoder/src/writer.rs b/smdiff-encoder/src/writer.rs
index e49ad66..45e24b4 100644
--- a/smdiff-encoder/src/writer.rs
+++ b/smdiff-encoder/src/writer.rs
@@ -21,6 +21,8 @@ pub fn section_writer<W:Write,A:AddOp>(
         header.compression_algo = comp.algo_value();
         //dbg!(&header);
         write_section_header(&header, writer)?;
+        //an earlier call that failed leaves its data behind
+        sec_data_buffer.clear();
         write_ops(seg_ops,&header,sec_data_buffer)?;
         match comp{
             SecondaryCompression::Smdiff (config) => {
-- 
2.43.0


From a7ba00d143a1913f0d2f2685ddb0a32b9f38a409 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 28/32] fix: transcoding joins all adjacent operations, not
 only pairs

The joining loops skipped over the operation that was joined to, so of more
than two adjacent Adds or Runs only pairs were joined, and a Run never became
long enough to be continued by copies as documented.
---
 smdiff-merger/src/transcoder.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/smdiff-merger/src/transcoder.rs b/smdiff-merger/src/transcoder.rs
index 561a65e..247faf3 100644
--- a/smdiff-merger/src/transcoder.rs
+++ b/smdiff-merger/src/transcoder.rs
@@ -83,31 +83,27 @@ fn optimize_and_convert_ops(mut ops: Vec<InnerOp>)->Vec<Op> {
 }
 
 fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
-    let mut i = 0;
-    while i + 1 < ops.len() {
-        let (left, right) = ops.split_at_mut(i + 1);
-        if let (Some(InnerOp::Add(first)), Some(InnerOp::Add(second))) = (left.last_mut(), right.first_mut()) {
-            if !second.is_empty() && first.len() < MAX_INST_SIZE as usize {
-                first.append(second);
-            }
-            i += 1;
+    let mut joined = 0; // the op that the next one may be joined with
+    for i in 1..ops.len() {
+        let (left, right) = ops.split_at_mut(i);
+        match (&mut left[joined], &mut right[0]) {
+            (InnerOp::Add(first), InnerOp::Add(second)) if first.len() < MAX_INST_SIZE as usize => first.append(second),
+            _ => joined = i,
         }
-        i += 1;
     }
 }
 
 fn join_adjacent_runs(ops: &mut Vec<InnerOp>) {
-    let mut i = 0;
-    while i + 1 < ops.len() {
-        let (left, right) = ops.split_at_mut(i + 1);
-        if let (Some(InnerOp::Run { byte: byte1, len: len1,.. }), Some(InnerOp::Run { byte: byte2, len: len2, .. })) = (left.last_mut(), right.first_mut()) {
-            if byte1 == byte2 {
+    let mut joined = 0; // the op that the next one may be joined with
+    for i in 1..ops.len() {
+        let (left, right) = ops.split_at_mut(i);
+        match (&mut left[joined], &mut right[0]) {
+            (InnerOp::Run { byte: byte1, len: len1, .. }, InnerOp::Run { byte: byte2, len: len2, .. }) if byte1 == byte2 => {
                 *len1 += *len2;
                 *len2 = 0;
-            }
-            i += 1;
+            },
+            _ => joined = i,
         }
-        i += 1;
     }
 }
 
-- 
2.43.0


From 824696d4d85c7ba1f92e5ce76610b40392344b87 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 29/32] fix: refuse to write a section header that cannot be
 expressed

A compression above 7 ran into the format and continuation bits, and more Add
bytes than output bytes wrapped around (or panicked) in the size of the rest.
---
 smdiff-writer/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smdiff-writer/src/lib.rs b/smdiff-writer/src/lib.rs
index 5bd9944..2df545c 100644
--- a/smdiff-writer/src/lib.rs
+++ b/smdiff-writer/src/lib.rs
@@ -8,6 +8,12 @@ use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u
 /// * `header` - The header to write.
 /// * `writer` - The writer to write to.
 pub fn write_section_header<W: std::io::Write>(header: &SectionHeader, writer:&mut W) -> std::io::Result<()> {
+    if header.compression_algo > 7 {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "Compression algorithm does not fit the control byte"));
+    }
+    if header.format == Format::Segregated && header.num_add_bytes > header.output_size {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "Number of add bytes is greater than the output size"));
+    }
     let mut cntl_byte = header.compression_algo << SECTION_COMPRESSION_RSHIFT;
     if let Format::Segregated = header.format {
         cntl_byte |= SECTION_FORMAT_BIT;  // Set format bit
-- 
2.43.0


From 8880b0d23797c3e74f0db7c46bce36bf5694f567 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 04:23:14 +0000
Subject: [PATCH 30/32] fix: options of brotli that no section can have
 panicked or made it unreadable

Invalid distance options ran into an unwrap; a stream offset left out the
header that every section needs to be read.
---
 smdiff-encoder/src/writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smdiff-encoder/src/writer.rs b/smdiff-encoder/src/writer.rs
index 45e24b4..43031f7 100644
--- a/smdiff-encoder/src/writer.rs
+++ b/smdiff-encoder/src/writer.rs
@@ -39,8 +39,10 @@ pub fn section_writer<W:Write,A:AddOp>(
                 a.finish()?;
             },
             SecondaryCompression::Brotli { mut options }=> {
-                options.size_hint(sec_data_buffer.len() as u32);
-                let mut a = ::brotlic::CompressorWriter::with_encoder(options.build().unwrap(), writer);
+                //every section is a complete stream of its own
+                options.size_hint(sec_data_buffer.len() as u32).stream_offset(0);
+                let encoder = options.build().map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidInput, e.to_string()))?;
+                let mut a = ::brotlic::CompressorWriter::with_encoder(encoder, writer);
                 a.write_all(&*sec_data_buffer)?;
                 a.into_inner()?;
             },
-- 
2.43.0


From 2d3c58685fe1e204c8ad610371ecedcdb4ca232a Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 04:24:17 +0000
Subject: [PATCH 31/32] fix: sections that brotli compressed with a large
 window could not be read

The options of the encoder may ask for one, which a decoder refuses unless told.
---
 smdiff-decoder/src/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index b60a009..ee080b5 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -82,7 +82,9 @@ impl<R: Read+Seek> SectionIterator<R>{
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
             expect_end(&mut zstd)?;
         }else if header.compression_algo == 3 {
-            let mut brot = brotlic::DecompressorReader::new(&mut self.source);
+            // the options of the encoder allow for large windows
+            let decoder = brotlic::BrotliDecoderOptions::new().large_window_size(true).build().map_err(std::io::Error::other)?;
+            let mut brot = brotlic::DecompressorReader::with_decoder(decoder, &mut self.source);
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
             expect_end(&mut brot)?;
             let _ = brot.into_inner()?;
-- 
2.43.0


From c721f38398ef4337e4699215d1b522d837cc1e37 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 32/32] fix: refuse to write an operation of a length that
 cannot be expressed

Operations without length were written as sections no reader takes, a Run of
more than 62 bytes panicked, and an Add of more than 65535 bytes was cut off
in its size but not in its bytes.
---
 smdiff-writer/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smdiff-writer/src/lib.rs b/smdiff-writer/src/lib.rs
index 2df545c..e87eb27 100644
--- a/smdiff-writer/src/lib.rs
+++ b/smdiff-writer/src/lib.rs
@@ -1,7 +1,7 @@
 //! This lib is used to *construct* valid SMDIFF format delta files.
 //! This is *not* an encoder.
 //! However, if you did write an encoder this would help you write the ops to a file.
-use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u16, write_u8, write_u_varint, AddOp, Copy, CopySrc, Format, Op, SectionHeader, Size, MAX_INST_SIZE, MAX_WIN_SIZE, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
+use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u16, write_u8, write_u_varint, AddOp, Copy, CopySrc, Format, Op, SectionHeader, Size, MAX_INST_SIZE, MAX_RUN_LEN, MAX_WIN_SIZE, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
 /// Used to write the header to the section.
@@ -50,7 +50,11 @@ pub fn write_ops<W: std::io::Write,A:AddOp>(ops: &[Op<A>], header:&SectionHeader
     let mut add_bytes_written = 0;
     let mut add_bytes_slices = Vec::new();
     for op in ops {
-        total_content_len += op.oal() as usize;
+        let len = if let Op::Add(a) = op { a.bytes().len() } else { op.oal() as usize };
+        if len == 0 || len > if op.is_run() { MAX_RUN_LEN as usize } else { MAX_INST_SIZE } {
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, format!("Operation with a length of {} cannot be written", len)));
+        }
+        total_content_len += len;
         write_op_byte_and_size(writer, &op)?;
         match header.format{
             Format::Interleaved => write_op_addtl(writer, &op, &mut last_d_addr, &mut last_o_addr)?,
-- 
2.43.0

