From d3dd8e082432c608fe9dbb98fdd46397b38a1492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:55 +0000
Subject: [PATCH 01/20] fix: reach the next HDU wherever the reader stands

consume_until_next_hdu underflowed when the reader was past the end of the
data unit (data unit read twice, raw read, iterator called again after its
end) and turned sizes above 2^63 into a negative seek.
---
 src/fits.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/fits.rs b/src/fits.rs
index 70e524e..fc969a9 100644
--- a/src/fits.rs
+++ b/src/fits.rs
@@ -6,6 +6,7 @@ use crate::hdu::header::extension::image::Image;
 use crate::hdu::header::Header;
 use crate::hdu::header::Xtension;
 
+use std::convert::TryFrom;
 use std::fmt::Debug;
 
 #[derive(Debug, Clone)]
@@ -63,16 +64,17 @@ where
         // The number of bytes to skip is the remaining bytes +
         // an offset to get to a multiple of 2880 bytes
 
-        // current seek position since the start of the stream
-        let cur_pos = self.reader.stream_position()? as usize;
-        let mut num_bytes_to_skip = self.num_bytes_in_cur_du - (cur_pos - self.pos_start_cur_du);
-
-        let offset_in_2880_block = self.num_bytes_in_cur_du % 2880;
-        let is_aligned_on_block = offset_in_2880_block == 0;
-        if !is_aligned_on_block {
-            num_bytes_to_skip += 2880 - offset_in_2880_block;
-        }
-        self.reader.seek_relative(num_bytes_to_skip as i64)?;
+        // Where the next HDU starts, it is a multiple of 2880 bytes
+        let next_hdu_pos = (self.num_bytes_in_cur_du as u64)
+            .checked_next_multiple_of(2880)
+            .and_then(|size| size.checked_add(self.pos_start_cur_du as u64))
+            .and_then(|pos| i64::try_from(pos).ok())
+            .ok_or(Error::StaticError("The data unit size is too big"))?;
+
+        // current seek position since the start of the stream. It can be anywhere:
+        // the data unit might have been partially read or the reader be past its end
+        let cur_pos = self.reader.stream_position()? as i64;
+        self.reader.seek_relative(next_hdu_pos - cur_pos)?;
 
         Ok(())
     }
-- 
2.43.0


From a454e35acb01636ddf940528b5230972edd6a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:55 +0000
Subject: [PATCH 02/20] fix: raw_bytes of a truncated data unit gives the bytes
 present instead of panicking

---
 src/hdu/data/bintable/data.rs | 7 +++++--
 src/hdu/data/image.rs         | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 64759f7..5834777 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -166,8 +166,11 @@ where
         let inner = self.reader.get_ref();
         let raw_bytes = inner.as_ref();
 
-        let s = self.start_pos as usize;
-        let e = s + (self.ctx.get_num_bytes_data_block() as usize);
+        // If the buffer ends early only the bytes present are returned
+        let s = (self.start_pos as usize).min(raw_bytes.len());
+        let e = s
+            .saturating_add(self.ctx.get_num_bytes_data_block() as usize)
+            .min(raw_bytes.len());
         &raw_bytes[s..e]
     }
 }
diff --git a/src/hdu/data/image.rs b/src/hdu/data/image.rs
index 9b5ee0a..6eb1000 100644
--- a/src/hdu/data/image.rs
+++ b/src/hdu/data/image.rs
@@ -96,8 +96,11 @@ where
         };
         let raw_bytes = inner.as_ref();
 
-        let s = self.start_pos as usize;
-        let e = s + (self.num_bytes_data_block as usize);
+        // If the buffer ends early only the bytes present are returned
+        let s = (self.start_pos as usize).min(raw_bytes.len());
+        let e = s
+            .saturating_add(self.num_bytes_data_block as usize)
+            .min(raw_bytes.len());
         &raw_bytes[s..e]
     }
 }
-- 
2.43.0


From 73b20d2d173952922c9e859c169b75f40addad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:55 +0000
Subject: [PATCH 03/20] fix: reject headers whose data unit size or number of
 fields overflows

Hostile NAXISn, PCOUNT, TFIELDS or ZNAXIS values overflowed (a panic or a
wrong size) or asked for the allocation of as many entries.
---
 src/hdu/header/extension/asciitable.rs | 4 ++++
 src/hdu/header/extension/bintable.rs   | 9 +++++++--
 src/hdu/header/extension/image.rs      | 8 +++++++-
 src/hdu/header/mod.rs                  | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/hdu/header/extension/asciitable.rs b/src/hdu/header/extension/asciitable.rs
index d981f47..a5af8de 100644
--- a/src/hdu/header/extension/asciitable.rs
+++ b/src/hdu/header/extension/asciitable.rs
@@ -114,6 +114,10 @@ impl Xtension for AsciiTable {
         // NAXIS1
         let naxis1 = values.check_for_naxisi(1)?;
         let naxis2 = values.check_for_naxisi(2)?;
+        // The data unit size must be representable
+        naxis1
+            .checked_mul(naxis2)
+            .ok_or(Error::StaticError("Ascii Table size overflows"))?;
 
         // PCOUNT
         let pcount = values.check_for_pcount()?;
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index a801ebd..e7c429f 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -208,6 +208,11 @@ impl Xtension for BinTable {
 
         // PCOUNT
         let pcount = values.check_for_pcount()?;
+        // The data unit size must be representable
+        naxis1
+            .checked_mul(naxis2)
+            .and_then(|size| size.checked_add(pcount))
+            .ok_or(Error::StaticError("Binary Table size overflows"))?;
 
         // GCOUNT
         let gcount = values.check_for_gcount()?;
@@ -288,8 +293,8 @@ impl Xtension for BinTable {
         // in the first row of the table, and the tile containing the last pixel in the image appears in the
         // last row of the binary table.
         let (z_naxisn, z_tilen) = if let Some(z_naxis) = z_naxis {
-            let mut z_naxisn = Vec::with_capacity(z_naxis);
-            let mut z_tilen = Vec::with_capacity(z_naxis);
+            let mut z_naxisn = Vec::new();
+            let mut z_tilen = Vec::new();
 
             for i in 1..=z_naxis {
                 let znaxisn = if let Ok(value) = values.get_parsed(&format!("ZNAXIS{i}")) {
diff --git a/src/hdu/header/extension/image.rs b/src/hdu/header/extension/image.rs
index 66ca7bc..bf422eb 100644
--- a/src/hdu/header/extension/image.rs
+++ b/src/hdu/header/extension/image.rs
@@ -49,7 +49,13 @@ impl Xtension for Image {
         // The size of each NAXIS
         let naxisn = (1..=naxis)
             .map(|naxis_i| values.check_for_naxisi(naxis_i))
-            .collect::<Result<_, _>>()?;
+            .collect::<Result<Box<[u64]>, _>>()?;
+
+        // The data unit size must be representable
+        naxisn
+            .iter()
+            .try_fold(bitpix.byte_size() as u64, |size, n| size.checked_mul(*n))
+            .ok_or(Error::StaticError("The image data unit size overflows"))?;
 
         Ok(Image { bitpix, naxisn })
     }
diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 69054d9..33753f9 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -154,7 +154,12 @@ impl ValueMap {
     }
 
     fn check_for_tfields(&self) -> Result<usize, Error> {
-        self.get_parsed("TFIELDS")
+        let tfields = self.get_parsed("TFIELDS")?;
+        // FITS standard 7.2.1 & 7.3.1: the maximum permissible value is 999
+        if tfields > 999 {
+            return Err(Error::StaticError("TFIELDS must not exceed 999"));
+        }
+        Ok(tfields)
     }
 }
 
-- 
2.43.0


From 951f2c21ab7368596d50aa39dc6f07e2c96a2f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:04 +0000
Subject: [PATCH 04/20] fix: a bit array column occupies whole bytes in a row

The row length check summed the bits of all columns before rounding, so
tables with two bit columns were refused, and huge repeat counts overflowed.
---
 src/hdu/header/extension/bintable.rs | 41 ++++++++++++++--------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index e7c429f..611ce1a 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -514,13 +514,13 @@ impl Xtension for BinTable {
             (naxis1 as usize) * (naxis2 as usize)
         };
 
-        let num_bits_per_row = tforms
+        // Each field occupies a whole number of bytes, bit arrays included
+        let num_bytes_per_row = tforms
             .iter()
-            .map(|tform| tform.num_bits_field() as u64)
-            .sum::<u64>();
+            .map(|tform| tform.num_bits_field().div_ceil(8))
+            .sum::<u128>();
 
-        let num_bytes_per_row = num_bits_per_row >> 3;
-        if num_bytes_per_row != naxis1 {
+        if num_bytes_per_row != naxis1 as u128 {
             return Err(Error::StaticError("BinTable NAXIS1 and TFORMS does not give the same amount of bytes the table should have per row."));
         }
 
@@ -771,26 +771,27 @@ pub(crate) enum ArrayDescriptorTy {
 }
 */
 impl TFormType {
-    pub(crate) fn num_bits_field(&self) -> usize {
+    pub(crate) fn num_bits_field(&self) -> u128 {
+        let bits = |repeat_count: &usize, size: usize| (*repeat_count as u128) * (size as u128);
         match self {
-            TFormType::L { repeat_count } => repeat_count * L::BITS_SIZE, // Logical
-            TFormType::X { repeat_count } => repeat_count * X::BITS_SIZE, // Bit
-            TFormType::B { repeat_count } => repeat_count * B::BITS_SIZE, // Unsigned byte
-            TFormType::I { repeat_count } => repeat_count * I::BITS_SIZE, // 16-bit integer
-            TFormType::J { repeat_count } => repeat_count * J::BITS_SIZE, // 32-bit integer
-            TFormType::K { repeat_count } => repeat_count * K::BITS_SIZE, // 64-bit integer
-            TFormType::A { repeat_count } => repeat_count * A::BITS_SIZE, // Character
-            TFormType::E { repeat_count } => repeat_count * E::BITS_SIZE, // Single-precision floating point
-            TFormType::D { repeat_count } => repeat_count * D::BITS_SIZE, // Double-precision floating point
-            TFormType::C { repeat_count } => repeat_count * C::BITS_SIZE, // Single-precision complex
-            TFormType::M { repeat_count } => repeat_count * M::BITS_SIZE, // Double-precision complex
-            TFormType::P { .. } => P::BITS_SIZE, // Array Descriptor (32-bit)
-            TFormType::Q { .. } => Q::BITS_SIZE, // Array Descriptor (64-bit)
+            TFormType::L { repeat_count } => bits(repeat_count, L::BITS_SIZE), // Logical
+            TFormType::X { repeat_count } => bits(repeat_count, X::BITS_SIZE), // Bit
+            TFormType::B { repeat_count } => bits(repeat_count, B::BITS_SIZE), // Unsigned byte
+            TFormType::I { repeat_count } => bits(repeat_count, I::BITS_SIZE), // 16-bit integer
+            TFormType::J { repeat_count } => bits(repeat_count, J::BITS_SIZE), // 32-bit integer
+            TFormType::K { repeat_count } => bits(repeat_count, K::BITS_SIZE), // 64-bit integer
+            TFormType::A { repeat_count } => bits(repeat_count, A::BITS_SIZE), // Character
+            TFormType::E { repeat_count } => bits(repeat_count, E::BITS_SIZE), // Single-precision floating point
+            TFormType::D { repeat_count } => bits(repeat_count, D::BITS_SIZE), // Double-precision floating point
+            TFormType::C { repeat_count } => bits(repeat_count, C::BITS_SIZE), // Single-precision complex
+            TFormType::M { repeat_count } => bits(repeat_count, M::BITS_SIZE), // Double-precision complex
+            TFormType::P { .. } => P::BITS_SIZE as u128, // Array Descriptor (32-bit)
+            TFormType::Q { .. } => Q::BITS_SIZE as u128, // Array Descriptor (64-bit)
         }
     }
 
     pub(crate) fn num_bytes_field(&self) -> usize {
-        self.num_bits_field().div_ceil(8)
+        self.num_bits_field().div_ceil(8) as usize
     }
 }
 
-- 
2.43.0


From 22c37c3f858752138cc030b1b9ef8a855c9c50bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:32 +0000
Subject: [PATCH 05/20] fix: a value that is a lone quote is an unterminated
 string

Slicing the quotes off a one character value panicked.
---
 src/card.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/card.rs b/src/card.rs
index c8205bc..f0a9559 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -174,7 +174,7 @@ impl TryFrom<&CardBuf> for Card {
 
 fn parse_extension(buf: &[u8; 80]) -> Result<Card, Error> {
     let (value, comment) = split_value_and_comment(&buf[10..])?;
-    if value.starts_with("'") && value.ends_with("'") {
+    if value.len() > 1 && value.starts_with("'") && value.ends_with("'") {
         let end = value.len() - 1;
         let x = value[1..end].trim_ascii().parse()?;
         Ok(Card::Xtension { x, comment })
@@ -275,7 +275,8 @@ fn parse_number(v: String, c: Option<String>) -> Result<Value, Error> {
 /// trimmed to one space.
 fn parse_string(s: String) -> Result<String, Error> {
     let start_quote = s.starts_with("'");
-    let end_quote = s.ends_with("'");
+    // a lone quote opens the string and does not end it
+    let end_quote = s.ends_with("'") && s != "'";
     let value: &str = match (start_quote, end_quote) {
         (true, true) => &s[1..s.len() - 1], // string enclosed in single quotes
         (false, false) => &s,               // comment string has no quotes
-- 
2.43.0


From 22cda876f2844674e4d9830f12ec6c6b1001d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:54 +0000
Subject: [PATCH 06/20] fix: a logical cell is true when it is 'T', not when it
 is not 0

The standard stores 'T' for true and 'F' for false, so every false cell
was read as true.
---
 src/hdu/data/bintable/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 5834777..15a6692 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -487,7 +487,7 @@ where
 
                 let value = match ty {
                     VariableArrayTy::L => {
-                        let value = self.reader.read_u8().ok()? != 0;
+                        let value = self.reader.read_u8().ok()? == b'T';
                         *num_bytes_to_read -= L::BYTES_SIZE as u64;
                         DataValue::Logical {
                             value,
@@ -627,7 +627,7 @@ where
                             }
 
                             Some(DataValue::Logical {
-                                value: byte != 0,
+                                value: byte == b'T',
                                 column: ColumnId::Index(col_idx),
                                 idx,
                             }) // Determine the count idx inside the field
-- 
2.43.0


From e952d62fea7edd7da9e949e6854c36f818d734c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:54 +0000
Subject: [PATCH 07/20] fix: bit array cells hold ceil(n / 8) bytes

A column of a multiple of 8 bits was read one byte too far, and a variable
length array of n bits was read as n bytes.
---
 src/hdu/data/bintable/data.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 15a6692..1c64496 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -408,6 +408,12 @@ where
                 // Go to the HEAP
                 self.reader.seek_relative(off)?;
 
+                // Bits are packed by 8 and delivered byte by byte
+                let n_elems = if ty == VariableArrayTy::X {
+                    n_elems.div_ceil(8)
+                } else {
+                    n_elems
+                };
                 let num_bytes_to_read = n_elems * t_byte_size;
                 self.state = DataReaderState::HEAP {
                     ty,
@@ -638,7 +644,7 @@ where
                             self.byte_offset += X::BYTES_SIZE;
 
                             self.item_idx += 1;
-                            if self.item_idx == (*repeat_count / 8) + 1 {
+                            if self.item_idx == repeat_count.div_ceil(8) {
                                 self.seek_to_next_col().ok()?;
                             }
 
-- 
2.43.0


From c825ae5c03f3d23ede28e877eded57ddf412538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:45 +0000
Subject: [PATCH 08/20] fix: step over cells with no values, and keep column
 selection and row seeks exact

A column with a repeat count of 0 or an empty variable length array made the
iterators of a binary table panic or read the neighbouring bytes. Selecting no
column panicked, and selecting columns or seeking to a row once some values had
been read moved the reader to the wrong bytes.
---
 src/hdu/data/bintable/data.rs | 291 +++++++++++++++++++++-------------
 src/hdu/data/bintable/row.rs  |  12 +-
 2 files changed, 188 insertions(+), 115 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 1c64496..bad08dc 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -3,6 +3,7 @@ use crate::hdu::header::extension::bintable::{
     TForm, VariableArrayTy, A, B, C, D, E, I, J, K, L, M, P, Q, X,
 };
 use crate::hdu::header::{Header, Xtension};
+use std::convert::TryFrom;
 use std::fmt::Debug;
 
 use super::row::TableRowData;
@@ -282,8 +283,12 @@ impl<R> TableData<R> {
         ).collect();
 
         self.cols_idx.sort_unstable();
+        // A column asked several times is returned once
+        self.cols_idx.dedup();
 
-        // We must go to the first column at this point
+        // We must go to the first column of the current row at this point
+        self.col_idx = 0;
+        self.item_idx = 0;
         self.seek_to_first_col = true;
 
         self
@@ -294,43 +299,49 @@ impl<R> TableData<R>
 where
     R: Seek,
 {
-    fn seek_to_next_col(&mut self) -> Result<(), Error> {
-        let last_col = self.col_idx == self.cols_idx.len() - 1;
-        let last_row = self.row_idx == self.ctx.naxis2 as usize - 1;
-
-        if last_col {
-            self.row_idx += 1;
-        }
+    /// Move the reader from its current position in the main data table to another one
+    ///
+    /// # Params
+    /// * `new_byte_offset` - Offset in bytes from the beginning of the main data table
+    fn seek_in_main_table(&mut self, new_byte_offset: usize) -> Result<(), Error> {
+        let off = i64::try_from(new_byte_offset)
+            .map_err(|_| Error::StaticError("The main data table is too big to be addressed"))?
+            - self.byte_offset as i64;
 
-        // If we are at the last row and the last col, then we go to the end of the main data table
-        let off = if last_col && last_row {
-            // seek to the end of the main data table
-            self.main_data_table_byte_size as i64 - self.byte_offset as i64
-        } else {
-            self.col_idx = (self.col_idx + 1) % self.cols_idx.len();
-            self.item_idx = 0;
+        self.reader.seek_relative(off)?;
+        // update the byte offset as well
+        self.byte_offset = new_byte_offset;
 
-            let col_idx = self.cols_idx[self.col_idx];
+        Ok(())
+    }
 
-            let next_row_byte_off = self.col_byte_offsets[col_idx] as i64;
-            let cur_row_byte_off = (self.byte_offset as i64) % (self.ctx.naxis1 as i64);
+    /// Seek to the column pointed by `row_idx` and `col_idx`, or to the end of
+    /// the main data table if there are no more rows.
+    fn seek_to_cur_col(&mut self) -> Result<(), Error> {
+        let new_byte_offset = if self.row_idx >= self.ctx.naxis2 as usize {
+            self.main_data_table_byte_size
+        } else {
+            let col_byte_offset = self
+                .cols_idx
+                .get(self.col_idx)
+                .map_or(0, |&col_idx| self.col_byte_offsets[col_idx]);
 
-            let mut rel_row_byte_off = next_row_byte_off - cur_row_byte_off;
+            self.row_idx * self.ctx.naxis1 as usize + col_byte_offset
+        };
 
-            if rel_row_byte_off < 0 {
-                // next col is on the next row
-                // get to the end of the current row
-                rel_row_byte_off += self.ctx.naxis1 as i64;
-            }
+        self.seek_in_main_table(new_byte_offset)
+    }
 
-            rel_row_byte_off
-        };
+    fn seek_to_next_col(&mut self) -> Result<(), Error> {
+        self.col_idx += 1;
+        self.item_idx = 0;
 
-        self.reader.seek_relative(off)?;
-        // update the byte offset as well
-        self.byte_offset += off as usize;
+        if self.col_idx >= self.cols_idx.len() {
+            self.col_idx = 0;
+            self.row_idx += 1;
+        }
 
-        Ok(())
+        self.seek_to_cur_col()
     }
 
     /// Seek directly to a specific row idx
@@ -343,26 +354,15 @@ where
                 "The row index specified is > than the number of rows of the table",
             ))
         } else {
+            // An array of the heap may be being read
+            self.jump_to_main_table()?;
+
             self.col_idx = 0;
             self.row_idx = idx;
             self.item_idx = 0;
+            self.seek_to_first_col = false;
 
-            let new_byte_offset =
-                // go to the beginning of the idx-th row
-                (idx as i64) * (self.ctx.naxis1 as i64)
-                // go to the first column of that row
-                + (self.col_byte_offsets[self.cols_idx[0]] as i64);
-
-            // Offset for moving from the current position to the new row position
-            let off =
-                // go back to the beginning of the main table data block
-                - (self.byte_offset as i64) + new_byte_offset;
-
-            self.reader.seek_relative(off)?;
-
-            self.byte_offset = new_byte_offset as usize;
-
-            Ok(())
+            self.seek_to_cur_col()
         }
     }
 
@@ -393,14 +393,25 @@ where
             // We are already in the heap, we do nothing
             DataReaderState::HEAP { .. } => (),
             DataReaderState::MainTable => {
+                // Bits are packed by 8 and delivered byte by byte
+                let n_elems = if ty == VariableArrayTy::X {
+                    n_elems.div_ceil(8)
+                } else {
+                    n_elems
+                };
+                let num_bytes_to_read = n_elems
+                    .checked_mul(t_byte_size)
+                    .ok_or(Error::StaticError("Array too big to be in the heap"))?;
+
                 // Move to the HEAP
-                let off =
-                    // go back to the beginning of the main table data block
-                    - (self.byte_offset as i64)
-                    // from the beginning of the main table go to the beginning of the heap
-                    + self.ctx.theap as i64
+                // from the beginning of the main table go to the beginning of the heap
+                let off = (self.ctx.theap as u64)
                     // from the beginning of the heap go to the start of the array
-                    + byte_offset as i64;
+                    .checked_add(byte_offset)
+                    .and_then(|off| i64::try_from(off).ok())
+                    .ok_or(Error::StaticError("Array offset too big to be in the heap"))?
+                    // go back to the beginning of the main table data block
+                    - (self.byte_offset as i64);
 
                 // Get the current location used to go back to the main table
                 let pos = SeekFrom::Start(self.reader.stream_position()?);
@@ -408,13 +419,6 @@ where
                 // Go to the HEAP
                 self.reader.seek_relative(off)?;
 
-                // Bits are packed by 8 and delivered byte by byte
-                let n_elems = if ty == VariableArrayTy::X {
-                    n_elems.div_ceil(8)
-                } else {
-                    n_elems
-                };
-                let num_bytes_to_read = n_elems * t_byte_size;
                 self.state = DataReaderState::HEAP {
                     ty,
                     main_table_pos: pos,
@@ -454,27 +458,88 @@ impl<R> TableData<R> {
 
 use super::{ColumnId, DataValue};
 use std::io::Seek;
-impl<R> Iterator for TableData<R>
+impl<R> TableData<R>
 where
     R: Read + Seek + Debug,
 {
-    // Return a vec of fields because to take into account the repeat count value for that field
-    type Item = DataValue;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        // First get the column index in the main data table where the reader is
-        let col_idx = self.cols_idx[self.col_idx];
-
+    /// Enter the cell the iterator stands at. For variable length array columns,
+    /// the descriptor is read and the reader jumps to the heap.
+    ///
+    /// Cells can have no values at all: columns with a repeat count of 0 and variable length
+    /// arrays with no elements. These are stepped over.
+    ///
+    /// Returns whether there is a value to read, or [None] if there are no more rows
+    pub(crate) fn enter_cell(&mut self) -> Option<bool> {
         // a select fields has been done, we must offset to the first col
         if self.seek_to_first_col {
+            self.jump_to_main_table().ok()?;
+            self.seek_to_cur_col().ok()?;
+
             self.seek_to_first_col = false;
+        }
+
+        if let DataReaderState::HEAP { .. } = self.state {
+            return Some(true);
+        }
+
+        // Check whether we are at the end of the main data table
+        // This would mean we read all the table
+        if self.row_idx >= self.ctx.naxis2 as usize {
+            return None;
+        }
+
+        let tform = match self.cols_idx.get(self.col_idx) {
+            Some(&col_idx) => &self.ctx.tforms[col_idx],
+            None => {
+                // no columns are selected
+                self.seek_to_next_col().ok()?;
+                return Some(false);
+            }
+        };
+
+        if tform.num_bytes_field() == 0 {
+            self.seek_to_next_col().ok()?;
+            return Some(false);
+        }
 
-            let off = self.col_byte_offsets[col_idx] as i64;
-            // seek to the next col location
-            self.reader.seek_relative(off).ok()?;
-            // update the byte offset as well
-            self.byte_offset += off as usize;
+        let (ty, t_byte_size, num_elems, offset_byte) = match *tform {
+            // Array Descriptor (32-bit)
+            TFormType::P {
+                ty, t_byte_size, ..
+            } if self.heap => {
+                let num_elems = self.reader.read_u32::<BigEndian>().ok()?;
+                let offset_byte = self.reader.read_u32::<BigEndian>().ok()?;
+
+                self.byte_offset += P::BYTES_SIZE;
+                (ty, t_byte_size, num_elems as u64, offset_byte as u64)
+            }
+            // Array Descriptor (64-bit)
+            TFormType::Q {
+                ty, t_byte_size, ..
+            } if self.heap => {
+                let num_elems = self.reader.read_u64::<BigEndian>().ok()?;
+                let offset_byte = self.reader.read_u64::<BigEndian>().ok()?;
+
+                self.byte_offset += Q::BYTES_SIZE;
+                (ty, t_byte_size, num_elems, offset_byte)
+            }
+            _ => return Some(true),
+        };
+
+        if num_elems == 0 {
+            self.seek_to_next_col().ok()?;
+            Some(false)
+        } else {
+            self.jump_to_heap(ty, offset_byte, num_elems, t_byte_size)
+                .ok()?;
+            Some(true)
         }
+    }
+
+    /// Read the next value of the cell that has been entered
+    pub(crate) fn read_value(&mut self) -> Option<DataValue> {
+        // First get the column index in the main data table where the reader is
+        let col_idx = self.cols_idx[self.col_idx];
 
         match &mut self.state {
             DataReaderState::HEAP {
@@ -804,61 +869,38 @@ where
                             }) // Determine the count idx inside the field
                         }
                         // Array Descriptor (32-bit)
-                        TFormType::P {
-                            ty, t_byte_size, ..
-                        } => {
+                        TFormType::P { .. } => {
                             let num_elems = self.reader.read_u32::<BigEndian>().ok()?;
                             let offset_byte = self.reader.read_u32::<BigEndian>().ok()?;
 
                             self.byte_offset += P::BYTES_SIZE;
 
-                            if self.heap {
-                                self.jump_to_heap(
-                                    *ty,
-                                    offset_byte as u64,
-                                    num_elems as u64,
-                                    *t_byte_size,
-                                )
-                                .ok()?;
-
-                                self.next()
-                            } else {
-                                // We need to seek to the next call if we do not jump to the heap, notifying
-                                // we finished parsing this field
-                                self.seek_to_next_col().ok()?;
+                            // We need to seek to the next call if we do not jump to the heap, notifying
+                            // we finished parsing this field
+                            self.seek_to_next_col().ok()?;
 
-                                // just returns the n_elems and offset from the iterator
-                                Some(DataValue::VariableLengthArray32 {
-                                    num_elems,
-                                    offset_byte,
-                                })
-                            }
+                            // just returns the n_elems and offset from the iterator
+                            Some(DataValue::VariableLengthArray32 {
+                                num_elems,
+                                offset_byte,
+                            })
                         }
                         // Array Descriptor (64-bit)
-                        TFormType::Q {
-                            ty, t_byte_size, ..
-                        } => {
+                        TFormType::Q { .. } => {
                             let num_elems = self.reader.read_u64::<BigEndian>().ok()?;
                             let offset_byte = self.reader.read_u64::<BigEndian>().ok()?;
 
                             self.byte_offset += Q::BYTES_SIZE;
 
-                            if self.heap {
-                                self.jump_to_heap(*ty, offset_byte, num_elems, *t_byte_size)
-                                    .ok()?;
+                            // We need to seek to the next call if we do not jump to the heap, notifying
+                            // we finished parsing this field
+                            self.seek_to_next_col().ok()?;
 
-                                self.next()
-                            } else {
-                                // We need to seek to the next call if we do not jump to the heap, notifying
-                                // we finished parsing this field
-                                self.seek_to_next_col().ok()?;
-
-                                // just returns the n_elems and offset from the iterator
-                                Some(DataValue::VariableLengthArray64 {
-                                    num_elems,
-                                    offset_byte,
-                                })
-                            }
+                            // just returns the n_elems and offset from the iterator
+                            Some(DataValue::VariableLengthArray64 {
+                                num_elems,
+                                offset_byte,
+                            })
                         }
                     }
                 }
@@ -867,6 +909,29 @@ where
     }
 }
 
+impl<R> Iterator for TableData<R>
+where
+    R: Read + Seek + Debug,
+{
+    // Return a vec of fields because to take into account the repeat count value for that field
+    type Item = DataValue;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        let has_values = self
+            .cols_idx
+            .iter()
+            .any(|&col_idx| self.ctx.tforms[col_idx].num_bytes_field() > 0);
+        // there is no value to look for if none of the columns have some
+        if !has_values {
+            return None;
+        }
+
+        while !self.enter_cell()? {}
+
+        self.read_value()
+    }
+}
+
 use async_trait::async_trait;
 use futures::AsyncReadExt;
 use std::marker::Unpin;
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index 90f8851..4dbf643 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -13,7 +13,9 @@ pub struct TableRowData<R> {
 
 impl<R> TableRowData<R> {
     pub fn new(data: TableData<R>) -> Self {
-        Self { data, idx_row: 0 }
+        // start from the row the iterator over the values stands at
+        let idx_row = data.row_idx;
+        Self { data, idx_row }
     }
 
     pub fn get_ctx(&self) -> &BinTable {
@@ -48,8 +50,14 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let mut row_data = vec![];
 
+        if self.idx_row >= self.data.ctx.get_num_rows() {
+            return None;
+        }
+
         while self.data.row_idx == self.idx_row {
-            row_data.push(self.data.next()?);
+            if self.data.enter_cell()? {
+                row_data.push(self.data.read_value()?);
+            }
         }
 
         self.idx_row += 1;
-- 
2.43.0


From 2548f60eb30e4fd806da6a21d19711e5d90fd8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:13 +0000
Subject: [PATCH 09/20] fix: find the unit of a value behind the space that
 separates the comment from the slash

---
 src/card.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/card.rs b/src/card.rs
index f0a9559..d2c4ad2 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -517,6 +517,8 @@ impl<'de> IntoDeserializer<'de, Error> for &'de Value {
 /// FITSv4 section 4.3.2. Units in comment fields
 fn parse_unit(comment: &Option<String>) -> Option<&str> {
     if let Some(c) = comment {
+        // a space usually separates the unit from the slash that starts the comment
+        let c = c.trim_start();
         if c.starts_with("[") {
             if let Some(i) = c.find("]") {
                 Some(&c[1..i])
-- 
2.43.0


From 62d8dca063f29e5bc34c6eebccb31ac297855652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:29 +0000
Subject: [PATCH 10/20] fix: RICE differences wrap around 32 bits

---
 src/hdu/data/bintable/tile_compressed/rice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/rice.rs b/src/hdu/data/bintable/tile_compressed/rice.rs
index b9a9fac..278635f 100644
--- a/src/hdu/data/bintable/tile_compressed/rice.rs
+++ b/src/hdu/data/bintable/tile_compressed/rice.rs
@@ -285,7 +285,7 @@ where
                             diff = !(diff >> 1);
                         }
 
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
@@ -342,7 +342,7 @@ where
                         } else {
                             diff = !(diff >> 1);
                         }
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
-- 
2.43.0


From f844b18614d3c781dbe032baa459bb570227bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:29 +0000
Subject: [PATCH 11/20] fix: unshuffle the bytes of GZIP_2 tiles of 8-bit
 images

---
 src/hdu/data/bintable/tile_compressed/pixels.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 9ed59ab..25ff9c9 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -243,12 +243,17 @@ where
         let idx = (self.desc.n_pixels - self.desc.remaining_pixels) as usize;
 
         let value = match self.z_cmp_type {
-            ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
+            ZCmpType::Gzip1 => {
                 // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
                 let off = 4 * idx;
                 // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
                 self.buf[off + 3]
             }
+            ZCmpType::Gzip2 => {
+                // The least significant bytes of all the elements are stored last
+                let step_msb = self.buf.len() / 4;
+                self.buf[3 * step_msb + idx]
+            }
             ZCmpType::Rice { .. } => {
                 // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
                 let off = 4 * idx;
-- 
2.43.0


From cbea025ab7a8928a7722f2e62a309b67448cdd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:37 +0000
Subject: [PATCH 12/20] fix: decompress border tiles, find the tile columns by
 their own values, survive tiles that cannot be decompressed

---
 .../data/bintable/tile_compressed/pixels.rs   | 563 ++++++------------
 src/hdu/data/bintable/tile_compressed/rice.rs |  28 +
 src/hdu/header/extension/bintable.rs          |  25 +
 3 files changed, 225 insertions(+), 391 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 25ff9c9..3d856c2 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -7,9 +7,12 @@ use super::{
     F32Keywords, F64Keywords, I16Keywords, I32Keywords, Keywords, Quantiz, TileDesc, U8Keywords,
 };
 use crate::error::Error;
-use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage, ZCmpType, ZQuantiz};
+use crate::hdu::header::extension::bintable::{
+    BinTable, TFormType, TileCompressedImage, ZCmpType, ZQuantiz,
+};
 use crate::hdu::header::{Bitpix, Header};
 use crate::{TableData, TableRowData};
+use std::convert::TryFrom;
 use std::io::{Read, Seek, SeekFrom};
 
 #[derive(Debug)]
@@ -52,7 +55,7 @@ where
     desc: TileDesc<K>,
 
     z_tile: Box<[usize]>,
-    //z_naxis: Box<[usize]>,
+    z_naxis: Box<[u64]>,
     z_cmp_type: ZCmpType,
     data_compressed_idx: usize,
 }
@@ -78,165 +81,179 @@ where
         // This buffer is only used if tile compressed image in the gzip compression is to be found
         let TileCompressedImage {
             z_tilen,
+            z_naxisn,
             z_cmp_type,
             data_compressed_idx,
             ..
         } = config;
-        // Allocation of a buffer at init of the iterator that is the size of the biggest tiles we can found
-        // on the tile compressed image. This is simply given by the ZTILEi keyword.
-        // Some tiles found on the border of the image can be smaller
-        let n_elems_max = z_tilen.iter().product::<usize>();
-
-        // FIXME
-        // A little precision. The gzdecoder from flate2 seems to unzip data in a stream of u32 i.e. even if the type of data
-        // to uncompress is byte or short, the result will be cast in a u32. I thus allocate for gzip compression, a buffer of
-        // n_elems_max * size_in_bytes of u32.
-        // It seems to be the same for RICE, so the latter rice decompression code is called on i32
-        let num_bytes_max_tile = n_elems_max * std::mem::size_of::<u32>();
-
-        let buf = vec![0_u8; num_bytes_max_tile];
-
         let desc = TileDesc::new(header, config);
 
         // do not read the heap, we will manage our way decompressing the tiles
         data.read_the_heap(false);
         Self {
-            buf,
+            // Filled tile by tile. Some tiles found on the border of the image can be smaller than the others
+            buf: vec![],
             row_it: data.row_iter(),
 
             desc,
 
             data_compressed_idx: *data_compressed_idx,
-            //z_naxis: z_naxisn.clone(),
+            z_naxis: z_naxisn.clone(),
             z_tile: z_tilen.clone(),
             z_cmp_type: *z_cmp_type,
         }
     }
 }
 
-/*
-/// Compute the size of the tile from its row position inside the compressed data column
-/// FIXME: optimize this computation by using memoization
-pub(crate) fn tile_size_from_row_idx(
-    z_tile: &[usize],
-    z_naxis: &[usize],
-    n: usize,
-) -> Box<[usize]> {
-    let d = z_tile.len();
-
-    if d == 0 {
+/// Compute the number of pixels of the tile stored in a row of the compressed data column
+///
+/// Returns [None] if there is no such tile in the image
+fn num_pixels_from_row_idx(z_tile: &[usize], z_naxis: &[u64], row_idx: usize) -> Option<usize> {
+    if z_naxis.is_empty() {
         // There must be at least one dimension
-        unreachable!();
-    } else {
-        let mut u = vec![0_usize; z_tile.len()];
-
-        let s = z_naxis
-            .iter()
-            .zip(z_tile.iter())
-            .map(|(naxisi, tilei)| naxisi.div_ceil(*tilei))
-            .collect::<Vec<_>>();
-
-        // Compute the position inside the first dimension
-        u[0] = n % s[0];
-
-        for i in 1..d {
-            u[i] = n
-                - u[0]
-                - (1..i)
-                    .map(|k| {
-                        let prod_sk = s.iter().take(k).product::<usize>();
-                        u[k] * prod_sk
-                    })
-                    .sum::<usize>();
-
-            let prod_si = s.iter().take(i).product::<usize>();
-
-            u[i] = (u[i] / prod_si) % s[i];
+        return None;
+    }
+
+    // position of the tile along the dimensions that have not been looked at yet
+    let mut n = row_idx as u64;
+    let mut num_pixels = 1_u64;
+    for (&tile, &naxis) in z_tile.iter().zip(z_naxis.iter()) {
+        let tile = tile as u64;
+        if tile == 0 || naxis == 0 {
+            return None;
         }
 
-        u.iter()
-            .zip(z_naxis.iter().zip(z_tile.iter()))
-            .map(|(&u_i, (&naxis, &tilez))| tilez.min(naxis - u_i * tilez))
-            .collect()
+        let num_tiles = naxis.div_ceil(tile);
+        let first_pixel = (n % num_tiles) * tile;
+        n /= num_tiles;
+
+        num_pixels = num_pixels.checked_mul(tile.min(naxis - first_pixel))?;
+    }
+
+    if n == 0 {
+        usize::try_from(num_pixels).ok()
+    } else {
+        None
     }
 }
-    */
 
-use std::fmt::Debug;
-impl<R> Iterator for It<R, U8Keywords>
+/// Read exactly `num_bytes` bytes
+///
+/// The memory grows with the bytes really read because the size comes from the header
+fn read_bytes<R: Read>(mut reader: R, num_bytes: usize, buf: &mut Vec<u8>) -> std::io::Result<()> {
+    const CHUNK_SIZE: usize = 1 << 20;
+
+    buf.clear();
+    while buf.len() < num_bytes {
+        let start = buf.len();
+        buf.resize(num_bytes.min(start + CHUNK_SIZE), 0);
+        reader.read_exact(&mut buf[start..])?;
+    }
+
+    Ok(())
+}
+
+impl<R, K> It<R, K>
 where
     R: Read + Seek + Debug,
+    K: Keywords,
 {
-    // Return a vec of fields because to take into account the repeat count value for that field
-    type Item = u8;
+    /// Decompress the tile described by the row that has just been read
+    fn read_tile(&mut self, row_data: &[DataValue]) -> Option<()> {
+        let ctx = self.row_it.get_ctx();
+        let row_idx = self.row_it.get_row_idx();
 
-    fn next(&mut self) -> Option<Self::Item> {
-        // We first retrieve the whole row from the row data iterator
-        if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
-
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
+        let (num_elems, byte_offset) =
+            match row_data.get(ctx.first_value_idx(self.data_compressed_idx))? {
                 DataValue::VariableLengthArray32 {
                     num_elems,
                     offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
+                } => (*num_elems as u64, *offset_byte as u64),
                 DataValue::VariableLengthArray64 {
                     num_elems,
                     offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
+                } => (*num_elems, *offset_byte),
+                _ => return None,
             };
+        let t_byte_size = match ctx.tforms[self.data_compressed_idx] {
+            TFormType::P { t_byte_size, .. } | TFormType::Q { t_byte_size, .. } => t_byte_size,
+            _ => return None,
+        };
+        // A tile is not read further than its array
+        let num_compressed_bytes = num_elems.saturating_mul(t_byte_size);
 
-            let ctx = self.row_it.get_ctx();
-            let row_idx = self.row_it.get_row_idx();
+        let num_pixels = num_pixels_from_row_idx(&self.z_tile, &self.z_naxis, row_idx - 1)?;
+        // FIXME
+        // A little precision. The gzdecoder from flate2 seems to unzip data in a stream of u32 i.e. even if the type of data
+        // to uncompress is byte or short, the result will be cast in a u32. I thus read for gzip compression,
+        // num_pixels * size_in_bytes of u32.
+        // It seems to be the same for RICE, so the latter rice decompression code is called on i32
+        let num_bytes = num_pixels.checked_mul(std::mem::size_of::<u32>())?;
+        let num_pixels_rice = i32::try_from(num_pixels);
+
+        // We jump to the heap at the position of the tile
+        // Then we decomp the tile and store it into out internal buf
+        // Finally we go back to the main data table location before jumping to the heap
+        let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
+        let off =
+            // from the beginning of the main table go to the beginning of the heap
+            (ctx.theap as u64)
+                // from the beginning of the heap go to the start of the array
+                .checked_add(byte_offset)
+                .and_then(|off| i64::try_from(off).ok())?
+                // go back to the beginning of the main table data block
+                - (main_data_table_offset as i64);
+        self.jump_to_location(
+            |s| {
+                let It { buf, row_it, .. } = s;
 
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
+                let reader = row_it.get_reader().take(num_compressed_bytes);
 
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
+                match s.z_cmp_type {
+                    // For GZIP2, the byte shuffling is done in the next method
+                    ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
+                        read_bytes(GzDecoder::new(reader), num_bytes, buf)?;
+                    }
+                    // FIXME support bytepix
+                    ZCmpType::Rice { blocksize, .. } => {
+                        let num_pixels = num_pixels_rice
+                            .map_err(|_| Error::StaticError("The tile has too many pixels"))?;
+                        let rice =
+                            RICEDecoder::<_, i32>::new(reader, blocksize as i32, num_pixels);
+                        read_bytes(rice, num_bytes, buf)?;
                     }
+                    // Other compression not supported, when parsing the bintable extension keywords
+                    // we ensured that z_image is `None` for other compressions than GZIP or RICE
+                    _ => unreachable!(),
+                }
+
+                Ok(())
+            },
+            SeekFrom::Current(off),
+        )
+        .ok()?;
+
+        // Update the tile compressed currently decompressed
+        self.desc.n_pixels = num_pixels as u64;
+        self.desc.remaining_pixels = num_pixels as u64;
+
+        Some(())
+    }
+}
 
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+use std::fmt::Debug;
+impl<R> Iterator for It<R, U8Keywords>
+where
+    R: Read + Seek + Debug,
+{
+    // Return a vec of fields because to take into account the repeat count value for that field
+    type Item = u8;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        // We first retrieve the whole row from the row data iterator
+        if self.desc.remaining_pixels == 0 {
+            let row_data = self.row_it.next()?;
+            self.read_tile(&row_data)?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -279,68 +296,7 @@ where
         // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
             let row_data = self.row_it.next()?;
-
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
-
-            let ctx = self.row_it.get_ctx();
-            let row_idx = self.row_it.get_row_idx();
-
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+            self.read_tile(&row_data)?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -385,68 +341,7 @@ where
         // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
             let row_data = self.row_it.next()?;
-
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
-
-            let ctx = self.row_it.get_ctx();
-            let row_idx = self.row_it.get_row_idx();
-
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+            self.read_tile(&row_data)?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -504,26 +399,9 @@ where
         if self.desc.remaining_pixels == 0 {
             let row_data = self.row_it.next()?;
 
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
-
             let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-
             let TileDesc {
                 keywords:
                     F32Keywords {
@@ -554,70 +432,30 @@ where
                 _ => Quantiz::NoDither,
             };
 
-            *scale = match row_data[*z_scale_idx] {
-                DataValue::Float { value, .. } => value,
-                DataValue::Double { value, .. } => value as f32,
-                _ => unreachable!(),
+            *scale = match row_data.get(ctx.first_value_idx(*z_scale_idx))? {
+                DataValue::Float { value, .. } => *value,
+                DataValue::Double { value, .. } => *value as f32,
+                _ => return None,
             };
 
-            *zero = match row_data[*z_zero_idx] {
-                DataValue::Float { value, .. } => value,
-                DataValue::Double { value, .. } => value as f32,
-                _ => unreachable!(),
+            *zero = match row_data.get(ctx.first_value_idx(*z_zero_idx))? {
+                DataValue::Float { value, .. } => *value,
+                DataValue::Double { value, .. } => *value as f32,
+                _ => return None,
             };
 
             if let Some(idx) = z_blank_idx {
-                *z_blank = match row_data[*idx] {
-                    DataValue::UnsignedByte { value, .. } => Some(value as i32),
-                    DataValue::Short { value, .. } => Some(value as i32),
-                    DataValue::Integer { value, .. } => Some(value),
-                    DataValue::Long { value, .. } => Some(value as i32),
-                    _ => unreachable!(),
+                *z_blank = match row_data.get(ctx.first_value_idx(*idx))? {
+                    DataValue::UnsignedByte { value, .. } => Some(*value as i32),
+                    DataValue::Short { value, .. } => Some(*value as i32),
+                    DataValue::Integer { value, .. } => Some(*value),
+                    // a value out of range cannot be the one of a pixel
+                    DataValue::Long { value, .. } => i32::try_from(*value).ok(),
+                    _ => return None,
                 }
             }
 
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+            self.read_tile(&row_data)?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -682,26 +520,9 @@ where
         if self.desc.remaining_pixels == 0 {
             let row_data = self.row_it.next()?;
 
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
-
             let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-
             let TileDesc {
                 keywords:
                     F64Keywords {
@@ -732,70 +553,30 @@ where
                 _ => Quantiz::NoDither,
             };
 
-            *scale = match row_data[*z_scale_idx] {
-                DataValue::Float { value, .. } => value,
-                DataValue::Double { value, .. } => value as f32,
-                _ => unreachable!(),
+            *scale = match row_data.get(ctx.first_value_idx(*z_scale_idx))? {
+                DataValue::Float { value, .. } => *value,
+                DataValue::Double { value, .. } => *value as f32,
+                _ => return None,
             };
 
-            *zero = match row_data[*z_zero_idx] {
-                DataValue::Float { value, .. } => value,
-                DataValue::Double { value, .. } => value as f32,
-                _ => unreachable!(),
+            *zero = match row_data.get(ctx.first_value_idx(*z_zero_idx))? {
+                DataValue::Float { value, .. } => *value,
+                DataValue::Double { value, .. } => *value as f32,
+                _ => return None,
             };
 
             if let Some(idx) = z_blank_idx {
-                *z_blank = match row_data[*idx] {
-                    DataValue::UnsignedByte { value, .. } => Some(value as i32),
-                    DataValue::Short { value, .. } => Some(value as i32),
-                    DataValue::Integer { value, .. } => Some(value),
-                    DataValue::Long { value, .. } => Some(value as i32),
-                    _ => unreachable!(),
+                *z_blank = match row_data.get(ctx.first_value_idx(*idx))? {
+                    DataValue::UnsignedByte { value, .. } => Some(*value as i32),
+                    DataValue::Short { value, .. } => Some(*value as i32),
+                    DataValue::Integer { value, .. } => Some(*value),
+                    // a value out of range cannot be the one of a pixel
+                    DataValue::Long { value, .. } => i32::try_from(*value).ok(),
+                    _ => return None,
                 }
             }
 
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+            self.read_tile(&row_data)?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -861,9 +642,9 @@ where
         let old_pos = SeekFrom::Start(self.get_reader().stream_position()?);
 
         self.get_reader().seek(pos)?;
-        f(self)?;
+        let result = f(self);
         let _ = self.get_reader().seek(old_pos)?;
 
-        Ok(())
+        result
     }
 }
diff --git a/src/hdu/data/bintable/tile_compressed/rice.rs b/src/hdu/data/bintable/tile_compressed/rice.rs
index 278635f..2710e73 100644
--- a/src/hdu/data/bintable/tile_compressed/rice.rs
+++ b/src/hdu/data/bintable/tile_compressed/rice.rs
@@ -241,6 +241,15 @@ where
                             i,
                             lastpix,
                         }
+                    } else {
+                        // The next read goes on with the block
+                        self.state = RICEState::LowEntropyDecoding {
+                            b,
+                            nbits,
+                            i,
+                            lastpix,
+                            imax,
+                        }
                     }
 
                     // The buf has been filled
@@ -302,6 +311,15 @@ where
                             i,
                             lastpix,
                         }
+                    } else {
+                        // The next read goes on with the block
+                        self.state = RICEState::HighEntropyDecoding {
+                            b,
+                            nbits,
+                            i,
+                            lastpix,
+                            imax,
+                        }
                     }
 
                     // The buf has been filled
@@ -359,6 +377,16 @@ where
                             i,
                             lastpix,
                         }
+                    } else {
+                        // The next read goes on with the block
+                        self.state = RICEState::RICEDecoding {
+                            b,
+                            nbits,
+                            i,
+                            lastpix,
+                            fs,
+                            imax,
+                        }
                     }
 
                     // The buf has been filled
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 611ce1a..533c86d 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -89,6 +89,12 @@ impl BinTable {
         find_field_by_ttype(&self.ttypes, ttype)
     }
 
+    /// Returns the index, among the values of a row, of the first value of a field.
+    /// Array descriptors are one value.
+    pub(crate) fn first_value_idx(&self, field: usize) -> usize {
+        self.tforms[..field].iter().map(TFormType::num_values).sum()
+    }
+
     pub fn get_z_image(&self) -> &Option<TileCompressedImage> {
         &self.z_image
     }
@@ -771,6 +777,25 @@ pub(crate) enum ArrayDescriptorTy {
 }
 */
 impl TFormType {
+    /// Number of values a cell of the main data table is made of. Bits are packed in bytes
+    /// and array descriptors are one value
+    fn num_values(&self) -> usize {
+        match *self {
+            TFormType::X { .. } => self.num_bytes_field(),
+            TFormType::L { repeat_count }
+            | TFormType::B { repeat_count }
+            | TFormType::I { repeat_count }
+            | TFormType::J { repeat_count }
+            | TFormType::K { repeat_count }
+            | TFormType::A { repeat_count }
+            | TFormType::E { repeat_count }
+            | TFormType::D { repeat_count }
+            | TFormType::C { repeat_count }
+            | TFormType::M { repeat_count } => repeat_count,
+            TFormType::P { .. } | TFormType::Q { .. } => 1,
+        }
+    }
+
     pub(crate) fn num_bits_field(&self) -> u128 {
         let bits = |repeat_count: &usize, size: usize| (*repeat_count as u128) * (size as u128);
         match self {
-- 
2.43.0


From 38e1f0f16381471916747fd2a559b32fac81b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:44 +0000
Subject: [PATCH 13/20] fix: read tables whose columns do not describe a
 compressed image as tables instead of panicking

---
 src/hdu/header/extension/bintable.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 533c86d..d1b6348 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -469,7 +469,20 @@ impl Xtension for BinTable {
 
         let data_compressed_idx = find_field_by_ttype(&ttypes, "COMPRESSED_DATA")
             // Find for a GZIP_DATA_COMPRESSED named field
-            .or(find_field_by_ttype(&ttypes, "GZIP_COMPRESSED_DATA"));
+            .or(find_field_by_ttype(&ttypes, "GZIP_COMPRESSED_DATA"))
+            .filter(|&idx| matches!(tforms[idx], TFormType::P { .. } | TFormType::Q { .. }));
+
+        // The fields needed for restoring floating point pixels
+        let has_float_field = |ttype| {
+            find_field_by_ttype(&ttypes, ttype).is_some_and(|idx| {
+                matches!(tforms[idx], TFormType::E { repeat_count } | TFormType::D { repeat_count } if repeat_count > 0)
+            })
+        };
+        let has_valid_blank_field = find_field_by_ttype(&ttypes, "ZBLANK").map_or(true, |idx| {
+            matches!(tforms[idx], TFormType::B { repeat_count } | TFormType::I { repeat_count } | TFormType::J { repeat_count } | TFormType::K { repeat_count } if repeat_count > 0)
+        });
+        let has_float_fields =
+            has_float_field("ZSCALE") && has_float_field("ZZERO") && has_valid_blank_field;
 
         // Fill the headers with these specific tile compressed image keywords
         let z_image = if let (
@@ -507,6 +520,10 @@ impl Xtension for BinTable {
                     warn!("Only bitpix u8, i16, i32, f32, f64 are supported");
                     None
                 }
+                (_, Bitpix::F32 | Bitpix::F64) if !has_float_fields => {
+                    warn!("Floating point tiles need valid ZSCALE, ZZERO and ZBLANK fields");
+                    None
+                }
                 _ => Some(tile_compressed),
             }
         } else {
-- 
2.43.0


From 26423954f33f6c48458a664a6a74f044a2f277cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:54 +0000
Subject: [PATCH 14/20] fix: dither with the random sequence of the convention

---
 src/hdu/data/bintable/tile_compressed/mod.rs  | 97 +++++++++++++------
 .../data/bintable/tile_compressed/pixels.rs   | 38 ++------
 2 files changed, 71 insertions(+), 64 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/mod.rs b/src/hdu/data/bintable/tile_compressed/mod.rs
index 7668cac..609faa9 100644
--- a/src/hdu/data/bintable/tile_compressed/mod.rs
+++ b/src/hdu/data/bintable/tile_compressed/mod.rs
@@ -94,36 +94,33 @@ impl F64Keywords {
     /// Unquantize the integer decoded value to the real floating point value
     fn unquantize(&mut self, value: i32) -> f32 {
         // map the NaN if value corresponds to BLANK
-        if let Some(z_blank) = self.z_blank {
-            if z_blank == value {
-                return f32::NAN;
-            }
+        if self.z_blank == Some(value) {
+            // blank pixels have their own random value as well
+            self.quantiz.next_pixel();
+            return f32::NAN;
         }
 
-        match &mut self.quantiz {
+        let value = match &self.quantiz {
             Quantiz::NoDither => (value as f32) * self.scale + self.zero,
-            Quantiz::SubtractiveDither1 { i1 } => {
+            Quantiz::SubtractiveDither1 { i1, .. } => {
                 let ri = RAND_VALUES[*i1];
-                // increment i1 for the next pixel
-                *i1 = (*i1 + 1) % N_RANDOM;
 
                 ((value as f32) - ri + 0.5) * self.scale + self.zero
             }
-            Quantiz::SubtractiveDither2 { i1 } => {
+            Quantiz::SubtractiveDither2 { i1, .. } => {
                 // FIXME: i32::MIN is -2147483648 !
                 if value == -2147483647 {
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     0.0
                 } else {
                     let ri = RAND_VALUES[*i1];
-                    // increment i1 for the next pixel
-                    *i1 = (*i1 + 1) % N_RANDOM;
 
                     ((value as f32) - ri + 0.5) * self.scale + self.zero
                 }
             }
-        }
+        };
+        self.quantiz.next_pixel();
+
+        value
     }
 }
 
@@ -131,36 +128,33 @@ impl F32Keywords {
     /// Unquantize the integer decoded value to the real floating point value
     fn unquantize(&mut self, value: i32) -> f32 {
         // map the NaN if value corresponds to BLANK
-        if let Some(z_blank) = self.z_blank {
-            if z_blank == value {
-                return f32::NAN;
-            }
+        if self.z_blank == Some(value) {
+            // blank pixels have their own random value as well
+            self.quantiz.next_pixel();
+            return f32::NAN;
         }
 
-        match &mut self.quantiz {
+        let value = match &self.quantiz {
             Quantiz::NoDither => (value as f32) * self.scale + self.zero,
-            Quantiz::SubtractiveDither1 { i1 } => {
+            Quantiz::SubtractiveDither1 { i1, .. } => {
                 let ri = RAND_VALUES[*i1];
-                // increment i1 for the next pixel
-                *i1 = (*i1 + 1) % N_RANDOM;
 
                 ((value as f32) - ri + 0.5) * self.scale + self.zero
             }
-            Quantiz::SubtractiveDither2 { i1 } => {
+            Quantiz::SubtractiveDither2 { i1, .. } => {
                 // FIXME: i32::MIN is -2147483648 !
                 if value == -2147483647 {
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     0.0
                 } else {
                     let ri = RAND_VALUES[*i1];
-                    // increment i1 for the next pixel
-                    *i1 = (*i1 + 1) % N_RANDOM;
 
                     ((value as f32) - ri + 0.5) * self.scale + self.zero
                 }
             }
-        }
+        };
+        self.quantiz.next_pixel();
+
+        value
     }
 }
 
@@ -201,7 +195,7 @@ impl Keywords for F32Keywords {
             z_blank,
             quantiz: Quantiz::NoDither,
             z_quantiz: z_quantiz.clone().unwrap_or(ZQuantiz::NoDither),
-            z_dither_0: z_dither_0.unwrap_or(0),
+            z_dither_0: z_dither_0.unwrap_or(1),
         }
     }
 }
@@ -243,7 +237,7 @@ impl Keywords for F64Keywords {
             z_blank,
             quantiz: Quantiz::NoDither,
             z_quantiz: z_quantiz.clone().unwrap_or(ZQuantiz::NoDither),
-            z_dither_0: z_dither_0.unwrap_or(0),
+            z_dither_0: z_dither_0.unwrap_or(1),
         }
     }
 }
@@ -296,8 +290,47 @@ impl Keywords for I32Keywords {
 #[derive(Debug)]
 enum Quantiz {
     NoDither,
-    SubtractiveDither1 { i1: usize },
-    SubtractiveDither2 { i1: usize },
+    SubtractiveDither1 { i0: usize, i1: usize },
+    SubtractiveDither2 { i0: usize, i1: usize },
+}
+
+impl Quantiz {
+    /// # Params
+    ///
+    /// * `z_quantiz` - The quantization method
+    /// * `z_dither_0` - The seed: the first tile starts from the `z_dither_0`-th random value, counted from 1
+    /// * `tile_idx` - Index of the tile, from 0
+    fn new(z_quantiz: &ZQuantiz, z_dither_0: i64, tile_idx: usize) -> Self {
+        let n_random = N_RANDOM as i64;
+        let i0 = (tile_idx % N_RANDOM) as i64 + z_dither_0.rem_euclid(n_random) - 1;
+        let i0 = i0.rem_euclid(n_random) as usize;
+        let i1 = Self::first_random(i0);
+
+        match z_quantiz {
+            ZQuantiz::SubtractiveDither1 => Quantiz::SubtractiveDither1 { i0, i1 },
+            ZQuantiz::SubtractiveDither2 => Quantiz::SubtractiveDither2 { i0, i1 },
+            ZQuantiz::NoDither => Quantiz::NoDither,
+        }
+    }
+
+    fn first_random(i0: usize) -> usize {
+        (RAND_VALUES[i0] * 500.0).floor() as usize
+    }
+
+    /// Go to the random value of the next pixel. When all have been used, start again
+    /// from the next offset
+    fn next_pixel(&mut self) {
+        match self {
+            Quantiz::NoDither => (),
+            Quantiz::SubtractiveDither1 { i0, i1 } | Quantiz::SubtractiveDither2 { i0, i1 } => {
+                *i1 += 1;
+                if *i1 == N_RANDOM {
+                    *i0 = (*i0 + 1) % N_RANDOM;
+                    *i1 = Self::first_random(*i0);
+                }
+            }
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 3d856c2..1abb23f 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -1,15 +1,12 @@
 use flate2::read::GzDecoder;
 
 use super::super::DataValue;
-use super::dithering::RAND_VALUES;
 use super::rice::RICEDecoder;
 use super::{
     F32Keywords, F64Keywords, I16Keywords, I32Keywords, Keywords, Quantiz, TileDesc, U8Keywords,
 };
 use crate::error::Error;
-use crate::hdu::header::extension::bintable::{
-    BinTable, TFormType, TileCompressedImage, ZCmpType, ZQuantiz,
-};
+use crate::hdu::header::extension::bintable::{BinTable, TFormType, TileCompressedImage, ZCmpType};
 use crate::hdu::header::{Bitpix, Header};
 use crate::{TableData, TableRowData};
 use std::convert::TryFrom;
@@ -218,8 +215,7 @@ where
                     ZCmpType::Rice { blocksize, .. } => {
                         let num_pixels = num_pixels_rice
                             .map_err(|_| Error::StaticError("The tile has too many pixels"))?;
-                        let rice =
-                            RICEDecoder::<_, i32>::new(reader, blocksize as i32, num_pixels);
+                        let rice = RICEDecoder::<_, i32>::new(reader, blocksize as i32, num_pixels);
                         read_bytes(rice, num_bytes, buf)?;
                     }
                     // Other compression not supported, when parsing the bintable extension keywords
@@ -418,19 +414,8 @@ where
                 ..
             } = &mut self.desc;
 
-            *quantiz = match z_quantiz {
-                ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither1 { i1 }
-                }
-                ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither2 { i1 }
-                }
-                _ => Quantiz::NoDither,
-            };
+            // row_idx is the one of the next row
+            *quantiz = Quantiz::new(z_quantiz, *z_dither_0, row_idx - 1);
 
             *scale = match row_data.get(ctx.first_value_idx(*z_scale_idx))? {
                 DataValue::Float { value, .. } => *value,
@@ -539,19 +524,8 @@ where
                 ..
             } = &mut self.desc;
 
-            *quantiz = match z_quantiz {
-                ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither1 { i1 }
-                }
-                ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither2 { i1 }
-                }
-                _ => Quantiz::NoDither,
-            };
+            // row_idx is the one of the next row
+            *quantiz = Quantiz::new(z_quantiz, *z_dither_0, row_idx - 1);
 
             *scale = match row_data.get(ctx.first_value_idx(*z_scale_idx))? {
                 DataValue::Float { value, .. } => *value,
-- 
2.43.0


From be913aa6924c06f8a01c54b24581f938c6581839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:48 +0000
Subject: [PATCH 15/20] fix: deserialize enums from the string of a value, so
 that ZQUANTIZ is seen

---
 src/card.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/card.rs b/src/card.rs
index d2c4ad2..973806b 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -496,9 +496,29 @@ impl<'de> Deserializer<'de> for &'de Value {
         }
     }
 
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        match self {
+            // the name of a variant
+            Value::String { value, .. } | Value::Invalid(value) => {
+                let variant: serde::de::value::StrDeserializer<'_, Error> =
+                    value.as_str().into_deserializer();
+                variant.deserialize_enum(name, variants, visitor)
+            }
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit
-        seq tuple tuple_struct map struct enum identifier ignored_any
+        seq tuple tuple_struct map struct identifier ignored_any
         newtype_struct unit_struct
     }
 }
-- 
2.43.0


From 63473f588627a60925aee4f39c95a7e9e636df01 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 10:07:09 +0000
Subject: [PATCH 16/20] fix: check that the first keyword is SIMPLE in the
 async reader too

---
 src/hdu/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hdu/mod.rs b/src/hdu/mod.rs
index 0d33c10..ec94d09 100644
--- a/src/hdu/mod.rs
+++ b/src/hdu/mod.rs
@@ -260,16 +260,21 @@ impl AsyncHDU {
         let cards = consume_cards_async(reader, &mut num_bytes_read).await?;
 
         // Check for SIMPLE keyword
-        let _name: String = "SIMPLE".to_owned();
         if let Card::Value {
-            name: _name,
+            name,
             value: Logical { value: true, .. },
             ..
         } = &cards[0]
         {
-            Ok(AsyncHDU::Primary(
-                async_fits::AsyncHDU::<Image>::new(reader, &mut num_bytes_read, cards).await?,
-            ))
+            if name == "SIMPLE" {
+                Ok(AsyncHDU::Primary(
+                    async_fits::AsyncHDU::<Image>::new(reader, &mut num_bytes_read, cards).await?,
+                ))
+            } else {
+                Err(Error::DynamicError(format!(
+                    "Invalid FITS file: expected `SIMPLE` keyword in first card, found `{name}`"
+                )))
+            }
         } else {
             Err(Error::StaticError("not a FITSv4 file"))
         }
-- 
2.43.0


From a9477a71e7e6fce6739d59af5784e968a139ffe3 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 10:07:09 +0000
Subject: [PATCH 17/20] fix: keep a partly read value of an async data stream
 when the reader is not ready, and end the stream after an error

---
 src/hdu/data/stream.rs | 162 ++++++++++++++++-------------------------
 1 file changed, 63 insertions(+), 99 deletions(-)

diff --git a/src/hdu/data/stream.rs b/src/hdu/data/stream.rs
index ac9cd61..28e02c8 100644
--- a/src/hdu/data/stream.rs
+++ b/src/hdu/data/stream.rs
@@ -1,5 +1,4 @@
 use byteorder::ByteOrder;
-use futures::AsyncReadExt;
 
 /// An async iterator on the data array
 /// This is an enum whose content depends on the
@@ -28,6 +27,11 @@ where
 {
     pub reader: &'a mut R,
     pub num_remaining_bytes_in_cur_hdu: &'a mut usize,
+    // The bytes read so far of the next value: it may arrive over several polls
+    item: [u8; 8],
+    num_bytes_in_item: usize,
+    // The reader returned an error, the stream has finished
+    finished: bool,
     phantom: std::marker::PhantomData<T>,
 }
 
@@ -39,15 +43,61 @@ where
         Self {
             reader,
             num_remaining_bytes_in_cur_hdu,
+            item: [0; 8],
+            num_bytes_in_item: 0,
+            finished: false,
             phantom: std::marker::PhantomData,
         }
     }
+
+    /// Read the `N` bytes of the next value.
+    ///
+    /// The progress is kept in self so that it is not lost if the reader is not ready
+    fn poll_next_bytes<const N: usize>(
+        &mut self,
+        cx: &mut Context<'_>,
+    ) -> Poll<Option<Result<[u8; N], futures::io::Error>>> {
+        while self.num_bytes_in_item < N {
+            if self.finished || *self.num_remaining_bytes_in_cur_hdu == 0 {
+                // The stream has finished
+                return Poll::Ready(None);
+            }
+
+            let start = self.num_bytes_in_item;
+            let len = match ready!(Pin::new(&mut *self.reader).poll_fill_buf(cx)) {
+                Ok(buf) => {
+                    let len = buf
+                        .len()
+                        .min(N - start)
+                        .min(*self.num_remaining_bytes_in_cur_hdu);
+                    self.item[start..start + len].copy_from_slice(&buf[..len]);
+                    len
+                }
+                Err(e) => {
+                    self.finished = true;
+                    return Poll::Ready(Some(Err(e)));
+                }
+            };
+            if len == 0 {
+                self.finished = true;
+                return Poll::Ready(Some(Err(futures::io::ErrorKind::UnexpectedEof.into())));
+            }
+            Pin::new(&mut *self.reader).consume(len);
+            self.num_bytes_in_item += len;
+            *self.num_remaining_bytes_in_cur_hdu -= len;
+        }
+        self.num_bytes_in_item = 0;
+
+        let mut bytes = [0; N];
+        bytes.copy_from_slice(&self.item[..N]);
+        Poll::Ready(Some(Ok(bytes)))
+    }
 }
 
+use futures::ready;
 use futures::task::Context;
 use futures::task::Poll;
 use futures::AsyncBufRead;
-use futures::Future;
 //use serde::Serialize;
 use std::pin::Pin;
 
@@ -64,22 +114,7 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
-            // The stream has finished
-            Poll::Ready(None)
-        } else {
-            let mut buf = [0_u8; 1];
-
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
-                Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    *self.num_remaining_bytes_in_cur_hdu -= 1;
-                    Poll::Ready(Some(Ok(buf)))
-                }
-            }
-        }
+        self.poll_next_bytes(cx)
     }
 }
 
@@ -94,22 +129,8 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
-            // The stream has finished
-            Poll::Ready(None)
-        } else {
-            let mut buf = [0_u8; 2];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
-                Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    let item = byteorder::BigEndian::read_i16(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i16>();
-                    Poll::Ready(Some(Ok([item])))
-                }
-            }
-        }
+        self.poll_next_bytes::<2>(cx)
+            .map_ok(|bytes| [byteorder::BigEndian::read_i16(&bytes)])
     }
 }
 
@@ -124,23 +145,8 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
-            // The stream has finished
-            Poll::Ready(None)
-        } else {
-            let mut buf = [0_u8; 4];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
-                Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    let item = byteorder::BigEndian::read_i32(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i32>();
-
-                    Poll::Ready(Some(Ok([item])))
-                }
-            }
-        }
+        self.poll_next_bytes::<4>(cx)
+            .map_ok(|bytes| [byteorder::BigEndian::read_i32(&bytes)])
     }
 }
 
@@ -155,22 +161,8 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
-            // The stream has finished
-            Poll::Ready(None)
-        } else {
-            let mut buf = [0_u8; 8];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
-                Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    let item = byteorder::BigEndian::read_i64(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i64>();
-                    Poll::Ready(Some(Ok([item])))
-                }
-            }
-        }
+        self.poll_next_bytes::<8>(cx)
+            .map_ok(|bytes| [byteorder::BigEndian::read_i64(&bytes)])
     }
 }
 
@@ -185,22 +177,8 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
-            // The stream has finished
-            Poll::Ready(None)
-        } else {
-            let mut buf = [0_u8; 4];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
-                Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    let item = byteorder::BigEndian::read_f32(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<f32>();
-                    Poll::Ready(Some(Ok([item])))
-                }
-            }
-        }
+        self.poll_next_bytes::<4>(cx)
+            .map_ok(|bytes| [byteorder::BigEndian::read_f32(&bytes)])
     }
 }
 
@@ -215,22 +193,8 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
-            // The stream has finished
-            Poll::Ready(None)
-        } else {
-            let mut buf = [0_u8; 8];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
-                Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    let item = byteorder::BigEndian::read_f64(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<f64>();
-                    Poll::Ready(Some(Ok([item])))
-                }
-            }
-        }
+        self.poll_next_bytes::<8>(cx)
+            .map_ok(|bytes| [byteorder::BigEndian::read_f64(&bytes)])
     }
 }
 
-- 
2.43.0


From 58a5b709834d3e7908f8173bb2e8de026535eded Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 10:07:09 +0000
Subject: [PATCH 18/20] fix: keep the progress of the async HDU stream when the
 reader is not ready

---
 src/async_fits.rs | 158 ++++++++++++++++++++++++++--------------------
 1 file changed, 88 insertions(+), 70 deletions(-)

diff --git a/src/async_fits.rs b/src/async_fits.rs
index 4b6d036..40e02dc 100644
--- a/src/async_fits.rs
+++ b/src/async_fits.rs
@@ -1,6 +1,6 @@
 use std::pin::Pin;
 
-use crate::card::Card;
+use crate::card::{Card, CardBuf};
 use crate::hdu;
 use crate::hdu::data::AsyncDataBufRead;
 use crate::hdu::header::extension::asciitable::AsciiTable;
@@ -10,6 +10,7 @@ use crate::hdu::header::extension::Xtension;
 use crate::hdu::header::Header;
 use futures::{Future, Stream};
 use serde::Serialize;
+use std::convert::TryFrom;
 use std::fmt::Debug;
 
 //use crate::hdu::data::{DataAsyncBufRead, DataBufRead};
@@ -20,9 +21,13 @@ pub struct AsyncFits<R> {
     // Store the number of bytes that remains to read so that the current HDU data finishes
     // When getting the next HDU, we will first consume those bytes if there are some
     num_remaining_bytes_in_cur_hdu: usize,
-    // Keep track of the number of total bytes for the current HDU as we might
-    // skip the trailing bytes to get to a multiple of 2880 bytes
-    num_bytes_in_cur_hdu: usize,
+    // Number of bytes that follow the data of the current HDU to get to a multiple of 2880 bytes.
+    // They are skipped too when getting the next HDU
+    num_padding_bytes_in_cur_hdu: usize,
+    // The bytes read so far of the next header. A header may arrive over several polls
+    header_bytes: Vec<u8>,
+    // The END card is among them
+    header_end_found: bool,
     // If an error has been encountered, the HDU iterator ends
     error_parsing_encountered: bool,
     reader: R,
@@ -37,14 +42,15 @@ impl<R> AsyncFits<R> {
         Self {
             reader,
             num_remaining_bytes_in_cur_hdu: 0,
-            num_bytes_in_cur_hdu: 0,
+            num_padding_bytes_in_cur_hdu: 0,
+            header_bytes: Vec::new(),
+            header_end_found: false,
             error_parsing_encountered: false,
             start: true,
         }
     }
 }
 
-use futures::AsyncBufReadExt;
 impl<'a, R> AsyncFits<R>
 where
     R: AsyncDataBufRead<'a, Image>
@@ -52,42 +58,62 @@ where
         + AsyncDataBufRead<'a, BinTable>
         + 'a,
 {
-    /// Returns a boolean to know if we are at EOF
-    async fn consume_until_next_hdu(&mut self) -> Result<bool, Error> {
-        // 1. Check if there are still bytes to be read to get to the end of data
-        if self.num_remaining_bytes_in_cur_hdu > 0 {
-            // Then read them
-            <R as AsyncDataBufRead<'_, Image>>::read_n_bytes_exact(
-                &mut self.reader,
-                self.num_remaining_bytes_in_cur_hdu as u64,
-            )
-            .await?;
+    /// Consume what remains of the current data unit and the padding that follows it.
+    ///
+    /// The progress is kept in self so that it is not lost if the reader is not ready.
+    /// A data unit or a padding that ends early is interpreted as the one of the last HDU in the file
+    fn poll_consume_until_next_hdu(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        for num_bytes in [
+            &mut self.num_remaining_bytes_in_cur_hdu,
+            &mut self.num_padding_bytes_in_cur_hdu,
+        ] {
+            while *num_bytes > 0 {
+                let len = match ready!(Pin::new(&mut self.reader).poll_fill_buf(cx)) {
+                    Ok(buf) => buf.len().min(*num_bytes),
+                    Err(e) => return Poll::Ready(Err(e.into())),
+                };
+                if len == 0 {
+                    // EOF, nothing remains
+                    *num_bytes = 0;
+                    break;
+                }
+                Pin::new(&mut self.reader).consume(len);
+                *num_bytes -= len;
+            }
         }
 
-        // 2. We are at the end of the real data. As FITS standard stores data in block of 2880 bytes
-        // we must read until the next block of data to get the location of the next HDU
+        Poll::Ready(Ok(()))
+    }
 
-        let is_remaining_bytes = !self.num_bytes_in_cur_hdu.is_multiple_of(2880);
-        // Skip the remaining bytes to set the reader where a new HDU begins
-        if is_remaining_bytes {
-            let mut block_mem_buf: [u8; 2880] = [0; 2880];
+    /// Read the next header, padding included, into `header_bytes`. It is incomplete if EOF is reached before
+    fn poll_read_header(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        loop {
+            // Read card by card until END is found, and up to the end of its block then
+            let unit = if self.header_end_found { 2880 } else { 80 };
+            let num_bytes = unit - self.header_bytes.len() % unit;
+            if self.header_end_found && num_bytes == unit {
+                return Poll::Ready(Ok(()));
+            }
 
-            let num_off_bytes = 2880 - (self.num_bytes_in_cur_hdu % 2880);
-            match self
-                .reader
-                .read_exact(&mut block_mem_buf[..num_off_bytes])
-                .await
-            {
-                // An error like unexpected EOF is not permitted by the standard but we make it pass
-                // interpreting it as the last HDU in the file
-                Err(ref e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return Ok(true),
-                Err(e) => return Err(e.into()),
-                Ok(()) => {}
+            let len = match ready!(Pin::new(&mut self.reader).poll_fill_buf(cx)) {
+                Ok(buf) => {
+                    let len = buf.len().min(num_bytes);
+                    self.header_bytes.extend_from_slice(&buf[..len]);
+                    len
+                }
+                Err(e) => return Poll::Ready(Err(e.into())),
+            };
+            if len == 0 {
+                return Poll::Ready(Ok(()));
             }
-        }
+            Pin::new(&mut self.reader).consume(len);
 
-        let eof = self.reader.fill_buf().await?.is_empty();
-        Ok(eof)
+            if !self.header_end_found && len == num_bytes {
+                let last_card = &self.header_bytes[self.header_bytes.len() - 80..];
+                self.header_end_found = CardBuf::try_from(last_card)
+                    .is_ok_and(|card| matches!(Card::try_from(&card), Ok(Card::End)));
+            }
+        }
     }
 
     pub fn get_data<X>(&'a mut self, hdu: &AsyncHDU<X>) -> <R as AsyncDataBufRead<'a, X>>::Data
@@ -110,6 +136,8 @@ where
     }
 }
 
+use futures::io::BufReader;
+use futures::ready;
 use futures::task::Context;
 use futures::task::Poll;
 impl<'a, R> Stream for AsyncFits<R>
@@ -128,48 +156,37 @@ where
         if self.error_parsing_encountered {
             Poll::Ready(None)
         } else {
-            let hdu = if !self.start {
-                // We must consume the bytes until the next header is found
-                // if eof then the iterator finishes
-                let consume_tokens_until_next_hdu = self.consume_until_next_hdu();
-                let eof = match std::pin::pin!(consume_tokens_until_next_hdu).poll(cx) {
-                    Poll::Pending => return Poll::Pending,
-                    // The future finished returning the eof information
-                    Poll::Ready(r) => r,
-                };
-
-                match eof {
-                    Ok(eof) => {
-                        if !eof {
-                            // parse the extension HDU
-                            let r = &mut self.reader;
-                            let parse_x_hdu = hdu::AsyncHDU::new_xtension(r);
-                            match std::pin::pin!(parse_x_hdu).poll(cx) {
-                                Poll::Pending => return Poll::Pending,
-                                // the future finished, returning the parsed hdu or the error while parsing it
-                                Poll::Ready(r) => Some(r),
-                            }
+            let this = &mut *self;
+            // We must consume the bytes until the next header is found
+            let hdu = match ready!(this.poll_consume_until_next_hdu(cx)) {
+                Ok(()) => match ready!(this.poll_read_header(cx)) {
+                    // no card: eof, the iterator finishes
+                    Ok(()) if !this.start && this.header_bytes.len() < 80 => None,
+                    Ok(()) => {
+                        // The header is in memory, parsing it is always ready
+                        let header_bytes = std::mem::take(&mut this.header_bytes);
+                        this.header_end_found = false;
+                        let mut reader = BufReader::new(&header_bytes[..]);
+                        Some(if this.start {
+                            // parse the primary HDU
+                            let parse_first_hdu = hdu::AsyncHDU::new_primary(&mut reader);
+                            ready!(std::pin::pin!(parse_first_hdu).poll(cx))
                         } else {
-                            None
-                        }
+                            // parse the extension HDU
+                            let parse_x_hdu = hdu::AsyncHDU::new_xtension(&mut reader);
+                            ready!(std::pin::pin!(parse_x_hdu).poll(cx))
+                        })
                     }
                     Err(e) => Some(Err(e)),
-                }
-            } else {
-                // parse the primary HDU
-                let parse_first_hdu = hdu::AsyncHDU::new_primary(&mut self.reader);
-                match std::pin::pin!(parse_first_hdu).poll(cx) {
-                    Poll::Pending => return Poll::Pending,
-                    // the future finished, returning the parsed hdu or the error while parsing it
-                    Poll::Ready(r) => Some(r),
-                }
+                },
+                Err(e) => Some(Err(e)),
             };
 
             self.start = false;
 
             match hdu {
                 Some(Ok(hdu)) => {
-                    self.num_bytes_in_cur_hdu = match &hdu {
+                    let num_bytes = match &hdu {
                         hdu::AsyncHDU::XImage(h) | hdu::AsyncHDU::Primary(h) => {
                             let xtension = h.get_header().get_xtension();
                             xtension.get_num_bytes_data_block() as usize
@@ -184,7 +201,8 @@ where
                         }
                     };
 
-                    self.num_remaining_bytes_in_cur_hdu = self.num_bytes_in_cur_hdu;
+                    self.num_remaining_bytes_in_cur_hdu = num_bytes;
+                    self.num_padding_bytes_in_cur_hdu = (2880 - num_bytes % 2880) % 2880;
 
                     Poll::Ready(Some(Ok(hdu)))
                 }
-- 
2.43.0


From 565f4db1c359e5e7ca367ba7d8f5aba999b27b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:31 +0000
Subject: [PATCH 19/20] fix: read all the members of a gzip file

---
 src/gz.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gz.rs b/src/gz.rs
index db6df65..064b60e 100644
--- a/src/gz.rs
+++ b/src/gz.rs
@@ -1,4 +1,4 @@
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use std::io::Seek;
 /*
 use crate::hdu::data::FitsRead;
@@ -94,7 +94,7 @@ where
 {
     /// Open a fits file from a path. Can be gzip-compressed
     pub fn new(reader: R) -> Result<Self, Error> {
-        let mut gz = GzDecoder::new(reader);
+        let mut gz = MultiGzDecoder::new(reader);
 
         match gz.header() {
             // `path` points to a file that is gzip-compressed.
@@ -107,7 +107,7 @@ where
             // `path` points to a plain text file.
             None => {
                 let mut r = gz.into_inner();
-                // Since the `GzDecoder` already moved some bytes out of f
+                // Since the `MultiGzDecoder` already moved some bytes out of f
                 // by trying to decompress it, the file must be rewinded
                 // TODO There may be a better way instead of reading the same
                 // file twice.
-- 
2.43.0


From e872df187363ed4ac2e766c238cff783de058e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:31 +0000
Subject: [PATCH 20/20] fix: put the pixels of a tile-compressed image in
 raster order for the image crate, and refuse an image whose pixels are
 missing

---
 src/image_integration.rs | 83 ++++++++++++++++++++++++++++++++++------
 1 file changed, 72 insertions(+), 11 deletions(-)

diff --git a/src/image_integration.rs b/src/image_integration.rs
index 50c56d1..a948b4f 100644
--- a/src/image_integration.rs
+++ b/src/image_integration.rs
@@ -207,6 +207,42 @@ fn write_splat<const P: usize>(buf: &mut [u8], iter: impl Iterator<Item = [u8; P
     }
 }
 
+/// Put pixels that come tile after tile in the order of the image.
+/// Fails if there are not enough of them to fill the image.
+fn to_raster_order<T: Copy + Default>(
+    mut iter: impl Iterator<Item = T>,
+    axes: &[u64],
+    tile_axes: &[usize],
+) -> ImageResult<std::vec::IntoIter<T>> {
+    // Tiles have the shape [w, h, d] and the image has the shape [width, height, depth]
+    let axis = |i: usize| axes.get(i).map_or(1, |&n| n as usize);
+    let tile_axis = |i: usize| tile_axes.get(i).map_or(1, |&n| n.max(1));
+    let (width, height, depth) = (axis(0), axis(1), axis(2));
+    let (w, h, d) = (tile_axis(0), tile_axis(1), tile_axis(2));
+
+    let mut pixels = vec![T::default(); width * height * depth];
+    for z in (0..depth).step_by(d) {
+        for y in (0..height).step_by(h) {
+            for x in (0..width).step_by(w) {
+                for k in z..depth.min(z.saturating_add(d)) {
+                    for j in y..height.min(y.saturating_add(h)) {
+                        let row = (k * height + j) * width;
+                        for pixel in &mut pixels[row + x..row + width.min(x.saturating_add(w))] {
+                            *pixel = iter.next().ok_or_else(missing_pixels)?;
+                        }
+                    }
+                }
+            }
+        }
+    }
+
+    Ok(pixels.into_iter())
+}
+
+fn missing_pixels() -> ImageError {
+    to_image_error("the data ends before the last pixel")
+}
+
 // The general idea of these conversions to an image suitable for viewing:
 // - ignore negative values
 // - assume images are already normalized to their pixel format max value
@@ -319,26 +355,51 @@ impl<'a> ImageDecoder for FitsDecoder<'a> {
             HduImageKind::Image(hdu) => {
                 let scale = Scale::deserialize(hdu.get_header().into_deserializer())
                     .map_err(to_image_error)?;
+                let num_pixels = hdu.get_header().get_xtension().get_naxis().iter().product();
+                let mut num_read = 0_u64;
+                let mut count = || num_read += 1;
                 match self.fits.get_data(&hdu).pixels() {
-                    Pixels::U8(it) => write_u8(buf, it, scale, is_rgb),
-                    Pixels::I16(it) => write_i16(buf, it, scale, is_rgb),
-                    Pixels::I32(it) => write_i32(buf, it, scale, is_rgb),
-                    Pixels::I64(it) => write_i64(buf, it, scale, is_rgb),
-                    Pixels::F32(it) => write_f32(buf, it, is_rgb),
-                    Pixels::F64(it) => write_f64(buf, it, is_rgb),
+                    Pixels::U8(it) => write_u8(buf, it.inspect(|_| count()), scale, is_rgb),
+                    Pixels::I16(it) => write_i16(buf, it.inspect(|_| count()), scale, is_rgb),
+                    Pixels::I32(it) => write_i32(buf, it.inspect(|_| count()), scale, is_rgb),
+                    Pixels::I64(it) => write_i64(buf, it.inspect(|_| count()), scale, is_rgb),
+                    Pixels::F32(it) => write_f32(buf, it.inspect(|_| count()), is_rgb),
+                    Pixels::F64(it) => write_f64(buf, it.inspect(|_| count()), is_rgb),
+                }
+                if num_read < num_pixels {
+                    return Err(missing_pixels());
                 }
             }
             HduImageKind::TileCompressed(hdu) => {
                 let scale = Scale::deserialize(hdu.get_header().into_deserializer())
                     .map_err(to_image_error)?;
+                let (axes, tile_axes) = match hdu.get_header().get_xtension().get_z_image() {
+                    Some(image) => (image.z_naxisn.clone(), image.z_tilen.clone()),
+                    None => return Err(to_image_error("tile-compressed HDU has no z_image")),
+                };
                 match self.fits.get_data(&hdu) {
                     BinaryTableData::TileCompressed(tc) => match tc {
-                        TcPixels::U8(it) => write_u8(buf, it, scale, is_rgb),
-                        TcPixels::I16(it) => write_i16(buf, it, scale, is_rgb),
-                        TcPixels::I32(it) => write_i32(buf, it, scale, is_rgb),
+                        TcPixels::U8(it) => {
+                            let it = to_raster_order(it, &axes, &tile_axes)?;
+                            write_u8(buf, it, scale, is_rgb)
+                        }
+                        TcPixels::I16(it) => {
+                            let it = to_raster_order(it, &axes, &tile_axes)?;
+                            write_i16(buf, it, scale, is_rgb)
+                        }
+                        TcPixels::I32(it) => {
+                            let it = to_raster_order(it, &axes, &tile_axes)?;
+                            write_i32(buf, it, scale, is_rgb)
+                        }
                         // Tile-compressed F32 and F64 iterators both yield f32
-                        TcPixels::F32(it) => write_f32(buf, it, is_rgb),
-                        TcPixels::F64(it) => write_f32(buf, it, is_rgb),
+                        TcPixels::F32(it) => {
+                            let it = to_raster_order(it, &axes, &tile_axes)?;
+                            write_f32(buf, it, is_rgb)
+                        }
+                        TcPixels::F64(it) => {
+                            let it = to_raster_order(it, &axes, &tile_axes)?;
+                            write_f32(buf, it, is_rgb)
+                        }
                     },
                     BinaryTableData::Table(_) => {
                         return Err(to_image_error(
-- 
2.43.0

