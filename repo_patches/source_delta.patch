From d809994c4739a4e2a48a48904d95f540cb1c67e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 01/13] fix: include the last row group in stripe and file
 statistics

---
 src/writer/stripe.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index 15f51a3..44bf389 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -80,12 +80,14 @@ impl Stripe {
     pub fn finish<W: Write>(&mut self, out: &mut CountWrite<W>, stripe_infos_out: &mut Vec<StripeInfo>) -> Result<()> {
         if self.num_rows == 0 { return Ok(()) }
         let mut stream_infos: Vec<StreamInfo> = Vec::new();
-        let mut statistics: Vec<Statistics> = Vec::new();
-        self.data.statistics(&mut statistics);
 
         let index_start_pos = out.pos();
         self.data.write_index_streams(out, &mut stream_infos)?;
 
+        // Writing the index closes the last row group, so only now do the statistics cover it.
+        let mut statistics: Vec<Statistics> = Vec::new();
+        self.data.statistics(&mut statistics);
+
         let data_start_pos = out.pos();
         self.data.write_data_streams(out, &mut stream_infos)?;
         
-- 
2.43.0


From c12d727b32b47610909a7aaba9455ba4b9a58563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 02/13] fix: verify row counts again when a stripe is finished

---
 src/writer/stripe.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index 44bf389..aa72ad5 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -78,6 +78,8 @@ impl Stripe {
     }
 
     pub fn finish<W: Write>(&mut self, out: &mut CountWrite<W>, stripe_infos_out: &mut Vec<StripeInfo>) -> Result<()> {
+        // Values may have been written since the last batch was handed over.
+        self.data.verify_row_count(self.num_rows);
         if self.num_rows == 0 { return Ok(()) }
         let mut stream_infos: Vec<StreamInfo> = Vec::new();
 
-- 
2.43.0


From ec30cdd09adc7a6965cc5ba5310ab39069e15aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 03/13] fix: do not overflow 32 bits when encoding nanoseconds

---
 src/writer/data/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 465b2b6..8063f10 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -127,7 +127,7 @@ impl TimestampData {
 
         self.streams.present.write(true);
         self.streams.seconds.write(sec);
-        self.streams.nanos.write((nanos_val << 3 | trailing_zeros) as u64);
+        self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
         self.row_group_stats.update(sec * 1000 + (nanos / 1000000) as i64);
         self.check_row_group();
     }
-- 
2.43.0


From cd4b03189cc5f8f67fbb4174011c62e2040ee1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 04/13] fix: report timestamp statistics relative to the Unix
 epoch

---
 src/writer/data/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 8063f10..0810559 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -128,7 +128,7 @@ impl TimestampData {
         self.streams.present.write(true);
         self.streams.seconds.write(sec);
         self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
-        self.row_group_stats.update(sec * 1000 + (nanos / 1000000) as i64);
+        self.row_group_stats.update((sec - Self::EPOCH_SECONDS) * 1000 + (nanos / 1000000) as i64);
         self.check_row_group();
     }
 }
-- 
2.43.0


From f4d8c1596f48e16fe41619d22584acd6fd3b149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 05/13] fix: never put more than the block size into one
 compression block

---
 src/writer/compression.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/writer/compression.rs b/src/writer/compression.rs
index bc52cf7..7daaa92 100644
--- a/src/writer/compression.rs
+++ b/src/writer/compression.rs
@@ -94,6 +94,7 @@ struct BlockInfo {
 
 pub(crate) struct CompressionStream {
     compressor: Option<Box<dyn Compressor>>,
+    block_size: usize,
     buf: Buffer,
     output: Buffer,
     output_block_info: Vec<BlockInfo>,
@@ -120,6 +121,7 @@ impl CompressionStream {
     pub fn new(compression: &Compression) -> Self {
         CompressionStream {
             compressor: compression.compressor(),
+            block_size: compression.block_size(),
             buf: Buffer::with_capacity(compression.block_size()),
             output: Buffer::new(),
             output_block_info: Vec::new(),
@@ -167,7 +169,7 @@ impl CompressionStream {
 
     #[inline(always)]
     pub fn write_u8(&mut self, b: u8) {
-        if self.buf.len() >= self.buf.capacity() {
+        if self.buf.len() >= self.block_size {
             self.finish_block();
             self.buf.write_u8(b);
         } else {
@@ -176,20 +178,16 @@ impl CompressionStream {
     }
 
     #[inline(always)]
-    pub fn write_bytes(&mut self, bytes: &[u8]) {
-        if let Some(_) = &mut self.compressor {
-            if self.buf.len() + bytes.len() > self.buf.capacity() {
-                let i = self.buf.capacity() - self.buf.len();
+    pub fn write_bytes(&mut self, mut bytes: &[u8]) {
+        if let Some(_) = &self.compressor {
+            while self.buf.len() + bytes.len() > self.block_size {
+                let i = self.block_size - self.buf.len();
                 self.buf.write_bytes(&bytes[..i]);
                 self.finish_block();
-                self.buf.resize(0);
-                self.buf.write_bytes(&bytes[i..]);
-            } else {
-                self.buf.write_bytes(bytes);
+                bytes = &bytes[i..];
             }
-        } else {
-            self.buf.write_bytes(bytes);
         }
+        self.buf.write_bytes(bytes);
     }
 
     pub fn finish<W: Write>(&mut self, out: &mut W) -> Result<()> {
-- 
2.43.0


From d805cfb50e8f7510cb89a24f2e11b2eb226eef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 06/13] fix: reject a compression block size of zero

---
 src/writer/compression/snappy.rs | 2 +-
 src/writer/compression/zstd.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer/compression/snappy.rs b/src/writer/compression/snappy.rs
index d7ed2c8..7df4da1 100644
--- a/src/writer/compression/snappy.rs
+++ b/src/writer/compression/snappy.rs
@@ -16,7 +16,7 @@ impl SnappyCompression {
     }
 
     pub fn with_block_size(mut self, block_size: usize) -> Self {
-        assert!(block_size <= MAX_BLOCK_SIZE);
+        assert!(block_size > 0 && block_size <= MAX_BLOCK_SIZE);
         self.block_size = block_size;
         self
     } 
diff --git a/src/writer/compression/zstd.rs b/src/writer/compression/zstd.rs
index 045cdeb..779c9f1 100644
--- a/src/writer/compression/zstd.rs
+++ b/src/writer/compression/zstd.rs
@@ -20,7 +20,7 @@ impl ZstdCompression {
     }
 
     pub fn with_block_size(mut self, block_size: usize) -> Self {
-        assert!(block_size <= MAX_BLOCK_SIZE);
+        assert!(block_size > 0 && block_size <= MAX_BLOCK_SIZE);
         self.block_size = block_size;
         self
     }
-- 
2.43.0


From 16f66fda0eecf81cf1a481b0dee7116c0848ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 07/13] fix: do not lose header or postscript length bytes to
 short writes

---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index bd7aa2d..5dc7ec5 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -107,14 +107,14 @@ impl<W: Write> Writer<W> {
 
         let end_pos = self.inner.pos();
         let postscript_length = (end_pos - postscript_start_pos) as u8;
-        self.inner.write(slice::from_ref(&postscript_length))?;
+        self.inner.write_all(slice::from_ref(&postscript_length))?;
 
         self.inner.flush()?;
         Ok(self.inner.into_inner())
     }
 
     fn write_header(&mut self) -> Result<()> {
-        self.inner.write(b"ORC")?;
+        self.inner.write_all(b"ORC")?;
         Ok(())
     }
 
-- 
2.43.0


From 4b2f6dc2b48eccbb1c510258513650f1caf57a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 08/13] fix: reject a union tag equal to the number of variants

---
 src/writer/data/union.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/union.rs b/src/writer/data/union.rs
index 9f66a7c..89128ad 100644
--- a/src/writer/data/union.rs
+++ b/src/writer/data/union.rs
@@ -115,7 +115,7 @@ impl UnionData {
     }
 
     pub fn write(&mut self, tag: usize) {
-        if tag > self.child_counts.len() {
+        if tag >= self.child_counts.len() {
             panic!("tag ({}) out of range", tag);
         }
         self.streams.present.write(true);
-- 
2.43.0


From af88e79fbadb0847875c03aca1808339fb66d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 09/13] fix: refuse to continue a file after a stripe could not
 be written

---
 src/writer.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 5dc7ec5..e023956 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -1,7 +1,7 @@
 use super::protos::orc_proto;
 use super::schema::Schema;
 use protobuf::{CodedOutputStream, Message, RepeatedField};
-use std::io::{Result, Write};
+use std::io::{Error, ErrorKind, Result, Write};
 use std::slice;
 
 use count_write::CountWrite;
@@ -57,6 +57,9 @@ pub struct Writer<W: Write> {
     config: Config,
     current_stripe: Stripe,
     stripe_infos: Vec<StripeInfo>,
+    // Set while a stripe is being flushed, and left set if that fails: the output then ends
+    // in an incomplete stripe, and the rows of that stripe cannot be recovered.
+    flush_failed: bool,
 }
 
 impl<W: Write> Writer<W> {
@@ -68,6 +71,7 @@ impl<W: Write> Writer<W> {
             current_stripe: Stripe::new(schema, &config),
             config,
             stripe_infos: Vec::new(),
+            flush_failed: false,
         };
         writer.write_header()?;
         Ok(writer)
@@ -82,14 +86,25 @@ impl<W: Write> Writer<W> {
     }
 
     pub fn write_batch(&mut self, num_rows: u64) -> Result<()> {
+        self.check_usable()?;
         self.current_stripe.write_batch(num_rows)?;
         if self.current_stripe.data.estimated_size() > self.config.stripe_size {
+            self.flush_failed = true;
             self.current_stripe.finish(&mut self.inner, &mut self.stripe_infos)?;
+            self.flush_failed = false;
+        }
+        Ok(())
+    }
+
+    fn check_usable(&self) -> Result<()> {
+        if self.flush_failed {
+            return Err(Error::new(ErrorKind::Other, "an earlier stripe could not be written"));
         }
         Ok(())
     }
 
     pub fn finish(mut self) -> Result<W> {
+        self.check_usable()?;
         self.current_stripe
             .finish(&mut self.inner, &mut self.stripe_infos)?;
         let content_length = self.current_stripe.offset - Self::HEADER_LENGTH;
-- 
2.43.0


From da0b8b72385998609f786a7a8d25e2d7631dc5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 10/13] fix: serialise statistics of date columns as date
 statistics

---
 src/writer/data/long.rs  | 11 +++++++++--
 src/writer/statistics.rs | 15 +++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/writer/data/long.rs b/src/writer/data/long.rs
index e9e37a4..7f7f03a 100644
--- a/src/writer/data/long.rs
+++ b/src/writer/data/long.rs
@@ -103,6 +103,13 @@ impl LongData {
     pub fn schema(&self) -> &Schema {
         &self.schema
     }
+
+    fn generic_statistics(&self, stats: LongStatistics) -> Statistics {
+        match self.schema {
+            Schema::Date => Statistics::Date(stats),
+            _ => Statistics::Long(stats),
+        }
+    }
 }
 
 impl GenericData for LongData {
@@ -125,7 +132,7 @@ impl BaseData for LongData {
             let mut positions: Vec<u64> = Vec::new();
             entry.position.record(self.stripe_stats.has_null(), &mut positions);
             row_index_entry.set_positions(positions);
-            row_index_entry.set_statistics(Statistics::Long(entry.stats).to_proto());
+            row_index_entry.set_statistics(self.generic_statistics(entry.stats).to_proto());
             row_index_entries.push(row_index_entry);
         }
         write_index(row_index_entries, self.column_id(), &self.config.compression, out, stream_infos_out)?;
@@ -163,7 +170,7 @@ impl BaseData for LongData {
     }
 
     fn statistics(&self, out: &mut Vec<Statistics>) {
-        out.push(Statistics::Long(self.stripe_stats));
+        out.push(self.generic_statistics(self.stripe_stats));
     }
 
     fn estimated_size(&self) -> usize {
diff --git a/src/writer/statistics.rs b/src/writer/statistics.rs
index d3286ba..e24f479 100644
--- a/src/writer/statistics.rs
+++ b/src/writer/statistics.rs
@@ -24,6 +24,7 @@ mod binary;
 pub enum Statistics {
     Boolean(BooleanStatistics),
     Long(LongStatistics),
+    Date(LongStatistics),
     Double(DoubleStatistics),
     Decimal(DecimalStatistics),
     Timestamp(TimestampStatistics),
@@ -41,6 +42,10 @@ impl Statistics {
         if let Statistics::Long(x) = self { x } else { panic!("invalid argument to unwrap_long"); }
     }
 
+    pub fn unwrap_date(&self) -> &LongStatistics { 
+        if let Statistics::Date(x) = self { x } else { panic!("invalid argument to unwrap_date"); }
+    }
+
     pub fn unwrap_decimal(&self) -> &DecimalStatistics { 
         if let Statistics::Decimal(x) = self { x } else { panic!("invalid argument to unwrap_decimal"); }
     }
@@ -82,6 +87,12 @@ impl Statistics {
                 if let Some(x) = long_statistics.sum { int_stat.set_sum(x); }
                 stat.set_intStatistics(int_stat);
             }
+            Statistics::Date(d) => {
+                let mut date_stat = orc_proto::DateStatistics::new();
+                if let Some(x) = d.min { date_stat.set_minimum(x as i32); }
+                if let Some(x) = d.max { date_stat.set_maximum(x as i32); }
+                stat.set_dateStatistics(date_stat);
+            }
             Statistics::Decimal(d) => {
                 let mut dec_stat = orc_proto::DecimalStatistics::new();
                 if let Some(x) = d.min { dec_stat.set_minimum(d.format(x)); }
@@ -125,6 +136,7 @@ impl BaseStatistics for Statistics {
         match self {
             Statistics::Boolean(x) => x.update_null(),
             Statistics::Long(x) => x.update_null(),
+            Statistics::Date(x) => x.update_null(),
             Statistics::Double(x) => x.update_null(),
             Statistics::Decimal(x) => x.update_null(),
             Statistics::Timestamp(x) => x.update_null(),
@@ -138,6 +150,7 @@ impl BaseStatistics for Statistics {
         match self {
             Statistics::Boolean(x) => x.num_values(),
             Statistics::Long(x) => x.num_values(),
+            Statistics::Date(x) => x.num_values(),
             Statistics::Double(x) => x.num_values(),
             Statistics::Decimal(x) => x.num_values(),
             Statistics::Timestamp(x) => x.num_values(),
@@ -151,6 +164,7 @@ impl BaseStatistics for Statistics {
         match self {
             Statistics::Boolean(x) => x.num_present(),
             Statistics::Long(x) => x.num_present(),
+            Statistics::Date(x) => x.num_present(),
             Statistics::Double(x) => x.num_present(),
             Statistics::Decimal(x) => x.num_present(),
             Statistics::Timestamp(x) => x.num_present(),
@@ -164,6 +178,7 @@ impl BaseStatistics for Statistics {
         match self {
             Statistics::Boolean(x) => x.merge(rhs.unwrap_boolean()),
             Statistics::Long(x) => x.merge(rhs.unwrap_long()),
+            Statistics::Date(x) => x.merge(rhs.unwrap_date()),
             Statistics::Double(x) => x.merge(rhs.unwrap_double()),
             Statistics::Decimal(x) => x.merge(rhs.unwrap_decimal()),
             Statistics::Timestamp(x) => x.merge(rhs.unwrap_timestamp()),
-- 
2.43.0


From 41305e6eb99b8bfbbc12993ec2a0e6d7a294e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 11/13] fix: store times before the Unix epoch the way ORC
 readers read them back

Readers take one second off timestamps before 1970 that have more than 999999
nanoseconds, so writers store those one second later; without this they were
read back one second early.
---
 src/writer/data/timestamp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 0810559..b72191b 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -125,8 +125,12 @@ impl TimestampData {
             }
         }
 
+        // Readers take one second off times before the UNIX epoch that have more than 999999
+        // nanoseconds (see ORC-763), so like the other ORC writers we store these one second later.
+        let stored_sec = if sec < Self::EPOCH_SECONDS && nanos > 999_999 { sec + 1 } else { sec };
+
         self.streams.present.write(true);
-        self.streams.seconds.write(sec);
+        self.streams.seconds.write(stored_sec);
         self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
         self.row_group_stats.update((sec - Self::EPOCH_SECONDS) * 1000 + (nanos / 1000000) as i64);
         self.check_row_group();
-- 
2.43.0


From 8e65ba8770234a9d3e30a7d2231fb0f225eb9b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 12/13] fix: name UTC as the writer's time zone in stripe
 footers

Timestamps are stored relative to 2015-01-01 00:00:00 UTC. When a stripe footer
names no writer time zone, ORC readers take them as relative to that date in
the zone the reader runs in, so a reader outside UTC recovered other instants.
---
 src/writer/stripe.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index aa72ad5..74ea383 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -71,6 +71,10 @@ impl Stripe {
         self.data.column_encodings(&mut encodings);
         footer.set_columns(RepeatedField::from_vec(encodings));
 
+        // Timestamps count from 2015-01-01 in UTC. Readers would otherwise take them as counting
+        // from that date in their own time zone.
+        footer.set_writerTimezone("UTC".to_owned());
+
         footer.write_to(&mut coded_out)?;
         coded_out.flush()?;
         compressed_stream.finish(out)?;
-- 
2.43.0


From 908859061ffb32a8af4bdf7fca0bd088faf88f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 13/13] fix: give timestamp bounds in the UTC fields of their
 statistics

The postscript declares a writer version of 6 (ORC-135), from which on the
bounds are expected in minimumUtc and maximumUtc; readers convert the older
fields from their local time zone, so predicate push-down outside UTC could
skip row groups that match.
---
 src/writer/statistics.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/writer/statistics.rs b/src/writer/statistics.rs
index e24f479..954d171 100644
--- a/src/writer/statistics.rs
+++ b/src/writer/statistics.rs
@@ -104,6 +104,10 @@ impl Statistics {
                 let mut ts_stat = orc_proto::TimestampStatistics::new();
                 if let Some(x) = d.min_epoch_millis { ts_stat.set_minimum(x); }
                 if let Some(x) = d.max_epoch_millis { ts_stat.set_maximum(x); }
+                // The writer version says that timestamp statistics are in UTC (ORC-135), and that is
+                // where readers look for them: they take the fields above to be in local time.
+                if let Some(x) = d.min_epoch_millis { ts_stat.set_minimumUtc(x); }
+                if let Some(x) = d.max_epoch_millis { ts_stat.set_maximumUtc(x); }
                 stat.set_timestampStatistics(ts_stat);
             }
             Statistics::Double(double_statistics) => {
-- 
2.43.0

