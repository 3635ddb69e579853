From 476a64b3bafb174436310f391a8e7a0b5bcbf19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 01/35] fix: return the header verification failure from
 FcbReader::open

---
 src/rust/fcb_core/src/reader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 522fefc..06234e3 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -108,7 +108,7 @@ impl<R: Read> FcbReader<R> {
         reader.read_exact(&mut header_buf[4..])?;
 
         if verify {
-            let _header = size_prefixed_root_as_header(&header_buf);
+            let _header = size_prefixed_root_as_header(&header_buf)?;
         }
 
         Ok(FcbReader {
-- 
2.43.0


From 59ebd9e31c9c86ec6bd94c9405faac7c4b8455b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:26 +0000
Subject: [PATCH 02/35] fix: search the spatial index with the node size of the
 file's header

---
 src/rust/fcb_core/src/http_reader/mod.rs | 2 +-
 src/rust/fcb_core/src/reader/mod.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index a9deae9..a40b423 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -209,7 +209,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             header_len,
             attr_index_size,
             count,
-            PackedRTree::DEFAULT_NODE_SIZE,
+            header.index_node_size(),
             query,
             combine_request_threshold,
         )
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 06234e3..8e4f276 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -213,7 +213,7 @@ impl<R: Read + Seek> FcbReader<R> {
         let list = PackedRTree::stream_search(
             &mut self.reader,
             header.features_count() as usize,
-            PackedRTree::DEFAULT_NODE_SIZE,
+            header.index_node_size(),
             query,
         )?;
         debug_assert!(
-- 
2.43.0


From 75667bb1553c2a79f55003d0d3c4a699af1c67cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:42 +0000
Subject: [PATCH 03/35] fix: store the number of features written in the header

---
 src/rust/fcb_core/src/writer/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 5d0ea56..fba49fb 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -260,6 +260,9 @@ impl<'a> FcbWriter<'a> {
             }
         }
 
+        // the header describes what was actually added, not what was announced up front
+        self.header_writer.header_options.feature_count = self.feat_offsets.len() as u64;
+
         // write header with attribute indices metadata
         self.header_writer.attribute_indices_info = Some(attr_index_info);
         let header_buf = self.header_writer.finish_to_header()?;
-- 
2.43.0


From 4075c80c4632969ba3e767ca54fa3b1ca7e83ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:34 +0000
Subject: [PATCH 04/35] fix: index only values an object actually carries,
 never a default

---
 src/rust/fcb_core/src/writer/attribute.rs | 40 ++++++++++++-----------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 119b1c0..af7fac4 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -254,70 +254,72 @@ pub fn attribute_to_index_entries(
         if let Some((index, coltype)) = index_coltype {
             match *coltype {
                 ColumnType::Bool => {
-                    let b = val.as_bool().unwrap_or(false);
+                    let Some(b) = val.as_bool() else { continue };
                     index_entries.push(AttributeIndexEntry::Bool {
                         index: *index,
                         val: b,
                     });
                 }
                 ColumnType::Int => {
-                    let i = val.as_i64().unwrap_or(0);
+                    let Some(i) = val.as_i64().and_then(|i| i32::try_from(i).ok()) else {
+                        continue;
+                    };
                     index_entries.push(AttributeIndexEntry::Int {
                         index: *index,
-                        val: i as i32,
+                        val: i,
                     });
                 }
                 ColumnType::UInt => {
-                    let i = val.as_u64().unwrap_or(0);
+                    let Some(i) = val.as_u64().and_then(|i| u32::try_from(i).ok()) else {
+                        continue;
+                    };
                     index_entries.push(AttributeIndexEntry::UInt {
                         index: *index,
-                        val: i as u32,
+                        val: i,
                     });
                 }
                 ColumnType::Long => {
-                    let i = val.as_i64().unwrap_or(0);
+                    let Some(i) = val.as_i64() else { continue };
                     index_entries.push(AttributeIndexEntry::Long {
                         index: *index,
                         val: i as i64,
                     });
                 }
                 ColumnType::ULong => {
-                    let i = val.as_u64().unwrap_or(0);
+                    let Some(i) = val.as_u64() else { continue };
                     index_entries.push(AttributeIndexEntry::ULong {
                         index: *index,
                         val: i as u64,
                     });
                 }
                 ColumnType::Float => {
-                    let f = val.as_f64().unwrap_or(0.0);
+                    let Some(f) = val.as_f64() else { continue };
                     index_entries.push(AttributeIndexEntry::Float {
                         index: *index,
                         val: f as f32,
                     });
                 }
                 ColumnType::Double => {
-                    let f = val.as_f64().unwrap_or(0.0);
+                    let Some(f) = val.as_f64() else { continue };
                     index_entries.push(AttributeIndexEntry::Double {
                         index: *index,
                         val: f,
                     });
                 }
                 ColumnType::String => {
+                    let Some(s) = val.as_str() else { continue };
                     index_entries.push(AttributeIndexEntry::String {
                         index: *index,
-                        val: val.as_str().unwrap_or("").to_string(),
+                        val: s.to_string(),
                     });
                 }
                 ColumnType::DateTime => {
-                    let dt = match chrono::DateTime::parse_from_rfc3339(val.as_str().unwrap_or(""))
-                    {
-                        Ok(dt) => dt.to_utc(),
-                        Err(e) => {
-                            eprintln!("Failed to parse DateTime: {}", e);
-                            // Choose whether to skip, default, or handle differently
-                            // For example, default to 1970-01-01:
-                            DateTime::<Utc>::from_timestamp(0, 0).unwrap()
-                        }
+                    let Some(dt) = val
+                        .as_str()
+                        .and_then(|s| chrono::DateTime::parse_from_rfc3339(s).ok())
+                        .map(|dt| dt.to_utc())
+                    else {
+                        continue;
                     };
                     index_entries.push(AttributeIndexEntry::DateTime {
                         index: *index,
-- 
2.43.0


From 6890352c1ffa148cecc388fb60d493bca839f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 05/35] fix: keep column indexes unique when attributes are not
 an object

---
 src/rust/fcb_core/src/writer/attribute.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index af7fac4..9aaf7bb 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -15,7 +15,9 @@ pub trait AttributeSchemaMethods {
 impl AttributeSchemaMethods for AttributeSchema {
     fn add_attributes(&mut self, attrs: &Value) {
         if !attrs.is_object() {
-            self.insert("json".to_string(), (self.len() as u16, ColumnType::Json));
+            if !self.contains_key("json") {
+                self.insert("json".to_string(), (self.len() as u16, ColumnType::Json));
+            }
             return;
         }
 
-- 
2.43.0


From 2331216341e01b76b2233548afdb5adc94292de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:19 +0000
Subject: [PATCH 06/35] fix: open Long and Byte attribute indexes with the key
 type they were built with

---
 src/rust/fcb_core/src/http_reader/mod.rs   | 10 ++++++++++
 src/rust/fcb_core/src/reader/attr_query.rs | 17 +++++++++++++++++
 src/rust/fcb_core/src/writer/attr_index.rs |  4 ++--
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index a40b423..25d2455 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -420,6 +420,16 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                     );
                     multi_index.add_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = HttpIndex::<i64>::new(
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                        index_begin,
+                        feature_begin,
+                        1024 * 1024, // combine_request_threshold
+                    );
+                    multi_index.add_index(col.name().to_string(), index);
+                }
                 ColumnType::Byte => {
                     let index = HttpIndex::<i8>::new(
                         attr_info.num_unique_items() as usize,
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index ebf8bd4..2ce2ba8 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -114,6 +114,14 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                     )?;
                     multi_index.add_u64_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = MemoryIndex::<i64>::from_buf(
+                        &mut buf,
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                    )?;
+                    multi_index.add_i64_index(col.name().to_string(), index);
+                }
                 ColumnType::Byte => {
                     let index = MemoryIndex::<i8>::from_buf(
                         &mut buf,
@@ -252,6 +260,15 @@ pub fn add_indices_to_multi_stream_index<R: Read + Seek>(
                 );
                 multi_index.add_u64_index(col.name().to_string(), index, attr_info.length() as u64);
             }
+            ColumnType::Long => {
+                let index = StreamIndex::<i64>::new(
+                    attr_info.num_unique_items() as usize,
+                    attr_info.branching_factor(),
+                    index_begin,
+                    attr_info.length() as u64,
+                );
+                multi_index.add_i64_index(col.name().to_string(), index, attr_info.length() as u64);
+            }
             ColumnType::Byte => {
                 let index = StreamIndex::<i8>::new(
                     attr_info.num_unique_items() as usize,
diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index f8b70ca..dc81747 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -237,13 +237,13 @@ pub(super) fn build_attribute_index_for_attr(
             },
             branching_factor,
         ),
-        ColumnType::Byte => build_index_generic::<u8, _>(
+        ColumnType::Byte => build_index_generic::<i8, _>(
             *schema_index,
             attribute_entries,
             |entry| {
                 if let AttributeIndexEntry::Byte { index, val } = entry {
                     if *index == *schema_index {
-                        Some(*val)
+                        Some(*val as i8)
                     } else {
                         None
                     }
-- 
2.43.0


From 3b3f98fe605543797dee740d8837247289843efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:54 +0000
Subject: [PATCH 07/35] fix: keep diagnostics off standard output

---
 src/rust/cli/src/main.rs                           | 2 --
 src/rust/fcb_core/src/http_reader/mod.rs           | 4 ----
 src/rust/fcb_core/src/reader/attr_query.rs         | 2 --
 src/rust/fcb_core/src/static_btree/query/stream.rs | 3 ---
 src/rust/fcb_core/src/static_btree/stree.rs        | 4 ----
 src/rust/fcb_core/src/writer/attr_index.rs         | 1 -
 src/rust/fcb_core/src/writer/attribute.rs          | 3 +--
 src/rust/fcb_core/src/writer/serializer.rs         | 4 ++--
 8 files changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index a8e25e7..4c3115b 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -253,8 +253,6 @@ fn serialize(
         geographical_extent: geo_extent,
     };
 
-    println!("header_options in cli: {:?}", header_options);
-
     let mut fcb = FcbWriter::new(cj, Some(header_options), attr_schema, semantic_attr_schema)?;
 
     for feature in filtered_features.iter() {
diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 25d2455..73dabc3 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -297,7 +297,6 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             count
         );
 
-        println!("http_ranges: {:?}", http_ranges);
         Ok(AsyncFeatureIter {
             client: self.client,
             fbs: self.fbs,
@@ -452,7 +451,6 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                 }
 
                 _ => {
-                    println!("Unsupported column type: {:?}", col.type_());
                     return Err(Error::UnsupportedColumnType(col.name().to_string()));
                 }
             }
@@ -690,13 +688,11 @@ impl SelectAttr {
         &mut self,
         client: &mut AsyncBufferedHttpRangeClient<T>,
     ) -> Result<Option<Bytes>> {
-        println!("self.range_pos: {:?}", self.range_pos);
         let Some(range) = self.ranges.get(self.range_pos) else {
             return Ok(None);
         };
         let mut feature_buffer = BytesMut::from(client.get_range(range.start(), 4).await?);
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        println!("feature_size: {:?}", feature_size);
         feature_buffer.put(client.get_range(range.start() + 4, feature_size).await?);
         self.range_pos += 1;
         Ok(Some(feature_buffer.freeze()))
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 2ce2ba8..aa998c0 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -140,8 +140,6 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                 }
                 _ => return Err(Error::UnsupportedColumnType(col.name().to_string())),
             }
-        } else {
-            println!("  - Skipping index for field: {}", col.name());
         }
     }
     Ok(())
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 0628140..52efea4 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -410,9 +410,6 @@ impl StreamMultiIndex {
             let index_start = start_position + index_range.start as u64;
             // set cursor to the start of the index
             reader.seek(SeekFrom::Start(index_start))?;
-            println!("index_start: {}", index_start);
-            println!("start_position: {}", start_position);
-            println!("query condition: {:?}", cond);
             let condition_results = indexer.execute_query_condition(reader, cond)?;
             result_set.retain(|offset| condition_results.contains(offset));
             if result_set.is_empty() {
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 239a5de..14d8795 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -1643,12 +1643,8 @@ impl<K: Key> Stree<K> {
             for item in node_items.iter() {
                 if item.key >= lower && item.key <= upper {
                     let off = item.offset;
-
-                    println!("off: {:?}", off);
-
                     if (off & PAYLOAD_TAG) != 0 {
                         let rel = (off & PAYLOAD_MASK) as usize;
-                        println!("rel: {:?}", rel);
                         // Add as indirect reference to be resolved in batch
                         payload_refs.push(PayloadRef::Indirect(rel));
                     } else {
diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index dc81747..41ca7eb 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -302,7 +302,6 @@ pub(super) fn build_attribute_index_for_attr(
             branching_factor,
         ),
         _ => {
-            println!("Unsupported column type for indexing: {:?}", coltype);
             Err(Error::UnsupportedColumnType(format!("{:?}", coltype)))
         }
     }
diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 9aaf7bb..bd38d33 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -247,7 +247,6 @@ pub fn attribute_to_index_entries(
         let val: &Value = match map.get(attr) {
             Some(val) => val,
             None => {
-                println!("Attribute {} not found in schema", attr);
                 continue;
             }
         };
@@ -330,7 +329,7 @@ pub fn attribute_to_index_entries(
                 }
                 _ => {
                     //Byte, Ubyte,
-                    println!("Attribute {} is not supported for indexing", attr);
+                    eprintln!("Attribute {} is not supported for indexing", attr);
                 }
             }
         }
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 81800dd..c206bf6 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -271,11 +271,11 @@ pub(super) fn to_reference_system<'a>(
     let authority = Some(fbb.create_string(&ref_system.authority));
 
     let version = ref_system.version.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse version: {}", e);
+        eprintln!("failed to parse version: {}", e);
         0
     });
     let code = ref_system.code.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse code: {}", e);
+        eprintln!("failed to parse code: {}", e);
         0
     });
 
-- 
2.43.0


From 11c083addb1b8ac2c0bb34346a0b318c08492851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:06 +0000
Subject: [PATCH 08/35] fix: report write failures of bool and string index
 keys

---
 src/rust/fcb_core/src/static_btree/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 9b1c20a..42d3a71 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -375,7 +375,7 @@ impl Key for bool {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&[*self as u8]).map_err(Error::from);
+        writer.write_all(&[*self as u8])?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
@@ -448,7 +448,7 @@ impl<const N: usize> Key for FixedStringKey<N> {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&self.0).map_err(Error::from);
+        writer.write_all(&self.0)?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
-- 
2.43.0


From cc138c5d4d9512635867fe8a003448afe0a90a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:48 +0000
Subject: [PATCH 09/35] fix: fetch duplicate groups completely over HTTP or
 report the error

---
 src/rust/fcb_core/src/static_btree/stree.rs | 35 ++++++++++++---------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 14d8795..4350f17 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -104,12 +104,16 @@ async fn read_http_payload_data<T: AsyncHttpRangeClient>(
     client: &mut AsyncBufferedHttpRangeClient<T>,
     offset: usize,
 ) -> Result<PayloadEntry> {
-    let temp_buffered_count_bytes_size = DEFAULT_MIN_REQ_SIZE; //This is hueristic, we don't know the size of the payload. TODO: find a better way
-
     debug!("sending request to fetch payload, offset {offset:?}");
 
+    // the number of offsets comes first, and gives the exact size of the entry
+    let count_size = std::mem::size_of::<u32>();
+    let mut count_data = Cursor::new(client.get_range(offset, count_size).await?);
+    let mut count = [0u8; 4];
+    count_data.read_exact(&mut count)?;
+    let count = u32::from_le_bytes(count) as usize;
     let payload_data = client
-        .get_range(offset, temp_buffered_count_bytes_size)
+        .get_range(offset, count_size + count * std::mem::size_of::<Offset>())
         .await?;
     let mut buf = Cursor::new(payload_data);
 
@@ -325,6 +329,7 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
 
     // Fetch each range and process
     let mut fetched_payloads = HashMap::new();
+    let mut incomplete_offsets = Vec::new();
 
     for (start, end) in offset_ranges {
         // Calculate fetch size to include the complete payload entries
@@ -340,22 +345,24 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
         {
             let relative_offset = offset - start;
 
-            // Make sure we have enough data
-            if relative_offset < payload_data.len() {
-                let mut buf = Cursor::new(&payload_data[relative_offset..]);
-                match PayloadEntry::deserialize(&mut buf) {
-                    Ok((entry, _)) => {
-                        fetched_payloads.insert(offset, entry);
-                    }
-                    Err(e) => {
-                        debug!("error deserializing payload at offset {}: {:?}", offset, e);
-                        // Continue with other offsets on error
-                    }
+            let entry = payload_data
+                .get(relative_offset..)
+                .map(|data| PayloadEntry::deserialize(&mut Cursor::new(data)));
+            match entry {
+                Some(Ok((entry, _))) => {
+                    fetched_payloads.insert(offset, entry);
                 }
+                // The entry does not lie within the fetched margin
+                _ => incomplete_offsets.push(offset),
             }
         }
     }
 
+    for offset in incomplete_offsets {
+        let entry = read_http_payload_data(client, offset).await?;
+        fetched_payloads.insert(offset, entry);
+    }
+
     // Process the fetched payloads and add to results
     for &offset in &payload_offsets_to_fetch {
         if let Some(entry) = fetched_payloads.get(&offset) {
-- 
2.43.0


From 8d773cea87e85508e9b4526f6cf493a9d7fc8d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:02 +0000
Subject: [PATCH 10/35] fix: restore the stream position when a query matches
 nothing

---
 src/rust/fcb_core/src/static_btree/query/stream.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 52efea4..5169c58 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -393,11 +393,11 @@ impl StreamMultiIndex {
         reader.seek(SeekFrom::Start(start_position + index_range.start as u64))?;
 
         let mut result_set = indexer.execute_query_condition(reader, first)?;
+        // set cursor to the start of the index
+        reader.seek(SeekFrom::Start(start_position))?;
         if result_set.is_empty() {
             return Ok(vec![]);
         }
-        // set cursor to the start of the index
-        reader.seek(SeekFrom::Start(start_position))?;
 
         for cond in &conditions[1..] {
             let start_position = reader.stream_position()?;
@@ -413,6 +413,7 @@ impl StreamMultiIndex {
             let condition_results = indexer.execute_query_condition(reader, cond)?;
             result_set.retain(|offset| condition_results.contains(offset));
             if result_set.is_empty() {
+                reader.seek(SeekFrom::Start(start_position))?;
                 return Ok(vec![]); // no results found for this condition, return early so we don't waste time intersecting empty sets
             }
             // set cursor to the start of the index
-- 
2.43.0


From 9c7beed06311073b87157a4def9c1c60c30c2f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 11/35] fix: report attribute index failures, and skip
 attributes without values

---
 src/rust/fcb_core/src/writer/attr_index.rs | 15 ++++++++++-----
 src/rust/fcb_core/src/writer/mod.rs        |  4 ++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index 41ca7eb..97854d2 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -17,7 +17,7 @@ fn build_index_generic<T, F>(
     attribute_entries: &HashMap<usize, AttributeFeatureOffset>,
     extract: F,
     branching_factor: u16,
-) -> Result<(Vec<u8>, AttributeIndexInfo)>
+) -> Result<Option<(Vec<u8>, AttributeIndexInfo)>>
 where
     T: Key,
     F: Fn(&AttributeIndexEntry) -> Option<T>,
@@ -36,11 +36,16 @@ where
         }
     }
 
+    // a tree needs at least one entry; an attribute without any value gets no index
+    if entries.is_empty() {
+        return Ok(None);
+    }
+
     let index = MemoryIndex::<T>::build(&entries, branching_factor)?;
     let mut buf = Vec::new();
     index.serialize(&mut buf)?;
     let buf_length = buf.len();
-    Ok((
+    Ok(Some((
         buf,
         AttributeIndexInfo {
             index: schema_index,
@@ -48,7 +53,7 @@ where
             branching_factor: index.branching_factor(),
             num_unique_items: index.num_items() as u32,
         },
-    ))
+    )))
 }
 
 pub(super) fn build_attribute_index_for_attr(
@@ -56,8 +61,8 @@ pub(super) fn build_attribute_index_for_attr(
     schema: &AttributeSchema,
     attribute_entries: &HashMap<usize, AttributeFeatureOffset>,
     branching_factor: u16,
-) -> Result<(Vec<u8>, AttributeIndexInfo)> {
-    // Look up attribute info from schema; if not found, return None
+) -> Result<Option<(Vec<u8>, AttributeIndexInfo)>> {
+    // Look up attribute info from schema; it is an error if it is not there
     let (schema_index, coltype) = schema.get(attr_name).ok_or(Error::AttributeIndexNotFound)?;
 
     match *coltype {
diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index fba49fb..0f1c2cf 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -248,12 +248,12 @@ impl<'a> FcbWriter<'a> {
         if let Some(sorted_indices) = &attr_indices {
             for (name, bf_opt) in sorted_indices {
                 let bf = bf_opt.unwrap_or(crate::static_btree::DEFAULT_BRANCHING_FACTOR);
-                if let Ok((buf, info)) = build_attribute_index_for_attr(
+                if let Some((buf, info)) = build_attribute_index_for_attr(
                     name,
                     &self.attr_schema,
                     &self.attribute_index_entries,
                     bf,
-                ) {
+                )? {
                     attr_index_info.push(info);
                     attr_index_buf.extend(&buf);
                 }
-- 
2.43.0


From 3f867809dd0a7dba737ebe239c29dfa634bf9553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:03 +0000
Subject: [PATCH 12/35] fix: decode Byte, UByte and Binary attributes

---
 src/rust/fcb_core/src/reader/deserializer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index c447cb8..1a224df 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -294,6 +294,20 @@ pub fn decode_attributes(
                 );
                 offset += size_of::<u8>();
             }
+            ColumnType::Byte => {
+                map.insert(
+                    column.name().to_string(),
+                    serde_json::Value::Number(serde_json::Number::from(bytes[offset] as i8)),
+                );
+                offset += size_of::<i8>();
+            }
+            ColumnType::UByte => {
+                map.insert(
+                    column.name().to_string(),
+                    serde_json::Value::Number(serde_json::Number::from(bytes[offset])),
+                );
+                offset += size_of::<u8>();
+            }
             ColumnType::Short => {
                 map.insert(
                     column.name().to_string(),
@@ -344,7 +358,7 @@ pub fn decode_attributes(
                 }
                 offset += size_of::<f64>();
             }
-            ColumnType::String => {
+            ColumnType::String | ColumnType::Binary => {
                 let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
                 offset += size_of::<u32>();
                 let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
-- 
2.43.0


From 7509942e7ca06daa7577a3746af94a77851737a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 13/35] fix: build the attribute schema from every feature

---
 src/rust/cli/src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 4c3115b..4d75392 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -171,8 +171,7 @@ fn serialize(
 
     let attr_schema = {
         let mut schema = AttributeSchema::new();
-        // Limit to max 1000 features for schema building to have faster build time
-        for feature in filtered_features.iter().take(1000) {
+        for feature in filtered_features.iter() {
             for (_, co) in feature.city_objects.iter() {
                 if let Some(attributes) = &co.attributes {
                     schema.add_attributes(attributes);
-- 
2.43.0


From e2c65fc975f4744477d280acb0ab54496c4c622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 14/35] fix: deserialize reports a feature that cannot be read

---
 src/rust/cli/src/main.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 4d75392..6e96089 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -386,16 +386,9 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
     writeln!(writer, "{}", serde_json::to_string(&cj)?)?;
 
     // Write features
-    let feat_count = header.features_count();
-    let mut feat_num = 0;
-    while let Ok(Some(feat_buf)) = fcb_reader.next() {
+    while let Some(feat_buf) = fcb_reader.next()? {
         let feature = feat_buf.cur_cj_feature()?;
         writeln!(writer, "{}", serde_json::to_string(&feature)?)?;
-
-        feat_num += 1;
-        if feat_num >= feat_count {
-            break;
-        }
     }
 
     if output != "-" {
-- 
2.43.0


From 4099c3bf44bffa10a95807044e5c0fe956ae64c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:13 +0000
Subject: [PATCH 15/35] fix: flush buffered output before reporting success

---
 src/rust/cli/src/main.rs            | 7 +++++--
 src/rust/fcb_core/src/writer/mod.rs | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 6e96089..fbd8222 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -390,6 +390,7 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
         let feature = feat_buf.cur_cj_feature()?;
         writeln!(writer, "{}", serde_json::to_string(&feature)?)?;
     }
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("Successfully decoded to CityJSON");
@@ -399,15 +400,16 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
 
 fn encode_cbor(input: &str, output: &str) -> Result<(), Error> {
     let reader = BufReader::new(get_reader(input)?);
-    let writer = BufWriter::new(get_writer(output)?);
+    let mut writer = BufWriter::new(get_writer(output)?);
 
     let value: serde_json::Value = serde_json::from_reader(reader)?;
-    serde_cbor::to_writer(writer, &value).map_err(|e| {
+    serde_cbor::to_writer(&mut writer, &value).map_err(|e| {
         Error::IoError(std::io::Error::new(
             std::io::ErrorKind::Other,
             format!("failed to encode to cbor: {}", e),
         ))
     })?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("successfully encoded to cbor");
@@ -439,6 +441,7 @@ fn encode_bson(input: &str, output: &str) -> Result<(), Error> {
             format!("failed to encode to bson: {}", e),
         ))
     })?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("successfully encoded to bson");
diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 0f1c2cf..1018e81 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -272,6 +272,7 @@ impl<'a> FcbWriter<'a> {
         out.write_all(&rtree_buf)?;
         out.write_all(&attr_index_buf)?;
         out.write_all(&sorted_feature_buf)?;
+        out.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 25ed289414be17c640484cb0437955eb8f7cced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 16/35] fix: report data that ends before all selected features
 were read

---
 src/rust/fcb_core/src/reader/attr_query.rs |  8 ++--
 src/rust/fcb_core/src/reader/mod.rs        | 43 ++++++++++++++--------
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index aa998c0..8233946 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -419,7 +419,7 @@ impl<R: Read + Seek> FcbReader<R> {
         self.reader
             .seek(SeekFrom::Start(attr_index_start_pos + attr_index_size))?;
 
-        Ok(FeatureIter::<R, Seekable>::new(
+        FeatureIter::<R, Seekable>::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -427,7 +427,7 @@ impl<R: Read + Seek> FcbReader<R> {
             Some(result_vec),
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -497,7 +497,7 @@ impl<R: Read> FcbReader<R> {
         let total_feat_count = result.len() as u64;
 
         // Create and return the FeatureIter
-        Ok(FeatureIter::<R, NotSeekable>::new(
+        FeatureIter::<R, NotSeekable>::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -505,6 +505,6 @@ impl<R: Read> FcbReader<R> {
             Some(result),
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 8e4f276..c099b1b 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -132,7 +132,7 @@ impl<R: Read> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = self.buffer.header().features_count();
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -140,7 +140,7 @@ impl<R: Read> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 
     pub fn select_query_seq(mut self, query: Query) -> Result<FeatureIter<R, NotSeekable>, Error> {
@@ -169,7 +169,7 @@ impl<R: Read> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = list.len() as u64;
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -177,7 +177,7 @@ impl<R: Read> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -193,7 +193,7 @@ impl<R: Read + Seek> FcbReader<R> {
         let index_size = self.attr_index_size() + self.rtree_index_size();
         self.reader.seek(SeekFrom::Current(index_size as i64))?;
         let total_feat_count = self.buffer.header().features_count();
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -201,7 +201,7 @@ impl<R: Read + Seek> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 
     pub fn select_query(mut self, query: Query) -> Result<FeatureIter<R, Seekable>, Error> {
@@ -230,7 +230,7 @@ impl<R: Read + Seek> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = list.len() as u64;
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -238,7 +238,7 @@ impl<R: Read + Seek> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -452,7 +452,7 @@ impl<R: Read, S> FeatureIter<R, S> {
         item_attr_filter: Option<Vec<Offset>>,
         feature_offset: FeatureOffset,
         total_feat_count: u64,
-    ) -> FeatureIter<R, S> {
+    ) -> Result<FeatureIter<R, S>, Error> {
         let mut iter = FeatureIter {
             reader,
             verify,
@@ -468,7 +468,7 @@ impl<R: Read, S> FeatureIter<R, S> {
             total_feat_count,
         };
 
-        if iter.read_feature_size() {
+        if iter.read_feature_size()? {
             iter.state = State::Finished;
         } else {
             iter.state = State::ReadFirstFeatureSize
@@ -488,7 +488,12 @@ impl<R: Read, S> FeatureIter<R, S> {
             }
         };
 
-        iter
+        if iter.state == State::Finished && iter.count != Some(0) {
+            // features are missing: let the first advance report it
+            iter.state = State::Reading;
+        }
+
+        Ok(iter)
     }
 
     pub fn header(&self) -> Header {
@@ -525,12 +530,14 @@ impl<R: Read, S> FeatureIter<R, S> {
     }
 
     /// Read feature size and return true if end of dataset reached
-    fn read_feature_size(&mut self) -> bool {
+    fn read_feature_size(&mut self) -> Result<bool, Error> {
         self.buffer.features_buf.resize(4, 0);
         self.cur_pos += 4;
-        self.reader
-            .read_exact(&mut self.buffer.features_buf)
-            .is_err()
+        match self.reader.read_exact(&mut self.buffer.features_buf) {
+            Ok(()) => Ok(false),
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => Ok(true),
+            Err(e) => Err(e.into()),
+        }
     }
 
     fn read_feature(&mut self) -> Result<(), Error> {
@@ -539,8 +546,12 @@ impl<R: Read, S> FeatureIter<R, S> {
                 self.state = State::Reading;
             }
             State::Reading => {
-                if self.read_feature_size() {
+                if self.read_feature_size()? {
                     self.state = State::Finished;
+                    if self.count.is_some() {
+                        // fewer features than the header or the index announced
+                        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+                    }
                     return Ok(());
                 }
             }
-- 
2.43.0


From b95b0b4cfbd9cdc30ace21f28fbc8e52483b039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 17/35] fix: report an attribute index size overflow over HTTP
 instead of assuming no index

---
 src/rust/fcb_core/src/http_reader/mod.rs | 42 +++++++++++-------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 73dabc3..1222c2f 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -149,35 +149,33 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         }
     }
 
-    fn attr_index_size(&self) -> usize {
+    fn attr_index_size(&self) -> Result<usize> {
         let header = self.fbs.header();
-        header
-            .attribute_index()
-            .map(|attr_index| {
-                attr_index
-                    .iter()
-                    .try_fold(0, |acc, ai| {
-                        let len = ai.length() as usize;
-                        if len > usize::MAX - acc {
-                            Err(Error::AttributeIndexSizeOverflow)
-                        } else {
-                            Ok(acc + len)
-                        }
-                    }) // sum of all attribute index lengths
-                    .unwrap_or(0)
-            })
-            .unwrap_or(0)
+        match header.attribute_index() {
+            Some(attr_index) => {
+                // sum of all attribute index lengths
+                attr_index.iter().try_fold(0, |acc, ai| {
+                    let len = ai.length() as usize;
+                    if len > usize::MAX - acc {
+                        Err(Error::AttributeIndexSizeOverflow)
+                    } else {
+                        Ok(acc + len)
+                    }
+                })
+            }
+            None => Ok(0),
+        }
     }
 
-    fn index_size(&self) -> usize {
-        self.rtree_index_size() + self.attr_index_size()
+    fn index_size(&self) -> Result<usize> {
+        Ok(self.rtree_index_size() + self.attr_index_size()?)
     }
 
     /// Select all features.
     pub async fn select_all(self) -> Result<AsyncFeatureIter<T>> {
         let header = self.fbs.header();
         let count = header.features_count();
-        let index_size = self.index_size() as usize;
+        let index_size = self.index_size()?;
         // Skip index
         let feature_base = self.header_len() + index_size;
         Ok(AsyncFeatureIter {
@@ -203,7 +201,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
 
         // request up to this many extra bytes if it means we can eliminate an extra request
         let combine_request_threshold = 256 * 1024;
-        let attr_index_size = self.attr_index_size() as usize;
+        let attr_index_size = self.attr_index_size()?;
         let list = PackedRTree::http_stream_search(
             &mut self.client,
             header_len,
@@ -243,7 +241,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         // file structure:
         // magic_bytes + header + rtree_index + attr_index1 + attr_index2 + ... + features
         let rtree_index_size = self.rtree_index_size() as usize;
-        let attr_index_size = self.attr_index_size() as usize;
+        let attr_index_size = self.attr_index_size()?;
         let attr_index_begin = header_len + rtree_index_size;
         let feature_begin = header_len + rtree_index_size + attr_index_size;
 
-- 
2.43.0


From a959b73ed70d62405322d1950280b3077e4b7683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:36 +0000
Subject: [PATCH 18/35] fix: report an unreadable thoroughfare number instead
 of dropping the address

---
 src/rust/fcb_core/src/reader/deserializer.rs | 39 ++++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 1a224df..074428e 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -177,26 +177,41 @@ pub(crate) fn to_cj_point_of_contact(header: &Header) -> Result<CjPointOfContact
             .ok_or(Error::MissingRequiredField("email_address".to_string()))?
             .to_string(),
         website: header.poc_website().map(|w| w.to_string()),
-        address: to_cj_address(header),
+        address: to_cj_address(header)?,
     })
 }
 
-pub(crate) fn to_cj_address(header: &Header) -> Option<CjAddress> {
-    let thoroughfare_number = header
-        .poc_address_thoroughfare_number()
-        .and_then(|n| n.parse::<i64>().ok())?;
-    let thoroughfare_name = header.poc_address_thoroughfare_name()?;
-    let locality = header.poc_address_locality()?;
-    let postal_code = header.poc_address_postcode()?;
-    let country = header.poc_address_country()?;
-
-    Some(CjAddress {
+pub(crate) fn to_cj_address(header: &Header) -> Result<Option<CjAddress>, Error> {
+    let (
+        Some(thoroughfare_number),
+        Some(thoroughfare_name),
+        Some(locality),
+        Some(postal_code),
+        Some(country),
+    ) = (
+        header.poc_address_thoroughfare_number(),
+        header.poc_address_thoroughfare_name(),
+        header.poc_address_locality(),
+        header.poc_address_postcode(),
+        header.poc_address_country(),
+    )
+    else {
+        return Ok(None);
+    };
+    let thoroughfare_number =
+        thoroughfare_number
+            .parse::<i64>()
+            .map_err(|e| Error::InvalidAttributeValue {
+                msg: format!("thoroughfare number '{thoroughfare_number}': {e}"),
+            })?;
+
+    Ok(Some(CjAddress {
         thoroughfare_number,
         thoroughfare_name: thoroughfare_name.to_string(),
         locality: locality.to_string(),
         postal_code: postal_code.to_string(),
         country: country.to_string(),
-    })
+    }))
 }
 
 pub(crate) fn to_cj_co_type(co_type: CityObjectType, extension_type: Option<&str>) -> String {
-- 
2.43.0


From 5332e00f9012b435847a738c80d74e38f28b6e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:53 +0000
Subject: [PATCH 19/35] fix: report unparsable extension content instead of
 reading it as null

---
 src/rust/fcb_core/src/reader/deserializer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 074428e..058fce5 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -757,7 +757,7 @@ pub(crate) fn to_cj_extension_file(extension: &Extension) -> Result<CjExtensionF
         if attr_str.is_empty() {
             serde_json::Value::Null
         } else {
-            serde_json::from_str(attr_str).unwrap_or(serde_json::Value::Null)
+            serde_json::from_str(attr_str)?
         }
     } else {
         serde_json::Value::Null
@@ -767,7 +767,7 @@ pub(crate) fn to_cj_extension_file(extension: &Extension) -> Result<CjExtensionF
         if objs_str.is_empty() {
             serde_json::Value::Null
         } else {
-            serde_json::from_str(objs_str).unwrap_or(serde_json::Value::Null)
+            serde_json::from_str(objs_str)?
         }
     } else {
         serde_json::Value::Null
@@ -777,7 +777,7 @@ pub(crate) fn to_cj_extension_file(extension: &Extension) -> Result<CjExtensionF
         if props_str.is_empty() {
             serde_json::Value::Null
         } else {
-            serde_json::from_str(props_str).unwrap_or(serde_json::Value::Null)
+            serde_json::from_str(props_str)?
         }
     } else {
         serde_json::Value::Null
@@ -787,7 +787,7 @@ pub(crate) fn to_cj_extension_file(extension: &Extension) -> Result<CjExtensionF
         if surfaces_str.is_empty() {
             serde_json::Value::Null
         } else {
-            serde_json::from_str(surfaces_str).unwrap_or(serde_json::Value::Null)
+            serde_json::from_str(surfaces_str)?
         }
     } else {
         serde_json::Value::Null
-- 
2.43.0


From 64c165c6f1cc8ae9a6ab16504c18a57e87ef116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:59 +0000
Subject: [PATCH 20/35] fix: keep appearance and templates of datasets without
 metadata, and an absent extent absent

---
 src/rust/fcb_core/src/reader/deserializer.rs | 25 +++++++++-----------
 src/rust/fcb_core/src/writer/serializer.rs   |  3 +++
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 058fce5..062df23 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -61,19 +61,16 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
     cj.version = header.version().to_string();
     cj.thetype = String::from("CityJSON");
 
-    let geographical_extent = header
-        .geographical_extent()
-        .map(|extent| {
-            [
-                extent.min().x(),
-                extent.min().y(),
-                extent.min().z(),
-                extent.max().x(),
-                extent.max().y(),
-                extent.max().z(),
-            ]
-        })
-        .unwrap_or_default();
+    let geographical_extent = header.geographical_extent().map(|extent| {
+        [
+            extent.min().x(),
+            extent.min().y(),
+            extent.min().z(),
+            extent.max().x(),
+            extent.max().y(),
+            extent.max().z(),
+        ]
+    });
 
     let point_of_contact = match header.poc_contact_name() {
         Some(_) => Some(to_cj_point_of_contact(header)?),
@@ -81,7 +78,7 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
     };
 
     cj.metadata = Some(CjMetadata {
-        geographical_extent: Some(geographical_extent),
+        geographical_extent,
         identifier: header.identifier().map(|i| i.to_string()),
         point_of_contact,
         reference_date: header.reference_date().map(|r| r.to_string()),
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index c206bf6..eb3910b 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -217,6 +217,9 @@ pub(super) fn to_fcb_header<'a>(
                 geographical_extent: geographical_extent_from_options.as_ref(),
                 version,
                 attribute_index,
+                appearance,
+                templates,
+                templates_vertices,
                 extensions,
                 ..Default::default()
             },
-- 
2.43.0


From 11c7dfd430cee2347973b63249b7496cbb9cd983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:34 +0000
Subject: [PATCH 21/35] fix: keep non-numeric reference system codes and the
 dataset's own appearance

---
 src/rust/fcb_core/src/reader/deserializer.rs | 18 ++++++++++++++----
 src/rust/fcb_core/src/writer/serializer.rs   | 11 +++++------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 062df23..8fbe9a0 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -55,7 +55,8 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
             None,
             rs.authority().unwrap_or_default().to_string(),
             rs.version().to_string(),
-            rs.code().to_string(),
+            rs.code_string()
+                .map_or_else(|| rs.code().to_string(), |code| code.to_string()),
         )
     });
     cj.version = header.version().to_string();
@@ -106,6 +107,9 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
         });
     }
 
+    // Decode the dataset's own appearance (used by the templates)
+    cj.appearance = to_cj_appearance(header.appearance());
+
     Ok(cj)
 }
 
@@ -489,8 +493,14 @@ pub fn to_cj_feature(
         .vertices()
         .map_or(Vec::new(), |v| to_cj_vertices(v.iter().collect()));
 
+    cj.appearance = to_cj_appearance(feature.appearance());
+
+    Ok(cj) // Return Result
+}
+
+pub(crate) fn to_cj_appearance(appearance: Option<Appearance>) -> Option<CjAppearance> {
     // Decode appearance if present
-    if let Some(appearance) = feature.appearance() {
+    if let Some(appearance) = appearance {
         let mut cj_appearance = CjAppearance {
             materials: None,
             textures: None,
@@ -586,10 +596,10 @@ pub fn to_cj_feature(
             cj_appearance.default_theme_material = Some(default_theme_material.to_string());
         }
 
-        cj.appearance = Some(cj_appearance);
+        return Some(cj_appearance);
     }
 
-    Ok(cj) // Return Result
+    None
 }
 
 pub(crate) fn decode_geometry(
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index eb3910b..fc2f2e7 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -277,12 +277,11 @@ pub(super) fn to_reference_system<'a>(
         eprintln!("failed to parse version: {}", e);
         0
     });
-    let code = ref_system.code.parse::<i32>().unwrap_or_else(|e| {
-        eprintln!("failed to parse code: {}", e);
-        0
-    });
-
-    let code_string = None; // TODO: implement code_string
+    // codes that are not plain numbers (e.g. "CRS84") are kept as they are written
+    let (code, code_string) = match ref_system.code.parse::<i32>() {
+        Ok(code) if code.to_string() == ref_system.code => (code, None),
+        _ => (0, Some(fbb.create_string(&ref_system.code))),
+    };
 
     ReferenceSystem::create(
         fbb,
-- 
2.43.0


From 73497b3750ec6a09c48e4f9782fe88f29260add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:50 +0000
Subject: [PATCH 22/35] fix: locate features behind attribute indexes totalling
 more than 4 GiB

---
 src/rust/fcb_core/src/reader/mod.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index c099b1b..72c3771 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -270,17 +270,10 @@ impl<R: Read> FcbReader<R> {
             .map(|attr_index| {
                 attr_index
                     .iter()
-                    .try_fold(0u32, |acc, ai| {
-                        let len = ai.length();
-                        if len > u32::MAX - acc {
-                            Err(Error::AttributeIndexSizeOverflow)
-                        } else {
-                            Ok(acc + len)
-                        }
-                    })
-                    .unwrap_or(0)
+                    .map(|ai| ai.length() as u64)
+                    .sum::<u64>()
             })
-            .unwrap_or(0) as u64
+            .unwrap_or(0)
     }
 }
 
-- 
2.43.0


From 84866118efc3cb99a96fcdee4e4a8ec8cc337ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:45 +0000
Subject: [PATCH 23/35] fix: HTTP box query no longer panics unless the last
 leaf is the last of the whole tree's items

---
 src/rust/fcb_core/src/packed_rtree/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index afdbf5c..d0d5998 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -980,7 +980,10 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    node_range.nodes.start + node_pos + 1,
+                                    level_bounds[0].end
+                                );
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1089,7 +1092,10 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    node_range.nodes.start + node_pos + 1,
+                                    level_bounds[0].end
+                                );
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1228,7 +1234,7 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 }
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                // the extra node fetched for its start, or the last leaf of all
                                 HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 }
-- 
2.43.0


From f796571a3bd34d8b632953edf7f2d90fb7dbec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:55 +0000
Subject: [PATCH 24/35] fix: attributes whose values need different column
 types across objects are no longer written as 0 or rejected

---
 src/rust/fcb_core/src/writer/attribute.rs | 63 ++++++++++++++++++++++-
 1 file changed, 61 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index bd38d33..f63bdaa 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -23,8 +23,16 @@ impl AttributeSchemaMethods for AttributeSchema {
 
         let map = attrs.as_object().unwrap();
         for (key, val) in map.iter() {
-            if !self.contains_key(key) && !val.is_null() {
-                if let Some(coltype) = guess_type(val) {
+            let Some(coltype) = guess_type(val) else {
+                continue;
+            };
+            match self.get_mut(key) {
+                Some((_, known)) => {
+                    if !fits(*known, val) {
+                        *known = common_type(*known, coltype);
+                    }
+                }
+                None => {
                     self.insert(key.clone(), (self.len() as u16, coltype));
                 }
             }
@@ -61,6 +69,57 @@ fn guess_type(value: &Value) -> Option<ColumnType> {
     }
 }
 
+/// Whether a column of this type holds the value without loss.
+fn fits(coltype: ColumnType, value: &Value) -> bool {
+    let signed = |min: i64, max: i64| value.as_i64().is_some_and(|i| min <= i && i <= max);
+    let unsigned = |max: u64| value.as_u64().is_some_and(|u| u <= max);
+    match coltype {
+        ColumnType::Byte => signed(i8::MIN as i64, i8::MAX as i64),
+        ColumnType::UByte => unsigned(u8::MAX as u64),
+        ColumnType::Bool => value.is_boolean(),
+        ColumnType::Short => signed(i16::MIN as i64, i16::MAX as i64),
+        ColumnType::UShort => unsigned(u16::MAX as u64),
+        ColumnType::Int => signed(i32::MIN as i64, i32::MAX as i64),
+        ColumnType::UInt => unsigned(u32::MAX as u64),
+        ColumnType::Long => value.is_i64(),
+        ColumnType::ULong => value.is_u64(),
+        ColumnType::Float | ColumnType::Double => value.is_number(),
+        ColumnType::DateTime => guess_type(value) == Some(ColumnType::DateTime),
+        ColumnType::String | ColumnType::Binary => value.is_string(),
+        _ => true,
+    }
+}
+
+/// The column type for an attribute whose values need both of these types.
+fn common_type(a: ColumnType, b: ColumnType) -> ColumnType {
+    let unsigned = |t| {
+        matches!(
+            t,
+            ColumnType::UByte | ColumnType::UShort | ColumnType::UInt | ColumnType::ULong
+        )
+    };
+    let integer = |t| {
+        unsigned(t)
+            || matches!(
+                t,
+                ColumnType::Byte | ColumnType::Short | ColumnType::Int | ColumnType::Long
+            )
+    };
+    let number = |t| integer(t) || matches!(t, ColumnType::Float | ColumnType::Double);
+    let text = |t| matches!(t, ColumnType::String | ColumnType::DateTime);
+    if unsigned(a) && unsigned(b) {
+        ColumnType::ULong
+    } else if integer(a) && integer(b) {
+        ColumnType::Long
+    } else if number(a) && number(b) {
+        ColumnType::Double
+    } else if text(a) && text(b) {
+        ColumnType::String
+    } else {
+        ColumnType::Json
+    }
+}
+
 pub(crate) fn attr_size(coltype: &ColumnType, colval: &Value) -> usize {
     match *coltype {
         ColumnType::Byte => size_of::<i8>(),
-- 
2.43.0


From 50f79d1e57d4c2c402a5925753689070fcd5dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 25/35] fix: deliver a feature once when several of its objects
 match an attribute query

---
 src/rust/fcb_core/src/http_reader/mod.rs   | 5 ++++-
 src/rust/fcb_core/src/reader/attr_query.rs | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 1222c2f..9c208d9 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -274,9 +274,12 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             current_index_begin += attr_info.length() as usize;
         }
 
-        let result = http_multi_index
+        let mut result = http_multi_index
             .query(&mut self.client, &query.conditions)
             .await?;
+        // deliver in file order; a feature whose objects match more than once is still one feature
+        result.sort_by_key(|item| item.range.start());
+        result.dedup();
 
         let count = result.len();
 
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 8233946..284beb9 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -404,6 +404,8 @@ impl<R: Read + Seek> FcbReader<R> {
         // Sort the results
         let mut result_vec: Vec<u64> = result.into_iter().collect();
         result_vec.sort();
+        // a feature whose objects match more than once is still one feature
+        result_vec.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
@@ -485,6 +487,8 @@ impl<R: Read> FcbReader<R> {
         let query_obj = build_query(&query);
         let mut result = multi_index.query(&query_obj.conditions)?;
         result.sort();
+        // a feature whose objects match more than once is still one feature
+        result.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
-- 
2.43.0


From a21e482d8d44211e40f9ae6731d30360a2513a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 26/35] fix: ne, gt and lt queries keep a feature that also has
 a matching entry with another key

---
 .../fcb_core/src/static_btree/query/http.rs   | 26 ++++++++-----------
 .../fcb_core/src/static_btree/query/memory.rs | 17 +++++-------
 .../fcb_core/src/static_btree/query/stream.rs | 17 +++++-------
 .../fcb_core/src/static_btree/query/types.rs  | 14 ++++++++++
 4 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/http.rs b/src/rust/fcb_core/src/static_btree/query/http.rs
index 83fcb2f..c325e55 100644
--- a/src/rust/fcb_core/src/static_btree/query/http.rs
+++ b/src/rust/fcb_core/src/static_btree/query/http.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{remove_matches, Operator, QueryCondition};
 use crate::static_btree::stree::http::HttpSearchResultItem;
 use crate::static_btree::stree::Stree;
 use async_trait::async_trait;
@@ -153,26 +153,24 @@ macro_rules! impl_typed_http_search_index {
                 let results = match condition.operator {
                     Operator::Eq => self.find_exact(client, key.clone()).await?,
                     Operator::Ne => {
-                        let all = self
+                        let mut v = self
                             .find_range(
                                 client,
                                 Some(<$key_type>::min_value()),
                                 Some(<$key_type>::max_value()),
                             )
                             .await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        remove_matches(&mut v, self.find_exact(client, key.clone()).await?);
+                        v
                     }
                     Operator::Gt => {
                         let mut v = self.find_range(client, Some(key.clone()), None).await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
+                        remove_matches(&mut v, self.find_exact(client, key.clone()).await?);
                         v
                     }
                     Operator::Lt => {
                         let mut v = self.find_range(client, None, Some(key.clone())).await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
+                        remove_matches(&mut v, self.find_exact(client, key.clone()).await?);
                         v
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
@@ -206,26 +204,24 @@ macro_rules! impl_typed_http_search_index {
                 let results = match condition.operator {
                     Operator::Eq => self.find_exact(client, key.clone()).await?,
                     Operator::Ne => {
-                        let all = self
+                        let mut v = self
                             .find_range(
                                 client,
                                 Some(<$key_type>::min_value()),
                                 Some(<$key_type>::max_value()),
                             )
                             .await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        remove_matches(&mut v, self.find_exact(client, key.clone()).await?);
+                        v
                     }
                     Operator::Gt => {
                         let mut v = self.find_range(client, Some(key.clone()), None).await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
+                        remove_matches(&mut v, self.find_exact(client, key.clone()).await?);
                         v
                     }
                     Operator::Lt => {
                         let mut v = self.find_range(client, None, Some(key.clone())).await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
+                        remove_matches(&mut v, self.find_exact(client, key.clone()).await?);
                         v
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index 0f6759d..e128e43 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -6,7 +6,7 @@ use std::io::{Read, Write};
 use crate::static_btree::entry::Entry;
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, SearchIndex};
+use crate::static_btree::query::types::{remove_matches, Operator, SearchIndex};
 use crate::static_btree::stree::Stree;
 
 use super::types::QueryCondition;
@@ -120,23 +120,18 @@ macro_rules! impl_typed_search_index {
                     Operator::Ne => {
                         let min = <$key_type>::min_value();
                         let max = <$key_type>::max_value();
-                        let all_items = self.find_range(Some(min), Some(max))?;
-                        let matching_items = self.find_exact(key)?;
-                        Ok(all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect())
+                        let mut results = self.find_range(Some(min), Some(max))?;
+                        remove_matches(&mut results, self.find_exact(key)?);
+                        Ok(results)
                     }
                     Operator::Gt => {
                         let mut results = self.find_range(Some(key.clone()), None)?;
-                        let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
+                        remove_matches(&mut results, self.find_exact(key)?);
                         Ok(results)
                     }
                     Operator::Lt => {
                         let mut results = self.find_range(None, Some(key.clone()))?;
-                        let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
+                        remove_matches(&mut results, self.find_exact(key)?);
                         Ok(results)
                     }
                     Operator::Ge => self.find_range(Some(key), None),
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 5169c58..52cc84b 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -9,7 +9,7 @@ use ordered_float::OrderedFloat;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{remove_matches, Operator, QueryCondition};
 use crate::static_btree::stree::Stree;
 
 /// Stream-based index for file access
@@ -161,29 +161,24 @@ macro_rules! impl_typed_stream_search_index {
                 let items = match condition.operator {
                     Operator::Eq => self.find_exact_with_reader(reader, key)?,
                     Operator::Ne => {
-                        let all_items = self.find_range_with_reader(
+                        let mut results = self.find_range_with_reader(
                             reader,
                             Some(<$key_type>::min_value()),
                             Some(<$key_type>::max_value()),
                         )?;
-                        let matching_items = self.find_exact_with_reader(reader, key.clone())?;
-                        all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect()
+                        remove_matches(&mut results, self.find_exact_with_reader(reader, key)?);
+                        results
                     }
                     Operator::Gt => {
                         let mut results =
                             self.find_range_with_reader(reader, Some(key.clone()), None)?;
-                        let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
+                        remove_matches(&mut results, self.find_exact_with_reader(reader, key)?);
                         results
                     }
                     Operator::Lt => {
                         let mut results =
                             self.find_range_with_reader(reader, None, Some(key.clone()))?;
-                        let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
+                        remove_matches(&mut results, self.find_exact_with_reader(reader, key)?);
                         results
                     }
                     Operator::Ge => self.find_range_with_reader(reader, Some(key), None)?,
diff --git a/src/rust/fcb_core/src/static_btree/query/types.rs b/src/rust/fcb_core/src/static_btree/query/types.rs
index 51921c1..ee0fac4 100644
--- a/src/rust/fcb_core/src/static_btree/query/types.rs
+++ b/src/rust/fcb_core/src/static_btree/query/types.rs
@@ -65,6 +65,20 @@ impl Default for Query {
     }
 }
 
+/// Remove one occurrence of each of `matches` from `items`.
+///
+/// Both hold one element per index entry, so this leaves exactly the entries that are not among
+/// `matches`, also when entries with different keys belong to the same feature.
+pub(crate) fn remove_matches<T: PartialEq>(items: &mut Vec<T>, mut matches: Vec<T>) {
+    items.retain(|item| match matches.iter().position(|m| m == item) {
+        Some(found) => {
+            matches.swap_remove(found);
+            false
+        }
+        None => true,
+    });
+}
+
 /// Core trait for index searching capabilities
 pub trait SearchIndex<K: Key> {
     /// Find exact matches for a key
-- 
2.43.0


From 3bf0bbc2a3007f89fbbc9650ac1178f851c8e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 27/35] fix: the smallest date-time key is the smallest
 date-time, not 1970

---
 src/rust/fcb_core/src/static_btree/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 42d3a71..4b607e0 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -241,7 +241,7 @@ impl Min for bool {
 
 impl Min for DateTime<Utc> {
     fn min_value() -> Self {
-        Utc.timestamp_opt(0, 0).single().unwrap()
+        DateTime::<Utc>::MIN_UTC
     }
 }
 
-- 
2.43.0


From dc64a76142bd8b65c62a89a7bf0dc26972dd94a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 28/35] fix: a feature cut short over HTTP is an error

---
 src/rust/fcb_core/src/http_reader/mod.rs | 34 +++++++++++++++---------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 9c208d9..e136f54 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -518,6 +518,23 @@ impl FeatureSelection {
     }
 }
 
+/// Fetch the size prefixed feature at `pos`
+async fn fetch_feature<T: AsyncHttpRangeClient>(
+    client: &mut AsyncBufferedHttpRangeClient<T>,
+    pos: usize,
+) -> Result<BytesMut> {
+    let mut feature_buffer = BytesMut::from(client.get_range(pos, 4).await?);
+    if feature_buffer.len() < 4 {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
+    feature_buffer.put(client.get_range(pos + 4, feature_size).await?);
+    if feature_buffer.len() < feature_size + 4 {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(feature_buffer)
+}
+
 struct SelectAll {
     /// Features left
     features_left: u64,
@@ -538,11 +555,8 @@ impl SelectAll {
         }
         self.features_left -= 1;
 
-        let mut feature_buffer = BytesMut::from(client.get_range(self.pos, 4).await?);
-        self.pos += 4;
-        let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(self.pos, feature_size).await?);
-        self.pos += feature_size;
+        let feature_buffer = fetch_feature(client, self.pos).await?;
+        self.pos += feature_buffer.len();
 
         Ok(Some(feature_buffer.freeze()))
     }
@@ -668,11 +682,7 @@ impl FeatureBatch {
             return Ok(None);
         };
 
-        let mut pos = feature_range.start();
-        let mut feature_buffer = BytesMut::from(client.get_range(pos, 4).await?);
-        pos += 4;
-        let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(pos, feature_size).await?);
+        let feature_buffer = fetch_feature(client, feature_range.start()).await?;
 
         Ok(Some(feature_buffer.freeze()))
     }
@@ -692,9 +702,7 @@ impl SelectAttr {
         let Some(range) = self.ranges.get(self.range_pos) else {
             return Ok(None);
         };
-        let mut feature_buffer = BytesMut::from(client.get_range(range.start(), 4).await?);
-        let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(range.start() + 4, feature_size).await?);
+        let feature_buffer = fetch_feature(client, range.start()).await?;
         self.range_pos += 1;
         Ok(Some(feature_buffer.freeze()))
     }
-- 
2.43.0


From 87124d4552b411eee2cf8ae715eeb11b17628d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:02 +0000
Subject: [PATCH 29/35] fix: payload requests over HTTP stay within the index
 section

---
 src/rust/fcb_core/src/static_btree/stree.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 4350f17..38aa6dd 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -189,6 +189,9 @@ pub async fn prefetch_payload<T: AsyncHttpRangeClient>(
     );
 
     let mut cache = PayloadCache::new();
+    if chunk_size == 0 {
+        return Ok(cache);
+    }
 
     // Fetch the chunk of payload data
     let payload_data = client.get_range(payload_section_start, chunk_size).await?;
@@ -333,8 +336,12 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
 
     for (start, end) in offset_ranges {
         // Calculate fetch size to include the complete payload entries
-        // Add a margin to account for variable-sized payload entries
-        let fetch_size = (end - start) + DEFAULT_MIN_REQ_SIZE;
+        // Add a margin to account for variable-sized payload entries, but do not ask for
+        // bytes beyond the index section: the file may end there
+        let fetch_size = min(
+            (end - start) + DEFAULT_MIN_REQ_SIZE,
+            feature_begin.saturating_sub(start),
+        );
 
         let payload_data = client.get_range(start, fetch_size).await?;
 
@@ -1251,6 +1258,11 @@ impl<K: Key> Stree<K> {
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
         // Prefetch a chunk of payload data
+        // The payload section ends before the features: never ask for bytes beyond it
+        let prefetch_size = min(
+            prefetch_size,
+            feature_begin.saturating_sub(payload_data_start),
+        );
         let payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
 
         while let Some(node_range) = queue.pop_front() {
@@ -1588,6 +1600,11 @@ impl<K: Key> Stree<K> {
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
         // Prefetch a chunk of payload data
+        // The payload section ends before the features: never ask for bytes beyond it
+        let prefetch_size = min(
+            prefetch_size,
+            feature_begin.saturating_sub(payload_data_start),
+        );
         let payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
 
         debug!("http_stream_find_range - index_begin: {index_begin}, feature_begin: {feature_begin}, num_items: {num_items}, branching_factor: {branching_factor}, level_bounds: {level_bounds:?}, lower: {lower:?}, upper: {upper:?}");
-- 
2.43.0


From 6ef6314bc0529c6f2761f6bb5391bcead66427b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 30/35] fix: an attribute search whose key is an internal key
 of the tree descends into the child that holds it

---
 src/rust/fcb_core/src/static_btree/stree.rs | 34 +++++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 38aa6dd..a10ff4e 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -49,6 +49,19 @@ impl<K: Key> NodeItem<K> {
     }
 }
 
+/// First item of the child node in which a key equal to the key of `item` is stored.
+///
+/// The key of an internal item is the smallest key of the child right of it. There is no such
+/// child if the item is the last of its level, whose key is only a placeholder.
+fn child_of_equal_key<K: Key>(item: &NodeItem<K>, node_size: usize, children_end: usize) -> usize {
+    let child = item.offset as usize;
+    if child + node_size < children_end {
+        child + node_size
+    } else {
+        child
+    }
+}
+
 /// Read full capacity of vec from data stream
 fn read_node_vec<K: Key>(node_items: &mut Vec<NodeItem<K>>, mut data: impl Read) -> Result<()> {
     node_items.clear();
@@ -777,7 +790,11 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        let children_end = self.level_bounds[level - 1].end;
+                        queue.push_back((
+                            child_of_equal_key(&node_items[index], node_size, children_end),
+                            level - 1,
+                        ));
                     }
                     Err(index) => {
                         if index == 0 {
@@ -874,7 +891,11 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        let children_end = level_bounds[level - 1].end;
+                        queue.push_back((
+                            child_of_equal_key(&node_items[index], node_size, children_end),
+                            level - 1,
+                        ));
                     }
                     Err(index) => {
                         if index == 0 {
@@ -1167,9 +1188,9 @@ impl<K: Key> Stree<K> {
             // Find the child node to traverse next using binary search
             match node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&key)) {
                 Ok(index) => {
-                    // Exact match found, go to the corresponding child
-                    // For an exact match, we go to the child node pointed to by this entry
-                    node_index = node_items[index].offset as usize;
+                    // Exact match found, go to the child holding the key
+                    let children_end = level_bounds[level - 1].end;
+                    node_index = child_of_equal_key(&node_items[index], node_size, children_end);
                 }
                 Err(index) => {
                     // No exact match, determine appropriate child based on comparison
@@ -1298,7 +1319,8 @@ impl<K: Key> Stree<K> {
                 let mut _offset = 0;
                 match result {
                     Ok(idx) => {
-                        _offset = node_items[idx].offset as usize + node_size;
+                        let children_end = level_bounds[node_range.level - 1].end;
+                        _offset = child_of_equal_key(&node_items[idx], node_size, children_end);
                     }
                     Err(idx) => {
                         if idx == 0 {
-- 
2.43.0


From ea0698a541d839d87df7e481841f30f3534a7e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 31/35] fix: le queries include the features whose value equals
 an internal key of the tree

---
 .../fcb_core/src/static_btree/query/http.rs    | 18 ++++++++++++++++--
 .../fcb_core/src/static_btree/query/memory.rs  |  9 ++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/http.rs b/src/rust/fcb_core/src/static_btree/query/http.rs
index c325e55..e2bb9a8 100644
--- a/src/rust/fcb_core/src/static_btree/query/http.rs
+++ b/src/rust/fcb_core/src/static_btree/query/http.rs
@@ -174,7 +174,14 @@ macro_rules! impl_typed_http_search_index {
                         v
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
-                    Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
+                    Operator::Le => {
+                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
+                        // the range may end before the key when it is an internal key of the tree
+                        let eq = self.find_exact(client, key.clone()).await?;
+                        remove_matches(&mut v, eq.clone());
+                        v.extend(eq);
+                        v
+                    }
                 };
                 Ok(results)
             }
@@ -225,7 +232,14 @@ macro_rules! impl_typed_http_search_index {
                         v
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
-                    Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
+                    Operator::Le => {
+                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
+                        // the range may end before the key when it is an internal key of the tree
+                        let eq = self.find_exact(client, key.clone()).await?;
+                        remove_matches(&mut v, eq.clone());
+                        v.extend(eq);
+                        v
+                    }
                 };
                 Ok(results)
             }
diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index e128e43..1797452 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -135,7 +135,14 @@ macro_rules! impl_typed_search_index {
                         Ok(results)
                     }
                     Operator::Ge => self.find_range(Some(key), None),
-                    Operator::Le => self.find_range(None, Some(key)),
+                    Operator::Le => {
+                        let mut results = self.find_range(None, Some(key.clone()))?;
+                        // the range may end before the key when it is an internal key of the tree
+                        let exact_matches = self.find_exact(key)?;
+                        remove_matches(&mut results, exact_matches.clone());
+                        results.extend(exact_matches);
+                        Ok(results)
+                    }
                 }
             }
         }
-- 
2.43.0


From 987eda8992f12eefbbaa72bad3d57da9435aaad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 32/35] fix: read as many bytes and nodes as the file has, not
 as many as the allocator gave

---
 src/rust/fcb_core/src/packed_rtree/mod.rs   | 19 ++++++++++++++-----
 src/rust/fcb_core/src/reader/mod.rs         |  2 +-
 src/rust/fcb_core/src/static_btree/stree.rs | 19 ++++++++++++++-----
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index d0d5998..dc7aa3f 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -179,10 +179,14 @@ impl NodeItem {
     }
 }
 
-/// Read full capacity of vec from data stream
-fn read_node_vec(node_items: &mut Vec<NodeItem>, mut data: impl Read) -> Result<(), Error> {
+/// Read the given number of nodes from data stream
+fn read_node_vec(
+    node_items: &mut Vec<NodeItem>,
+    length: usize,
+    mut data: impl Read,
+) -> Result<(), Error> {
     node_items.clear();
-    for _ in 0..node_items.capacity() {
+    for _ in 0..length {
         node_items.push(NodeItem::from_reader(&mut data)?);
     }
     Ok(())
@@ -199,7 +203,7 @@ fn read_node_items<R: Read + Seek>(
     data.seek(SeekFrom::Start(
         base + (node_index * size_of::<NodeItem>()) as u64,
     ))?;
-    read_node_vec(&mut node_items, data)?;
+    read_node_vec(&mut node_items, length, data)?;
     Ok(node_items)
 }
 
@@ -409,7 +413,12 @@ impl PackedRTree {
     }
 
     fn read_data(&mut self, data: impl Read) -> Result<(), Error> {
-        read_node_vec(&mut self.node_items, data)?;
+        let num_nodes = self
+            .level_bounds
+            .first()
+            .expect("RTree has at least one level when node_size >= 2 and num_items > 0")
+            .end;
+        read_node_vec(&mut self.node_items, num_nodes, data)?;
         for node in &self.node_items {
             self.extent.expand(node)
         }
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 72c3771..4ac5105 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -104,7 +104,7 @@ impl<R: Read> FcbReader<R> {
 
         let mut header_buf = Vec::with_capacity(header_size + 4); // 4 bytes for size prefix
         header_buf.extend_from_slice(&size_buf);
-        header_buf.resize(header_buf.capacity(), 0);
+        header_buf.resize(header_size + 4, 0);
         reader.read_exact(&mut header_buf[4..])?;
 
         if verify {
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index a10ff4e..3787fb0 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -62,10 +62,14 @@ fn child_of_equal_key<K: Key>(item: &NodeItem<K>, node_size: usize, children_end
     }
 }
 
-/// Read full capacity of vec from data stream
-fn read_node_vec<K: Key>(node_items: &mut Vec<NodeItem<K>>, mut data: impl Read) -> Result<()> {
+/// Read the given number of nodes from data stream
+fn read_node_vec<K: Key>(
+    node_items: &mut Vec<NodeItem<K>>,
+    length: usize,
+    mut data: impl Read,
+) -> Result<()> {
     node_items.clear();
-    for _ in 0..node_items.capacity() {
+    for _ in 0..length {
         node_items.push(NodeItem::from_reader(&mut data)?);
     }
     Ok(())
@@ -82,7 +86,7 @@ fn read_node_items<K: Key, R: Read + Seek + ?Sized>(
     data.seek(SeekFrom::Start(
         base + (node_index * NodeItem::<K>::SERIALIZED_SIZE) as u64,
     ))?;
-    read_node_vec(&mut node_items, data)?;
+    read_node_vec(&mut node_items, length, data)?;
     Ok(node_items)
 }
 
@@ -616,7 +620,12 @@ impl<K: Key> Stree<K> {
     }
 
     fn read_data(&mut self, data: impl Read) -> Result<()> {
-        read_node_vec(&mut self.node_items, data)?;
+        let num_nodes = self
+            .level_bounds
+            .first()
+            .expect("Btree has at least one level when node_size >= 2 and num_items > 0")
+            .end;
+        read_node_vec(&mut self.node_items, num_nodes, data)?;
         Ok(())
     }
 
-- 
2.43.0


From 28570395a5c01b8a9c9cc64aade1f58bb18388d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 33/35] fix: refuse attribute indexes whose length or count
 does not fit the header

---
 src/rust/fcb_core/src/writer/attr_index.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index 97854d2..be92aa6 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -44,14 +44,17 @@ where
     let index = MemoryIndex::<T>::build(&entries, branching_factor)?;
     let mut buf = Vec::new();
     index.serialize(&mut buf)?;
-    let buf_length = buf.len();
+    // the header describes the index with 32 bit numbers
+    let length = u32::try_from(buf.len()).map_err(|_| Error::AttributeIndexSizeOverflow)?;
+    let num_unique_items =
+        u32::try_from(index.num_items()).map_err(|_| Error::AttributeIndexSizeOverflow)?;
     Ok(Some((
         buf,
         AttributeIndexInfo {
             index: schema_index,
-            length: buf_length as u32,
+            length,
             branching_factor: index.branching_factor(),
-            num_unique_items: index.num_items() as u32,
+            num_unique_items,
         },
     )))
 }
-- 
2.43.0


From 00204ca236699bac740f3f07c66ec0a17f9394b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 34/35] fix: the largest date-time key bounds every time that
 can be stored

---
 src/rust/fcb_core/src/static_btree/key.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 4b607e0..47d30f7 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -1,6 +1,6 @@
 use crate::static_btree::error::{Error, Result};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
-use chrono::{DateTime, TimeZone, Utc};
+use chrono::{DateTime, Utc};
 use ordered_float::OrderedFloat; // Import OrderedFloat
 use std::fmt::Debug;
 use std::io::{Read, Write};
@@ -158,10 +158,7 @@ impl Max for bool {
 // Implement Max for DateTime<Utc>
 impl Max for DateTime<Utc> {
     fn max_value() -> Self {
-        // A date far in the future (year 9999)
-        Utc.timestamp_opt(253402300799, 999_999_999)
-            .single()
-            .unwrap()
+        DateTime::<Utc>::MAX_UTC
     }
 }
 
-- 
2.43.0


From 8e524464fe5f285515db8899183cb6cce1533249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 35/35] fix: a remote index read cut short is an error, not a
 smaller result

---
 src/rust/fcb_core/src/packed_rtree/mod.rs   | 4 +++-
 src/rust/fcb_core/src/static_btree/stree.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index dc7aa3f..c5cc61a 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -222,8 +222,10 @@ async fn read_http_node_items<T: AsyncHttpRangeClient>(
         .get_range(begin, length)
         .await?;
 
+    if bytes.len() != length {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
     for node_item_bytes in bytes.chunks(size_of::<NodeItem>()) {
         node_items.push(NodeItem::from_bytes(node_item_bytes)?);
     }
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 3787fb0..2ea49ec 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -107,8 +107,10 @@ async fn read_http_node_items<K: Key, T: AsyncHttpRangeClient>(
         .get_range(begin, length)
         .await?;
 
+    if bytes.len() != length {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
     for node_item_bytes in bytes.chunks(NodeItem::<K>::SERIALIZED_SIZE) {
         let node_item = NodeItem::from_reader(&mut Cursor::new(node_item_bytes))?;
         node_items.push(node_item);
-- 
2.43.0

