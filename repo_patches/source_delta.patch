From 621d366ccfbb5f4936243825ec8f56787085ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 01/58] fix: market order against bids subtracted the traded
 quantity from the level twice

---
 trading-engine/src/orderbook/half_book.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 509c03a..6721c97 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -638,7 +638,7 @@ impl HalfBook {
             if traded_qty > 0 {
                 traded_res.push(*price, traded_qty);
                 self.total_quantity -= traded_qty;
-                level.total_quantity -= traded_qty;
+                //level.total_quantity -= traded_qty;
             }
 
             if level_rem == 0 { remove_prices.push(*price) }
-- 
2.43.0


From 7a176af8408a10cde060296fa8bca89fb4cad5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 02/58] fix: changing a quantity to zero left a dead order in
 the book

---
 trading-engine/src/orderbook/half_book.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 6721c97..9cbb71e 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -520,6 +520,11 @@ impl HalfBook {
         order_id: OrderId, 
         new_quantity: BookQuantity,
     ) -> Option<()> {        
+        if new_quantity == 0 && self.cache.contains_key(&order_id) {
+            // nothing is left of the order, so it must not stay in the queue nor in the cache
+            return self.cancel_order(order_id);
+        }
+
         if let Some(price) = self.cache.get(&order_id) {
             if let Some(level) = self.levels.get_mut(price) {
                 if let Some(original_qty) = level.change_quantity(order_id, new_quantity) {
-- 
2.43.0


From 968f006299d6164eea903f96dc9974f1eae45123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 03/58] fix: zero-quantity snapshot levels created phantom
 price levels

---
 trading-engine/src/orderbook/half_book.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 9cbb71e..349654c 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -85,7 +85,11 @@ impl HalfBook {
         level_snapshot: &Vec<LevelSnapshot>,
         mock_counter: &mut VirtualOrderId,
     ) -> Result<()> {
-        let price_vec: Vec<BookPrice> = level_snapshot.iter().map(|x| x.book_price).collect();
+        // levels without quantity are padding, i.e., there is no such level
+        let price_vec: Vec<BookPrice> = level_snapshot.iter()
+            .filter(|x| x.book_quantity > 0)
+            .map(|x| x.book_price)
+            .collect();
         // erase existing level where not in the snapshot
         // Collect keys to be removed
         let levels_to_remove: Vec<BookPrice> = self.levels.keys()
@@ -98,7 +102,7 @@ impl HalfBook {
             self.remove_level(level);
         }
 
-        for level in level_snapshot {
+        for level in level_snapshot.iter().filter(|x| x.book_quantity > 0) {
             let price = level.book_price;
             let quantity = level.book_quantity;
             
@@ -134,7 +138,8 @@ impl HalfBook {
         virtual_counter: &mut VirtualOrderId,
     ) -> Result<Vec<OrderEnum>> { // the order of vector is not important actually. Mostly this will be a single order
         let mut order_enum_vec = Vec::<OrderEnum>::default();
-        for level_snapshot in level_snapshot_vec {
+        // levels without quantity are padding, i.e., there is no such level
+        for level_snapshot in level_snapshot_vec.iter().filter(|x| x.book_quantity > 0) {
             let price = level_snapshot.book_price;
             let current_qty = level_snapshot.book_quantity;
             if let Some(level) = self.levels.get(&price) { // there is a price so remove or add
@@ -174,7 +179,10 @@ impl HalfBook {
             }
         }
 
-        let new_price_vec = level_snapshot_vec.iter().map(|x| x.book_price).collect::<Vec<BookPrice>>();
+        let new_price_vec = level_snapshot_vec.iter()
+            .filter(|x| x.book_quantity > 0)
+            .map(|x| x.book_price)
+            .collect::<Vec<BookPrice>>();
         for (price, level) in self.levels.iter() { // there may be a disappeared price
             if !new_price_vec.contains(price) {
                 let remove_order_primitive = RemoveAnyOrder {
-- 
2.43.0


From 628e52dcd61ebf20a2b747956b1c1abda186042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 04/58] fix: level equality of half books ignored levels
 missing on one side

---
 trading-engine/src/orderbook/half_book.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 349654c..fa77c68 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -33,7 +33,7 @@ pub struct HalfBook {
 impl HalfBook {
     #[must_use]
     pub fn eq_level(&self, other: &HalfBook) -> bool {
-        let mut res = self.total_quantity == other.total_quantity;
+        let mut res = self.total_quantity == other.total_quantity && self.levels.len() == other.levels.len();
         if res {
             for (price, level) in self.levels.iter() {
                 if let Some(other_level) = other.levels.get(price) {
-- 
2.43.0


From 928e0270644b78b3e9cdcb0634d43b052819d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 05/58] fix: amending an order to zero at another price rested
 an empty order

---
 trading-engine/src/orderbook/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trading-engine/src/orderbook/mod.rs b/trading-engine/src/orderbook/mod.rs
index 951deef..71b7c8d 100644
--- a/trading-engine/src/orderbook/mod.rs
+++ b/trading-engine/src/orderbook/mod.rs
@@ -228,6 +228,9 @@ impl OrderBook {
             if price == &order.price { // same price so just change quantity
                 self.asks.change_quantity(order_id, order.quantity);
                 None
+            } else if order.quantity == 0 { // nothing is left to be moved to the new price
+                self.asks.cancel_order(order_id);
+                None
             } else { 
                 let limit_order = LimitOrder {
                     order_id,
@@ -242,6 +245,9 @@ impl OrderBook {
             if price == &order.price { // same price so just change quantity
                 self.bids.change_quantity(order_id, order.quantity);
                 None
+            } else if order.quantity == 0 { // nothing is left to be moved to the new price
+                self.bids.cancel_order(order_id);
+                None
             } else { 
                 let limit_order = LimitOrder {
                     order_id,
-- 
2.43.0


From 84a7367e235fec9ca0b6e76a08678b740e42a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 06/58] fix: digit parsers read memory past the end of the
 given slice

---
 trading-engine/src/utils/numeric_converter.rs | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index f806dcb..ad6b4bb 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -20,7 +20,6 @@ use crate::types::timestamp::{
 };
 use anyhow::{anyhow, Result};
 use serde::{de::Deserializer, Deserialize, Serialize};
-use std::ptr::read_unaligned;
 
 /// decimal_point_length includes the decimal point itself
 /// ex) 123.45 => digit_length: 3, decimal_point_length: 3, total_length: 6
@@ -79,10 +78,24 @@ fn div_rem_u64(u: u64, v: u64) -> (u64, u64) {
     (quotient, remainder)
 }
 
+/// The first N bytes of u. The bytes that u does not have are zero.
+#[inline(always)]
+fn load_chunk<const N: usize>(u: &[u8]) -> [u8; N] {
+    match u.first_chunk::<N>() {
+        Some(chunk) => *chunk,
+        None => {
+            let mut chunk = [0u8; N];
+            chunk[..u.len()].copy_from_slice(u);
+            chunk
+        }
+    }
+}
+
 #[inline(always)]
 pub fn parse_hhmmss_to_nanos(u: &[u8]) -> u64 {
     // "123456" => [?, ?, "6", "5", "4", "3", "2", "1"]
-    let mut seconds: u64 = unsafe { read_unaligned(u.as_ptr() as *const u64) };
+    let [h1, h2, m1, m2, s1, s2] = load_chunk::<6>(u);
+    let mut seconds: u64 = u64::from_le_bytes([h1, h2, m1, m2, s1, s2, 0, 0]);
     // [?, ?, "6", "5", "4", "3", "2", "1"] => ["6", "5", "4", "3", "2", "1", 0, 0] = b"00123456"
     seconds <<= 16;
     // lower_digits = [6, 0, 4, 0, 2, 0, 0, 0] => [0, 6, 0, 4, 0, 2, 0, 0]
@@ -163,7 +176,7 @@ pub fn parse_under8_with_floating_point(u: &[u8], length: usize, point_length: u
         _ => {
             // ex) u = "123.45", length = 6, point_length = 3,
             // "123.45" => "??123.45"
-            let mut chunk: u64 = unsafe { read_unaligned(u.as_ptr() as *const u64) };
+            let mut chunk: u64 = u64::from_le_bytes(load_chunk(u));
             // "??123.45" => "123.4500"
             chunk <<= 64 - (length * 8);
             // "123.4500" => "12345000"
@@ -186,7 +199,7 @@ pub fn parse_under16_with_floating_point(u: &[u8], length: usize, point_length:
         0 => parse_under16(u, length) as u64,
         1 => parse_under16(&u[..(length - 1)], length - 1) as u64,
         _ => {
-            let mut chunk: u128 = unsafe { read_unaligned(u.as_ptr() as *const u128) };
+            let mut chunk: u128 = u128::from_le_bytes(load_chunk(u));
             chunk <<= 128 - (length * 8);
             let point_mask = 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff << ((17 - point_length) * 8);
             let decimal_mask = !point_mask;
@@ -233,7 +246,7 @@ pub fn parse_under32_with_floating_point(u: &[u8], length: usize, point_length:
 }
 #[inline(always)]
 pub fn parse_2digits(u: &[u8]) -> u16 {
-    let chunk: u16 = unsafe { read_unaligned(u.as_ptr() as *const u16) };
+    let chunk: u16 = u16::from_le_bytes(load_chunk(u));
     let lower = (chunk & 0x0f00) >> 8;
     let upper = (chunk & 0x000f) * 10;
     lower + upper
@@ -241,7 +254,8 @@ pub fn parse_2digits(u: &[u8]) -> u16 {
 
 #[inline(always)]
 pub fn parse_3digits(u: &[u8]) -> u32 {
-    let mut chunk: u32 = unsafe { read_unaligned(u.as_ptr() as *const u32) };
+    let [d1, d2, d3] = load_chunk::<3>(u);
+    let mut chunk: u32 = u32::from_le_bytes([d1, d2, d3, 0]);
     chunk <<= 8;
 
     let lower: u32 = (chunk & 0x0f000f00) >> 8; 
@@ -265,7 +279,7 @@ pub fn parse_under8(u: &[u8], length: usize) -> u64 {
         length <= 8,
         "parse_under8: length must be less than or equal to 8"
     );
-    let mut chunk: u64 = unsafe { read_unaligned(u.as_ptr() as *const u64) };
+    let mut chunk: u64 = u64::from_le_bytes(load_chunk(u));
     chunk <<= 64 - (length * 8);
     u8_chunk_to_u64_decimal(chunk)
 }
@@ -276,7 +290,7 @@ pub fn parse_under16(u: &[u8], length: usize) -> u128 {
         length <= 16,
         "parse_under16: length must be less than or equal to 16"
     );
-    let mut chunk: u128 = unsafe { read_unaligned(u.as_ptr() as *const u128) };
+    let mut chunk: u128 = u128::from_le_bytes(load_chunk(u));
     chunk <<= 128 - (length * 8);
     u8_chunk_to_u128_decimal(chunk)
 }
-- 
2.43.0


From 8a03210c12a8609466d868df5fce0de62877ae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 07/58] fix: converters cut the digits by the number of leading
 sign and unused bytes

---
 trading-engine/src/utils/numeric_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index ad6b4bb..485e33f 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -373,7 +373,7 @@ impl IntegerConverter {
             numcfg.decimal_point_length
         };
 
-        let end_index = all_digit_size;
+        let end_index = start_index + all_digit_size;
 
         let parser = match all_digit_size {
             0..=8 => parse_under8_with_floating_point,
-- 
2.43.0


From 45b4c206b4402c8a320df41c2ba5423f42ef9a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 08/58] fix: parse_under32 shifted by the whole width for 16
 digits

---
 trading-engine/src/utils/numeric_converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index 485e33f..b48167f 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -302,6 +302,9 @@ pub fn parse_under32(u: &[u8], length: usize) -> u128 {
         "parse_under32: length must be less than or equal to 32"
     );
     let (upper, lower) = u.split_at(16);
+    if length == 16 {
+        return parse_under16(upper, 16);
+    }
     parse_under16(upper, 16) * 10u128.pow((length - 16) as u32) + parse_under16(lower, length - 16)
 }
 
-- 
2.43.0


From a76e83aed985a29c32d438755c653db8a84a7bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 09/58] fix: unchecked converters parsed the leading unused
 bytes as digits

---
 trading-engine/src/utils/numeric_converter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index b48167f..f34b846 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -426,21 +426,21 @@ impl IntegerConverter {
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under16(value, self.parsing_length) as u64
+        parse_under16(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_long_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under32(value, self.parsing_length) as u64
+        parse_under32(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u32_unchecked(&self, value: &[u8]) -> u32 {
-        parse_under8(value, self.parsing_length) as u32
+        parse_under8(&value[self.start_index..], self.parsing_length) as u32
     }
 
     #[inline(always)]
-- 
2.43.0


From 7c7288546c6726986e22200a927caca4f2bb6ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 10/58] fix: reporting an invalid payload panicked on short or
 non-utf8 payloads

---
 trading-engine/src/data/checker.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/data/checker.rs b/trading-engine/src/data/checker.rs
index b9843d3..690b39f 100644
--- a/trading-engine/src/data/checker.rs
+++ b/trading-engine/src/data/checker.rs
@@ -25,7 +25,7 @@ pub trait Checker {
                 tr_name,
                 size_checker,
                 payload.len(),
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -36,7 +36,7 @@ pub trait Checker {
                 message: {:?}",
                 tr_name,
                 payload[size_checker - 1],
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -53,7 +53,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -70,7 +70,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
-- 
2.43.0


From fe9839260aa22f4b203b11b181a9630407e2a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 11/58] fix: IFMSRPD0036 trade price dropped the sign and the
 decimal point layout

---
 trading-engine/src/data/krx/derivative_trade.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 6907407..4432e17 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -789,9 +789,8 @@ impl IFMSRPD0036 {
             date_gen,
         )?;
 
-        let trade_price = unsafe { 
-            converter.to_book_price_unchecked(&payload[self.trade_price_slice.start..self.trade_price_slice.end])
-        };
+        let trade_price = converter
+            .to_book_price(&payload[self.trade_price_slice.start..self.trade_price_slice.end]);
 
         let trade_quantity = unsafe {
             converter.to_book_quantity_unchecked(&payload[self.trade_quantity_slice.start..self.trade_quantity_slice.end])
-- 
2.43.0


From 5f9efcc7bc552323848904f67ed157aaf8638501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 12/58] fix: IFMSRPD0038 left the previous instrument's
 converter in a reused buffer

---
 trading-engine/src/data/krx/derivative_trade.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 4432e17..53b7457 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -620,6 +620,9 @@ impl IFMSRPD0038 {
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
 
+        data_buffer.order_converter = converter;
+        data_buffer.order_counter = order_counter;
+
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
         let or_ln = order_counter.order_count.get_config().total_length;
-- 
2.43.0


From 167753f8370ecd8ca7afbdb388359dd1d9a8bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 13/58] fix: decoding into a reused buffer kept its previous
 level count and lp holdings

---
 trading-engine/src/data/krx/derivative_quote.rs | 4 ++++
 trading-engine/src/data/krx/derivative_trade.rs | 4 ++++
 trading-engine/src/data/krx/stock_quote.rs      | 6 ++++++
 3 files changed, 14 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_quote.rs b/trading-engine/src/data/krx/derivative_quote.rs
index 58fd109..e41258e 100644
--- a/trading-engine/src/data/krx/derivative_quote.rs
+++ b/trading-engine/src/data/krx/derivative_quote.rs
@@ -210,6 +210,8 @@ impl IFMSRPD0034 {
         let timestamp_converter = get_krx_timestamp_converter();
 
         buffer.order_converter = converter;
+        buffer.quote_level_cut = self.quote_level_cut;
+        buffer.all_lp_holdings = None;
         buffer.order_counter = order_counter;
 
         let pr_ln = converter.price.get_config().total_length;
@@ -458,6 +460,8 @@ impl IFMSRPD0035 {
         let timestamp_converter = get_krx_timestamp_converter();
 
         buffer.order_converter = converter;
+        buffer.quote_level_cut = self.quote_level_cut;
+        buffer.all_lp_holdings = None;
         buffer.order_counter = order_counter;
         
         let pr_ln = converter.price.get_config().total_length;
diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 53b7457..ed583d4 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -284,6 +284,8 @@ impl IFMSRPD0037 {
         //data_buffer.timestamp_converter = timestamp_converter;
         data_buffer.order_converter = converter;
         data_buffer.order_counter = order_counter;
+        data_buffer.quote_level_cut = self.quote_level_cut;
+        data_buffer.all_lp_holdings = None;
         //
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
@@ -622,6 +624,8 @@ impl IFMSRPD0038 {
 
         data_buffer.order_converter = converter;
         data_buffer.order_counter = order_counter;
+        data_buffer.quote_level_cut = self.quote_level_cut;
+        data_buffer.all_lp_holdings = None;
 
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
diff --git a/trading-engine/src/data/krx/stock_quote.rs b/trading-engine/src/data/krx/stock_quote.rs
index 02f5d0e..1c554bd 100644
--- a/trading-engine/src/data/krx/stock_quote.rs
+++ b/trading-engine/src/data/krx/stock_quote.rs
@@ -222,6 +222,9 @@ impl IFMSRPD0002 {
         let timestamp_converter = get_krx_timestamp_converter();
 
         buffer.order_converter = converter;
+        buffer.order_counter = get_krx_base_order_counter();
+        buffer.quote_level_cut = self.quote_level_cut;
+        buffer.all_lp_holdings = None;
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
         
@@ -459,6 +462,9 @@ impl IFMSRPD0003 {
         let timestamp_converter = get_krx_timestamp_converter();
 
         buffer.order_converter = converter;
+        buffer.order_counter = get_krx_base_order_counter();
+        buffer.quote_level_cut = self.quote_level_cut;
+        buffer.all_lp_holdings = None;
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
 
-- 
2.43.0


From 702df2ba3ebd56c9878bbc91ed81eca307236449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 14/58] fix: identifiers could hold text that is not utf8

---
 trading-engine/src/types/id/isin_code.rs | 16 ++++++++++++++++
 trading-engine/src/types/id/ticker.rs    | 21 +++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/trading-engine/src/types/id/isin_code.rs b/trading-engine/src/types/id/isin_code.rs
index 60c9794..604f01a 100644
--- a/trading-engine/src/types/id/isin_code.rs
+++ b/trading-engine/src/types/id/isin_code.rs
@@ -4,10 +4,26 @@ use serde::{Deserialize, Serialize};
 use std::hash::Hash;
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
+#[serde(try_from = "RawIsinCode")]
 pub struct IsinCode {
     isin: [u8; 12],
 }
 
+/// The serialized form of IsinCode before validation
+#[derive(Deserialize)]
+#[serde(rename = "IsinCode")]
+struct RawIsinCode {
+    isin: [u8; 12],
+}
+
+impl TryFrom<RawIsinCode> for IsinCode {
+    type Error = anyhow::Error;
+
+    fn try_from(raw: RawIsinCode) -> Result<Self> {
+        IsinCode::new(&raw.isin)
+    }
+}
+
 impl Default for IsinCode {
     fn default() -> Self {
         IsinCode { isin: [0u8; 12] }
diff --git a/trading-engine/src/types/id/ticker.rs b/trading-engine/src/types/id/ticker.rs
index 2b95568..cce138b 100644
--- a/trading-engine/src/types/id/ticker.rs
+++ b/trading-engine/src/types/id/ticker.rs
@@ -14,10 +14,26 @@ use std::hash::{Hash, Hasher};
 /// In the end, the Ticker will dwell on only in data area. Ultimately, we will use ID struct that is basically a pointer to
 /// { (Symbol, Venue) }, where Symbol is an Enum type of IsinCode and Ticker.
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(try_from = "RawTicker")]
 pub struct Ticker {
     ticker: [u8; 32],
 }
 
+/// The serialized form of Ticker before validation
+#[derive(Deserialize)]
+#[serde(rename = "Ticker")]
+struct RawTicker {
+    ticker: [u8; 32],
+}
+
+impl TryFrom<RawTicker> for Ticker {
+    type Error = anyhow::Error;
+
+    fn try_from(raw: RawTicker) -> Result<Self> {
+        Ticker::new(&raw.ticker)
+    }
+}
+
 impl Default for Ticker {
     fn default() -> Self {
         Ticker { ticker: [0u8; 32] }
@@ -30,6 +46,11 @@ impl Ticker {
             let err = || anyhow!("Ticker(={:?}) length should be less than 32", from_utf8(bytes));
             return Err(err());
         }
+        // as_str relies on this
+        if let Err(e) = from_utf8(bytes) {
+            let err = || anyhow!("Ticker(={:?}) should be utf8: {}", bytes, e);
+            return Err(err());
+        }
         let mut ticker = [0u8; 32];
         ticker[..bytes.len()].copy_from_slice(bytes);
         Ok(Ticker { ticker })
-- 
2.43.0


From 4ef73ca90bd6846774dd5a1a955ae144c5f046bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 15/58] fix: the long decimal parser could not handle 16
 characters

---
 trading-engine/src/utils/numeric_converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index f34b846..278c489 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -215,6 +215,9 @@ pub fn parse_under32_with_floating_point(u: &[u8], length: usize, point_length:
         (16..=32).contains(&length),
         "parse_under32: length must be less than or equal to 32"
     );
+    if length == 16 {
+        return parse_under16_with_floating_point(u, length, point_length);
+    }
 
     match point_length {
         0 => parse_under32(u, length) as u64,
-- 
2.43.0


From 83327a6eaaf5518cc0504f5404cada0c3d1d50ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 16/58] fix: a bounded counter handed out ids below its start
 after wrapping

---
 trading-engine/src/utils/counter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/utils/counter.rs b/trading-engine/src/utils/counter.rs
index 9ee7d5b..6b39f04 100644
--- a/trading-engine/src/utils/counter.rs
+++ b/trading-engine/src/utils/counter.rs
@@ -19,7 +19,7 @@ impl CounterUsize {
 
     pub fn next(&self) -> Result<usize> {
         let res = self.counter.fetch_add(1, Ordering::SeqCst);
-        if res > self.end {
+        if res > self.end || res < self.start { // below start only after wrapping
             let lazy_error = || {
                 anyhow!(
                     "CounterUsize: counter overflow, start: {}, end: {}",
@@ -52,7 +52,7 @@ impl CounterU64 {
 
     pub fn next(&self) -> Result<u64> {
         let res = self.counter.fetch_add(1, Ordering::SeqCst);
-        if res > self.end {
+        if res > self.end || res < self.start { // below start only after wrapping
             let lazy_error = || {
                 anyhow!(
                     "CounterU64: counter overflow, start: {}, end: {}",
-- 
2.43.0


From 44f4c722741026bd0ba65700f3dcfbe74a947ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 17/58] fix: a default spin queue handed out and freed a null
 pointer

---
 trading-engine/src/spinqueue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/spinqueue.rs b/trading-engine/src/spinqueue.rs
index acaeb98..c61d9b2 100644
--- a/trading-engine/src/spinqueue.rs
+++ b/trading-engine/src/spinqueue.rs
@@ -64,7 +64,7 @@ where T: Clone + Debug + Default
 {
     fn default() -> Self {
         DataSpinQueue {
-            data_buffer: AtomicPtr::default(),
+            data_buffer: AtomicPtr::new(Box::into_raw(Box::default())),
             worker_status: WorkerStatus::new(0),
             full_status: 0,
             //workers: Vec::new(),
-- 
2.43.0


From 607c65c1ed52ce4d88c7238d605473fd9aca35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 18/58] fix: logging a struct did not compile outside of an
 unused macro arm

---
 trading-engine/src/logger.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index 285b582..e866636 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -336,7 +336,7 @@ macro_rules! log_fn_json {
 
     // In case of structs
     ($level:expr, $topic:expr, $struct:expr) => {{
-        let current_level = $crate::LogLevel::from_usize($crate::LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
+        let current_level = $crate::LogLevel::from_usize($crate::MAX_LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
         if $level <= current_level {
             let timestamp = $crate::get_unix_nano();
             let func = move || {
@@ -436,7 +436,7 @@ macro_rules! flushing_log_fn_json {
 
     // In case of structs
     ($level:expr, $topic:expr, $struct:expr) => {{
-        let current_level = $crate::LogLevel::from_usize($crate::LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
+        let current_level = $crate::LogLevel::from_usize($crate::MAX_LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
         if $level <= current_level {
             let timestamp = $crate::get_unix_nano();
             let func = move || {
-- 
2.43.0


From d171e5959fbca2de1900bf2b9f7948fe1f4cd657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 19/58] fix: the console report lost the records after the last
 flush

---
 trading-engine/src/logger.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index e866636..c874bad 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -127,11 +127,15 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
                     }
                 }
                 LogMessage::Close => {
+                    let output = message_queue.join("");
                     if let Some(ref mut writer) = writer {
-                        writer.write_all(message_queue.join("").as_bytes()).unwrap();
+                        writer.write_all(output.as_bytes()).unwrap();
                         writer.flush().unwrap();
                         let _ = writer.get_mut().sync_all();
                     }
+                    if CONSOLE_REPORT.load(Ordering::Relaxed) && !output.is_empty() {
+                        println!("{}", output);
+                    }
                     break;
                 }
             }
-- 
2.43.0


From 6e37fa84324767edb519ed29d1de0a25b52ea9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 20/58] fix: moving averages measured every interval from their
 creation

---
 trading-engine/src/feature/weighted_valuation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading-engine/src/feature/weighted_valuation.rs b/trading-engine/src/feature/weighted_valuation.rs
index eed74cc..f5a00d5 100644
--- a/trading-engine/src/feature/weighted_valuation.rs
+++ b/trading-engine/src/feature/weighted_valuation.rs
@@ -33,6 +33,7 @@ impl EWMA {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.value = TimeSeriesWeight::previous_weight(interval_weight) * self.value
             + TimeSeriesWeight::current_weight(interval_weight) * new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
@@ -73,6 +74,7 @@ impl EWMS {
     pub fn update(&mut self, new_value: Real, new_timestamp: TimeStamp) {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.summation = TimeSeriesWeight::previous_weight(interval_weight) * self.summation + new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
-- 
2.43.0


From 7f572a0fe7d1998d1047facc56a008a2e9dd6fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 21/58] fix: quotes made with a capacity panicked on their
 first update

---
 trading-engine/src/feature/tick.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index 5d4d7e9..fc1346b 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -91,8 +91,8 @@ impl SimpleQuotes {
     pub fn with_capacity(capacity: usize) -> Self {
         let converter = get_default_order_converter();
         Self {
-            bids: Vec::with_capacity(capacity),
-            asks: Vec::with_capacity(capacity),
+            bids: vec![SimpleSnapshot::default(); capacity],
+            asks: vec![SimpleSnapshot::default(); capacity],
             level_cut: capacity,
             timestamp: TimeStamp::default(),
             system_time: TimeStamp::default(),
-- 
2.43.0


From d5ea56d6c94092322ecff26f9fb82330919c61d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 22/58] fix: updated quotes kept the receive time of the first
 snapshot

---
 trading-engine/src/feature/tick.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index fc1346b..7fb3374 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -237,6 +237,7 @@ impl SimpleQuotes {
         }
         self.order_converter = data.order_converter;
         self.timestamp = data.timestamp;
+        self.system_time = data.system_timestamp;
 
         for i in 0..self.level_cut {
             self.bids[i].price = self.order_converter.price.normalized_real_from_i64(
@@ -271,6 +272,7 @@ impl SimpleQuotes {
         }
         self.order_converter = data.order_converter;
         self.timestamp = data.timestamp;
+        self.system_time = data.system_timestamp;
 
         for i in 0..self.level_cut {
             self.bids[i].price = self.order_converter.price.normalized_real_from_i64(
-- 
2.43.0


From 993ec122cb040396df6ad64975f7ba73c201878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 23/58] fix: log order flow imbalance was infinite for zero
 quantities

---
 trading-engine/src/feature/tick.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index 7fb3374..df21696 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -410,7 +410,7 @@ impl SimpleQuotes {
         let current_ask = &arriving_quotes.asks[level - 1];
 
         let res = if current_ask.price > previous_ask.price {
-            if current_ask.quantity > 0.0 {
+            if previous_ask.quantity > 0.0 {
                 - previous_ask.quantity.ln()
             } else { 
                 let current_ask_clone = current_ask.clone();
@@ -421,7 +421,7 @@ impl SimpleQuotes {
                 0.0 
             }
         } else if current_ask.price == previous_ask.price {
-            if previous_ask.quantity > 0.0 {
+            if previous_ask.quantity > 0.0 && current_ask.quantity > 0.0 {
                 (current_ask.quantity / previous_ask.quantity).ln()
             } else { 
                 let current_ask_clone = current_ask.clone();
@@ -491,7 +491,7 @@ impl SimpleQuotes {
                 0.0 
             }
         } else if current_bid.price == previous_bid.price {
-            if previous_bid.quantity > 0.0 {
+            if previous_bid.quantity > 0.0 && current_bid.quantity > 0.0 {
                 (current_bid.quantity / previous_bid.quantity).ln()
             } else { 
                 let current_bid_clone = current_bid.clone();
@@ -501,7 +501,7 @@ impl SimpleQuotes {
                 );
                 0.0 
             }
-        } else if current_bid.quantity > 0.0 {
+        } else if previous_bid.quantity > 0.0 {
             - previous_bid.quantity.ln()
         } else { 
             let current_bid_clone = current_bid.clone();
-- 
2.43.0


From 055ecd398a168135248e67d4412f8b626dbce25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 24/58] fix: default order books kept bids in an ask-side half
 with a best price of zero

---
 trading-engine/src/orderbook/half_book.rs | 9 ++++++++-
 trading-engine/src/orderbook/mod.rs       | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index fa77c68..81ed2ce 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -19,7 +19,7 @@ use std::collections::{
     hash_map::Entry as HmEntry,
 };
     
-#[derive(Debug, Clone, Default, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub struct HalfBook {
     pub order_side: OrderSide,
     // wow! this can be gigantic
@@ -30,6 +30,13 @@ pub struct HalfBook {
     total_quantity: BookQuantity,
 }
 
+impl Default for HalfBook {
+    #[inline]
+    fn default() -> Self {
+        Self::initialize(OrderSide::default())
+    }
+}
+
 impl HalfBook {
     #[must_use]
     pub fn eq_level(&self, other: &HalfBook) -> bool {
diff --git a/trading-engine/src/orderbook/mod.rs b/trading-engine/src/orderbook/mod.rs
index 71b7c8d..331bfda 100644
--- a/trading-engine/src/orderbook/mod.rs
+++ b/trading-engine/src/orderbook/mod.rs
@@ -36,7 +36,7 @@ use anyhow::{
     Context,
 };
 
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct OrderBook {
     pub asks: HalfBook,
     pub bids: HalfBook,
@@ -46,6 +46,13 @@ pub struct OrderBook {
     system_time: TimeStamp,
 }
 
+impl Default for OrderBook {
+    #[inline]
+    fn default() -> Self {
+        Self::initialize_with_id(InstId::default())
+    }
+}
+
 impl OrderBook {
     #[inline]
     #[must_use]
-- 
2.43.0


From 2fd104cfc57895dc67223e4868da7c0fe3f59349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 25/58] fix: Good Friday used the orthodox Easter table for
 western calendars and vice versa

---
 quantlib/src/time/holiday.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/time/holiday.rs b/quantlib/src/time/holiday.rs
index ff4f9bc..20a9b86 100644
--- a/quantlib/src/time/holiday.rs
+++ b/quantlib/src/time/holiday.rs
@@ -28,9 +28,9 @@ pub trait Holidays {
         }
 
         if is_orthodox {
-            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
-        } else {
             dd == EASTER_MONDAYS[1][year as usize - FIRST_EASTER_MONDAY] - 3
+        } else {
+            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
         }
     }
 }
-- 
2.43.0


From 6e1ba12c2375fe0fe5629d158071a242d7c64192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 26/58] fix: the street convention gave a month too little
 between two 31sts

---
 quantlib/src/time/calendar_trait.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 9930ad2..6964606 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -236,12 +236,9 @@ pub trait CalendarTrait {
                 days += 360 * (year_upto - year_from);
                 days += 30 * (month_upto as i32 - month_from as i32);
                 days += day_upto as i32 - day_from as i32;
-                if day_from == 31 {
-                    if day_upto == 31 {
-                        days -= 30;
-                    } else {
-                        days += 1;
-                    }
+                // a start on the 31st counts as the 30th, and so does an end on the 31st after it
+                if day_from == 31 && day_upto != 31 {
+                    days += 1;
                 }
                 days as Time / 360.0
             }
-- 
2.43.0


From 231ff39ece880b819310db5b3233fb6b82af0719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 27/58] fix: month subtraction over several years and year or
 month moves after clock units

---
 quantlib/src/utils/string_arithmetic.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantlib/src/utils/string_arithmetic.rs b/quantlib/src/utils/string_arithmetic.rs
index 32ed152..272b88f 100644
--- a/quantlib/src/utils/string_arithmetic.rs
+++ b/quantlib/src/utils/string_arithmetic.rs
@@ -117,7 +117,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -136,7 +136,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -187,7 +187,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -195,7 +195,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 let month_i32 = from_month_to_i32(new_datetime.month());
                 let year = new_datetime.year();
                 let new_month = from_i32_to_month((month_i32 - value as i32 + 120000000) % 12);
-                let new_year = year - 1 + (month_i32 - value as i32 + 12) / 12;
+                let new_year = year + (month_i32 - value as i32).div_euclid(12);
                 let eom_new = NullCalendar::default()
                     .last_day_of_month(new_year, new_month)
                     .day();
@@ -206,7 +206,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
-- 
2.43.0


From 7febfb94df3b424291bf497085e78e289ab28b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 28/58] fix: a schedule of a single period ran past its
 maturity

---
 quantlib/src/instruments/schedule.rs | 31 ++++++++++------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/quantlib/src/instruments/schedule.rs b/quantlib/src/instruments/schedule.rs
index 2418c74..1f2e9ca 100644
--- a/quantlib/src/instruments/schedule.rs
+++ b/quantlib/src/instruments/schedule.rs
@@ -164,30 +164,21 @@ pub fn build_schedule(
     let mut calc_end_date: OffsetDateTime;
     let mut payment_date: OffsetDateTime;
     for i in 0..schedule_length {
-        if i == 0 {
-            calc_start_date = *effective_date;
-            calc_end_date = calc_start_date_vec[i + 1];
-            fixing_date = calendar.adjust(
-                &(calc_start_date - Duration::days(fixing_gap_days)),
-                &BusinessDayConvention::Preceding,
-            )?;
-            payment_date =
-                calendar.adjust(&(calc_end_date + Duration::days(payment_gap_days)), conv)?;
-        } else if i == schedule_length - 1 {
-            calc_start_date = calc_start_date_vec[i];
+        // the first period starts at the effective date and the last one ends, and is paid, at the maturity
+        calc_start_date = if i == 0 {
+            *effective_date
+        } else {
+            calc_start_date_vec[i]
+        };
+        fixing_date = calendar.adjust(
+            &(calc_start_date - Duration::days(fixing_gap_days)),
+            &BusinessDayConvention::Preceding,
+        )?;
+        if i == schedule_length - 1 {
             calc_end_date = *maturity;
-            fixing_date = calendar.adjust(
-                &(calc_start_date - Duration::days(fixing_gap_days)),
-                &BusinessDayConvention::Preceding,
-            )?;
             payment_date = *maturity;
         } else {
-            calc_start_date = calc_start_date_vec[i];
             calc_end_date = calc_start_date_vec[i + 1];
-            fixing_date = calendar.adjust(
-                &(calc_start_date - Duration::days(fixing_gap_days)),
-                &BusinessDayConvention::Preceding,
-            )?;
             payment_date =
                 calendar.adjust(&(calc_end_date + Duration::days(payment_gap_days)), conv)?;
         }
-- 
2.43.0


From 2b7eeb0e5ca0a0f088f1962f57f6cabbaf1ea219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 29/58] fix: batched step interpolation ignored the
 extrapolation values

---
 .../src/math/interpolators/stepwise_interpolatior.rs     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/math/interpolators/stepwise_interpolatior.rs b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
index 47bc822..2aa99c5 100644
--- a/quantlib/src/math/interpolators/stepwise_interpolatior.rs
+++ b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
@@ -117,7 +117,14 @@ where
                         x[{}] = {}, domain = [{}, {}]",
                         i, x[i], left_bound, right_bound));
                 }
-                result[i] = self.value[index[i]];
+                result[i] = if x[i] < left_bound {
+                    self.left_extrapolation_value.unwrap_or(self.value[0])
+                } else if x[i] > right_bound {
+                    self.right_extrapolation_value
+                        .unwrap_or(self.value[self.value.len() - 1])
+                } else {
+                    self.value[index[i]]
+                };
             }
         }
         Ok(result)
-- 
2.43.0


From ac3a395f0fcaa0b4f8719ed9eb9753fae8da9295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 30/58] fix: linear interpolation without extrapolation refused
 the last node, empty grids panicked

---
 .../src/math/interpolators/bilinear_interpolator.rs   | 11 ++++++++++-
 .../src/math/interpolators/linear_interpolator.rs     | 10 +++++++++-
 quantlib/src/util.rs                                  |  4 ++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/quantlib/src/math/interpolators/bilinear_interpolator.rs b/quantlib/src/math/interpolators/bilinear_interpolator.rs
index 91c1c22..a2fda6d 100644
--- a/quantlib/src/math/interpolators/bilinear_interpolator.rs
+++ b/quantlib/src/math/interpolators/bilinear_interpolator.rs
@@ -46,6 +46,13 @@ impl BilinearInterpolator {
                 x_interpolator
             ));
         }
+        if n == 0 {
+            return Err(anyhow!(
+                "({}:{}) t_domain must not be empty",
+                file!(),
+                line!()
+            ));
+        }
         if !is_ndarray_sorted(&t_domain) {
             return Err(anyhow!(
                 "({}:{}) t_domain must be sorted: \n{:?}",
@@ -165,7 +172,9 @@ impl BilinearInterpolator {
                     self.t_domain
                 ))
             }
-        } else if t >= self.t_domain[n - 1] {
+        } else if t == self.t_domain[n - 1] {
+            self.x_interpolator[n - 1].interpolate(x)
+        } else if t > self.t_domain[n - 1] {
             if self.t_domain_allow_extrapolation {
                 match self.t_domain_extrapolation_type {
                     ExtraPolationType::Flat => Ok(self.x_interpolator[n - 1].interpolate(x)?),
diff --git a/quantlib/src/math/interpolators/linear_interpolator.rs b/quantlib/src/math/interpolators/linear_interpolator.rs
index 4eb1b54..6cfaacb 100644
--- a/quantlib/src/math/interpolators/linear_interpolator.rs
+++ b/quantlib/src/math/interpolators/linear_interpolator.rs
@@ -43,6 +43,9 @@ impl LinearInterpolator1D {
             message.push_str(&format!("\nvalue: {:?}", value));
             return Err(anyhow!(message));
         }
+        if n == 0 {
+            return Err(anyhow!("domain and value must not be empty"));
+        }
         // the domain must be sorted
         if !is_ndarray_sorted(&domain) {
             return Err(anyhow!("domain must be sorted: \n{:?}", &domain));
@@ -67,6 +70,9 @@ impl LinearInterpolator1D {
 impl InterpolatorReal1D for LinearInterpolator1D {
     fn interpolate(&self, x: Real) -> Result<Real> {
         let n = self.domain.len();
+        if x == self.domain[n - 1] {
+            return Ok(self.value[n - 1]);
+        }
         if x < self.domain[0] {
             if self.allow_extrapolation {
                 if self.extrapolation_type == ExtraPolationType::Flat {
@@ -131,7 +137,9 @@ impl InterpolatorReal1D for LinearInterpolator1D {
         let mut result = Array1::zeros(x_n);
 
         for i in 0..x_n {
-            if x[i] < self.domain[0] {
+            if x[i] == self.domain[domain_n - 1] {
+                result[i] = self.value[domain_n - 1];
+            } else if x[i] < self.domain[0] {
                 if self.allow_extrapolation {
                     if self.extrapolation_type == ExtraPolationType::Flat {
                         result[i] = self.value[0];
diff --git a/quantlib/src/util.rs b/quantlib/src/util.rs
index b77ed7d..5ce7568 100644
--- a/quantlib/src/util.rs
+++ b/quantlib/src/util.rs
@@ -32,8 +32,8 @@ pub fn is_ndarray_sorted<T>(arr: &Array1<T>) -> bool
 where
     T: PartialOrd,
 {
-    for i in 0..arr.len() - 1 {
-        if arr[i] > arr[i + 1] {
+    for i in 1..arr.len() {
+        if arr[i - 1] > arr[i] {
             return false;
         }
     }
-- 
2.43.0


From 53ab87a638bbe4d7e512c32ec7401b79a6b57b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 31/58] fix: Cholesky factorisation passed not-a-number input
 through

---
 quantlib/src/math/cholescky_factorization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/math/cholescky_factorization.rs b/quantlib/src/math/cholescky_factorization.rs
index 997b7eb..cc4c34d 100644
--- a/quantlib/src/math/cholescky_factorization.rs
+++ b/quantlib/src/math/cholescky_factorization.rs
@@ -27,7 +27,7 @@ pub fn cholesky_decomposition(matrix: &Array2<Real>) -> Result<Array2<Real>, &'s
             if i == j {
                 // The diagonal elements
                 let diagonal = matrix[[i, i]] - sum;
-                if diagonal <= 0.0 {
+                if diagonal <= 0.0 || diagonal.is_nan() {
                     return Err("Matrix is not positive definite");
                 }
                 l[[i, i]] = diagonal.sqrt();
-- 
2.43.0


From de09ab33b556f6e95ef1b3bd08669be0ccee0791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 32/58] fix: dividend lists wholly in the past panicked, shifts
 revived past dividends, ex-dates at the evaluation instant were deducted
 twice

---
 .../src/parameters/discrete_ratio_dividend.rs | 160 ++++++------------
 1 file changed, 54 insertions(+), 106 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index c4f5c98..7badc31 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -80,47 +80,12 @@ impl DiscreteRatioDividend {
             //let time = time_calculator.get_time_difference(&marking_offsetdatetime, date);
             //ex_dividend_times[i] = time;
         }
-        // drop data of ex-dividend date and dividend amount before the evaluation-date
-        let eval_dt = evaluation_date.to_owned().borrow().get_date_clone();
-        let mut ex_dividend_dates_for_interpolator = ex_dividend_dates.clone();
-        let mut div_yields_vec = dividend_yields.to_vec();
-        let mut date_integers_for_interpolator_vec = date_integers.to_vec();
-
-        let mut i = 0;
-        let mut checker = 0;
-        while i < ex_dividend_dates.len() {
-            if ex_dividend_dates[checker] < eval_dt {
-                ex_dividend_dates_for_interpolator.remove(i);
-                div_yields_vec.remove(i);
-                date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
-            } else {
-                i += 1;
-            }
-        }
-
-        let dividend_yields_for_interpolator = Array1::from(div_yields_vec);
-        let mut incremental_deduction_ratio = Array1::zeros(dividend_yields_for_interpolator.len());
-        let mut temp = 1.0;
-        for (i, &yield_value) in dividend_yields_for_interpolator.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
-        let deduction_interpolator = if incremental_deduction_ratio.is_empty() {
-            DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?)
-        } else {
-            let right_extrapolation_value =
-                Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-            let interp = StepwiseInterpolator1D::new(
-                Array1::from_vec(date_integers_for_interpolator_vec),
-                incremental_deduction_ratio,
-                true,
-                Some(1.0),
-                right_extrapolation_value,
-            )?;
-            DividendInterpolator::Stepwise(interp)
-        };
+        let deduction_interpolator = Self::make_deduction_interpolator(
+            &ex_dividend_dates,
+            &date_integers,
+            &dividend_yields,
+            &evaluation_date.borrow().get_date_clone(),
+        )?;
 
         let res = DiscreteRatioDividend {
             evaluation_date: evaluation_date.clone(),
@@ -137,6 +102,41 @@ impl DiscreteRatioDividend {
         Ok(res)
     }
 
+    /// accumulated deduction of the dividends which are still to be paid,
+    /// i.e., whose ex-dividend date is after the evaluation date
+    fn make_deduction_interpolator(
+        ex_dividend_dates: &[OffsetDateTime],
+        date_integers: &Array1<Integer>,
+        dividend_yields: &Array1<Real>,
+        eval_dt: &OffsetDateTime,
+    ) -> Result<DividendInterpolator> {
+        let mut domain: Vec<Integer> = Vec::new();
+        let mut deductions: Vec<Real> = Vec::new();
+        let mut deduction: Real = 1.0;
+        for (i, date) in ex_dividend_dates.iter().enumerate() {
+            if date > eval_dt {
+                deduction *= 1.0 - dividend_yields[i];
+                domain.push(date_integers[i]);
+                deductions.push(deduction);
+            }
+        }
+
+        if deductions.is_empty() {
+            return Ok(DividendInterpolator::Constant(ConstantInterpolator1D::new(
+                1.0,
+            )?));
+        }
+
+        let interp = StepwiseInterpolator1D::new(
+            Array1::from_vec(domain),
+            Array1::from_vec(deductions),
+            true,
+            Some(1.0),
+            Some(deduction),
+        )?;
+        Ok(DividendInterpolator::Stepwise(interp))
+    }
+
     pub fn get_deduction_ratio(&self, date: &OffsetDateTime) -> Result<Real> {
         let date_int = to_yyyymmdd_int(date);
         match self.deduction_interpolator {
@@ -216,76 +216,24 @@ impl DiscreteRatioDividend {
         self.dividend_amounts = &self.dividend_amounts + bump_mask * bump_val;
         // update self.dividend_yields and remake a incremental_deduction_ratio
         self.dividend_yields = &self.dividend_amounts / self.spot;
-        let mut incremental_deduction_ratio = Array1::zeros(self.dividend_yields.len());
-        let mut temp: Real = 1.0;
-        for (i, &yield_value) in self.dividend_yields.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
         // update self.deduction_interpolator
-
-        self.deduction_interpolator = match incremental_deduction_ratio.len() {
-            0 => DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?),
-            _ => {
-                let right_extrapolation_value =
-                    Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-                let interp = StepwiseInterpolator1D::new(
-                    self.date_integers.clone(),
-                    incremental_deduction_ratio,
-                    true,
-                    Some(1.0),
-                    right_extrapolation_value,
-                )?;
-                DividendInterpolator::Stepwise(interp)
-            }
-        };
+        let eval_dt = self.evaluation_date.borrow().get_date_clone();
+        self.deduction_interpolator = Self::make_deduction_interpolator(
+            &self.ex_dividend_dates,
+            &self.date_integers,
+            &self.dividend_yields,
+            &eval_dt,
+        )?;
         Ok(())
     }
 
     pub fn update_evaluation_date(&mut self, date: &EvaluationDate) -> Result<()> {
-        let eval_dt: OffsetDateTime = date.get_date_clone();
-
-        let mut ex_dividend_dates_for_interpolator = self.ex_dividend_dates.clone();
-        let mut div_yields_vec = self.dividend_yields.to_vec();
-        let mut date_integers_for_interpolator_vec = self.date_integers.clone().to_vec();
-
-        let mut i = 0;
-        let mut checker = 0;
-        while i < self.ex_dividend_dates.len() {
-            if self.ex_dividend_dates[checker] < eval_dt {
-                ex_dividend_dates_for_interpolator.remove(i);
-                div_yields_vec.remove(i);
-                date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
-            } else {
-                i += 1;
-            }
-        }
-
-        let dividend_yields_for_interpolator = Array1::from(div_yields_vec);
-        let mut incremental_deduction_ratio = Array1::zeros(dividend_yields_for_interpolator.len());
-        let mut temp = 1.0;
-        for (i, &yield_value) in dividend_yields_for_interpolator.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
-        if incremental_deduction_ratio.is_empty() {
-            self.deduction_interpolator =
-                DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?);
-        } else {
-            let right_extrapolation_value =
-                Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-            let deduction_interpolator = StepwiseInterpolator1D::new(
-                Array1::from_vec(date_integers_for_interpolator_vec),
-                incremental_deduction_ratio,
-                true,
-                Some(1.0),
-                right_extrapolation_value,
-            )?;
-            self.deduction_interpolator = DividendInterpolator::Stepwise(deduction_interpolator);
-        }
+        self.deduction_interpolator = Self::make_deduction_interpolator(
+            &self.ex_dividend_dates,
+            &self.date_integers,
+            &self.dividend_yields,
+            date.get_date(),
+        )?;
         Ok(())
     }
 }
-- 
2.43.0


From bb98e60cf618b9070b9e36e4b80c3409886d9402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 33/58] fix: forward rates over no time were infinite or not a
 number

---
 quantlib/src/parameters/zero_curve.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/quantlib/src/parameters/zero_curve.rs b/quantlib/src/parameters/zero_curve.rs
index 723a18e..1e912ef 100644
--- a/quantlib/src/parameters/zero_curve.rs
+++ b/quantlib/src/parameters/zero_curve.rs
@@ -334,19 +334,10 @@ impl ZeroCurve {
     ) -> Result<Real> {
         match t1 <= t2 {
             true => {
+                // over no time, the rate is taken over one day as in get_short_rate_at_time
+                let t2 = if t2 - t1 > 1e-6 { t2 } else { t1 + 0.002737 };
                 let tau = t2 - t1;
-
-                let disc: Real = if tau.abs() > 1e-6 {
-                    match self.get_discount_factor_between_times(t1, t2) {
-                        Ok(d) => d,
-                        Err(e) => return Err(e),
-                    }
-                } else {
-                    match self.get_discount_factor_between_times(t1, t2 + 1e-5) {
-                        Ok(d) => d,
-                        Err(e) => return Err(e),
-                    }
-                };
+                let disc: Real = self.get_discount_factor_between_times(t1, t2)?;
 
                 match compounding {
                     Compounding::Simple => Ok((1.0 - disc) / tau),
-- 
2.43.0


From 9fe3278e5c77e36c6157ba25c2101c68067ff4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 34/58] fix: time to a date in an earlier year was zero instead
 of negative

---
 quantlib/src/time/calendar_trait.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 6964606..fc120b9 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -288,6 +288,9 @@ pub trait CalendarTrait {
     /// at the second, calculate the time from the start of the end_date to the end_date as Act366 fasion
     /// then, sum up the two times
     fn get_time_difference(&self, start_date: &OffsetDateTime, end_date: &OffsetDateTime) -> Time {
+        if end_date < start_date {
+            return -self.get_time_difference(end_date, start_date);
+        }
         //let midnight_last_day_of_year_start = OffsetDateTime::new_in_offset(last_day_of_year_start, time::Time::MIDNIGHT, start_date_offset);
         let mut frac: Time = 0.0;
         let start_year = start_date.year();
-- 
2.43.0


From fe9c3840ffda44c316475e0ee92c5286dfb0aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 35/58] fix: floating swap coupons lost their notional once the
 initial exchange was past

---
 quantlib/src/instruments/plain_swap.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 3701570..8e5bdd9 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -501,11 +501,10 @@ impl InstrumentTrait for PlainSwap {
         past_fixing_data: Option<Rc<DailyClosePrice>>,
     ) -> Result<HashMap<OffsetDateTime, Real>> {
         let mut res = HashMap::new();
-        let mut initial_value = 1.0;
+        let initial_value = self.initial_floating_side_payment.unwrap_or(1.0);
         if self.effective_date.date() >= pricing_date.date()
             && self.initial_floating_side_payment.is_some()
         {
-            initial_value = self.initial_floating_side_payment.unwrap();
             res.insert(self.effective_date, -initial_value);
         }
         if self.maturity.date() >= pricing_date.date()
-- 
2.43.0


From 7827b247abcfd7185847985f766ec3826ec9e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 36/58] fix: cash flows on the same date replaced each other in
 the expected amounts

---
 quantlib/src/pricing_engines/npv_result.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/npv_result.rs b/quantlib/src/pricing_engines/npv_result.rs
index c668575..50759ea 100644
--- a/quantlib/src/pricing_engines/npv_result.rs
+++ b/quantlib/src/pricing_engines/npv_result.rs
@@ -81,7 +81,7 @@ impl NpvResult {
                 .cashflow_probabilities
                 .get(id)
                 .ok_or_else(|| anyhow::anyhow!("No probability found for coupon id {}", id))?;
-            res.insert(*datetime, *amount * prob.1);
+            *res.entry(*datetime).or_insert(0.0) += *amount * prob.1;
         }
         Ok(res)
     }
-- 
2.43.0


From a99ac38099ec6f735142d71869f45f1bd1487103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 37/58] fix: yield-based price was not a number on the maturity
 date

---
 quantlib/src/pricing_engines/krx_yield_pricer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/krx_yield_pricer.rs b/quantlib/src/pricing_engines/krx_yield_pricer.rs
index 127e53d..f43153f 100644
--- a/quantlib/src/pricing_engines/krx_yield_pricer.rs
+++ b/quantlib/src/pricing_engines/krx_yield_pricer.rs
@@ -167,7 +167,11 @@ impl PricerTrait for KrxYieldPricer {
             .max()
             .unwrap_or(bond.get_issue_date()?);
         let b = (min_cashflow_date.date() - previous_date.date()).whole_days();
-        let frac = d as Real / b as Real;
+        // nothing is left to be paid on or after the maturity date
+        let frac = match b {
+            0 => 0.0,
+            _ => d as Real / b as Real,
+        };
 
         res /= 1.0 + effective_yield * frac;
 
-- 
2.43.0


From a4be228eb68da8f008a6eab17056969fef2deaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 38/58] fix: bond yields were refused for an exact or a distant
 first guess

---
 .../src/pricing_engines/krx_yield_pricer.rs   | 56 +++++++++++++++++--
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/quantlib/src/pricing_engines/krx_yield_pricer.rs b/quantlib/src/pricing_engines/krx_yield_pricer.rs
index f43153f..6e7ae2c 100644
--- a/quantlib/src/pricing_engines/krx_yield_pricer.rs
+++ b/quantlib/src/pricing_engines/krx_yield_pricer.rs
@@ -13,6 +13,9 @@ use argmin::solver::gradientdescent::SteepestDescent;
 use argmin::solver::linesearch::MoreThuenteLineSearch;
 use std::{cell::RefCell, rc::Rc};
 
+/// squared price difference at which a yield is taken as found
+const TARGET_COST: Real = 1.0e-9;
+
 /// 금융투자회사의 영업 및 업무에 관한 규정 별표 14
 /// https://law.kofia.or.kr/service/law/lawFullScreenContent.do?seq=136&historySeq=263
 #[derive(Debug, Clone)]
@@ -50,18 +53,30 @@ impl KrxYieldPricer {
 
     pub fn find_bond_yield(&self, bond: Bond, npv: Real, init_guess: Option<Real>) -> Result<Real> {
         let pricer = self.clone();
+        let bisect = KrxYieldPricerCostFunction::new(bond.clone(), npv, pricer.clone());
         let problem = KrxYieldPricerCostFunction::new(bond, npv, pricer);
         let linesearch = MoreThuenteLineSearch::new();
 
         let solver = SteepestDescent::new(linesearch);
         let init_param = init_guess.unwrap_or(0.02);
         let executor = Executor::new(problem, solver)
-            .configure(|state| state.param(init_param).max_iters(30).target_cost(1.0e-9));
-
-        let res = executor.run()?;
-        match res.state.best_param {
+            .configure(|state| {
+            state
+                .param(init_param)
+                .max_iters(30)
+                .target_cost(TARGET_COST)
+        });
+
+        // the descent fails when it starts at the solution or oversteps the domain, and may run out of iterations
+        let descent = match executor.run() {
+            Ok(res) if res.state.best_cost <= TARGET_COST => res.state.best_param,
+            _ => None,
+        };
+        match descent {
             Some(param) => Ok(param),
-            None => Err(anyhow!("Failed to find bond yield")),
+            None => bisect.find_by_bisection().ok_or_else(|| {
+                anyhow!("Failed to find bond yield from the initial guess {init_param}")
+            }),
         }
     }
 }
@@ -80,6 +95,37 @@ impl KrxYieldPricerCostFunction {
             pricer: RefCell::new(pricer),
         }
     }
+
+    fn price_difference(&self, bond_yield: Real) -> Option<Real> {
+        self.pricer.borrow_mut().set_bond_yield(bond_yield);
+        let npv = self.pricer.borrow().npv(&self.bond).ok()?;
+        Some(npv - self.npv).filter(|x| x.is_finite())
+    }
+
+    /// prices fall with the yield: halve the interval between a too expensive and a too cheap one
+    fn find_by_bisection(&self) -> Option<Real> {
+        let (mut low, mut high): (Real, Real) = (0.0, 0.0);
+        while self.price_difference(low)? < 0.0 {
+            low -= 0.05;
+            if low < -10.0 {
+                return None;
+            }
+        }
+        while self.price_difference(high)? > 0.0 {
+            high = 2.0 * high + 0.05;
+            if high > 100.0 {
+                return None;
+            }
+        }
+        for _ in 0..50 {
+            let middle = (low + high) / 2.0;
+            match self.price_difference(middle)? > 0.0 {
+                true => low = middle,
+                false => high = middle,
+            }
+        }
+        Some((low + high) / 2.0)
+    }
 }
 
 impl CostFunction for KrxYieldPricerCostFunction {
-- 
2.43.0


From 96f2cca503addfcee74f2c6c3667e16cc85548d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 39/58] fix: options without remaining variance at the money
 were not a number

---
 quantlib/src/pricing_engines/option_analytic_pricer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantlib/src/pricing_engines/option_analytic_pricer.rs b/quantlib/src/pricing_engines/option_analytic_pricer.rs
index 6ca92d0..c2a3665 100644
--- a/quantlib/src/pricing_engines/option_analytic_pricer.rs
+++ b/quantlib/src/pricing_engines/option_analytic_pricer.rs
@@ -95,6 +95,14 @@ impl PricerTrait for OptionAnalyticPricer {
 
         let dsc = self.discount_curve.borrow().get_discount_factor(t)?;
 
+        // nothing is uncertain any more, only the payoff is left
+        if total_deviation == 0.0 {
+            return match option_type {
+                OptionType::Call => Ok(dsc * (fwd - strike).max(0.0)),
+                OptionType::Put => Ok(dsc * (strike - fwd).max(0.0)),
+            };
+        }
+
         let d1 = (-y + total_variance / 2.0 - quanto_adjustment) / total_deviation;
         let d2 = d1 - total_deviation;
 
-- 
2.43.0


From 0f9cb73d4b524d45c6795db22a0b5cabe2905aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 40/58] fix: quanto options paid the forward without its quanto
 adjustment

---
 quantlib/src/pricing_engines/option_analytic_pricer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantlib/src/pricing_engines/option_analytic_pricer.rs b/quantlib/src/pricing_engines/option_analytic_pricer.rs
index c2a3665..19df474 100644
--- a/quantlib/src/pricing_engines/option_analytic_pricer.rs
+++ b/quantlib/src/pricing_engines/option_analytic_pricer.rs
@@ -95,6 +95,9 @@ impl PricerTrait for OptionAnalyticPricer {
 
         let dsc = self.discount_curve.borrow().get_discount_factor(t)?;
 
+        // the forward in the currency of the payoff
+        let fwd = fwd * (-quanto_adjustment).exp();
+
         // nothing is uncertain any more, only the payoff is left
         if total_deviation == 0.0 {
             return match option_type {
-- 
2.43.0


From eafe19b371765fbaa6043071b539429f8dee0916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 41/58] fix: engines could not price single-currency swaps

---
 quantlib/src/pricing_engines/pricer_factory.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/quantlib/src/pricing_engines/pricer_factory.rs b/quantlib/src/pricing_engines/pricer_factory.rs
index 5bd8205..cee96a8 100644
--- a/quantlib/src/pricing_engines/pricer_factory.rs
+++ b/quantlib/src/pricing_engines/pricer_factory.rs
@@ -2,6 +2,7 @@ use crate::currency::FxCode;
 use crate::enums::VanillaOptionCalculationMethod;
 use crate::evaluation_date::EvaluationDate;
 use crate::instrument::{Instrument, InstrumentTrait};
+use crate::instruments::plain_swap::PlainSwapType;
 use crate::parameters::{market_price::MarketPrice, past_price::DailyClosePrice};
 use crate::parameters::{
     quanto::Quanto, rate_index::RateIndex, volatility::Volatility, zero_curve::ZeroCurve,
@@ -350,16 +351,24 @@ impl PricerFactory {
     }
 
     fn get_plain_swap_pricer(&self, instrument: &Rc<Instrument>) -> Result<Pricer> {
-        let fixed_leg_discount_curve_name = self.match_parameter.get_crs_curve_name(instrument)?;
+        // a single-currency swap is discounted on the curve of its rate index on both legs
+        let is_irs = instrument.get_specific_plain_swap_type()? == PlainSwapType::IRS;
+        let fixed_leg_discount_curve_name = match is_irs {
+            true => self.match_parameter.get_discount_curve_name(instrument)?,
+            false => self.match_parameter.get_crs_curve_name(instrument)?,
+        };
         let fixed_leg_discount_curve = self.zero_curves.get(fixed_leg_discount_curve_name)
             .ok_or_else(|| anyhow::anyhow!(
                 "({}:{}) failed to get fixed leg discount curve of {}.\nself.zero_curves does not have {}",
                 file!(), line!(), instrument.get_code(), fixed_leg_discount_curve_name,
             ))?.clone();
 
-        let floating_leg_discount_curve_name = self
-            .match_parameter
-            .get_floating_crs_curve_name(instrument)?;
+        let floating_leg_discount_curve_name = match is_irs {
+            true => self.match_parameter.get_discount_curve_name(instrument)?,
+            false => self
+                .match_parameter
+                .get_floating_crs_curve_name(instrument)?,
+        };
         let floating_leg_discount_curve = self.zero_curves.get(floating_leg_discount_curve_name)
             .ok_or_else(|| anyhow::anyhow!(
                 "({}:{}) failed to get floating leg discount curve of {}.\nself.zero_curves does not have {}",
-- 
2.43.0


From 64383b9d4faf8cefe6f34c1b34801f5c9ed6bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 42/58] fix: vega matrices were also filed under the other
 underlyings calculated later

---
 quantlib/src/pricing_engines/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index e118ac9..c2f87ab 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1373,7 +1373,7 @@ impl Engine {
         let mut npv: Real;
         let mut npv_up: Real;
         // inst code (String) -> Array2<Real>
-        let mut single_vega_matrix: HashMap<String, Array2<Real>> = HashMap::new();
+        let mut single_vega_matrix: HashMap<String, Array2<Real>>;
         let exclude_type = vec!["Cash", "Stock", "Futures"];
         let exclude_type_clone = exclude_type.clone();
 
@@ -1396,6 +1396,7 @@ impl Engine {
                 .instruments
                 .get_all_inst_code_clone(Some(&self.instruments_in_action));
 
+            single_vega_matrix = HashMap::new();
             for inst_code in inst_codes_in_action.iter() {
                 let init = Array2::zeros((calc_times.len(), spot_moneyness.len()));
                 single_vega_matrix.insert(inst_code.clone(), init);
-- 
2.43.0


From 8b2123edde9d06cd0db9e5a83dfa76d29e77643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 43/58] fix: the vega matrix left the volatility surface
 lowered beyond the longest maturity

---
 quantlib/src/pricing_engines/engine.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index c2f87ab..0f8e23d 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1426,6 +1426,7 @@ impl Engine {
                 );
             }
 
+            let mut bumped = vec![];
             for i in (0..calc_times.len()).rev() {
                 let bump_tenor_start = match i {
                     0 => None,
@@ -1464,6 +1465,12 @@ impl Engine {
                             bump_val,
                         )?;
                     }
+                    bumped.push((
+                        bump_tenor_start,
+                        bump_tenor_end,
+                        bump_moneyness_start,
+                        bump_moneyness_end,
+                    ));
 
                     current_npvs_up = self.get_npvs().with_context(|| {
                         anyhow!(
@@ -1507,8 +1514,8 @@ impl Engine {
                     }
                 }
             }
-            // put back
-            {
+            // put back exactly what was bumped
+            for (tenor_start, tenor_end, moneyness_start, moneyness_end) in bumped.into_iter() {
                 (*self.volatilities.get(und_code).ok_or_else(|| {
                     anyhow!(
                         "({}:{}) volatility {} is not set\ntag:\n{}",
@@ -1520,7 +1527,13 @@ impl Engine {
                 })?)
                 .as_ref()
                 .borrow_mut()
-                .bump_volatility(None, None, None, None, -bump_val)?;
+                .bump_volatility(
+                    tenor_start,
+                    tenor_end,
+                    moneyness_start,
+                    moneyness_end,
+                    -bump_val,
+                )?;
             }
         }
         Ok(())
-- 
2.43.0


From 86978b1a1884cdec1525acd323f6d405fa5e06f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 44/58] fix: dividend deltas panicked for underlyings without
 dividend data

---
 quantlib/src/pricing_engines/engine.rs | 29 ++++++++++----------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index 0f8e23d..00f7e30 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1555,16 +1555,15 @@ impl Engine {
             if self.instruments_in_action.is_empty() {
                 continue;
             }
+            // an underlying without dividend data has no dividend to bump
+            let dividend = match self.dividends.get(div_code) {
+                Some(Some(dividend)) => dividend.clone(),
+                _ => continue,
+            };
             // bump dividend but limit the scope that is mutably borrowed
-            {
-                self.dividends
-                    .get(div_code)
-                    .unwrap()
-                    .clone()
-                    .unwrap()
-                    .borrow_mut()
-                    .bump_date_interval(None, None, bump_val)?;
-            }
+            dividend
+                .borrow_mut()
+                .bump_date_interval(None, None, bump_val)?;
 
             npvs_up = self.get_npvs().context("failed to get npvs")?; // instrument code (String) -> npv (Real
 
@@ -1593,15 +1592,9 @@ impl Engine {
                 .set_single_div_delta(div_code, div_delta);
             }
             // put back the bump
-            {
-                self.dividends
-                    .get(div_code)
-                    .unwrap()
-                    .clone()
-                    .unwrap()
-                    .borrow_mut()
-                    .bump_date_interval(None, None, -bump_val)?;
-            }
+            dividend
+                .borrow_mut()
+                .bump_date_interval(None, None, -bump_val)?;
         }
         Ok(())
     }
-- 
2.43.0


From 4f227ba7bb1faf64cdb46e17d2594a2b06724fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 45/58] fix: a requested gamma was not calculated without a
 requested delta

---
 quantlib/src/pricing_engines/engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index 00f7e30..40224fb 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -2001,7 +2001,10 @@ impl Engine {
             );
         }
 
-        if self.calculation_configuration.get_delta_calculation() {
+        // delta and gamma come out of the same revaluations
+        if self.calculation_configuration.get_delta_calculation()
+            || self.calculation_configuration.get_gamma_calculation()
+        {
             timer = std::time::Instant::now();
             self.preprocess_delta_gamma()?;
             self.set_delta_gamma()?;
-- 
2.43.0


From 0e2107493b7baa1cdd031584fca8951d0cae91db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 46/58] fix: the vega matrix ignored its configured bump

---
 quantlib/src/pricing_engines/calculation_configuration.rs | 4 ++++
 quantlib/src/pricing_engines/engine.rs                    | 4 +---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/pricing_engines/calculation_configuration.rs b/quantlib/src/pricing_engines/calculation_configuration.rs
index a9395c5..e0d5d79 100644
--- a/quantlib/src/pricing_engines/calculation_configuration.rs
+++ b/quantlib/src/pricing_engines/calculation_configuration.rs
@@ -417,6 +417,10 @@ impl CalculationConfiguration {
         self.vega_structure_bump_value
     }
 
+    pub fn get_vega_matrix_bump_value(&self) -> Real {
+        self.vega_matrix_bump_value
+    }
+
     pub fn get_delta_bump_ratio(&self) -> Real {
         self.delta_bump_ratio
     }
diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index 40224fb..99da189 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1351,9 +1351,7 @@ impl Engine {
     pub fn set_vega_matrix(&mut self) -> Result<()> {
         let all_underlying_codes = self.instruments.get_all_underlying_codes();
         let eval_dt = self.evaluation_date.borrow().get_date_clone();
-        let bump_val = self
-            .calculation_configuration
-            .get_vega_structure_bump_value();
+        let bump_val = self.calculation_configuration.get_vega_matrix_bump_value();
         let calc_tenors = self.calculation_configuration.get_vega_structure_tenors();
 
         let time_calculator = NullCalendar::default();
-- 
2.43.0


From d377aa51b7f2cb1280de7b4691126c1f7452708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 47/58] fix: deltas ignored a sticky-to-strike volatility
 surface

---
 quantlib/src/pricing_engines/engine.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index 99da189..d7dc878 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -7,9 +7,12 @@ use crate::instrument::{Instrument, InstrumentTrait, Instruments};
 use crate::instruments::instrument_info::InstrumentInfo;
 use crate::parameters::volatilities::local_volatility_surface::LocalVolatilitySurface;
 use crate::parameters::{
-    discrete_ratio_dividend::DiscreteRatioDividend, market_price::MarketPrice,
-    past_price::DailyClosePrice, quanto::Quanto,
-    volatilities::constant_volatility::ConstantVolatility, volatility::Volatility,
+    discrete_ratio_dividend::DiscreteRatioDividend,
+    market_price::MarketPrice,
+    past_price::DailyClosePrice,
+    quanto::Quanto,
+    volatilities::constant_volatility::ConstantVolatility,
+    volatility::{Volatility, VolatilityTrait},
     zero_curve::ZeroCurve,
 };
 use tracing::{info, warn, Level};
@@ -880,6 +883,14 @@ impl Engine {
         Ok(())
     }
 
+    /// a surface which is sticky to strike follows the spot of its underlying
+    fn rebuild_volatility(&self, und_code: &str) -> Result<()> {
+        if let Some(volatility) = self.volatilities.get(und_code) {
+            volatility.borrow_mut().build()?;
+        }
+        Ok(())
+    }
+
     pub fn set_delta_gamma(&mut self) -> Result<()> {
         self.reset_instruments_in_action();
 
@@ -926,6 +937,7 @@ impl Engine {
 
                 *equity *= up_bump;
             }
+            self.rebuild_volatility(und_code)?;
 
             delta_up_map = self.get_npvs().context("failed to get npvs")?;
             {
@@ -938,6 +950,7 @@ impl Engine {
                 equity.set_price(original_price);
                 *equity *= down_bump;
             }
+            self.rebuild_volatility(und_code)?;
 
             delta_down_map = self.get_npvs().context("failed to get npvs")?;
 
@@ -1000,6 +1013,7 @@ impl Engine {
                 .borrow_mut()
                 .set_price(original_price);
             }
+            self.rebuild_volatility(und_code)?;
         }
 
         Ok(())
-- 
2.43.0


From faaef0344fdf133821c0af3497002a7b77484b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:03 +0000
Subject: [PATCH 48/58] fix: rho structures missed the curve nodes beyond the
 longest maturity

The buckets were skipped once every instrument matured before them, but
a payment is discounted by interpolating with the next node of the curve
(and is paid, or its index period ends, after the maturity), so the
sensitivity to that node was reported as zero and the structure did not
add up to the rho.
---
 quantlib/src/pricing_engines/engine.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index d7dc878..e752f18 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1827,16 +1827,6 @@ impl Engine {
                     .borrow_mut()
                     .bump_time_interval(bump_start, bump_end, -bump_val)?;
                 }
-
-                // if there is no instrument over the calc_tenors, we do not need to calculate the next bump
-                let inst_over_bump_end = self.instruments.instruments_with_maturity_over(
-                    Some(&self.instruments_in_action),
-                    &calc_dates[i],
-                    Some(exclude_type_clone.clone()),
-                );
-                if inst_over_bump_end.is_empty() {
-                    break;
-                }
             }
 
             for (inst_code, rho_structure) in single_rho_structure.iter() {
-- 
2.43.0


From ac21438ef784cbc869f96de63ac8cb329376ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 49/58] fix: a written currency pair could not be read back

FxCode is written as "USD_KRW" but its derived Deserialize expected the
two currencies as a structure.
---
 quantlib/src/currency.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/currency.rs b/quantlib/src/currency.rs
index 77cd966..73a4e64 100644
--- a/quantlib/src/currency.rs
+++ b/quantlib/src/currency.rs
@@ -1,4 +1,5 @@
-use serde::{Deserialize, Serialize, Serializer};
+use serde::de::{value::StrDeserializer, Error};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::fmt::Display;
 use std::hash::Hash;
 
@@ -173,7 +174,7 @@ impl Currency {
     }
 }
 
-#[derive(Debug, Clone, Deserialize, PartialEq, Eq, Hash, Copy)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash, Copy)]
 pub struct FxCode {
     currency1: Currency,
     currency2: Currency,
@@ -189,6 +190,22 @@ impl Serialize for FxCode {
     }
 }
 
+impl<'de> Deserialize<'de> for FxCode {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let s = String::deserialize(deserializer)?;
+        let (currency1, currency2) = s
+            .split_once('_')
+            .ok_or_else(|| Error::custom(format!("{} is not a currency pair", s)))?;
+        Ok(FxCode {
+            currency1: Currency::deserialize(StrDeserializer::new(currency1))?,
+            currency2: Currency::deserialize(StrDeserializer::new(currency2))?,
+        })
+    }
+}
+
 impl FxCode {
     pub fn new(currency1: Currency, currency2: Currency) -> FxCode {
         FxCode {
-- 
2.43.0


From ceee89c422aa1166937a256bd09271d94f15e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 50/58] fix: match parameters and daily values could not be
 written as JSON

Their maps have tuples and dates as keys, which text formats do not
allow; they are written as sorted lists of pairs now.
---
 quantlib/src/data/daily_value_data.rs         |  1 +
 quantlib/src/parameters/past_price.rs         |  1 +
 .../src/pricing_engines/match_parameter.rs    |  1 +
 quantlib/src/utils/map_as_pairs.rs            | 27 +++++++++++++++++++
 quantlib/src/utils/mod.rs                     |  1 +
 5 files changed, 31 insertions(+)
 create mode 100644 quantlib/src/utils/map_as_pairs.rs

diff --git a/quantlib/src/data/daily_value_data.rs b/quantlib/src/data/daily_value_data.rs
index bfd6d0e..28d1105 100644
--- a/quantlib/src/data/daily_value_data.rs
+++ b/quantlib/src/data/daily_value_data.rs
@@ -7,6 +7,7 @@ use time::{Date, Time, UtcOffset};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 pub struct DailyValueData {
+    #[serde(with = "crate::utils::map_as_pairs")]
     value: HashMap<Date, Real>,
     close_time: Time,
     utc_offset: UtcOffset,
diff --git a/quantlib/src/parameters/past_price.rs b/quantlib/src/parameters/past_price.rs
index c526bce..8513067 100644
--- a/quantlib/src/parameters/past_price.rs
+++ b/quantlib/src/parameters/past_price.rs
@@ -11,6 +11,7 @@ use time::{Date, OffsetDateTime, Time, UtcOffset};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 pub struct DailyClosePrice {
+    #[serde(with = "crate::utils::map_as_pairs")]
     value: HashMap<Date, Real>,
     close_time: Time,
     utc_offset: UtcOffset,
diff --git a/quantlib/src/pricing_engines/match_parameter.rs b/quantlib/src/pricing_engines/match_parameter.rs
index 69fba71..97758aa 100644
--- a/quantlib/src/pricing_engines/match_parameter.rs
+++ b/quantlib/src/pricing_engines/match_parameter.rs
@@ -24,6 +24,7 @@ pub struct MatchParameter {
     //  issuer_type: IssuerType,
     //  credit_rating: CreditRating,
     //  currency: Currency) -> String
+    #[serde(with = "crate::utils::map_as_pairs")]
     bond_discount_curve_map: HashMap<(String, IssuerType, CreditRating, Currency), String>,
     // index code: RateIndexCode -> String
     rate_index_forward_curve_map: HashMap<String, String>,
diff --git a/quantlib/src/utils/map_as_pairs.rs b/quantlib/src/utils/map_as_pairs.rs
new file mode 100644
index 0000000..169be51
--- /dev/null
+++ b/quantlib/src/utils/map_as_pairs.rs
@@ -0,0 +1,27 @@
+//! serde representation of maps whose keys are not strings: a list of key and value pairs.
+//! Text formats such as JSON only allow strings as keys of a map.
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use std::collections::HashMap;
+use std::hash::Hash;
+
+pub fn serialize<K, V, S>(map: &HashMap<K, V>, serializer: S) -> Result<S::Ok, S::Error>
+where
+    K: Serialize + Ord,
+    V: Serialize,
+    S: Serializer,
+{
+    let mut pairs: Vec<(&K, &V)> = map.iter().collect();
+    pairs.sort_by(|a, b| a.0.cmp(b.0));
+    serializer.collect_seq(pairs)
+}
+
+pub fn deserialize<'de, K, V, D>(deserializer: D) -> Result<HashMap<K, V>, D::Error>
+where
+    K: Deserialize<'de> + Eq + Hash,
+    V: Deserialize<'de>,
+    D: Deserializer<'de>,
+{
+    Ok(Vec::<(K, V)>::deserialize(deserializer)?
+        .into_iter()
+        .collect())
+}
diff --git a/quantlib/src/utils/mod.rs b/quantlib/src/utils/mod.rs
index 919ab4d..fa9b281 100644
--- a/quantlib/src/utils/mod.rs
+++ b/quantlib/src/utils/mod.rs
@@ -2,6 +2,7 @@ pub mod distribute_value;
 pub mod find_index;
 pub mod find_index_ndarray;
 pub mod make_fx;
+pub mod map_as_pairs;
 pub mod number_format;
 pub mod string_arithmetic;
 pub mod tracing_timer;
-- 
2.43.0


From 589984cdcde9e11cac0e0a85e94e0cbc1a18e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 51/58] fix: an instrument table could not be written as JSON

---
 trading-engine/src/types/inst_info.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/trading-engine/src/types/inst_info.rs b/trading-engine/src/types/inst_info.rs
index 3d906cf..72ae2cc 100644
--- a/trading-engine/src/types/inst_info.rs
+++ b/trading-engine/src/types/inst_info.rs
@@ -1,6 +1,6 @@
 use crate::Currency;
 use crate::InstId;
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use rustc_hash::FxHashMap;
 
 
@@ -35,9 +35,26 @@ impl BaseInstInfo {
 
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
 pub struct BaseInstMap {
+    // text formats such as JSON only allow strings as keys, so this is a list of pairs there
+    #[serde(serialize_with = "serialize_pairs", deserialize_with = "deserialize_pairs")]
     pub map: FxHashMap<InstId, BaseInstInfo>,    
 }
 
+fn serialize_pairs<S: Serializer>(
+    map: &FxHashMap<InstId, BaseInstInfo>,
+    serializer: S,
+) -> Result<S::Ok, S::Error> {
+    serializer.collect_seq(map)
+}
+
+fn deserialize_pairs<'de, D: Deserializer<'de>>(
+    deserializer: D,
+) -> Result<FxHashMap<InstId, BaseInstInfo>, D::Error> {
+    Ok(Vec::<(InstId, BaseInstInfo)>::deserialize(deserializer)?
+        .into_iter()
+        .collect())
+}
+
 impl BaseInstMap {
     pub fn new() -> Self {
         BaseInstMap {
-- 
2.43.0


From 5185251231963f539ac2021405a269fc105a6531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 52/58] fix: a written numeric converter could not be read back

---
 trading-engine/src/utils/numeric_converter.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index 278c489..bdb6a35 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -311,7 +311,7 @@ pub fn parse_under32(u: &[u8], length: usize) -> u128 {
     parse_under16(upper, 16) * 10u128.pow((length - 16) as u32) + parse_under16(lower, length - 16)
 }
 
-#[derive(Debug, Serialize)]
+#[derive(Debug)]
 pub struct IntegerConverter {
     numcfg: NumReprCfg,
     is_signed: bool,
@@ -320,10 +320,19 @@ pub struct IntegerConverter {
     decimal_point_length: usize,
     decimal_number_point_length_i32: i32,
     parsing_length: usize,
-    #[serde(skip)]
     parser: fn(&[u8], usize, usize) -> u64,
 }
 
+/// The layout is all that deserialize reads; everything else is derived from it
+impl Serialize for IntegerConverter {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: serde::Serializer,
+    {
+        self.numcfg.serialize(serializer)
+    }
+}
+
 impl<'de> Deserialize<'de> for IntegerConverter {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
-- 
2.43.0


From 8192ad151ea02080e28ea610ef68c2e5dc7383dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 53/58] fix: a received datagram was cut to its first 1024
 bytes

---
 trading-engine/src/communication/udp_client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trading-engine/src/communication/udp_client.rs b/trading-engine/src/communication/udp_client.rs
index 6774b8f..acee38a 100644
--- a/trading-engine/src/communication/udp_client.rs
+++ b/trading-engine/src/communication/udp_client.rs
@@ -28,7 +28,8 @@ impl UdpClient {
     }
 
     pub fn receive_response(&self) -> std::io::Result<String> {
-        let mut buffer = [0; 1024];
+        // the longest datagram there is: recv_from drops what does not fit
+        let mut buffer = [0; u16::MAX as usize];
         let (bytes_read, _) = self.socket.recv_from(&mut buffer)?;
         let response = String::from_utf8_lossy(&buffer[..bytes_read]).to_string();
         Ok(response)
-- 
2.43.0


From 3942f32b9a9c62a0b9e97db92e457bd4413f1c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:47 +0000
Subject: [PATCH 54/58] fix: the currencies of a portfolio missed the floating
 leg of swaps

---
 quantlib/src/instrument.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/instrument.rs b/quantlib/src/instrument.rs
index 215d1c9..9cce23f 100644
--- a/quantlib/src/instrument.rs
+++ b/quantlib/src/instrument.rs
@@ -346,8 +346,8 @@ impl Instruments {
                 currencies.push(currency);
             }
 
-            match instrument.get_type_name() {
-                "Futures" | "FxFutures" => {
+            match instrument.as_ref() {
+                Instrument::Futures(_) | Instrument::FxFutures(_) => {
                     let currency = instrument.get_underlying_currency().with_context(|| {
                         anyhow!(
                             "({}:{}) get_underlying_currency failed for {} ({})",
@@ -361,7 +361,8 @@ impl Instruments {
                         currencies.push(currency);
                     }
                 }
-                "PlainSwap" => {
+                // the type name of a swap is the one of its specific type
+                Instrument::PlainSwap(_) => {
                     let currency = instrument.get_floating_leg_currency().with_context(|| {
                         anyhow!(
                             "({}:{}) get_floating_leg_currency failed for {} ({})",
-- 
2.43.0


From a5ee8e2a98d3fd44e5319b7dcc03a20bfe2416a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 55/58] fix: a portfolio listed an instrument once for each
 role a curve plays for it

---
 quantlib/src/instrument.rs | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/quantlib/src/instrument.rs b/quantlib/src/instrument.rs
index 9cce23f..ad821b4 100644
--- a/quantlib/src/instrument.rs
+++ b/quantlib/src/instrument.rs
@@ -436,29 +436,22 @@ impl Instruments {
             if exclude_type.contains(&instrument.get_type_name()) {
                 continue;
             }
+            // one curve may play several roles for an instrument, which is listed once
             // 1)
-            if match_parameter.get_discount_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
-            // 2)
-            if match_parameter
-                .get_collateral_curve_names(instrument)?
-                .contains(&curve_name)
+            if match_parameter.get_discount_curve_name(instrument)? == curve_name
+                // 2)
+                || match_parameter
+                    .get_collateral_curve_names(instrument)?
+                    .contains(&curve_name)
+                // 3) forward curve
+                || match_parameter.get_rate_index_curve_name(instrument)? == curve_name
+                // 4) crs curve
+                || match_parameter.get_crs_curve_name(instrument)? == curve_name
+                // 5) floating crs curve
+                || match_parameter.get_floating_crs_curve_name(instrument)? == curve_name
             {
                 res.push(instrument.clone());
             }
-            // 3) forward curve
-            if match_parameter.get_rate_index_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
-            // 4) crs curve
-            if match_parameter.get_crs_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
-            // 5) floating crs curve
-            if match_parameter.get_floating_crs_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
         }
         Ok(res)
     }
-- 
2.43.0


From 94cbd4e4f7e252ca668bb92e974eaf878910a2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:16 +0000
Subject: [PATCH 56/58] fix: dividend data with fewer amounts than dates
 panicked or lost dividends

---
 quantlib/src/parameters/discrete_ratio_dividend.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index 7badc31..75d5458 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -70,6 +70,14 @@ impl DiscreteRatioDividend {
         }
 
         let dividend_amount: Array1<Real> = data.get_value_clone();
+        if dividend_amount.len() != ex_dividend_dates.len() {
+            return Err(anyhow!(
+                "DiscreteRatioDividend::new: {} has {} ex-dividend dates but {} amounts",
+                name,
+                ex_dividend_dates.len(),
+                dividend_amount.len()
+            ));
+        }
         let dividend_yields: Array1<Real> = &dividend_amount / spot;
 
         let mut date_integers: Array1<Integer> = Array1::zeros(ex_dividend_dates.len());
-- 
2.43.0


From ce3d54664d98250fda6701dc1ba10b805b67215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:16 +0000
Subject: [PATCH 57/58] fix: swaps built from conventions could be
 interest-rate swaps between two currencies

---
 quantlib/src/instruments/plain_swap.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 8e5bdd9..1947a47 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -335,6 +335,7 @@ impl PlainSwap {
             && last_floating_side_endorsement.is_none()
             && rate_index.is_some()
             && fixed_rate.is_some()
+            && fixed_leg_currency == floating_leg_currency
         {
             specific_type = PlainSwapType::IRS;
         }
-- 
2.43.0


From 858d7ac548c12b2d396174ec19111e97c4d3b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:08 +0000
Subject: [PATCH 58/58] fix: price options with daily settlement

The match parameter names no market curve for them, so the factory always
failed to find their discount curve. They are not discounted.
---
 .../src/pricing_engines/pricer_factory.rs     | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/quantlib/src/pricing_engines/pricer_factory.rs b/quantlib/src/pricing_engines/pricer_factory.rs
index cee96a8..2b228a0 100644
--- a/quantlib/src/pricing_engines/pricer_factory.rs
+++ b/quantlib/src/pricing_engines/pricer_factory.rs
@@ -1,5 +1,5 @@
 use crate::currency::FxCode;
-use crate::enums::VanillaOptionCalculationMethod;
+use crate::enums::{OptionDailySettlementType, VanillaOptionCalculationMethod};
 use crate::evaluation_date::EvaluationDate;
 use crate::instrument::{Instrument, InstrumentTrait};
 use crate::instruments::plain_swap::PlainSwapType;
@@ -201,16 +201,20 @@ impl PricerFactory {
                 file!(), line!(), instrument.get_code(), instrument.get_underlying_codes()[0],
             ))?.clone();
         let discount_curve_name = self.match_parameter.get_discount_curve_name(instrument)?;
-        let discount_curve = self
-            .zero_curves
-            .get(discount_curve_name)
-            .ok_or_else(|| {
-                anyhow::anyhow!(
+        let discount_curve = match instrument.get_option_daily_settlement_type()? {
+            // a daily settled option is not discounted, so no market curve is loaded for it
+            OptionDailySettlementType::Settled => Rc::new(RefCell::new(ZeroCurve::dummy_curve()?)),
+            OptionDailySettlementType::NotSettled => self
+                .zero_curves
+                .get(discount_curve_name)
+                .ok_or_else(|| {
+                    anyhow::anyhow!(
                 "({}:{}) failed to get discount curve of {}.\nself.zero_curves does not have {}",
                 file!(), line!(), instrument.get_code(), discount_curve_name,
             )
-            })?
-            .clone();
+                })?
+                .clone(),
+        };
 
         let collateral_curve_name = self
             .match_parameter
-- 
2.43.0

