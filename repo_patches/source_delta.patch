From 73f1266e18fe4dc079e9769e2352ef78628965d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 1/9] fix: round analog output values to the nearest register
 value

Truncating made a decoded register encode to a different value, so that an
analog output drifted by one digit per cycle without any write request.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 53feab3..67ec60f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -65,7 +65,7 @@ pub fn analog_ui_value_to_u16(v: f32, range: &AnalogUIRange, format: &DataFormat
         V2To10 => factor * (v - 2.0) / 8.0,
         Disabled => 0.0,
     };
-    v as i16 as u16
+    v.round() as i16 as u16
 }
 
 pub fn u16_to_analog_ui_value(
-- 
2.43.0


From e3091049287f2b56b17e368daf3a6b90bc110fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 2/9] fix: report the configured variant as module type of
 generic AI modules

---
 src/ur20_ai_ui_generic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_ai_ui_generic.rs b/src/ur20_ai_ui_generic.rs
index 5dc9d9d..03f5589 100644
--- a/src/ur20_ai_ui_generic.rs
+++ b/src/ur20_ai_ui_generic.rs
@@ -94,7 +94,7 @@ impl<Variant: AIVariant> Default for Mod<Variant> {
 
 impl<Variant: AIVariant> Module for Mod<Variant> {
     fn module_type(&self) -> ModuleType {
-        ModuleType::UR20_4AI_UI_12
+        Variant::MODULE_TYPE
     }
 }
 
-- 
2.43.0


From 8f9a6ddd5c2992fbcb021ae92032c722459dca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 3/9] fix: ignore surplus parameter registers of
 UR20-4AI-TC-DIAG

A buffer with 36 or more registers made the conversion into four channels panic.
---
 src/ur20_4ai_tc_diag.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ur20_4ai_tc_diag.rs b/src/ur20_4ai_tc_diag.rs
index 89116d3..1114deb 100644
--- a/src/ur20_4ai_tc_diag.rs
+++ b/src/ur20_4ai_tc_diag.rs
@@ -163,6 +163,7 @@ fn parameters_from_raw_data(data: &[u16]) -> Result<(ModuleParameters, [ChannelP
 
     let channel_parameters = data[1..]
         .chunks_exact(7)
+        .take(4)
         .map(|data| {
             Ok(ChannelParameters {
                 measurement_range: FromPrimitive::from_u16(data[0])
-- 
2.43.0


From 294d8fbce50c9e20c3932fd4f794d18c458019f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 4/9] fix: reject missing channel parameters when decoding
 analog outputs

---
 src/ur20_4ao_ui_16.rs      | 3 +++
 src/ur20_4ao_ui_16_diag.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ur20_4ao_ui_16.rs b/src/ur20_4ao_ui_16.rs
index fbdac93..5b1fcc2 100644
--- a/src/ur20_4ao_ui_16.rs
+++ b/src/ur20_4ao_ui_16.rs
@@ -57,6 +57,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
diff --git a/src/ur20_4ao_ui_16_diag.rs b/src/ur20_4ao_ui_16_diag.rs
index d2c9e4d..61da20d 100644
--- a/src/ur20_4ao_ui_16_diag.rs
+++ b/src/ur20_4ao_ui_16_diag.rs
@@ -59,6 +59,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
-- 
2.43.0


From 13b77da813281ddb053f4732cdc3d161fd85b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 5/9] fix: accept the power feed category by name

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9398010..50cd38d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -635,6 +635,7 @@ impl FromStr for ModuleCategory {
             "TC"  => TC,
             "COM" => COM,
             "RO"  => RO,
+            "PF"  => PF,
             _ => {
                 return Err(Error::UnknownCategory);
             }
-- 
2.43.0


From 44974b2455cac7bea8525ac558fdba50b3128000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 6/9] fix: reject module offsets below the process data area

---
 src/ur20_fbc_mod_tcp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index ca11b5b..27eae70 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -388,6 +388,9 @@ fn prepare_raw_data_to_process(
     data: &[u16],
 ) -> Result<Vec<u16>> {
     let (start, bit) = to_register_address(offset);
+    if start < addr {
+        return Err(Error::ModuleOffset);
+    }
     let start = (start - addr) as usize;
     let word_count = {
         let cnt = byte_count / 2;
-- 
2.43.0


From 47f66644c2698f3140407d92589e1ce08daea190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 7/9] fix: track the transmission counter of each communication
 module

---
 src/ur20_fbc_mod_tcp.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 27eae70..fbf9dee 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -82,8 +82,8 @@ pub struct Coupler {
     offsets: Vec<ModuleOffset>,
     /// statefull message processors
     processors: HashMap<usize, ur20_1com_232_485_422::MessageProcessor>,
-    /// Last transmission counter  state
-    last_tx_cnt: usize,
+    /// Last transmission counter state of each communication module
+    last_tx_cnt: HashMap<usize, usize>,
 }
 
 /// Raw config data to create a coupler instance.
@@ -202,7 +202,7 @@ impl Coupler {
             in_values: vec![],
             out_values: vec![],
             write: HashMap::new(),
-            last_tx_cnt: 0,
+            last_tx_cnt: HashMap::new(),
             modules,
             offsets,
             processors,
@@ -269,10 +269,11 @@ impl Coupler {
                         out_bytes.insert(m_nr, ChannelValue::None);
                         in_bytes.insert(m_nr, ChannelValue::None);
 
-                        if !out_v.data.is_empty() && out_v.tx_cnt != self.last_tx_cnt {
+                        let last_tx_cnt = self.last_tx_cnt.entry(m_nr).or_default();
+                        if !out_v.data.is_empty() && out_v.tx_cnt != *last_tx_cnt {
                             out_bytes.insert(m_nr, ChannelValue::Bytes(out_v.data.clone()));
                         }
-                        self.last_tx_cnt = out_v.tx_cnt;
+                        *last_tx_cnt = out_v.tx_cnt;
 
                         if let Some(ChannelValue::Bytes(ref data)) = self.write.remove(&Address {
                             module: m_nr,
-- 
2.43.0


From 877fbd0736d86bd49458df6a28564ba13d45d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 8/9] fix: keep all bytes of modules located at odd byte
 offsets

---
 src/ur20_fbc_mod_tcp.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index fbf9dee..770ebad 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -397,7 +397,11 @@ fn prepare_raw_data_to_process(
         let cnt = byte_count / 2;
         if cnt == 0 { 1 } else { cnt }
     };
-    let end = start + word_count;
+    let end = match bit {
+        // the last byte is located in the low byte of the next register
+        8 => start + byte_count / 2 + 1,
+        _ => start + word_count,
+    };
     if end > data.len() {
         return Err(Error::BufferLength);
     }
@@ -405,7 +409,11 @@ fn prepare_raw_data_to_process(
 
     match bit {
         0 => Ok(output.to_vec()),
-        8 => Ok(shift_data(output)),
+        8 => {
+            let mut shifted = shift_data(output);
+            shifted.truncate(word_count);
+            Ok(shifted)
+        }
         _ => Err(Error::ModuleOffset),
     }
 }
@@ -441,11 +449,17 @@ pub fn process_output_values(
                     if out.len() != start + 1 {
                         return Err(Error::ModuleOffset);
                     }
+                    let mut buf = u16_to_u8(&data);
+                    buf.truncate(m.process_output_byte_count());
+                    if buf.is_empty() {
+                        continue;
+                    }
                     let shared_low_byte = out[start] & 0x00FF;
-                    let buf = u16_to_u8(&data);
                     let shared_high_byte = u16::from(buf[0]) << 8;
                     let word = shared_high_byte | shared_low_byte;
                     out[start] = word;
+                    // the remaining bytes start in the low byte of the next register
+                    out.extend_from_slice(&u8_to_u16(&buf[1..]));
                 }
                 _ => {
                     return Err(Error::ModuleOffset);
-- 
2.43.0


From dd7cc2035316a0bdd8e85275ac4ee37bfb0fbdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 9/9] hook: association list in place of HashMap under the Kani
 verifier (cfg kani)

---
 src/lib.rs              |   5 ++
 src/ur20_fbc_mod_tcp.rs |   9 +--
 src/verif_map.rs        | 139 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 149 insertions(+), 4 deletions(-)
 create mode 100644 src/verif_map.rs

diff --git a/src/lib.rs b/src/lib.rs
index 50cd38d..7d6287a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,8 @@
 // Copyright (c) 2017 - 2025 slowtec GmbH <markus.kohlhase@slowtec.de>
 
+// `kani` is set by the Kani verifier only
+#![allow(unexpected_cfgs)]
+
 extern crate byteorder;
 #[macro_use]
 extern crate num_derive;
@@ -27,6 +30,8 @@ pub mod ur20_do_generic;
 pub mod ur20_fbc_mod_tcp;
 pub mod ur20_pf_o_1di_sil;
 pub(crate) mod util;
+#[cfg(kani)]
+mod verif_map;
 
 pub use crate::error::*;
 
diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 770ebad..56529c5 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -2,10 +2,11 @@
 
 use super::*;
 use crate::util::*;
-use std::{
-    collections::HashMap,
-    io::{Read, Write},
-};
+#[cfg(kani)]
+use crate::verif_map::HashMap;
+#[cfg(not(kani))]
+use std::collections::HashMap;
+use std::io::{Read, Write};
 
 type Word = u16;
 type RegisterAddress = u16;
diff --git a/src/verif_map.rs b/src/verif_map.rs
new file mode 100644
index 0000000..01b40ca
--- /dev/null
+++ b/src/verif_map.rs
@@ -0,0 +1,139 @@
+//! Verification hook (only compiled with `--cfg kani`, which the Kani verifier sets).
+//!
+//! An insertion-ordered association list with the interface of
+//! `std::collections::HashMap`. It stands in for the hash table of the
+//! standard library, whose hashing is out of reach of the model checker.
+
+#[derive(Debug, Clone)]
+pub struct HashMap<K, V> {
+    items: Vec<(K, V)>,
+}
+
+impl<K, V> Default for HashMap<K, V> {
+    fn default() -> Self {
+        HashMap { items: Vec::new() }
+    }
+}
+
+impl<K: PartialEq, V> HashMap<K, V> {
+    #[must_use]
+    pub fn new() -> Self {
+        Self::default()
+    }
+    #[must_use]
+    pub fn with_capacity(_: usize) -> Self {
+        Self::default()
+    }
+    fn position(&self, k: &K) -> Option<usize> {
+        let mut i = 0;
+        while i < self.items.len() {
+            if self.items[i].0 == *k {
+                return Some(i);
+            }
+            i += 1;
+        }
+        None
+    }
+    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
+        match self.position(&k) {
+            Some(i) => Some(std::mem::replace(&mut self.items[i].1, v)),
+            None => {
+                self.items.push((k, v));
+                None
+            }
+        }
+    }
+    pub fn remove(&mut self, k: &K) -> Option<V> {
+        self.position(k).map(|i| self.items.swap_remove(i).1)
+    }
+    pub fn remove_entry(&mut self, k: &K) -> Option<(K, V)> {
+        self.position(k).map(|i| self.items.swap_remove(i))
+    }
+    #[must_use]
+    pub fn get(&self, k: &K) -> Option<&V> {
+        self.position(k).map(|i| &self.items[i].1)
+    }
+    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
+        self.position(k).map(|i| &mut self.items[i].1)
+    }
+    #[must_use]
+    pub fn contains_key(&self, k: &K) -> bool {
+        self.position(k).is_some()
+    }
+    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
+        Entry { map: self, key: k }
+    }
+    #[must_use]
+    pub fn len(&self) -> usize {
+        self.items.len()
+    }
+    #[must_use]
+    pub fn is_empty(&self) -> bool {
+        self.items.is_empty()
+    }
+    pub fn clear(&mut self) {
+        self.items.clear();
+    }
+    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
+        self.items.iter().map(|(k, v)| (k, v))
+    }
+    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> {
+        self.items.iter_mut().map(|(k, v)| (&*k, v))
+    }
+    pub fn keys(&self) -> impl Iterator<Item = &K> {
+        self.items.iter().map(|(k, _)| k)
+    }
+    pub fn values(&self) -> impl Iterator<Item = &V> {
+        self.items.iter().map(|(_, v)| v)
+    }
+    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> {
+        self.items.iter_mut().map(|(_, v)| v)
+    }
+    pub fn drain(&mut self) -> std::vec::Drain<'_, (K, V)> {
+        self.items.drain(..)
+    }
+    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
+        self.items.retain_mut(|(k, v)| f(k, v));
+    }
+}
+
+impl<K, V> IntoIterator for HashMap<K, V> {
+    type Item = (K, V);
+    type IntoIter = std::vec::IntoIter<(K, V)>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.items.into_iter()
+    }
+}
+
+pub struct Entry<'a, K, V> {
+    map: &'a mut HashMap<K, V>,
+    key: K,
+}
+
+impl<'a, K: PartialEq, V> Entry<'a, K, V> {
+    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
+        let i = match self.map.position(&self.key) {
+            Some(i) => i,
+            None => {
+                self.map.items.push((self.key, f()));
+                self.map.items.len() - 1
+            }
+        };
+        &mut self.map.items[i].1
+    }
+    pub fn or_insert(self, v: V) -> &'a mut V {
+        self.or_insert_with(|| v)
+    }
+    pub fn or_default(self) -> &'a mut V
+    where
+        V: Default,
+    {
+        self.or_insert_with(V::default)
+    }
+    pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
+        if let Some(v) = self.map.get_mut(&self.key) {
+            f(v);
+        }
+        self
+    }
+}
-- 
2.43.0

