From f7d3f3682cec4a27f2b8fc7a9bdebd4dcf40da2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 01/12] fix: report the own module type of UR20-4AI-UI-16

The generic analog input module reported UR20_4AI_UI_12 for every variant.
---
 src/ur20_ai_ui_generic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_ai_ui_generic.rs b/src/ur20_ai_ui_generic.rs
index 5dc9d9d..03f5589 100644
--- a/src/ur20_ai_ui_generic.rs
+++ b/src/ur20_ai_ui_generic.rs
@@ -94,7 +94,7 @@ impl<Variant: AIVariant> Default for Mod<Variant> {
 
 impl<Variant: AIVariant> Module for Mod<Variant> {
     fn module_type(&self) -> ModuleType {
-        ModuleType::UR20_4AI_UI_12
+        Variant::MODULE_TYPE
     }
 }
 
-- 
2.43.0


From 1317f2b247aa9eac4894a761a9f1e23ec8e381a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 02/12] fix: parse the power feed module category

"PF" was the only category name that could not be parsed.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9398010..50cd38d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -635,6 +635,7 @@ impl FromStr for ModuleCategory {
             "TC"  => TC,
             "COM" => COM,
             "RO"  => RO,
+            "PF"  => PF,
             _ => {
                 return Err(Error::UnknownCategory);
             }
-- 
2.43.0


From db9f07e586f9451adc4f654ea32df3aea50fe143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 03/12] fix: round analog output values to the nearest step

Truncating made untouched outputs drift: with the S7 format decoding and
re-encoding e.g. 45 at 0...20 mA yields 44, so each coupler cycle could
change an output nobody has written to.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 53feab3..67ec60f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -65,7 +65,7 @@ pub fn analog_ui_value_to_u16(v: f32, range: &AnalogUIRange, format: &DataFormat
         V2To10 => factor * (v - 2.0) / 8.0,
         Disabled => 0.0,
     };
-    v as i16 as u16
+    v.round() as i16 as u16
 }
 
 pub fn u16_to_analog_ui_value(
-- 
2.43.0


From 0cf4509f20408fc21e744f0595283678bd07b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 04/12] fix: reject process data offsets below the packed data
 area

An output offset below 0x8000 caused an integer underflow.
---
 src/ur20_fbc_mod_tcp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index ca11b5b..c235584 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -388,7 +388,7 @@ fn prepare_raw_data_to_process(
     data: &[u16],
 ) -> Result<Vec<u16>> {
     let (start, bit) = to_register_address(offset);
-    let start = (start - addr) as usize;
+    let start = start.checked_sub(addr).ok_or(Error::ModuleOffset)? as usize;
     let word_count = {
         let cnt = byte_count / 2;
         if cnt == 0 { 1 } else { cnt }
-- 
2.43.0


From d32e91e203830f9a4a7fb64059d81c20920efba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:07 +0000
Subject: [PATCH 05/12] fix: handle multi byte process data at odd byte offsets

If the data of a module with more than one byte started at the high byte
of a register, its last byte was replaced by zero while decoding and all
but its first byte were dropped while encoding. A module without output
data at such an offset caused a panic.
---
 src/ur20_fbc_mod_tcp.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index c235584..e1fd32b 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -389,10 +389,8 @@ fn prepare_raw_data_to_process(
 ) -> Result<Vec<u16>> {
     let (start, bit) = to_register_address(offset);
     let start = start.checked_sub(addr).ok_or(Error::ModuleOffset)? as usize;
-    let word_count = {
-        let cnt = byte_count / 2;
-        if cnt == 0 { 1 } else { cnt }
-    };
+    // The data may start at the high byte of the first register.
+    let word_count = (bit / 8 + byte_count).div_ceil(2).max(1);
     let end = start + word_count;
     if end > data.len() {
         return Err(Error::BufferLength);
@@ -401,7 +399,11 @@ fn prepare_raw_data_to_process(
 
     match bit {
         0 => Ok(output.to_vec()),
-        8 => Ok(shift_data(output)),
+        8 => {
+            let mut shifted = shift_data(output);
+            shifted.truncate(byte_count.div_ceil(2).max(1));
+            Ok(shifted)
+        }
         _ => Err(Error::ModuleOffset),
     }
 }
@@ -438,10 +440,14 @@ pub fn process_output_values(
                         return Err(Error::ModuleOffset);
                     }
                     let shared_low_byte = out[start] & 0x00FF;
-                    let buf = u16_to_u8(&data);
-                    let shared_high_byte = u16::from(buf[0]) << 8;
-                    let word = shared_high_byte | shared_low_byte;
-                    out[start] = word;
+                    let mut buf = u16_to_u8(&data);
+                    buf.truncate(m.process_output_byte_count());
+                    if let Some((first, rest)) = buf.split_first() {
+                        let shared_high_byte = u16::from(*first) << 8;
+                        let word = shared_high_byte | shared_low_byte;
+                        out[start] = word;
+                        out.extend_from_slice(&u8_to_u16(rest));
+                    }
                 }
                 _ => {
                     return Err(Error::ModuleOffset);
-- 
2.43.0


From 74bc407206b33c5d59ed86014bd44febc5e4b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:07 +0000
Subject: [PATCH 06/12] fix: track the transmission counter per serial module

With more than one serial module the modules overwrote the last counter
of each other, so transmitted segments were reported repeatedly or not at
all.
---
 src/ur20_fbc_mod_tcp.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index e1fd32b..006e39d 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -82,8 +82,8 @@ pub struct Coupler {
     offsets: Vec<ModuleOffset>,
     /// statefull message processors
     processors: HashMap<usize, ur20_1com_232_485_422::MessageProcessor>,
-    /// Last transmission counter  state
-    last_tx_cnt: usize,
+    /// Last transmission counter state of each stateful module
+    last_tx_cnt: HashMap<usize, usize>,
 }
 
 /// Raw config data to create a coupler instance.
@@ -202,7 +202,7 @@ impl Coupler {
             in_values: vec![],
             out_values: vec![],
             write: HashMap::new(),
-            last_tx_cnt: 0,
+            last_tx_cnt: HashMap::new(),
             modules,
             offsets,
             processors,
@@ -269,10 +269,11 @@ impl Coupler {
                         out_bytes.insert(m_nr, ChannelValue::None);
                         in_bytes.insert(m_nr, ChannelValue::None);
 
-                        if !out_v.data.is_empty() && out_v.tx_cnt != self.last_tx_cnt {
+                        let last_tx_cnt = self.last_tx_cnt.entry(m_nr).or_insert(0);
+                        if !out_v.data.is_empty() && out_v.tx_cnt != *last_tx_cnt {
                             out_bytes.insert(m_nr, ChannelValue::Bytes(out_v.data.clone()));
                         }
-                        self.last_tx_cnt = out_v.tx_cnt;
+                        *last_tx_cnt = out_v.tx_cnt;
 
                         if let Some(ChannelValue::Bytes(ref data)) = self.write.remove(&Address {
                             module: m_nr,
-- 
2.43.0


From 0dfb90190052be58236458a345c8753870689893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:08 +0000
Subject: [PATCH 07/12] fix: do not panic on missing analog output channel
 parameters

---
 src/ur20_4ao_ui_16.rs      | 3 +++
 src/ur20_4ao_ui_16_diag.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ur20_4ao_ui_16.rs b/src/ur20_4ao_ui_16.rs
index fbdac93..5b1fcc2 100644
--- a/src/ur20_4ao_ui_16.rs
+++ b/src/ur20_4ao_ui_16.rs
@@ -57,6 +57,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
diff --git a/src/ur20_4ao_ui_16_diag.rs b/src/ur20_4ao_ui_16_diag.rs
index d2c9e4d..61da20d 100644
--- a/src/ur20_4ao_ui_16_diag.rs
+++ b/src/ur20_4ao_ui_16_diag.rs
@@ -59,6 +59,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
-- 
2.43.0


From 7bf26616000512d5c247a59c6702d69d2234a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 08/12] fix: count the input channel of UR20-PF-O-1DI-SIL

The module decodes its input data into one channel value but claimed to
have no channels.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 50cd38d..19f1da1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -462,10 +462,10 @@ impl ModuleType {
         match *self {
             UR20_PF_I               |
             UR20_PF_O               |
-            UR20_PF_O_1DI_SIL       |
             UR20_PF_O_2DI_SIL       |
             UR20_PF_O_2DI_DELAY_SIL => 0,
 
+            UR20_PF_O_1DI_SIL       |
             UR20_1CNT_100_1DO       |
             UR20_1CNT_500           |
             UR20_1COM_232_485_422   |
-- 
2.43.0


From 227ccd996152e226593dd5f006eed7370a62a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 09/12] fix: do not report raw serial input data if the output
 data is invalid

The inputs were replaced before the output data was decoded, so a failing
cycle left undecoded serial messages in the input state.
---
 src/ur20_fbc_mod_tcp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 006e39d..5b6d9d8 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -255,8 +255,10 @@ impl Coupler {
             .zip(&self.offsets)
             .map(|(m, o)| (&**m, o))
             .collect();
-        self.in_values = process_input_data(&infos, process_input)?;
-        self.out_values = process_output_data(&infos, process_output)?;
+        let in_values = process_input_data(&infos, process_input)?;
+        let out_values = process_output_data(&infos, process_output)?;
+        self.in_values = in_values;
+        self.out_values = out_values;
 
         let mut next_out_values = self.out_values.clone();
         let mut in_bytes = HashMap::new();
-- 
2.43.0


From ba948214a054a4b47044cf184d87f290538bf39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:47 +0000
Subject: [PATCH 10/12] fix: do not lose serial data if a cycle fails

---
 src/ur20_fbc_mod_tcp.rs | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 5b6d9d8..1fd8f99 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -264,6 +264,24 @@ impl Coupler {
         let mut in_bytes = HashMap::new();
         let mut out_bytes = HashMap::new();
 
+        for (m_nr, out_v) in self.out_values.iter().enumerate() {
+            if self.processors.contains_key(&m_nr) {
+                continue;
+            }
+            for (i, _) in out_v.iter().enumerate() {
+                if let Some(v) = self.write.remove(&Address {
+                    module: m_nr,
+                    channel: i,
+                }) {
+                    next_out_values[m_nr][i] = v;
+                }
+            }
+        }
+
+        // The message processors must not make any progress
+        // if there is no way to get their results to the coupler.
+        let encodable = process_output_values(&infos, &next_out_values);
+
         for (m_nr, (in_v, out_v)) in self.in_values.iter().zip(&self.out_values).enumerate() {
             if let Some(p) = self.processors.get_mut(&m_nr) {
                 if let ChannelValue::ComRsIn(ref in_v) = in_v[0] {
@@ -277,6 +295,14 @@ impl Coupler {
                         }
                         *last_tx_cnt = out_v.tx_cnt;
 
+                        if in_v.data_available && !in_v.data.is_empty() {
+                            in_bytes.insert(m_nr, ChannelValue::Bytes(in_v.data.clone()));
+                        }
+
+                        if encodable.is_err() {
+                            continue;
+                        }
+
                         if let Some(ChannelValue::Bytes(ref data)) = self.write.remove(&Address {
                             module: m_nr,
                             channel: 0,
@@ -286,19 +312,6 @@ impl Coupler {
 
                         let rs_out = p.next(in_v, out_v);
                         next_out_values[m_nr][0] = ChannelValue::ComRsOut(rs_out);
-
-                        if in_v.data_available && !in_v.data.is_empty() {
-                            in_bytes.insert(m_nr, ChannelValue::Bytes(in_v.data.clone()));
-                        }
-                    }
-                }
-            } else {
-                for (i, _) in out_v.iter().enumerate() {
-                    if let Some(v) = self.write.remove(&Address {
-                        module: m_nr,
-                        channel: i,
-                    }) {
-                        next_out_values[m_nr][i] = v;
                     }
                 }
             }
@@ -309,6 +322,7 @@ impl Coupler {
         for (m_nr, v) in out_bytes {
             self.out_values[m_nr][0] = v;
         }
+        encodable?;
         process_output_values(&infos, &next_out_values)
     }
 }
-- 
2.43.0


From 93c4ecf764882054411b549eef8641f5c2d1f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 11/12] fix: do not panic on surplus thermocouple parameter
 registers

---
 src/ur20_4ai_tc_diag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_4ai_tc_diag.rs b/src/ur20_4ai_tc_diag.rs
index 89116d3..0c879b9 100644
--- a/src/ur20_4ai_tc_diag.rs
+++ b/src/ur20_4ai_tc_diag.rs
@@ -161,7 +161,7 @@ fn parameters_from_raw_data(data: &[u16]) -> Result<(ModuleParameters, [ChannelP
 
     let module_parameters = ModuleParameters { temperature_unit };
 
-    let channel_parameters = data[1..]
+    let channel_parameters = data[1..=4 * 7]
         .chunks_exact(7)
         .map(|data| {
             Ok(ChannelParameters {
-- 
2.43.0


From eaaa163a60a9e77fe697d89eacba26a2cc4fa2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 12/12] fix: do not overflow on an arbitrary acknowledged
 sequence number

---
 src/ur20_1com_232_485_422.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_1com_232_485_422.rs b/src/ur20_1com_232_485_422.rs
index 9b11095..35bb10b 100644
--- a/src/ur20_1com_232_485_422.rs
+++ b/src/ur20_1com_232_485_422.rs
@@ -450,7 +450,7 @@ impl MessageProcessor {
     }
 
     fn inc_cnt(mut tx_cnt_ack: usize) -> usize {
-        tx_cnt_ack += 1;
+        tx_cnt_ack = tx_cnt_ack.saturating_add(1);
         if tx_cnt_ack > 3 {
             tx_cnt_ack = 0;
         }
-- 
2.43.0

