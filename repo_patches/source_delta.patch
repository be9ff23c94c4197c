From 217bf834a505a3a919960d7645baa1089b91dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 01/37] fix: decode an empty list of items as no items

decode_bitcoin_code_all always decoded at least one item, so the (empty)
encoding of no items, as encode_bitcoin_code_all produces it, was an error.
---
 bitcoin-cash/src/serializer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bitcoin-cash/src/serializer.rs b/bitcoin-cash/src/serializer.rs
index db988f0..a496370 100644
--- a/bitcoin-cash/src/serializer.rs
+++ b/bitcoin-cash/src/serializer.rs
@@ -13,12 +13,10 @@ where
 
 pub fn decode_bitcoin_code_all<T: BitcoinCode>(mut byte_array: ByteArray) -> Result<Vec<T>> {
     let mut items = Vec::new();
-    loop {
+    while !byte_array.is_empty() {
         let (item, rest) = T::deser_rest(byte_array)?;
         byte_array = rest;
         items.push(item);
-        if byte_array.is_empty() {
-            return Ok(items);
-        }
     }
+    Ok(items)
 }
-- 
2.43.0


From 6842c2107a847bb2f7050ec4d51cf29895e93974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 02/37] fix: don't reserve memory for an untrusted number of
 items

A huge item count in front of a list made Vec::with_capacity panic or
abort, instead of the decoder returning an error.
---
 bitcoin-cash/src/bitcoin_code.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/bitcoin_code.rs b/bitcoin-cash/src/bitcoin_code.rs
index 0b7ba91..1424cc2 100644
--- a/bitcoin-cash/src/bitcoin_code.rs
+++ b/bitcoin-cash/src/bitcoin_code.rs
@@ -64,7 +64,8 @@ impl<T: BitcoinCode> BitcoinCode for Vec<T> {
 
     fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray)> {
         let (len, mut byte_array) = read_size(data)?;
-        let mut vec = Vec::with_capacity(len);
+        // `len` is untrusted, there cannot be more (non-empty) items than there are bytes left
+        let mut vec = Vec::with_capacity(len.min(byte_array.len()));
         for _ in 0..len {
             let (item, rest) = T::deser_rest(byte_array)?;
             vec.push(item);
-- 
2.43.0


From 44a93d7a25089bddf8bc88959f8d47f46df2a2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 03/37] fix: don't allocate the untrusted length of a script
 push

deserialize_ops allocated (and zeroed) up to 4 GB for a truncated
OP_PUSHDATA4 of a few bytes before failing.
---
 bitcoin-cash/src/script.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index 7cbc33d..d548bd9 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -214,6 +214,10 @@ pub fn deserialize_ops(bytes: &[u8]) -> error::Result<Vec<Op>> {
                 continue;
             }
         };
+        // `push_len` is untrusted, don't allocate it before knowing the data is there
+        if push_len > bytes.len().saturating_sub(i) {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         let mut vec = vec![0; push_len];
         cur.read_exact(&mut vec)?;
         i += push_len;
-- 
2.43.0


From ab4ac18ff3d5de690d2232a98603b8f3d45cfcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 04/37] fix: decode a hashed transaction together with its
 fields and id

The derived decoder of Tx only filled in the raw bytes: the decoded
transaction had no inputs or outputs and an all-zero hash, and any bytes
were accepted.
---
 bitcoin-cash/src/tx.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/bitcoin-cash/src/tx.rs b/bitcoin-cash/src/tx.rs
index a945abd..167d83c 100644
--- a/bitcoin-cash/src/tx.rs
+++ b/bitcoin-cash/src/tx.rs
@@ -1,5 +1,5 @@
 use crate::{
-    BitcoinCode, ByteArray, Hashed, Script, Sha256d, SigHashFlags, ToPreimages, TxPreimage,
+    error::Result, BitcoinCode, ByteArray, Hashed, Script, Sha256d, SigHashFlags, ToPreimages, TxPreimage,
 };
 use serde::{Deserialize, Serialize};
 
@@ -54,14 +54,11 @@ pub struct UnhashedTx {
     pub lock_time: u32,
 }
 
-#[bitcoin_code(crate = "crate")]
-#[derive(BitcoinCode, Deserialize, Serialize, PartialEq, Debug, Clone)]
+#[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
 #[serde(rename_all = "camelCase")]
 pub struct Tx {
-    #[bitcoin_code(skip)]
     unhashed_tx: UnhashedTx,
 
-    #[bitcoin_code(skip)]
     hash: Sha256d,
 
     raw: ByteArray,
@@ -138,6 +135,26 @@ impl Tx {
     }
 }
 
+impl BitcoinCode for Tx {
+    fn ser(&self) -> ByteArray {
+        self.raw.ser().named("raw")
+    }
+
+    fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray)> {
+        let (raw, rest) = ByteArray::deser_rest(data)?;
+        let unhashed_tx = UnhashedTx::deser(raw.clone())?;
+        let hash = Sha256d::digest(raw.clone());
+        Ok((
+            Tx {
+                unhashed_tx,
+                hash,
+                raw,
+            },
+            rest,
+        ))
+    }
+}
+
 impl Default for UnhashedTx {
     fn default() -> Self {
         UnhashedTx {
-- 
2.43.0


From 81465d100170020325dff608996d98d970015b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 05/37] fix: read script numbers of more than 4 bytes exactly
 or as overflow

vec_to_int shifted bytes out of (and added them up in) an i32, so e.g.
ffffffff00 (4294967295) was read as -1 instead of being an error.
---
 bitcoin-cash-base/src/encoding_utils.rs | 43 ++++++++++++-------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/bitcoin-cash-base/src/encoding_utils.rs b/bitcoin-cash-base/src/encoding_utils.rs
index db3cc59..f8761a0 100644
--- a/bitcoin-cash-base/src/encoding_utils.rs
+++ b/bitcoin-cash-base/src/encoding_utils.rs
@@ -1,4 +1,4 @@
-use crate::InnerInteger;
+use crate::{InnerInteger, MAX_SCRIPT_INTEGER};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use std::io;
 
@@ -93,28 +93,27 @@ pub fn encode_bool(b: bool) -> Vec<u8> {
     }
 }
 
-fn try_shl(a: InnerInteger, b: u32, vec: &[u8]) -> Result<InnerInteger, String> {
-    a.checked_shl(b)
-        .ok_or_else(|| format!("Overflow for {}", hex::encode(vec)))
-}
-
 pub fn vec_to_int(vec: &[u8]) -> Result<InnerInteger, String> {
-    if vec.is_empty() {
-        return Ok(0);
-    }
-    let mut shift = 0;
-    let mut int = 0;
-    let sign_bit = vec[vec.len() - 1] & 0x80;
-    for (i, value) in vec.iter().enumerate() {
-        if i == vec.len() - 1 && sign_bit != 0 {
-            int += try_shl((*value ^ sign_bit) as InnerInteger, shift, vec)?;
-            int *= -1;
-        } else {
-            if *value != 0 {
-                int += try_shl(*value as InnerInteger, shift, vec)?;
-            }
-            shift += 8;
+    let overflow = || format!("Overflow for {}", hex::encode(vec));
+    let mut magnitude: u32 = 0;
+    let mut is_negative = false;
+    for (i, &byte) in vec.iter().enumerate() {
+        let mut value = byte;
+        if i == vec.len() - 1 {
+            is_negative = byte & 0x80 != 0;
+            value &= 0x7f;
         }
+        if value == 0 {
+            continue;
+        }
+        if i >= std::mem::size_of::<InnerInteger>() {
+            return Err(overflow());
+        }
+        magnitude |= (value as u32) << (8 * i);
+    }
+    if magnitude > MAX_SCRIPT_INTEGER as u32 {
+        return Err(overflow());
     }
-    Ok(int)
+    let int = magnitude as InnerInteger;
+    Ok(if is_negative { -int } else { int })
 }
-- 
2.43.0


From 17ba54cf7bdb02efd9dd2a3a5b2467abf324d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 06/37] fix: don't split the message of a signature as if it
 was the signature

Splitting an array marked as EcdsaSign, SchnorrSign or ToDataSig split its
recorded input at the same index and relabelled the halves as plain
concatenations of the pieces of that input.
---
 bitcoin-cash-base/src/byte_array.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 1ddd85e..f78580a 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -320,7 +320,7 @@ impl ByteArray {
         let other = data.split_off(at);
         let mut function = Function::Plain;
         let (left_preimage, right_preimage) = match self.preimage {
-            Some(preimage) if !self.function.should_keep_intact() => {
+            Some(preimage) if self.function == Function::Plain => {
                 let mut left_preimage = Vec::new();
                 let mut right_preimage = Vec::new();
                 let mut is_left = true;
@@ -349,11 +349,11 @@ impl ByteArray {
                 }
                 (Some(left_preimage), Some(right_preimage))
             }
-            Some(_) => {
+            Some(_) if self.function.should_keep_intact() => {
                 function = Function::UnexpectedSplit;
                 (None, None)
             }
-            None => (None, None),
+            _ => (None, None),
         };
         Ok((
             ByteArray {
-- 
2.43.0


From 46229a3c6cf2045d4e8ac3ffb79cbd2c22361713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 07/37] fix: reject cash addresses with a wrong payload instead
 of panicking

A valid checksum over a payload of another length made from_cash_addr
panic, and non-zero padding bits or an extra zero symbol were accepted.
---
 bitcoin-cash/src/address.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/address.rs b/bitcoin-cash/src/address.rs
index 03a41ef..2158480 100644
--- a/bitcoin-cash/src/address.rs
+++ b/bitcoin-cash/src/address.rs
@@ -42,6 +42,8 @@ pub enum CashAddrError {
     InvalidBase32Letter(usize, u8),
     #[error("Invalid address type {0}")]
     InvalidAddressType(u8),
+    #[error("Invalid payload")]
+    InvalidPayload,
 }
 
 impl Prefix {
@@ -382,9 +384,14 @@ fn _from_cash_addr<'a>(
     if !_verify_checksum(&prefix, decoded.iter().cloned()) {
         return Err(CashAddrError::InvalidChecksum);
     }
-    let converted = _convert_bits(decoded.iter().cloned(), 5, 8, true).unwrap();
+    let payload_len = decoded.len().saturating_sub(8);
+    let converted = _convert_bits(decoded[..payload_len].iter().cloned(), 5, 8, false)
+        .ok_or(CashAddrError::InvalidPayload)?;
     let mut addr = [0; 20];
-    addr.copy_from_slice(&converted[1..converted.len() - 6]);
+    if converted.len() != addr.len() + 1 {
+        return Err(CashAddrError::InvalidPayload);
+    }
+    addr.copy_from_slice(&converted[1..]);
     Ok((
         addr,
         match converted[0] {
-- 
2.43.0


From 4e8e3de30182fcac22f26df1efcc678fe6fd3a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 08/37] fix: start the script code after the selected
 OP_CODESEPARATOR

to_script_code(Some(n)) kept the separator itself, unlike consensus and
to_script_code_first.
---
 bitcoin-cash/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index d548bd9..25de8e0 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -54,7 +54,7 @@ impl Script {
                     _ => continue,
                 }
             }
-            codesep_idx.expect("Couldn't find OP_CODESEPARATOR")
+            codesep_idx.expect("Couldn't find OP_CODESEPARATOR") + 1
         } else {
             0
         };
-- 
2.43.0


From ef7ea8a906a778c6bef1aee78664ead667122a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 09/37] fix: only report scripts pushing a 20-byte hash as
 addresses

script_destination panicked on a push of any other length, and took a
non-shortest push of the hash for the standard script.
---
 bitcoin-cash/src/destination.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/destination.rs b/bitcoin-cash/src/destination.rs
index 627595a..15bc03d 100644
--- a/bitcoin-cash/src/destination.rs
+++ b/bitcoin-cash/src/destination.rs
@@ -22,7 +22,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
 
     use PatternOp::Array;
     match pattern_ops.as_slice() {
-        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] => {
+        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] if is_hash_push(&ops[2].op) => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
@@ -31,7 +31,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
                 ),
             )
         }
-        [OP_HASH160, Array(hash), OP_EQUAL] => {
+        [OP_HASH160, Array(hash), OP_EQUAL] if is_hash_push(&ops[1].op) => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
@@ -48,6 +48,14 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
     }
 }
 
+/// Standard scripts push exactly 20 bytes, in the shortest way.
+fn is_hash_push(op: &Op) -> bool {
+    match op {
+        Op::PushByteArray { array, is_minimal } => *is_minimal && array.len() == 20,
+        _ => false,
+    }
+}
+
 impl Destination<'_> {
     pub fn address(&self) -> Option<&Address> {
         match self {
-- 
2.43.0


From 90a6c372fc18f8ed22bb6588bd6aa2dbc1c1d6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 10/37] fix: don't overflow the bit count of wide integer byte
 arrays

---
 bitcoin-cash-base/src/byte_array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index f78580a..aac5b67 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -429,7 +429,7 @@ impl ByteArray {
         if inner_n_bytes <= 0 {
             return Err(ByteArrayError::FromIntegerError { int, n_bytes });
         }
-        let max_bits = (inner_n_bytes * 8 - 1).min(31) as u128;
+        let max_bits = (inner_n_bytes.min(4) * 8 - 1) as u128;
         let max_num: u128 = 1 << max_bits;
         let max_num = (max_num - 1) as InnerInteger;
         let min_num = -max_num;
-- 
2.43.0


From c87296f5bc4559952be77edb82f7d92a83a2fba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 11/37] fix: reject cash address prefixes the checksum can't
 tell apart

---
 bitcoin-cash/src/address.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash/src/address.rs b/bitcoin-cash/src/address.rs
index 2158480..ea65c73 100644
--- a/bitcoin-cash/src/address.rs
+++ b/bitcoin-cash/src/address.rs
@@ -44,6 +44,8 @@ pub enum CashAddrError {
     InvalidAddressType(u8),
     #[error("Invalid payload")]
     InvalidPayload,
+    #[error("Invalid prefix")]
+    InvalidPrefix,
 }
 
 impl Prefix {
@@ -380,6 +382,10 @@ fn _from_cash_addr<'a>(
     } else {
         (default_prefix.into(), &addr_string[..])
     };
+    // Only 5 bits of a prefix character enter the checksum, which are unique among letters only.
+    if !prefix.bytes().all(|letter| letter.is_ascii_lowercase()) {
+        return Err(CashAddrError::InvalidPrefix);
+    }
     let decoded = _map_from_b32(payload_base32)?;
     if !_verify_checksum(&prefix, decoded.iter().cloned()) {
         return Err(CashAddrError::InvalidChecksum);
-- 
2.43.0


From b8abdf17061b7d42cbf039c8636a9637e11b6fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 12/37] fix: don't sign imported inputs with an empty script

---
 bitcoin-cash/src/tx_builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash/src/tx_builder.rs b/bitcoin-cash/src/tx_builder.rs
index 5f4c6b6..00f6bd0 100644
--- a/bitcoin-cash/src/tx_builder.rs
+++ b/bitcoin-cash/src/tx_builder.rs
@@ -502,6 +502,12 @@ impl<'b> UnsignedTx<'b> {
             return Err(Error::InputAlreadySigned { input_idx });
         }
         let builder_input = &self.builder.inputs[input_idx];
+        if builder_input.signed_input.is_some() {
+            return Err(Error::Msg(format!(
+                "Input {} was imported without its signatory, use sign_input_signatory",
+                input_idx,
+            )));
+        }
         let preimage = &self.tx_preimages[input_idx];
         *input = Some(TxInput {
             prev_out: builder_input.input.prev_out.clone(),
-- 
2.43.0


From 161fa3f9a0227ce5554d7f391a3f3f8204147447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 13/37] fix: reject missing, cyclic and too deep byte arrays in
 transaction JSON

---
 bitcoin-cash/src/serialize_json.rs | 67 ++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/bitcoin-cash/src/serialize_json.rs b/bitcoin-cash/src/serialize_json.rs
index 3a6a2ab..0cda169 100644
--- a/bitcoin-cash/src/serialize_json.rs
+++ b/bitcoin-cash/src/serialize_json.rs
@@ -19,8 +19,14 @@ struct JsonData {
 
     #[serde(skip)]
     data_indices: BiMap<Arc<[u8]>, usize>,
+
+    #[serde(skip)]
+    resolved_byte_arrays: Vec<(ByteArray, usize)>,
 }
 
+/// Maximum depth of byte arrays nested in the preimages of byte arrays.
+const MAX_PREIMAGE_DEPTH: usize = 1024;
+
 struct JsonByteArray {
     data_idx: usize,
     function: Function,
@@ -95,6 +101,12 @@ pub enum JsonError {
     #[error("Invalid data_idx: {idx}")]
     InvalidStringIdx { idx: usize },
 
+    #[error("Invalid byte array idx: {idx}")]
+    InvalidByteArrayIdx { idx: usize },
+
+    #[error("Preimages nested too deeply")]
+    PreimageTooDeep,
+
     #[error("Invalid hash")]
     InvalidHash,
 
@@ -162,6 +174,7 @@ impl JsonTx {
             outputs,
             ..
         } = self;
+        data.resolve_byte_arrays()?;
         for input in inputs.iter() {
             let input = TxInput {
                 prev_out: TxOutpoint {
@@ -346,17 +359,33 @@ impl JsonData {
         }
     }
 
-    fn get_byte_array(&mut self, byte_array_idx: usize) -> Result<ByteArray, JsonError> {
-        let preimage = self.byte_arrays[byte_array_idx]
-            .preimage_indices
-            .clone()
-            .map(|preimage_indices| {
-                preimage_indices
-                    .iter()
-                    .map(|&idx| self.get_byte_array(idx))
-                    .collect::<Result<Vec<_>, _>>()
-            })
-            .map_or(Ok(None), |preimage| preimage.map(Some))?;
+    /// Byte arrays only refer to earlier ones, so there's no need for recursion and no cycle.
+    fn resolve_byte_arrays(&mut self) -> Result<(), JsonError> {
+        for byte_array_idx in 0..self.byte_arrays.len() {
+            let resolved = self.resolve_byte_array(byte_array_idx)?;
+            self.resolved_byte_arrays.push(resolved);
+        }
+        Ok(())
+    }
+
+    fn resolve_byte_array(&mut self, byte_array_idx: usize) -> Result<(ByteArray, usize), JsonError> {
+        let mut depth = 0;
+        let mut preimage = None;
+        if let Some(preimage_indices) = &self.byte_arrays[byte_array_idx].preimage_indices {
+            let mut byte_arrays = Vec::with_capacity(preimage_indices.len());
+            for &idx in preimage_indices {
+                let (byte_array, part_depth) = self
+                    .resolved_byte_arrays
+                    .get(idx)
+                    .ok_or(JsonError::InvalidByteArrayIdx { idx })?;
+                depth = depth.max(part_depth + 1);
+                byte_arrays.push(byte_array.clone());
+            }
+            preimage = Some(byte_arrays);
+        }
+        if depth > MAX_PREIMAGE_DEPTH {
+            return Err(JsonError::PreimageTooDeep);
+        }
         let json = &self.byte_arrays[byte_array_idx];
         let data = if let Some(data) = self.data_indices.get_by_right(&json.data_idx) {
             Arc::clone(data)
@@ -373,12 +402,16 @@ impl JsonData {
             .name_idx
             .map(|name_idx| self.get_string(name_idx).map(Clone::clone).map(Arc::new))
             .map_or(Ok(None), |name| name.map(Some))?;
-        Ok(ByteArray::from_preimage(
-            data,
-            name,
-            json.function,
-            preimage.map(Into::into),
-        ))
+        let byte_array =
+            ByteArray::from_preimage(data, name, json.function, preimage.map(Into::into));
+        Ok((byte_array, depth))
+    }
+
+    fn get_byte_array(&self, byte_array_idx: usize) -> Result<ByteArray, JsonError> {
+        self.resolved_byte_arrays
+            .get(byte_array_idx)
+            .map(|(byte_array, _)| byte_array.clone())
+            .ok_or(JsonError::InvalidByteArrayIdx { idx: byte_array_idx })
     }
 
     #[allow(clippy::ptr_arg)]
-- 
2.43.0


From d48712b58458440ae23c358b31b74fe2b82022e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 14/37] fix: reject fixed size byte arrays of the wrong length
 in serde

---
 bitcoin-cash-base/src/byte_array.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index aac5b67..32221dc 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -723,9 +723,7 @@ where
             if !H::is_big_endian() {
                 data.reverse();
             }
-            let mut array = T::default();
-            array.as_mut().copy_from_slice(&data);
-            Ok(FixedByteArray::new_unnamed(array))
+            FixedByteArray::from_slice_unnamed(&data).map_err(serde::de::Error::custom)
         } else {
             Ok(FixedByteArray::new_unnamed(T::deserialize(deserializer)?))
         }
-- 
2.43.0


From 95b749f1fd8e9a33ab8262b5eba73419d0079d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 15/37] fix: deserialize byte arrays also from formats that
 can't lend their bytes

---
 bitcoin-cash-base/src/byte_array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 32221dc..4bcf167 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -645,8 +645,8 @@ impl<'de> serde::Deserialize<'de> for ByteArray {
             let data = hex::decode(&hex).map_err(serde::de::Error::custom)?;
             Ok(ByteArray::new_unnamed(data))
         } else {
-            Ok(ByteArray::from_slice_unnamed(
-                <&[u8] as serde::Deserialize<'de>>::deserialize(deserializer)?,
+            Ok(ByteArray::new_unnamed(
+                <Vec<u8> as serde::Deserialize<'de>>::deserialize(deserializer)?,
             ))
         }
     }
-- 
2.43.0


From bcb20c16167461b30df693a5f5c17b893658df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 16/37] fix: deserialize addresses also from formats that can't
 lend their strings

---
 bitcoin-cash/src/address.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash/src/address.rs b/bitcoin-cash/src/address.rs
index ea65c73..3713a97 100644
--- a/bitcoin-cash/src/address.rs
+++ b/bitcoin-cash/src/address.rs
@@ -215,7 +215,7 @@ impl<'a> Address<'a> {
 struct SerAddress<'a> {
     addr_type: AddressType,
     hash: [u8; 20],
-    prefix: &'a str,
+    prefix: Cow<'a, str>,
 }
 
 impl Serialize for Address<'_> {
@@ -229,7 +229,7 @@ impl Serialize for Address<'_> {
             SerAddress {
                 addr_type: self.addr_type,
                 hash: self.hash.as_slice().try_into().expect("Address hash not 20 bytes"),
-                prefix: self.prefix_str(),
+                prefix: self.prefix_str().into(),
             }.serialize(serializer)
         }
     }
@@ -245,7 +245,7 @@ impl<'de> Deserialize<'de> for Address<'static> {
             Address::from_cash_addr(s).map_err(serde::de::Error::custom)
         } else {
             let ser_address = SerAddress::deserialize(deserializer)?;
-            Ok(Address::from_hash(ser_address.prefix, ser_address.addr_type, Hash160::new(ser_address.hash)).into_owned_address())
+            Ok(Address::from_hash(ser_address.prefix.as_ref(), ser_address.addr_type, Hash160::new(ser_address.hash)).into_owned_address())
         }
     }
 }
-- 
2.43.0


From 4f9a71390bef280897d9f96ef4805f992af9dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 17/37] fix: keep half the group order as low s in the Rust
 backend

---
 bitcoin-cash-ecc/src/rust_ecc.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-ecc/src/rust_ecc.rs b/bitcoin-cash-ecc/src/rust_ecc.rs
index a6ae199..33e4deb 100644
--- a/bitcoin-cash-ecc/src/rust_ecc.rs
+++ b/bitcoin-cash-ecc/src/rust_ecc.rs
@@ -6,6 +6,15 @@ use secp256k1::{Message, PublicKey, PublicKeyFormat, SecretKey, Signature};
 
 pub struct RustECC;
 
+/// Keeps the lower one of `s` and `-s`. `Signature::normalize_s` takes half the group order, which
+/// is the highest low value, as high, and then makes it high.
+fn normalize_s(sig: &mut Signature) {
+    let negated = -sig.s.clone();
+    if negated.b32() < sig.s.b32() {
+        sig.s = negated;
+    }
+}
+
 impl Default for RustECC {
     fn default() -> Self {
         RustECC
@@ -24,7 +33,7 @@ impl ECC for RustECC {
             actual: msg_array.len(),
         })?;
         let mut sig = secp256k1::sign(&msg, &sk).0;
-        sig.normalize_s();
+        normalize_s(&mut sig);
         let sig = sig.serialize_der().as_ref().to_vec();
         Ok(msg_array.apply_function(sig, Function::EcdsaSign))
     }
@@ -53,7 +62,7 @@ impl ECC for RustECC {
     fn normalize_sig(&self, sig_ser: &[u8]) -> Result<Vec<u8>> {
         let mut sig =
             Signature::parse_der_lax(sig_ser).map_err(|_| Error::InvalidSignatureFormat)?;
-        sig.normalize_s();
+        normalize_s(&mut sig);
         Ok(sig.serialize_der().as_ref().to_vec())
     }
 }
-- 
2.43.0


From c5293bfc3fc226331c356ede82992e106196b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 18/37] fix: OP_DEPTH takes its result from no input

---
 bitcoin-cash-base/src/opcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 9047872..6823984 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -2920,7 +2920,7 @@ impl Opcode {
                 &[2, 3, 0, 1],
                 &[MovedIndirectly, MovedIndirectly, Moved, Moved],
             ),
-            OP_DEPTH => o(&[], &[Integer], &[0], &[Added]),
+            OP_DEPTH => u(&[], &[Integer], &[Added]),
             OP_DROP => o(&[T], &[], &[], &[]),
             OP_DUP => o(&[T], &[T, T], &[0, 0], &[Observed, Added]),
             OP_NIP => o(&[T, T], &[T], &[1], &[MovedIndirectly]),
-- 
2.43.0


From a30ad14c96b19f1aefbf8ba9f1cf33f345e35ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 19/37] fix: OP_CHECKSIGVERIFY leaves nothing behind

---
 bitcoin-cash-base/src/opcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 6823984..9200c68 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -3012,7 +3012,7 @@ impl Opcode {
             OP_HASH160 => u(&[ByteArray(None)], &[ByteArray(Some(20))], &[Changed]),
             OP_HASH256 => u(&[ByteArray(None)], &[ByteArray(Some(32))], &[Changed]),
             OP_CHECKSIG => u(&[ByteArray(None), ByteArray(None)], &[Boolean], &[Changed]),
-            OP_CHECKSIGVERIFY => u(&[ByteArray(None), ByteArray(None)], &[], &[Changed]),
+            OP_CHECKSIGVERIFY => u(&[ByteArray(None), ByteArray(None)], &[], &[]),
 
             OP_CHECKDATASIG => u(
                 &[ByteArray(None), ByteArray(None), ByteArray(None)],
-- 
2.43.0


From e2da7bfcaa0aee5154e0845dfbb470cc50839062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 20/37] fix: OP_NOTIF consumes its condition

---
 bitcoin-cash-base/src/opcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 9200c68..aa2c743 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -3028,7 +3028,7 @@ impl Opcode {
             OP_0 | OP_1NEGATE | OP_1 | OP_2 | OP_3 | OP_4 | OP_5 | OP_6 | OP_7 | OP_8 | OP_9
             | OP_10 | OP_11 | OP_12 | OP_13 | OP_14 | OP_15 | OP_16 => u(&[], &[Integer], &[Added]),
 
-            OP_IF => u(&[T], &[], &[]),
+            OP_IF | OP_NOTIF => u(&[T], &[], &[]),
             OP_ELSE => u(&[], &[], &[]),
             OP_ENDIF => u(&[], &[], &[]),
 
-- 
2.43.0


From 7b25ae992ea0118bf59ff69c23e6421cd8c7bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 21/37] fix: reject addresses with an invalid prefix in binary
 serde formats

---
 bitcoin-cash/src/address.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/address.rs b/bitcoin-cash/src/address.rs
index 3713a97..7503824 100644
--- a/bitcoin-cash/src/address.rs
+++ b/bitcoin-cash/src/address.rs
@@ -245,6 +245,9 @@ impl<'de> Deserialize<'de> for Address<'static> {
             Address::from_cash_addr(s).map_err(serde::de::Error::custom)
         } else {
             let ser_address = SerAddress::deserialize(deserializer)?;
+            if !_is_valid_prefix(&ser_address.prefix) {
+                return Err(serde::de::Error::custom(CashAddrError::InvalidPrefix));
+            }
             Ok(Address::from_hash(ser_address.prefix.as_ref(), ser_address.addr_type, Hash160::new(ser_address.hash)).into_owned_address())
         }
     }
@@ -353,6 +356,11 @@ fn _verify_checksum(prefix: &str, payload: impl Iterator<Item = u8>) -> bool {
     poly == 0
 }
 
+fn _is_valid_prefix(prefix: &str) -> bool {
+    // Only 5 bits of a prefix character enter the checksum, which are unique among letters only.
+    prefix.bytes().all(|letter| letter.is_ascii_lowercase())
+}
+
 fn _to_cash_addr(prefix: &str, addr_type: AddressType, addr_bytes: &[u8]) -> String {
     let version = addr_type as u8;
     let payload = _convert_bits(
@@ -382,8 +390,7 @@ fn _from_cash_addr<'a>(
     } else {
         (default_prefix.into(), &addr_string[..])
     };
-    // Only 5 bits of a prefix character enter the checksum, which are unique among letters only.
-    if !prefix.bytes().all(|letter| letter.is_ascii_lowercase()) {
+    if !_is_valid_prefix(&prefix) {
         return Err(CashAddrError::InvalidPrefix);
     }
     let decoded = _map_from_b32(payload_base32)?;
-- 
2.43.0


From 508dfbd09231ebd0d0be3cea269cb9e5f9704f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 22/37] fix: reject serialized transactions whose hash or raw
 bytes don't match

---
 bitcoin-cash/src/tx.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/tx.rs b/bitcoin-cash/src/tx.rs
index 167d83c..8850d7d 100644
--- a/bitcoin-cash/src/tx.rs
+++ b/bitcoin-cash/src/tx.rs
@@ -1,7 +1,8 @@
 use crate::{
-    error::Result, BitcoinCode, ByteArray, Hashed, Script, Sha256d, SigHashFlags, ToPreimages, TxPreimage,
+    error::{Error, Result}, BitcoinCode, ByteArray, Hashed, Script, Sha256d, SigHashFlags, ToPreimages, TxPreimage,
 };
 use serde::{Deserialize, Serialize};
+use std::convert::TryFrom;
 
 pub const DEFAULT_SEQUENCE: u32 = 0xffff_ffff;
 // Mark Lundeberg: "71 bytes for the DER, but then +1 for the hashtype,
@@ -55,7 +56,7 @@ pub struct UnhashedTx {
 }
 
 #[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
-#[serde(rename_all = "camelCase")]
+#[serde(rename_all = "camelCase", try_from = "SerTx")]
 pub struct Tx {
     unhashed_tx: UnhashedTx,
 
@@ -64,6 +65,37 @@ pub struct Tx {
     raw: ByteArray,
 }
 
+#[derive(Deserialize)]
+#[serde(rename = "Tx", rename_all = "camelCase")]
+struct SerTx {
+    unhashed_tx: UnhashedTx,
+    hash: Sha256d,
+    raw: ByteArray,
+}
+
+impl TryFrom<SerTx> for Tx {
+    type Error = Error;
+
+    fn try_from(tx: SerTx) -> Result<Self> {
+        let SerTx {
+            unhashed_tx,
+            hash,
+            raw,
+        } = tx;
+        if Sha256d::digest(raw.clone()) != hash {
+            return Err(Error::Msg("Tx hash doesn't match raw tx".into()));
+        }
+        if UnhashedTx::deser(raw.clone())?.ser() != unhashed_tx.ser() {
+            return Err(Error::Msg("Tx fields don't match raw tx".into()));
+        }
+        Ok(Tx {
+            unhashed_tx,
+            hash,
+            raw,
+        })
+    }
+}
+
 impl TxInput {
     pub fn new(prev_out: TxOutpoint, script: Script, sequence: u32) -> Self {
         TxInput {
-- 
2.43.0


From 7859f476ff9a9b52fd92494092f0e8e85924ed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 23/37] fix: derive(BitcoinCode) ignores attributes of other
 macros

---
 bitcoin-cash-code/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bitcoin-cash-code/src/lib.rs b/bitcoin-cash-code/src/lib.rs
index 93a412a..56a4d95 100644
--- a/bitcoin-cash-code/src/lib.rs
+++ b/bitcoin-cash-code/src/lib.rs
@@ -26,6 +26,10 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
     let mut crate_name = quote! {bitcoin_cash};
 
     for attr in &item_struct.attrs {
+        // Attributes of other macros need not be valid meta items.
+        if !attr.path.is_ident("bitcoin_code") {
+            continue;
+        }
         match attr.parse_meta()? {
             syn::Meta::List(list) if list.path.to_token_stream().to_string() == "bitcoin_code" => {
                 for nested_attr in list.nested.iter() {
@@ -101,6 +105,10 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
     for field in fields.named.iter() {
         let mut is_skipped = false;
         for attr in &field.attrs {
+            // Only our own attribute tells us anything, e.g. `#[serde(skip)]` isn't ours.
+            if !attr.path.is_ident("bitcoin_code") {
+                continue;
+            }
             match attr.parse_meta()? {
                 syn::Meta::Path(_) => {
                     return Err(syn::Error::new(attr.span(), "Invalid attribute"))
-- 
2.43.0


From c27f49234bbf97df3faee2d3fad3e89b980d0b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:28 +0000
Subject: [PATCH 24/37] fix: derive(BitcoinCode) allows any field name, e.g.
 `data`

---
 bitcoin-cash-code/src/lib.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/bitcoin-cash-code/src/lib.rs b/bitcoin-cash-code/src/lib.rs
index 56a4d95..625bc81 100644
--- a/bitcoin-cash-code/src/lib.rs
+++ b/bitcoin-cash-code/src/lib.rs
@@ -101,6 +101,10 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
     let mut ser_calls = Vec::new();
     let mut deser_calls = Vec::new();
     let mut field_idents = Vec::new();
+    let mut field_vars = Vec::new();
+
+    // Hygienic identifiers, so fields can have any name.
+    let data_ident = syn::Ident::new("data", proc_macro2::Span::mixed_site());
 
     for field in fields.named.iter() {
         let mut is_skipped = false;
@@ -135,6 +139,10 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
             }
         }
         let field_name = field.ident.as_ref().unwrap();
+        let field_var = syn::Ident::new(
+            &format!("field{}", field_idents.len()),
+            proc_macro2::Span::mixed_site(),
+        );
         field_idents.push(field_name);
         let field_name_str = field_name.to_string();
         let field_type = &field.ty;
@@ -143,13 +151,15 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
                 #parts_ident.push(self.#field_name.ser().named(#field_name_str));
             });
             deser_calls.push(quote! {
-                let (#field_name, data) = <#field_type as #crate_name::BitcoinCode>::deser_rest(data)?;
-            })
+                let (#field_var, #data_ident) =
+                    <#field_type as #crate_name::BitcoinCode>::deser_rest(#data_ident)?;
+            });
         } else {
             deser_calls.push(quote! {
-                let #field_name = Default::default();
-            })
+                let #field_var = Default::default();
+            });
         }
+        field_vars.push(field_var);
     }
 
     let capacity = fields.named.len();
@@ -162,11 +172,11 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
                 #crate_name::ByteArray::from_parts(#parts_ident)
             }
 
-            fn deser_rest(data: #crate_name::ByteArray) -> std::result::Result<(Self, #crate_name::ByteArray), #crate_name::error::Error> {
+            fn deser_rest(#data_ident: #crate_name::ByteArray) -> std::result::Result<(Self, #crate_name::ByteArray), #crate_name::error::Error> {
                 #(#deser_calls)*
                 Ok((
-                    #struct_name { #(#field_idents),* },
-                    data,
+                    #struct_name { #(#field_idents: #field_vars),* },
+                    #data_ident,
                 ))
             }
         }
-- 
2.43.0


From e3ef451c6465572b641726a9798d7ea4d6e12b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:34 +0000
Subject: [PATCH 25/37] fix: derive(BitcoinCode) encodes fields with their
 BitcoinCode impl

---
 bitcoin-cash-code/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash-code/src/lib.rs b/bitcoin-cash-code/src/lib.rs
index 625bc81..95b4521 100644
--- a/bitcoin-cash-code/src/lib.rs
+++ b/bitcoin-cash-code/src/lib.rs
@@ -148,7 +148,10 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
         let field_type = &field.ty;
         if !is_skipped {
             ser_calls.push(quote! {
-                #parts_ident.push(self.#field_name.ser().named(#field_name_str));
+                #parts_ident.push(
+                    <#field_type as #crate_name::BitcoinCode>::ser(&self.#field_name)
+                        .named(#field_name_str),
+                );
             });
             deser_calls.push(quote! {
                 let (#field_var, #data_ident) =
-- 
2.43.0


From 2da9653ae991b71b797800011ebfefac55eeaf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:20 +0000
Subject: [PATCH 26/37] fix: statements of nested OP_IFs stay in the branch
 they're written in

---
 bitcoin-cash-script-macro/src/parse.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index 60a8880..d836362 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -449,7 +449,6 @@ fn parse_opcode_inputs(
 fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::Error> {
     let mut new_stmts = Vec::new();
     let mut if_stack = Vec::new();
-    let mut is_then = true;
     struct If {
         if_opcode: ir::OpcodeStmt,
         if_token_stream: TokenStream,
@@ -473,11 +472,9 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
                         then_stmts: vec![],
                         else_stmts: vec![],
                     });
-                    is_then = true;
                     continue;
                 }
                 "OP_ELSE" => {
-                    is_then = false;
                     let top_if = if_stack.last_mut().ok_or_else(|| {
                         syn::Error::new(opcode.expr_span, "No previous OP_IF found.")
                     })?;
@@ -514,7 +511,7 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
             new_stmts.push(stmt);
         } else {
             let top_if = if_stack.last_mut().unwrap();
-            if is_then {
+            if top_if.else_opcode.is_none() {
                 top_if.then_stmts.push(stmt);
             } else {
                 top_if.else_stmts.push(stmt);
-- 
2.43.0


From 37e974bcee3dc87d424af7205854e3aad40ca9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 27/37] fix: reject a second OP_ELSE instead of dropping the
 first

---
 bitcoin-cash-script-macro/src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index d836362..0515a30 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -478,6 +478,12 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
                     let top_if = if_stack.last_mut().ok_or_else(|| {
                         syn::Error::new(opcode.expr_span, "No previous OP_IF found.")
                     })?;
+                    if top_if.else_opcode.is_some() {
+                        return Err(syn::Error::new(
+                            opcode.expr_span,
+                            "More than one OP_ELSE for the same OP_IF.",
+                        ));
+                    }
                     top_if.else_opcode = Some(opcode);
                     top_if.else_token_stream = Some(token_stream);
                     continue;
-- 
2.43.0


From 0d21a23bb31a6615602afbabfaa4bec00576d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 28/37] fix: OP_NOTIF can be used in scripts

---
 bitcoin-cash-base/src/opcode.rs           | 2 ++
 bitcoin-cash-script-macro/src/generate.rs | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index aa2c743..02bef53 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -2543,6 +2543,8 @@ pub mod func {
     #[inline(always)]
     pub fn OP_IF<T>(stack_item: T) {}
     #[inline(always)]
+    pub fn OP_NOTIF<T>(stack_item: T) {}
+    #[inline(always)]
     pub fn OP_ELSE() {}
     #[inline(always)]
     pub fn OP_ENDIF() {}
diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 3891030..eb18cb3 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -741,12 +741,14 @@ impl GenerateScript {
                     "Must provide variable name to `OP_IF`",
                 )
             })?;
+        // `OP_NOTIF` executes the first branch if the condition doesn't hold
+        let is_then_positive = script_if.if_opcode.ident != "OP_NOTIF";
         let stack_before = self.variant_states.clone();
         self.variant_states
             .predicate_atoms
             .push(ir::VariantPredicateAtom {
                 var_name: predicate_name.clone(),
-                is_positive: true,
+                is_positive: is_then_positive,
             });
         let predicate_held_if = self.variant_states.predicate_atoms.clone();
 
@@ -762,7 +764,7 @@ impl GenerateScript {
             .predicate_atoms
             .push(ir::VariantPredicateAtom {
                 var_name: predicate_name,
-                is_positive: false,
+                is_positive: !is_then_positive,
             });
         let mut else_tokens = Vec::new();
         for stmt in script_if.else_stmts {
-- 
2.43.0


From 3076d92a59d78895ee437292edc9798dde1b04a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 29/37] fix: the size pushed by OP_SIZE doesn't get the name of
 the measured item

---
 bitcoin-cash-script-macro/src/generate.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index eb18cb3..16a6aea 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -492,11 +492,11 @@ impl GenerateScript {
                 let new_ident = self.make_ident(ident.span());
                 let name = ident.to_string();
                 if &name == "__" {
-                    if opcode_type.retains_input() {
-                        let new_idx = 0;
+                    // only the first output is the retained input
+                    if opcode_type.retains_input() && idx == 0 {
                         pushed_stack_items.push(StackItem {
                             ident: new_ident,
-                            ..input_items[new_idx].clone()
+                            ..input_items[0].clone()
                         });
                         continue;
                     } else if let Some(output_order) = behavior.output_order {
@@ -535,13 +535,12 @@ impl GenerateScript {
                     }
                 }
                 None => {
-                    for _ in 0..behavior.output_types.len() {
+                    for idx in 0..behavior.output_types.len() {
                         let ident = self.make_ident(outputs_span);
-                        if opcode_type.retains_input() {
-                            let new_idx = 0;
+                        if opcode_type.retains_input() && idx == 0 {
                             pushed_stack_items.push(StackItem {
                                 ident,
-                                ..input_items[new_idx].clone()
+                                ..input_items[0].clone()
                             });
                         } else {
                             pushed_stack_items.push(StackItem {
-- 
2.43.0


From 3ec916d3ee60bf5692ed28f296f217c16f2f8caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 30/37] fix: items renamed by OP_TOALTSTACK, OP_FROMALTSTACK,
 OP_PICK and OP_ROLL are named; `__` is a placeholder there too

---
 bitcoin-cash-script-macro/src/generate.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 16a6aea..5ac2e3f 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -823,7 +823,11 @@ impl GenerateScript {
                     opcode.expr_span,
                 ));
             }
-            if input_names[0].to_string() != item.name {
+            let input_name = input_names[0].to_string();
+            if input_name == "__" {
+                return Ok(());
+            }
+            if item.has_generated_name || input_name != item.name {
                 return Err(error_opcode(
                     format!(
                         "Expected top altstack item named `{}`, but actual name is `{}`.",
@@ -850,7 +854,10 @@ impl GenerateScript {
                     opcode.outputs_span,
                 ));
             }
-            item.name = output_names[0].to_string();
+            if output_names[0] != "__" {
+                item.name = output_names[0].to_string();
+                item.has_generated_name = false;
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 7ace49b74c1a9ac45d6d3c9ced8cfb51b871ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 31/37] fix: reject opcode arguments that aren't stack items

---
 bitcoin-cash-script-macro/src/generate.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 5ac2e3f..fd24dee 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -449,6 +449,12 @@ impl GenerateScript {
                 ));
             }
             for (input_item, input_name) in input_items.iter().zip(input_names) {
+                if let ir::OpcodeInput::Expr(expr) = &input_name {
+                    return Err(Error::new(
+                        expr.span(),
+                        "Expected the name of a stack item, expressions must be pushed first.",
+                    ));
+                }
                 if let ir::OpcodeInput::Ident(ident) = input_name {
                     if &ident.to_string() == "__" {
                         continue;
-- 
2.43.0


From 2befee484df169be321d11382e579bbe40e497d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:51 +0000
Subject: [PATCH 32/37] fix: a stack item keeps its type when another one gets
 the same name

---
 bitcoin-cash-script-macro/src/generate.rs | 27 ++++++++++-------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index fd24dee..586791d 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -73,8 +73,9 @@ impl GenerateScript {
             let attrs = &input.attrs;
             let ty = &input.ty;
             let ident_str = ident.to_string();
+            let data_ident = self.make_ident(span);
             new_stmts.push(quote_spanned! {span=>
-                let #ident = <#ty as Default>::default().to_data();
+                let #data_ident = <#ty as Default>::default().to_data();
             });
             struct_fields.push(quote! {
                 #(#attrs)*
@@ -94,7 +95,7 @@ impl GenerateScript {
                 vec![],
             ));
             let stack_item = StackItem {
-                ident: input.ident.clone(),
+                ident: data_ident,
                 name: ident_str,
                 has_generated_name: false,
                 integer: None,
@@ -302,13 +303,10 @@ impl GenerateScript {
                 quote! { Some(#name.into()) }
             })
             .unwrap_or(quote! { None });
-        let ident = push
-            .output_name
-            .or_else(|| Some(self.make_ident(span)))
-            .unwrap();
+        let ident = self.make_ident(span);
         self.variant_states.push(StackItem {
             ident: ident.clone(),
-            name: ident.to_string(),
+            name: push.output_name.as_ref().unwrap_or(&ident).to_string(),
             has_generated_name,
             integer: None, // TODO
         });
@@ -653,18 +651,17 @@ impl GenerateScript {
                 let has_generated_name = opcode.output_names.is_none();
                 let span = opcode.expr_span;
                 let mut name = quote! { None };
-                let ident = if let Some(&[ref ident]) = opcode.output_names.as_deref() {
-                    let ident_str = ident.to_string();
-                    name = quote! { Some(#ident_str.into()) };
-                    ident.clone()
-                } else {
-                    self.make_ident(opcode.outputs_span)
-                };
+                let ident = self.make_ident(opcode.outputs_span);
+                let mut item_name = ident.to_string();
+                if let Some(&[ref output_name]) = opcode.output_names.as_deref() {
+                    item_name = output_name.to_string();
+                    name = quote! { Some(#item_name.into()) };
+                }
                 let depth = Integer::new(depth)
                     .map_err(|err| syn::Error::new(span, err.to_string()))?;
                 self.push(StackItem {
                     ident: ident.clone(),
-                    name: ident.to_string(),
+                    name: item_name,
                     has_generated_name,
                     integer: Some(depth),
                 });
-- 
2.43.0


From 4c96838ed4a77f73e932f1b3ca3958d2d915ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 33/37] fix: transmute only changes the item it names, in its
 branch

---
 bitcoin-cash-script-macro/src/generate.rs |  8 ++++----
 bitcoin-cash-script-macro/src/state.rs    | 11 +++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 586791d..85b146b 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -696,11 +696,11 @@ impl GenerateScript {
                             ));
                         }
                     }
-                    let (_, item) = self
-                        .variant_states
-                        .find_item(ident)
+                    // Other items or branches may still use the previous type
+                    let item_ident = self.make_ident(span);
+                    self.variant_states
+                        .replace_ident(ident, &item_ident)
                         .map_err(|err| Error::new(span, err))?;
-                    let item_ident = &item.ident;
                     Ok(quote_spanned! {span=>
                         let #item_ident = <#type_expr as Default>::default().to_data();
                     })
diff --git a/bitcoin-cash-script-macro/src/state.rs b/bitcoin-cash-script-macro/src/state.rs
index e86167e..06e8327 100644
--- a/bitcoin-cash-script-macro/src/state.rs
+++ b/bitcoin-cash-script-macro/src/state.rs
@@ -181,6 +181,17 @@ impl VariantStates {
         prev_depth_item.ok_or_else(|| "No variant for this op".to_string())
     }
 
+    pub fn replace_ident(&mut self, name: &syn::Ident, ident: &syn::Ident) -> Result<(), String> {
+        let (depth, _) = self.find_item(name)?;
+        for state in self.states.values_mut() {
+            if state.condition.holds(&self.predicate_atoms) {
+                let item_idx = state.stack.len() - depth - 1;
+                state.stack[item_idx].ident = ident.clone();
+            }
+        }
+        Ok(())
+    }
+
     fn pop_flagged(&mut self, is_alt_stack: bool) -> Result<StackItem, String> {
         let mut prev_item: Option<StackItem> = None;
         let mut prev_variant = None;
-- 
2.43.0


From 0ecb4d57a7e39ddf23114003eb0150d36aeb6f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:09 +0000
Subject: [PATCH 34/37] fix: OP_PICK and OP_ROLL know literal depths and don't
 guess unknown ones

---
 bitcoin-cash-script-macro/src/generate.rs | 68 ++++++++++++++++++++---
 bitcoin-cash-script-macro/src/state.rs    | 10 +++-
 2 files changed, 68 insertions(+), 10 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 85b146b..7f970c2 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -308,7 +308,7 @@ impl GenerateScript {
             ident: ident.clone(),
             name: push.output_name.as_ref().unwrap_or(&ident).to_string(),
             has_generated_name,
-            integer: None, // TODO
+            integer: literal_integer(&push.expr),
         });
         let script_ident = &self.script_ident;
         let expr = push.expr;
@@ -384,7 +384,14 @@ impl GenerateScript {
                             Err(err) => return Err(syn::Error::new(expr_span, err.to_string())),
                         }
                     }
-                    _ => 0, // take top stack item if not known statically
+                    None if opcode_type == OP_ROLL => {
+                        return Err(error_opcode(
+                            "The depth must be known at compile time.",
+                            opcode_type,
+                            expr_span,
+                        ))
+                    }
+                    None => 0, // take type of top stack item if not known statically
                 };
                 let mut item = match opcode_type {
                     OP_PICK => self
@@ -397,6 +404,12 @@ impl GenerateScript {
                         .map_err(|err| error_opcode(err, opcode_type, expr_span))?,
                     _ => unreachable!(),
                 };
+                if stack_item.integer.is_none() {
+                    // it could be any item
+                    item.name = item.ident.to_string();
+                    item.has_generated_name = true;
+                    item.integer = None;
+                }
                 Self::update_item_name(opcode_type, &opcode, &mut item)?;
                 let name = item.name_tokens();
                 self.push(item);
@@ -520,11 +533,18 @@ impl GenerateScript {
                         ));
                     }
                 }
+                let integer = if opcode_type.retains_input() && idx == 0 {
+                    input_items[0].integer
+                } else if let Some(output_order) = behavior.output_order {
+                    input_items[output_order[idx]].integer
+                } else {
+                    number_opcode(opcode_type)
+                };
                 pushed_stack_items.push(StackItem {
                     name,
                     ident: new_ident,
                     has_generated_name: false,
-                    integer: None,
+                    integer,
                 });
             }
         } else {
@@ -551,7 +571,7 @@ impl GenerateScript {
                                 name: ident.to_string(),
                                 ident,
                                 has_generated_name: true,
-                                integer: None,
+                                integer: number_opcode(opcode_type),
                             });
                         }
                     }
@@ -633,14 +653,16 @@ impl GenerateScript {
         match opcode_name.as_str() {
             "depth_of" | "depth_of_offset" => {
                 let src = self.next_formatted_stmts();
-                let (ident, offset) = if opcode_name.as_str() == "depth_of" {
+                let (ident, offset, offset_value) = if opcode_name.as_str() == "depth_of" {
                     match opcode.input_names.as_deref() {
-                        Some(&[Ident(ref ident)]) => (ident, quote!{0}),
+                        Some(&[Ident(ref ident)]) => (ident, quote!{0}, Some(Integer::ZERO)),
                         _ => return Err(Error::new(opcode.expr_span, "Expected 1 variable name")),
                     }
                 } else {
                     match opcode.input_names.as_deref() {
-                        Some(&[Ident(ref ident), Expr(ref expr)]) => (ident, quote!{#expr}),
+                        Some(&[Ident(ref ident), Expr(ref expr)]) => {
+                            (ident, quote!{#expr}, literal_integer(expr))
+                        }
                         _ => return Err(Error::new(opcode.expr_span, "Expected 1 variable name")),
                     }
                 };
@@ -663,7 +685,7 @@ impl GenerateScript {
                     ident: ident.clone(),
                     name: item_name,
                     has_generated_name,
-                    integer: Some(depth),
+                    integer: offset_value.and_then(|offset| (depth + offset).integer().ok()),
                 });
                 let depth = depth.value();
                 let script_ident = &self.script_ident;
@@ -929,6 +951,36 @@ impl GenerateScript {
     }
 }
 
+/// Value of an integer literal, if `expr` is one.
+fn literal_integer(expr: &syn::Expr) -> Option<Integer> {
+    match expr {
+        syn::Expr::Lit(syn::ExprLit {
+            lit: syn::Lit::Int(lit),
+            ..
+        }) => Integer::new(lit.base10_parse::<i64>().ok()?).ok(),
+        syn::Expr::Unary(syn::ExprUnary {
+            op: syn::UnOp::Neg(_),
+            expr,
+            ..
+        }) => Integer::new(-i64::from(literal_integer(expr)?.value())).ok(),
+        syn::Expr::Paren(paren) => literal_integer(&paren.expr),
+        _ => None,
+    }
+}
+
+/// Number pushed by `OP_0`, `OP_1NEGATE` or `OP_1` to `OP_16`.
+fn number_opcode(opcode: Opcode) -> Option<Integer> {
+    let number = match opcode {
+        Opcode::OP_0 => 0,
+        Opcode::OP_1NEGATE => -1,
+        opcode if opcode >= Opcode::OP_1 && opcode <= Opcode::OP_16 => {
+            opcode as i32 - Opcode::OP_1 as i32 + 1
+        }
+        _ => return None,
+    };
+    Integer::new(number).ok()
+}
+
 fn error_opcode<D: std::fmt::Display>(msg: D, opcode: Opcode, span: Span) -> Error {
     Error::new(span, format!("{:?}: {}", opcode, msg))
 }
diff --git a/bitcoin-cash-script-macro/src/state.rs b/bitcoin-cash-script-macro/src/state.rs
index 06e8327..b48cd1f 100644
--- a/bitcoin-cash-script-macro/src/state.rs
+++ b/bitcoin-cash-script-macro/src/state.rs
@@ -67,7 +67,7 @@ impl VariantStates {
                     ));
                 }
                 let item_idx = stack.len() - item_depth - 1;
-                let next_item = if is_roll {
+                let mut next_item = if is_roll {
                     stack.remove(item_idx)
                 } else {
                     stack[item_idx].clone()
@@ -115,6 +115,9 @@ impl VariantStates {
                             prev_variant, prev_item.name, next_variant, next_item.name,
                         ));
                     }
+                    if next_item.integer != prev_item.integer {
+                        next_item.integer = None;
+                    }
                 }
                 prev_item = Some(next_item);
                 prev_variant = Some(next_variant);
@@ -197,7 +200,7 @@ impl VariantStates {
         let mut prev_variant = None;
         for (next_variant, stack) in self.states.iter_mut() {
             if stack.condition.holds(&self.predicate_atoms) {
-                let next_item = if is_alt_stack {
+                let mut next_item = if is_alt_stack {
                     stack.alt_stack.pop()
                 } else {
                     stack.stack.pop()
@@ -243,6 +246,9 @@ impl VariantStates {
                             prev_variant, prev_item.name, next_variant, next_item.name,
                         ));
                     }
+                    if next_item.integer != prev_item.integer {
+                        next_item.integer = None;
+                    }
                 }
                 prev_item = Some(next_item);
                 prev_variant = Some(next_variant);
-- 
2.43.0


From 95b75acc408a6ce2b4ecd4687a9b2bed90dc235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 35/37] fix: reject branches which leave different items

---
 bitcoin-cash-script-macro/src/generate.rs | 17 ++++++--
 bitcoin-cash-script-macro/src/state.rs    | 52 +++++++++++++++++++++++
 2 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 7f970c2..1a613a2 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -794,17 +794,26 @@ impl GenerateScript {
         for stmt in script_if.else_stmts {
             else_tokens.push(self.run_stmt(stmt.stmt, crate_ident)?);
         }
+        let endif_span = script_if.endif_opcode.expr_span;
         else_tokens.push(self.run_opcode(script_if.endif_opcode, crate_ident)?);
         let predicate_held_else = self.variant_states.predicate_atoms.clone();
         self.variant_states.predicate_atoms.pop().unwrap();
         for (variant_name, stack) in self.variant_states.states.iter_mut() {
             let held_if = stack.condition.holds(&predicate_held_if);
             let held_else = stack.condition.holds(&predicate_held_else);
+            let after_then = stack_after_then.states.get_mut(variant_name).unwrap();
             if held_if && !held_else {
-                std::mem::swap(
-                    stack_after_then.states.get_mut(variant_name).unwrap(),
-                    stack,
-                );
+                std::mem::swap(after_then, stack);
+            } else if held_if && held_else {
+                // either branch could be executed, what follows must work for both
+                let same_types = stack
+                    .merge_branch(after_then)
+                    .map_err(|err| Error::new(endif_span, err))?;
+                for (then_ident, else_ident) in same_types {
+                    else_tokens.push(quote_spanned! {endif_span=>
+                        #crate_ident::func::FIRST(#then_ident.clone(), #else_ident.clone());
+                    });
+                }
             }
         }
 
diff --git a/bitcoin-cash-script-macro/src/state.rs b/bitcoin-cash-script-macro/src/state.rs
index b48cd1f..e9e4976 100644
--- a/bitcoin-cash-script-macro/src/state.rs
+++ b/bitcoin-cash-script-macro/src/state.rs
@@ -26,6 +26,14 @@ pub struct VariantStates {
 }
 
 impl StackItem {
+    fn display_name(&self) -> String {
+        if self.has_generated_name {
+            "an unnamed item".to_string()
+        } else {
+            format!("`{}`", self.name)
+        }
+    }
+
     pub fn name_tokens(&self) -> TokenStream {
         if self.has_generated_name {
             quote! { None }
@@ -36,6 +44,50 @@ impl StackItem {
     }
 }
 
+impl State {
+    /// Check that another branch left the same items as this one.
+    ///
+    /// Returns the idents which must have the same type in both branches.
+    pub fn merge_branch(&mut self, other: &State) -> Result<Vec<(syn::Ident, syn::Ident)>, String> {
+        let mut same_types = Vec::new();
+        for (stack_name, stack, other_stack) in vec![
+            ("stack", &mut self.stack, &other.stack),
+            ("altstack", &mut self.alt_stack, &other.alt_stack),
+        ] {
+            if stack.len() != other_stack.len() {
+                return Err(format!(
+                    "Branches leave a different number of items on the {}: {} and {}.",
+                    stack_name,
+                    other_stack.len(),
+                    stack.len(),
+                ));
+            }
+            for (item, other_item) in stack.iter_mut().zip(other_stack) {
+                // a leading underscore only silences lints
+                let is_same_name =
+                    item.name.trim_start_matches('_') == other_item.name.trim_start_matches('_');
+                if item.has_generated_name != other_item.has_generated_name
+                    || (!item.has_generated_name && !is_same_name)
+                {
+                    return Err(format!(
+                        "Branches leave conflicting items on the {}: {} and {}.",
+                        stack_name,
+                        other_item.display_name(),
+                        item.display_name(),
+                    ));
+                }
+                if item.integer != other_item.integer {
+                    item.integer = None;
+                }
+                if item.ident != other_item.ident {
+                    same_types.push((other_item.ident.clone(), item.ident.clone()));
+                }
+            }
+        }
+        Ok(same_types)
+    }
+}
+
 impl VariantStates {
     pub fn push(&mut self, stack_item: StackItem) {
         for state in self.states.values_mut() {
-- 
2.43.0


From 10dc6e173289101d5e412d337de5f46fe629a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 36/37] fix: reject depths bound to several names

---
 bitcoin-cash-script-macro/src/generate.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 1a613a2..afe553b 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -675,9 +675,15 @@ impl GenerateScript {
                 let mut name = quote! { None };
                 let ident = self.make_ident(opcode.outputs_span);
                 let mut item_name = ident.to_string();
-                if let Some(&[ref output_name]) = opcode.output_names.as_deref() {
-                    item_name = output_name.to_string();
-                    name = quote! { Some(#item_name.into()) };
+                match opcode.output_names.as_deref() {
+                    Some(&[ref output_name]) => {
+                        item_name = output_name.to_string();
+                        name = quote! { Some(#item_name.into()) };
+                    }
+                    Some(_) => {
+                        return Err(Error::new(opcode.outputs_span, "Expected single output"))
+                    }
+                    None => {}
                 }
                 let depth = Integer::new(depth)
                     .map_err(|err| syn::Error::new(span, err.to_string()))?;
-- 
2.43.0


From 92b81118dc3fcc7318f45b3bd2cd0548683dcad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 37/37] fix: check the types of stack items for each variant

---
 bitcoin-cash-script-macro/src/generate.rs | 112 ++++++++++++++--------
 bitcoin-cash-script-macro/src/state.rs    |  57 +++++++++++
 2 files changed, 127 insertions(+), 42 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index afe553b..fc7f8d5 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -1,6 +1,6 @@
 use crate::gen_source;
 use crate::ir;
-use crate::state::{StackItem, State, VariantStates};
+use crate::state::{StackItem, State, VariantIdents, VariantStates};
 use bitcoin_cash_base::{Integer, Opcode};
 use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned, ToTokens};
@@ -338,11 +338,15 @@ impl GenerateScript {
         match opcode_type {
             Some(&opcode_type @ OP_TOALTSTACK) => {
                 let src = self.next_formatted_stmts();
+                let moved = self.variant_states.top_idents(1, false);
                 let mut item = self.pop(opcode_type, expr_span)?;
                 Self::verify_item_name(opcode_type, &opcode, &item)?;
                 Self::update_item_name(opcode_type, &opcode, &mut item)?;
                 let name = item.name_tokens();
                 self.push_alt(item);
+                for group in &moved {
+                    self.variant_states.set_top_idents(group, true);
+                }
                 let tagged_op = self.make_tagged_op(
                     crate_ident,
                     &quote!{#crate_ident::Op::Code(#ident)},
@@ -356,11 +360,15 @@ impl GenerateScript {
             }
             Some(&opcode_type @ OP_FROMALTSTACK) => {
                 let src = self.next_formatted_stmts();
+                let moved = self.variant_states.top_idents(1, true);
                 let mut item = self.pop_alt(opcode_type, expr_span)?;
                 Self::verify_item_name(opcode_type, &opcode, &item)?;
                 Self::update_item_name(opcode_type, &opcode, &mut item)?;
                 let name = item.name_tokens();
                 self.push(item);
+                for group in &moved {
+                    self.variant_states.set_top_idents(group, false);
+                }
                 let tagged_op = self.make_tagged_op(
                     crate_ident,
                     &quote!{#crate_ident::Op::Code(#ident)},
@@ -374,6 +382,12 @@ impl GenerateScript {
             }
             Some(&opcode_type @ OP_PICK) | Some(&opcode_type @ OP_ROLL) => {
                 let src = self.next_formatted_stmts();
+                let depth_idents = self
+                    .variant_states
+                    .top_idents(1, false)
+                    .into_iter()
+                    .flat_map(|group| group.idents)
+                    .collect::<Vec<_>>();
                 let stack_item = self.pop(opcode_type, expr_span)?;
                 Self::verify_item_name(opcode_type, &opcode, &stack_item)?;
                 let item_depth = match stack_item.integer {
@@ -393,6 +407,10 @@ impl GenerateScript {
                     }
                     None => 0, // take type of top stack item if not known statically
                 };
+                let mut moved = self.variant_states.top_idents(item_depth + 1, false);
+                for group in &mut moved {
+                    group.idents.truncate(1);
+                }
                 let mut item = match opcode_type {
                     OP_PICK => self
                         .variant_states
@@ -413,8 +431,10 @@ impl GenerateScript {
                 Self::update_item_name(opcode_type, &opcode, &mut item)?;
                 let name = item.name_tokens();
                 self.push(item);
+                for group in &moved {
+                    self.variant_states.set_top_idents(group, false);
+                }
                 let ident = opcode.ident;
-                let input_name = stack_item.ident;
                 let tagged_op = self.make_tagged_op(
                     crate_ident,
                     &quote!{#crate_ident::Op::Code(#ident)},
@@ -423,7 +443,7 @@ impl GenerateScript {
                     vec![],
                 );
                 Ok(quote_spanned! {expr_span=>
-                    #crate_ident::func::#ident(#input_name);
+                    #(#crate_ident::func::#ident(#depth_idents.clone());)*
                     #script_ident.push(#tagged_op);
                 })
             }
@@ -442,6 +462,9 @@ impl GenerateScript {
         let expr_span = opcode.expr_span;
         let outputs_span = opcode.outputs_span;
         let behavior = opcode_type.behavior();
+        let variant_inputs = self
+            .variant_states
+            .top_idents(behavior.input_types.len(), false);
         let mut input_items = Vec::new();
         for _ in 0..behavior.input_types.len() {
             let item = self.pop(opcode_type, expr_span)?;
@@ -578,55 +601,60 @@ impl GenerateScript {
                 }
             }
         }
-        let output_idents = pushed_stack_items
-            .iter()
-            .map(|item| item.ident.clone())
-            .collect::<Vec<_>>();
         let pushed_names = pushed_stack_items
             .iter()
             .map(|item| item.name_tokens())
             .collect::<Vec<_>>();
+        let output_idents = pushed_stack_items
+            .iter()
+            .map(|item| item.ident.clone())
+            .collect::<Vec<_>>();
         for stack_item in pushed_stack_items {
             self.push(stack_item);
         }
-        let output_let = if output_idents.len() == 1 {
-            let output_ident = &output_idents[0];
-            quote_spanned! {outputs_span=> let #output_ident = }
-        } else {
-            quote_spanned! {outputs_span=> let (#(#output_idents),*) = }
-        };
-        let input_idents = if let Some(input_names) = &opcode.input_names {
-            input_names
+        let arg_spans = match &opcode.input_names {
+            Some(input_names) => input_names
                 .iter()
-                .zip(&input_items)
-                .map(|(input, stack_item)| {
-                    let mut ident = stack_item.ident.clone();
-                    let span = match input {
-                        ir::OpcodeInput::Expr(expr) => expr.span(),
-                        ir::OpcodeInput::Ident(input_ident) => input_ident.span(),
-                    };
-                    ident.set_span(span);
-                    quote_spanned! {span=>#ident.clone()}
+                .map(|input| match input {
+                    ir::OpcodeInput::Expr(expr) => expr.span(),
+                    ir::OpcodeInput::Ident(input_ident) => input_ident.span(),
                 })
-                .collect::<Vec<_>>()
-        } else {
-            input_items
-                .iter()
-                .map(|stack_item| {
-                    let mut ident = stack_item.ident.clone();
-                    ident.set_span(expr_span);
-                    quote_spanned! {expr_span=>#ident.clone()}
-                })
-                .collect()
+                .collect::<Vec<_>>(),
+            None => vec![expr_span; input_items.len()],
         };
-        let ident = opcode.ident;
+        let ident = &opcode.ident;
+        // variants may have items of different types, each must be valid for this opcode
+        let mut calls = Vec::with_capacity(variant_inputs.len());
+        for VariantIdents { variants, idents } in variant_inputs {
+            let output_idents = output_idents
+                .iter()
+                .map(|output_ident| self.make_ident(output_ident.span()))
+                .collect::<Vec<_>>();
+            let output_let = if output_idents.len() == 1 {
+                let output_ident = &output_idents[0];
+                quote_spanned! {outputs_span=> let #output_ident = }
+            } else {
+                quote_spanned! {outputs_span=> let (#(#output_idents),*) = }
+            };
+            let prefix = quote_spanned! {outputs_span=>
+                #output_let #crate_ident::func::#ident
+            };
+            let input_idents = idents.into_iter().zip(&arg_spans).map(|(mut ident, &span)| {
+                ident.set_span(span);
+                quote_spanned! {span=>#ident.clone()}
+            });
+            calls.push(quote! {
+                #prefix ( #(#input_idents),* );
+            });
+            self.variant_states.set_top_idents(
+                &VariantIdents {
+                    variants,
+                    idents: output_idents,
+                },
+                false,
+            );
+        }
         let script_ident = &self.script_ident;
-        let prefix = quote_spanned! {outputs_span=>
-            #output_let #crate_ident::func::#ident
-        };
-        let inputs = quote! {
-            #(#input_idents),*
-        };
         let tagged_op = self.make_tagged_op(
             crate_ident,
             &quote!{#crate_ident::Op::Code(#ident)},
@@ -638,7 +666,7 @@ impl GenerateScript {
             #script_ident.push(#tagged_op);
         };
         Ok(quote! {
-            #prefix ( #inputs );
+            #(#calls)*
             #push
         })
     }
diff --git a/bitcoin-cash-script-macro/src/state.rs b/bitcoin-cash-script-macro/src/state.rs
index e9e4976..75a83eb 100644
--- a/bitcoin-cash-script-macro/src/state.rs
+++ b/bitcoin-cash-script-macro/src/state.rs
@@ -25,6 +25,12 @@ pub struct VariantStates {
     pub predicate_atoms: Vec<ir::VariantPredicateAtom>,
 }
 
+/// Idents of stack items, and the variants they belong to.
+pub struct VariantIdents {
+    pub variants: Vec<syn::Ident>,
+    pub idents: Vec<syn::Ident>,
+}
+
 impl StackItem {
     fn display_name(&self) -> String {
         if self.has_generated_name {
@@ -45,6 +51,14 @@ impl StackItem {
 }
 
 impl State {
+    fn stack(&self, is_alt_stack: bool) -> &[StackItem] {
+        if is_alt_stack {
+            &self.alt_stack
+        } else {
+            &self.stack
+        }
+    }
+
     /// Check that another branch left the same items as this one.
     ///
     /// Returns the idents which must have the same type in both branches.
@@ -316,6 +330,49 @@ impl VariantStates {
         ))
     }
 
+    /// Idents of the `n` top items, grouped by variants having the same ones.
+    ///
+    /// An item of the same name can be a different one for each variant, e.g. of another type.
+    pub fn top_idents(&self, n: usize, is_alt_stack: bool) -> Vec<VariantIdents> {
+        let mut states = self.states.iter().collect::<Vec<_>>();
+        states.sort_by_key(|&(variant, _)| variant);
+        let mut groups: Vec<VariantIdents> = Vec::new();
+        for (variant, state) in states {
+            if !state.condition.holds(&self.predicate_atoms) {
+                continue;
+            }
+            let stack = state.stack(is_alt_stack);
+            let idents = stack[stack.len().saturating_sub(n)..]
+                .iter()
+                .map(|item| item.ident.clone())
+                .collect::<Vec<_>>();
+            match groups.iter_mut().find(|group| group.idents == idents) {
+                Some(group) => group.variants.push(variant.clone()),
+                None => groups.push(VariantIdents {
+                    variants: vec![variant.clone()],
+                    idents,
+                }),
+            }
+        }
+        groups
+    }
+
+    /// Replace the idents of the top items for the given variants.
+    pub fn set_top_idents(&mut self, group: &VariantIdents, is_alt_stack: bool) {
+        for variant in &group.variants {
+            if let Some(state) = self.states.get_mut(variant) {
+                let stack = if is_alt_stack {
+                    &mut state.alt_stack
+                } else {
+                    &mut state.stack
+                };
+                for (item, ident) in stack.iter_mut().rev().zip(group.idents.iter().rev()) {
+                    item.ident = ident.clone();
+                }
+            }
+        }
+    }
+
     pub fn pop(&mut self) -> Result<StackItem, String> {
         self.pop_flagged(false)
     }
-- 
2.43.0

