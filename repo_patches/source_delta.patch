From c748e553794cdadce1651711276afaa52d02587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 01/16] fix: read_array drops exactly the initialised elements
 when an element fails to decode

The guard's base pointer was advanced together with its count, so an error in
element i dropped i values starting at slot i: uninitialised or out-of-bounds
memory, while the initialised ones leaked.
---
 dash7/src/utils.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index f128b14..5e3bcdf 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -189,7 +189,6 @@ where
     for i in 0..N {
         let value = <T as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
         data[i].write(value);
-        unsafe { transient_dropper.base_ptr = transient_dropper.base_ptr.add(1) };
         transient_dropper.initialized_count += 1;
     }
 
-- 
2.43.0


From 7a7cb651e40559717f6789859fd4f005cb645295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 02/16] fix: decoding from bytes no longer prints debug output
 on stdout

---
 dash7/src/utils.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 5e3bcdf..daaa5e1 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -73,11 +73,6 @@ where
         reader.skip_bits(input.1)?;
     }
     let value = T::from_reader_with_ctx(&mut reader, ctx)?;
-    println!(
-        "value {:?}, reader.bits_read {:?}  {:?}",
-        value, reader.bits_read, input
-    );
-
     Ok((pad_rest(input, reader.bits_read), value))
 }
 
-- 
2.43.0


From e48549d8114f90918220d0aad5b5d728fe6cc3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 03/16] fix: UNKNOWN_ERROR (0x80) is classified as an error

---
 dash7/src/app/operation/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index dba834a..9b1ff97 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -47,7 +47,7 @@ impl StatusCode {
 
 impl StatusCode {
     pub fn is_err(&self) -> bool {
-        *self > StatusCode(0x80)
+        *self >= StatusCode::UNKNOWN_ERROR
     }
 }
 
-- 
2.43.0


From 9e1e0ba864fdee8411c874d1b0abbd382abc5a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 04/16] fix: re-reading an action's first byte is accounted
 once, and a failing seek is reported

bits_read kept the peeked opcode byte, so the remainder after an action was one
byte short and trailing data was accepted.
---
 dash7/src/app/action.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dash7/src/app/action.rs b/dash7/src/app/action.rs
index ca76d17..d04204e 100644
--- a/dash7/src/app/action.rs
+++ b/dash7/src/app/action.rs
@@ -167,8 +167,11 @@ impl<'a> DekuReader<'a, ()> for Action {
         // read the opcode
         let code = <OpCode as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
 
-        // seek back to the beginning (1 byte)
-        let _ = reader.seek_relative(-1); // TODO process err
+        // seek back to the beginning (1 byte), which is then read again by the operand
+        reader
+            .seek_relative(-1)
+            .map_err(|err| DekuError::Io(err.kind()))?;
+        reader.bits_read -= 8;
 
         // // Read the preamble and pass it on as context values
         // let preamble = (<u8 as DekuReader<'_, _>>::from_reader_with_ctx(
-- 
2.43.0


From 0021cc9c0a05193106c29a22db7d0535dc028b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 05/16] fix: command decoding detects the end of input exactly

Testing for the end was counted as input read, which made the remainder wrong;
it also consumed a byte before noticing that an indirect forward ends the
command; and after an operand ending in a multi-byte length or padding the
empty bit buffer was taken for pending input, so such a command failed with
Incomplete.
---
 dash7/src/app/command.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index 1a9a54c..334e56d 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -50,18 +50,39 @@ impl<'a> DekuReader<'a, u32> for Command {
             })
         };
 
-        while valid_length(reader, length)? && !reader.end() {
+        loop {
             if let Some(Action::IndirectForward(_)) = command.actions.last() {
                 return Ok(command);
             }
+            if !valid_length(reader, length)? || Self::at_end(reader)? {
+                return Ok(command);
+            }
             let action = Action::from_reader_with_ctx(reader, ())?;
             command.actions.push(action);
         }
-        return Ok(command);
     }
 }
 
 impl Command {
+    /// Whether all input was consumed. This neither consumes nor accounts for any input.
+    fn at_end<R>(reader: &mut Reader<R>) -> Result<bool, DekuError>
+    where
+        R: no_std_io::Read + no_std_io::Seek,
+    {
+        // A bitwise read up to a byte boundary leaves an empty buffer behind, which is not input
+        if reader.rest().is_empty() {
+            reader
+                .seek_relative(0)
+                .map_err(|err| DekuError::Io(err.kind()))?;
+        }
+
+        // Testing for the end buffers a byte, which is counted when it is actually read
+        let bits_read = reader.bits_read;
+        let end = reader.end();
+        reader.bits_read = bits_read;
+        Ok(end)
+    }
+
     pub fn from_reader<'a, R>(input: (&'a mut R, usize)) -> Result<(usize, Self), DekuError>
     where
         R: no_std_io::Read + no_std_io::Seek,
-- 
2.43.0


From 817f59b433b5c9979d723f0f547358905eadf8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 06/16] fix: a query's mask is only read when its flag says it
 is present

---
 dash7/src/app/query.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index ec18d0c..ded7db2 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -189,7 +189,7 @@ pub struct BitmapRangeComparison {
     pub start: Length,
     pub stop: Length,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", count = "length", endian = "big")]
     pub mask: Vec<u8>,
     pub file: FileOffset,
 }
@@ -228,7 +228,7 @@ pub struct StringTokenSearch {
     #[deku(update = "self.value.len()")]
     pub length: Length,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", count = "length", endian = "big")]
     pub mask: Vec<u8>,
 
     #[deku(count = "length", endian = "big")]
-- 
2.43.0


From 0f99549dd4e70d142d61626d3f63cdfca1955b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 07/16] fix: a tx status action has its opcode in its first
 byte, like every action

---
 dash7/src/app/interface_final.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/interface_final.rs b/dash7/src/app/interface_final.rs
index 95a93d4..6c45ed1 100644
--- a/dash7/src/app/interface_final.rs
+++ b/dash7/src/app/interface_final.rs
@@ -97,7 +97,7 @@ pub enum TxStatusType {
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
 #[deku(ctx = "_opcode: OpCode")]
 pub struct TxStatusOperation {
-    #[deku(update = "self.status.deku_id().unwrap()", pad_bits_after = "6")]
+    #[deku(update = "self.status.deku_id().unwrap()")]
     status_type: TxStatusType,
 
     #[deku(writer = "_opcode.to_writer(deku::writer, ())")]
-- 
2.43.0


From 22f6cd585ddb5fa26f1dd8db4327be8ccb49f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 08/16] fix: multi-byte fields have a fixed byte order instead
 of the host's

They were encoded differently on little and big endian machines.
---
 dash7/src/app/interface.rs           | 2 ++
 dash7/src/file/security_key.rs       | 1 +
 dash7/src/link/frame.rs              | 4 ++++
 dash7/src/session/interface_final.rs | 2 +-
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/interface.rs b/dash7/src/app/interface.rs
index def32e8..32c5a28 100644
--- a/dash7/src/app/interface.rs
+++ b/dash7/src/app/interface.rs
@@ -69,8 +69,10 @@ pub struct LoRaWANABPInterfaceConfiguration {
     #[deku(count = "16")]
     pub app_session_key: Vec<u8>,
 
+    #[deku(endian = "big")]
     pub device_address: u32,
 
+    #[deku(endian = "big")]
     pub network_id: u32,
 }
 
diff --git a/dash7/src/file/security_key.rs b/dash7/src/file/security_key.rs
index 2298fcc..baa7a69 100644
--- a/dash7/src/file/security_key.rs
+++ b/dash7/src/file/security_key.rs
@@ -3,5 +3,6 @@ use deku::prelude::*;
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
 pub struct SecurityKey {
     // TODO: not sure if u128 is available on all archs
+    #[deku(endian = "big")]
     pub key: u128,
 }
diff --git a/dash7/src/link/frame.rs b/dash7/src/link/frame.rs
index 51d246a..f450597 100644
--- a/dash7/src/link/frame.rs
+++ b/dash7/src/link/frame.rs
@@ -17,7 +17,9 @@ pub struct BackgroundFrameControl {
 pub struct BackgroundFrame {
     subnet: u8,
     control: BackgroundFrameControl,
+    #[deku(endian = "big")]
     payload: u16,
+    #[deku(endian = "big")]
     crc16: u16,
 }
 
@@ -40,5 +42,7 @@ pub struct ForegroundFrame {
 
     #[deku(ctx = "Into::<u32>::into(*length)")]
     frame: network::Frame,
+
+    #[deku(endian = "big")]
     crc16: u16,
 }
diff --git a/dash7/src/session/interface_final.rs b/dash7/src/session/interface_final.rs
index fd7d57f..436c2ec 100644
--- a/dash7/src/session/interface_final.rs
+++ b/dash7/src/session/interface_final.rs
@@ -82,7 +82,7 @@ pub struct Dash7InterfaceTxStatus {
     /// D7A Error
     pub error: InterfaceFinalStatusCode,
     /// End transmission date using the local RTC time stamp
-    #[deku(pad_bits_before = "24")]
+    #[deku(pad_bits_before = "24", endian = "little")]
     pub lts: u32,
     /// Addressee
     pub addressee: Addressee,
-- 
2.43.0


From 8e06d16a0121b95ecb3b51c8e08dbf2b81658088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 09/16] fix: a length over 32 bits is refused on encode instead
 of silently truncated

---
 dash7/src/app/operation/length.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/operation/length.rs b/dash7/src/app/operation/length.rs
index 29ca822..8edcd53 100644
--- a/dash7/src/app/operation/length.rs
+++ b/dash7/src/app/operation/length.rs
@@ -33,7 +33,8 @@ impl Into<usize> for Length {
 
 impl From<usize> for Length {
     fn from(value: usize) -> Self {
-        Self(value as u32)
+        // saturate: lengths that do not fit are refused when they are written
+        Self(u32::try_from(value).unwrap_or(u32::MAX))
     }
 }
 
-- 
2.43.0


From b9a1ae6b76f909f204e4d60607a28f9998ed6b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 10/16] fix: decompressing an oversized mantissa reports the
 mantissa, not the exponent

---
 dash7/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/types.rs b/dash7/src/types.rs
index d46fecc..f5b6f0b 100644
--- a/dash7/src/types.rs
+++ b/dash7/src/types.rs
@@ -76,7 +76,7 @@ impl VarInt {
         }
 
         if mantissa & 0b11100000 > 0 {
-            return Err(VarIntError::ExponentTooLarge(mantissa));
+            return Err(VarIntError::MantissaTooLarge(mantissa));
         }
 
         Ok(4u32.pow(exponent as u32) * mantissa as u32)
-- 
2.43.0


From 25f0f5a9c709082e78d149c6d37d3a809743205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 11/16] fix: the padding of a fixed-width string is not part of
 the decoded text

---
 dash7/src/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index daaa5e1..66ae2dd 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -139,7 +139,12 @@ pub fn read_string<R, const N: usize>(reader: &mut Reader<R>) -> Result<String,
 where
     R: Read + Seek,
 {
-    let value = Vec::<u8>::from_reader_with_ctx(reader, Limit::new_byte_size(ByteSize(N)))?;
+    let mut value = Vec::<u8>::from_reader_with_ctx(reader, Limit::new_byte_size(ByteSize(N)))?;
+
+    // strip the zero bytes write_string pads with
+    while value.last() == Some(&0) {
+        value.pop();
+    }
 
     String::from_utf8(value).map_err(|err| {
         DekuError::Parse(Cow::Owned(
-- 
2.43.0


From 8631037248cf4e620462fc6e17d813087d0ac2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 12/16] fix: a failure to flush a length-prefixed payload is
 reported

---
 dash7/src/app/interface_final.rs | 2 +-
 dash7/src/utils.rs               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dash7/src/app/interface_final.rs b/dash7/src/app/interface_final.rs
index 6c45ed1..ff059c1 100644
--- a/dash7/src/app/interface_final.rs
+++ b/dash7/src/app/interface_final.rs
@@ -24,7 +24,7 @@ where
     let mut out_buf_cur = Cursor::new(Vec::new());
     let mut tmp_writer = Writer::new(&mut out_buf_cur);
     let _ = item.to_writer(&mut tmp_writer, ctx)?;
-    let _ = tmp_writer.finalize();
+    tmp_writer.finalize()?;
 
     // get the length of it
     let out_buf = out_buf_cur.get_mut();
diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 66ae2dd..1c803cd 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -89,7 +89,7 @@ where
     let mut out_buf_cur = Cursor::new(Vec::new());
     let mut tmp_writer = Writer::new(&mut out_buf_cur);
     let _ = item.to_writer(&mut tmp_writer, ctx)?;
-    let _ = tmp_writer.finalize();
+    tmp_writer.finalize()?;
 
     // get the length of it
     let out_buf = out_buf_cur.get_mut();
@@ -121,7 +121,7 @@ where
     let mut out_buf_cur = Cursor::new(Vec::new());
     let mut tmp_writer = Writer::new(&mut out_buf_cur);
     item.to_writer(&mut tmp_writer, (enum_id, fallback_length))?;
-    let _ = tmp_writer.finalize();
+    tmp_writer.finalize()?;
 
     // get the length of it
     let out_buf = out_buf_cur.get_mut();
-- 
2.43.0


From 4e140fea303bdcb3e4eee43a72ec8c5700008d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 13/16] fix: the cli shows the content of untyped files, and
 fails when no file type matches

---
 dash7-cli/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dash7-cli/src/parse.rs b/dash7-cli/src/parse.rs
index fbe8d8b..35784a1 100644
--- a/dash7-cli/src/parse.rs
+++ b/dash7-cli/src/parse.rs
@@ -59,7 +59,7 @@ fn parse_serial(_input: &[u8]) -> Result<(), DekuError> {
 }
 
 fn parse_file(input: &[u8], file_id: FileId) -> Result<(), DekuError> {
-    let file = File::from_bytes((input, 0), file_id, 0)?;
+    let file = File::from_bytes((input, 0), file_id, input.len() as u32)?;
     println!("{:?}", file);
     Ok(())
 }
@@ -71,7 +71,7 @@ fn parse_any_file(input: &[u8]) -> Result<(), DekuError> {
             return Ok(());
         }
     }
-    Ok(())
+    Err(DekuError::Parse("Could not parse input".into()))
 }
 
 fn parse_any(input: &[u8]) -> Result<(), DekuError> {
-- 
2.43.0


From 565b067f72ffeb0ab8bfc1da510281f9c5a4e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 14/16] fix: the declared size of a system file is the size of
 its encoding

---
 dash7/src/file/access_profile.rs   | 2 +-
 dash7/src/file/firmware_version.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dash7/src/file/access_profile.rs b/dash7/src/file/access_profile.rs
index a4a8143..0f234a4 100644
--- a/dash7/src/file/access_profile.rs
+++ b/dash7/src/file/access_profile.rs
@@ -17,5 +17,5 @@ impl<const S: u8> AccessProfile<S> {
 
 impl<const S: u8> SystemFile for AccessProfile<S> {
     const ID: u8 = 0x20 + S;
-    const SIZE: u32 = 0;
+    const SIZE: u32 = 65;
 }
diff --git a/dash7/src/file/firmware_version.rs b/dash7/src/file/firmware_version.rs
index f3e558c..395d632 100644
--- a/dash7/src/file/firmware_version.rs
+++ b/dash7/src/file/firmware_version.rs
@@ -25,5 +25,5 @@ pub struct FirmwareVersion {
 
 impl SystemFile for FirmwareVersion {
     const ID: u8 = 0x02;
-    const SIZE: u32 = 17;
+    const SIZE: u32 = 15;
 }
-- 
2.43.0


From 7ea95f003c77cd6445b9dd082232b21913997e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 15/16] fix: the subiot_v0_0 feature compiles

The interface status codec was disabled for the very version it has a case for.
---
 dash7/src/app/operation/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index 9b1ff97..d2e0864 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -5,6 +5,7 @@ use super::{
     action::OpCode,
     interface::{IndirectInterface, InterfaceConfiguration},
 };
+#[cfg(not(feature = "subiot_v0_0"))]
 use crate::utils::write_length_prefixed;
 use crate::{data::FileHeader, file::File, session::InterfaceStatus};
 use crate::{session::InterfaceType, utils::write_length_prefixed_ext};
@@ -344,7 +345,6 @@ impl Into<Status> for InterfaceStatusOperation {
 }
 
 impl InterfaceStatusOperation {
-    #[cfg(not(feature = "subiot_v0_0"))]
     pub fn read<'a, R>(
         reader: &mut Reader<'a, R>,
         interface_type: InterfaceType,
@@ -364,7 +364,6 @@ impl InterfaceStatusOperation {
         InterfaceStatus::from_reader_with_ctx(reader, (interface_type, length.into()))
     }
 
-    #[cfg(not(feature = "subiot_v0_0"))]
     pub fn write<W>(writer: &mut Writer<W>, status: &InterfaceStatus) -> Result<(), DekuError>
     where
         W: no_std_io::Write + no_std_io::Seek,
@@ -376,7 +375,7 @@ impl InterfaceStatusOperation {
 
         // Subiot v0.0 was missing the length field
         #[cfg(feature = "subiot_v0_0")]
-        return DekuWriter::to_writer(status, writer, (interface_type.try_into()?, vec_size));
+        return DekuWriter::to_writer(status, writer, (status.deku_id().unwrap(), vec_size));
 
         #[cfg(not(feature = "subiot_v0_0"))]
         return write_length_prefixed(writer, status, (status.deku_id().unwrap(), vec_size));
-- 
2.43.0


From aeb424ef01afb44bdd97981b291a4f8a33c74970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:46 +0000
Subject: [PATCH 16/16] fix: build without the std feature

Without the standard library feature the code imports from the alloc crate,
which was never declared, so the advertised 'alloc' configuration did not build.
---
 dash7/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dash7/src/lib.rs b/dash7/src/lib.rs
index c125a42..4f9f421 100644
--- a/dash7/src/lib.rs
+++ b/dash7/src/lib.rs
@@ -23,6 +23,9 @@
 // //! are composed between them (OR, XOR, NOR, NAND). Without any Logical action, the
 // //! queries are AND'ed.
 
+#[cfg(not(feature = "std"))]
+extern crate alloc;
+
 use mutually_exclusive_features::{exactly_one_of, none_or_one_of};
 exactly_one_of!("_spec", "_subiot", "_wizzilab");
 
-- 
2.43.0

