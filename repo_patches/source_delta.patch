From b05768c5f198ab29bdb36c6c18299fd269d7f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 01/19] fix: send handler MessageError with the error response
 code

---
 src/handler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 22787f0..c5a08e0 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -76,7 +76,9 @@ fn convert<MSG: Message>(msg_res: HandlerResult<MSG>) -> MessageArgsResponse {
     match msg_res {
         Ok(message) => Ok((ResponseCode::Ok, message.try_into()?)),
         Err(err) => match err {
-            HandlerError::MessageError(message) => Ok((ResponseCode::Ok, message.try_into()?)),
+            HandlerError::MessageError(message) => {
+                Ok((ResponseCode::Error, message.try_into()?))
+            }
             HandlerError::GeneralError(message) => Err(TChannelError::Error(message)),
             HandlerError::InternalError(err) => Err(err),
         },
-- 
2.43.0


From 426029b45496938249db75ebae99c1e80d2141b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 02/19] fix: keep the in-flight message when a duplicated id
 gets rejected

---
 src/connection/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 52efddb..47931fc 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -75,10 +75,11 @@ impl FramesDispatcher {
 
     pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
         let mut channels = self.senders.write().await;
-        if channels.insert(id, sender).is_some() {
+        if channels.contains_key(&id) {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
         }
+        channels.insert(id, sender);
         Ok(())
     }
 
-- 
2.43.0


From a72e635e040c5854f3978491c891b4cf574a8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 03/19] fix: fail a message whose last fragment never arrived

---
 src/defragmentation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 30ece5e..2a0ef48 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -174,7 +174,7 @@ async fn read_continuation(
                 let mut continuation = CallContinue::decode(frame.payload_mut())?;
                 verify_args(continuation.args_mut()).map(|args| args_defragmenter.add(args))?;
                 if !continuation.flags().contains(Flags::MORE_FRAGMENTS_FOLLOW) {
-                    break;
+                    return Ok(());
                 }
             }
             Type::Error => {
@@ -193,7 +193,9 @@ async fn read_continuation(
             }
         };
     }
-    Ok(())
+    Err(TChannelError::Error(
+        "Message ended before its last fragment".to_string(),
+    ))
 }
 
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
-- 
2.43.0


From c28463ce650e8b22a270f242a82d776a45015c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 04/19] fix: do not add an arg for the empty continuation of an
 already complete arg

---
 src/defragmentation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 2a0ef48..8edb6ac 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -231,7 +231,8 @@ impl ArgsDefragmenter {
                     self.args.push(first_arg);
                 }
             },
-            // next arg (according to protocol specs an empty arg at the beginning means the previous arg ended at the end of previous frame)
+            // according to protocol specs an empty arg at the beginning of continuation frame means that the previous arg ended at the end of previous frame
+            None if !self.args.is_empty() => {}
             None => self.args.push(BytesMut::new()),
         }
     }
-- 
2.43.0


From 105aae5568f1ce7b2b77c7a11aa7285a853a7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 05/19] fix: mark the end of an arg which leaves no space for
 the next one in its frame

---
 src/fragmentation.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/fragmentation.rs b/src/fragmentation.rs
index 05b64c6..6206e7d 100644
--- a/src/fragmentation.rs
+++ b/src/fragmentation.rs
@@ -1,5 +1,5 @@
 use crate::channel::TResult;
-use crate::fragmentation::FragmentationStatus::{CompleteAtTheEnd, Incomplete};
+use crate::fragmentation::FragmentationStatus::Incomplete;
 use crate::frames::headers::TransportHeaderKey::CallerName;
 use crate::frames::headers::{ArgSchemeValue, TransportHeaderKey};
 use crate::frames::payloads::Codec;
@@ -205,7 +205,9 @@ impl ArgsFragmenter {
             if status == Incomplete {
                 self.args.push_front(arg);
                 break;
-            } else if status == CompleteAtTheEnd {
+            } else if payload_limit < ARG_LEN_LEN as i32 && !self.args.is_empty() {
+                // No space left for the length of the next arg.
+                // Empty arg at the beginning of the next frame marks the end of this arg.
                 self.args.push_front(Bytes::new());
                 break;
             }
@@ -227,11 +229,7 @@ impl ArgsFragmenter {
             (FragmentationStatus::Incomplete, Some(fragment))
         } else {
             let arg_bytes = arg.split_to(arg.len());
-            if src_remaining == payload_limit {
-                (FragmentationStatus::CompleteAtTheEnd, Some(arg_bytes))
-            } else {
-                (FragmentationStatus::Complete, Some(arg_bytes))
-            }
+            (FragmentationStatus::Complete, Some(arg_bytes))
         }
     }
 }
@@ -240,8 +238,6 @@ impl ArgsFragmenter {
 enum FragmentationStatus {
     //Completely stored in frame
     Complete,
-    //Completely stored in frame with maxed frame capacity
-    CompleteAtTheEnd,
     //Partially stored in frame
     Incomplete,
 }
-- 
2.43.0


From ffd5d735c8e1d850e30368ed6d7a0a4ce3e34731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 06/19] fix: reject a frame too long for its length field

---
 src/frames/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/frames/mod.rs b/src/frames/mod.rs
index 3d358bb..08df1ef 100644
--- a/src/frames/mod.rs
+++ b/src/frames/mod.rs
@@ -83,10 +83,13 @@ impl Encoder<TFrameId> for TFrameIdCodec {
 
     fn encode(&mut self, item: TFrameId, dst: &mut BytesMut) -> Result<(), Self::Error> {
         let frame = item.frame();
-        let len = frame.size() as u16 + FRAME_HEADER_LENGTH;
+        let len = frame.size() + FRAME_HEADER_LENGTH as usize;
+        if len > FRAME_MAX_LENGTH as usize {
+            return Err(CodecError::Error(format!("Frame too long: {}", len)));
+        }
         trace!("Encoding TFrame (id {}, len {})", item.id(), frame.size());
-        dst.reserve(len as usize);
-        dst.put_u16(len);
+        dst.reserve(len);
+        dst.put_u16(len as u16);
         dst.put_u8(*frame.frame_type() as u8);
         dst.put_u8(ZERO); // zero
         dst.put_u32(*item.id());
-- 
2.43.0


From de745c8cec624a2fdfb82d7be5f09601d59e1bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 07/19] fix: return errors instead of panicking on malformed
 payloads

---
 src/defragmentation.rs |  5 ++++-
 src/frames/payloads.rs | 51 +++++++++++++++++++++++++-----------------
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 8edb6ac..6501891 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -201,7 +201,10 @@ async fn read_continuation(
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
     match call_args.checksum_type() {
         ChecksumType::None => Ok(call_args.args_mut()),
-        _ => todo!(),
+        other => Err(CodecError::Error(format!(
+            "Unsupported checksum type {:?}",
+            other
+        ))),
     }
 }
 
diff --git a/src/frames/payloads.rs b/src/frames/payloads.rs
index 82c683c..a5a1839 100644
--- a/src/frames/payloads.rs
+++ b/src/frames/payloads.rs
@@ -102,10 +102,10 @@ impl Codec for Tracing {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(Tracing::new(
-            src.get_u64(),
-            src.get_u64(),
-            src.get_u64(),
-            decode_bitflag(src.get_u8(), TraceFlags::from_bits)?,
+            read(src, Bytes::get_u64)?,
+            read(src, Bytes::get_u64)?,
+            read(src, Bytes::get_u64)?,
+            decode_bitflag(read(src, Bytes::get_u8)?, TraceFlags::from_bits)?,
         ))
     }
 }
@@ -132,7 +132,7 @@ impl Codec for Init {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
-        Ok(Init::new(src.get_u16(), decode_headers(src)?))
+        Ok(Init::new(read(src, Bytes::get_u16)?, decode_headers(src)?))
     }
 }
 
@@ -191,7 +191,7 @@ impl Codec for CallWithFieldsEncoded {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallWithFieldsEncoded::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(read(src, Bytes::get_u8)?, Flags::from_bits)?,
             CallRequestFields::decode(src)?.encode_bytes()?,
             CallArgs::decode(src)?,
         ))
@@ -236,7 +236,7 @@ impl Codec for CallRequestFields {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallRequestFields::new(
-            src.get_u32(),
+            read(src, Bytes::get_u32)?,
             Tracing::decode(src)?,
             decode_small_string(src)?,
             decode_small_headers(src)?,
@@ -278,7 +278,7 @@ impl Codec for CallRequest {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallRequest::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(read(src, Bytes::get_u8)?, Flags::from_bits)?,
             CallRequestFields::decode(src)?,
             CallArgs::decode(src)?,
         ))
@@ -322,7 +322,7 @@ impl Codec for CallResponseFields {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallResponseFields::new(
-            decode_bitflag(src.get_u8(), ResponseCode::from_u8)?,
+            decode_bitflag(read(src, Bytes::get_u8)?, ResponseCode::from_u8)?,
             Tracing::decode(src)?,
             decode_small_headers(src)?,
         ))
@@ -363,7 +363,7 @@ impl Codec for CallResponse {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallResponse::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(read(src, Bytes::get_u8)?, Flags::from_bits)?,
             CallResponseFields::decode(src)?,
             CallArgs::decode(src)?,
         ))
@@ -404,7 +404,7 @@ impl Codec for CallContinue {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallContinue::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(read(src, Bytes::get_u8)?, Flags::from_bits)?,
             CallArgs::decode(src)?,
         ))
     }
@@ -432,7 +432,7 @@ impl Codec for Cancel {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(Cancel::new(
-            src.get_u32(),
+            read(src, Bytes::get_u32)?,
             Tracing::decode(src)?,
             decode_string(src)?,
         ))
@@ -457,7 +457,7 @@ impl Codec for Claim {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
-        Ok(Claim::new(src.get_u32(), Tracing::decode(src)?))
+        Ok(Claim::new(read(src, Bytes::get_u32)?, Tracing::decode(src)?))
     }
 }
 
@@ -482,7 +482,7 @@ impl Codec for ErrorMsg {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(ErrorMsg::new(
-            decode_bitflag(src.get_u8(), ErrorCode::from_u8)?,
+            decode_bitflag(read(src, Bytes::get_u8)?, ErrorCode::from_u8)?,
             Tracing::decode(src)?,
             decode_string(src)?,
         ))
@@ -547,13 +547,21 @@ fn encode_checksum(
 }
 
 fn decode_checksum(src: &mut Bytes) -> CodecResult<(ChecksumType, Option<u32>)> {
-    let checksum_type = decode_bitflag(src.get_u8(), ChecksumType::from_u8)?;
+    let checksum_type = decode_bitflag(read(src, Bytes::get_u8)?, ChecksumType::from_u8)?;
     match checksum_type {
         ChecksumType::None => Ok((ChecksumType::None, None)),
-        checksum => Ok((checksum, Some(src.get_u32()))),
+        checksum => Ok((checksum, Some(read(src, Bytes::get_u32)?))),
     }
 }
 
+/// Reads a number with given getter (which panics when there are too few bytes).
+fn read<T, F: Fn(&mut Bytes) -> T>(src: &mut Bytes, get: F) -> CodecResult<T> {
+    if src.remaining() < std::mem::size_of::<T>() {
+        return Err(CodecError::Error("Frame too short".to_owned()));
+    }
+    Ok(get(src))
+}
+
 fn decode_bitflag<T, F: Fn(u8) -> Option<T>>(byte: u8, decoder: F) -> CodecResult<T> {
     decoder(byte).ok_or_else(|| CodecError::Error(format!("Unknown flag: {}", byte)))
 }
@@ -600,7 +608,7 @@ fn decode_arg(src: &mut Bytes) -> CodecResult<Option<Bytes>> {
         0 | 1 => Err(CodecError::Error("Cannot read arg length".to_owned())),
         remaining => match src.get_u16() {
             0 => Ok(None),
-            len if len > (remaining as u16 - 2) => {
+            len if len as usize > remaining - ARG_LEN_LEN => {
                 Err(CodecError::Error(format!("Wrong arg length: {}", len)))
             }
             len => Ok(Some(src.split_to(len as usize))),
@@ -637,8 +645,11 @@ fn decode_string_field<T: Into<usize>>(
     src: &mut Bytes,
     get_len: &dyn Fn(&mut Bytes) -> T,
 ) -> CodecResult<String> {
-    let len = get_len(src);
-    let bytes = src.copy_to_bytes(len.into());
+    let len = read(src, get_len)?.into();
+    if len > src.remaining() {
+        return Err(CodecError::Error(format!("Wrong string length: {}", len)));
+    }
+    let bytes = src.copy_to_bytes(len);
     Ok(String::from_utf8(bytes.chunk().to_vec())?)
 }
 
@@ -660,7 +671,7 @@ fn decode_len<T: TryInto<usize>>(
     src: &mut Bytes,
     decode_len_fn: &dyn Fn(&mut Bytes) -> T,
 ) -> CodecResult<usize> {
-    decode_len_fn(src)
+    read(src, decode_len_fn)?
         .try_into()
         .map_err(|_| CodecError::Error("Failed to cast len to usize.".to_string()))
 }
-- 
2.43.0


From a1a09ffd2a174e2d85cc72e0047831dca21478a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 08/19] fix: answer a failed request with an error frame
 instead of closing the connection

---
 src/connection/mod.rs |  5 ++++-
 src/server.rs         | 32 +++++++++++++++++++++++++-------
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 47931fc..5be7f23 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -61,7 +61,10 @@ impl FramesDispatcher {
         let senders = self.senders.read().await;
         if let Some(sender) = senders.get(frame.id()) {
             debug!("Dispatching frame (id {}) to found sender.", frame.id());
-            return Ok(sender.send(frame).map_ok(|_| None).await?);
+            if let Err(err) = sender.send(frame).await {
+                debug!("Dropping frame of an already handled message: {}", err);
+            }
+            return Ok(None);
         }
         std::mem::drop(senders);
         //TODO it will return error on check if it got concurrently inserted
diff --git a/src/server.rs b/src/server.rs
index 6bf76ca..29d4d8d 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -9,7 +9,6 @@ use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::SubChannel;
-use futures::TryFutureExt;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
@@ -21,6 +20,9 @@ use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
+/// Error messages are cut to fit in a single frame.
+const ERROR_MESSAGE_LIMIT: usize = u16::MAX as usize / 2;
+
 #[derive(Debug)]
 pub struct Server {
     subchannels: SharedSubChannels,
@@ -158,15 +160,20 @@ struct FrameHandler {
 impl FrameHandler {
     pub async fn handle(&self, id: u32, frame_input: FrameInput) -> TResult<()> {
         debug!("Handling message (id {})", &id);
-        self.handle_input(id, frame_input)
-            .and_then(|frames| self.send_frames(frames))
-            .await
+        let frames = match self.handle_input(id, frame_input).await {
+            Ok(frames) => frames,
+            Err(err) => {
+                debug!("Failed to handle message (id {}): {}", id, err);
+                vec![self.to_error_frame(ErrorCode::UnexpectedError, err.to_string(), id)?]
+            }
+        };
+        self.send_frames(frames).await
     }
 
     async fn handle_input(&self, id: u32, frame_input: FrameInput) -> TResult<Vec<TFrameId>> {
-        let (request_fields, message_args) =
-            RequestDefragmenter::new(frame_input).read_request().await?;
+        let request = RequestDefragmenter::new(frame_input).read_request().await;
         self.frame_dispatchers.deregister(&id).await;
+        let (request_fields, message_args) = request?;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
         match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
@@ -209,8 +216,19 @@ impl FrameHandler {
     fn to_error_frame(&self, code: ErrorCode, msg: String, id: u32) -> CodecResult<TFrameId> {
         //TODO add meaningful tracing
         let tracing = Tracing::default();
-        let err = ErrorMsg::new(code, tracing, msg);
+        let err = ErrorMsg::new(code, tracing, truncate(msg, ERROR_MESSAGE_LIMIT));
         let frame = TFrame::new(Type::Error, err.encode_bytes()?);
         Ok(TFrameId::new(id, frame))
     }
 }
+
+/// Truncates message to given length in bytes (or to the closest char boundary before it).
+fn truncate(mut msg: String, mut limit: usize) -> String {
+    if msg.len() > limit {
+        while !msg.is_char_boundary(limit) {
+            limit -= 1;
+        }
+        msg.truncate(limit);
+    }
+    msg
+}
-- 
2.43.0


From 450b8bd0282ebd80a74f4e05bd9f6fe20209ee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 09/19] fix: answer ping requests

---
 src/server.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 29d4d8d..d51cd1a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -9,6 +9,7 @@ use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::SubChannel;
+use bytes::Bytes;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
@@ -78,14 +79,23 @@ impl Server {
 
         framed_read
             .map_err(TChannelError::CodecError)
-            .try_filter_map(|frame| self.dispatch_frame(frame))
+            .try_filter_map(|frame| self.dispatch_frame(frame, &handler.sender))
             .try_for_each_concurrent(self.server_tasks, |(id, frames)| handler.handle(id, frames))
             .await
         //TODO send fatal protocol error when it fails
     }
 
-    async fn dispatch_frame(&self, frame: TFrameId) -> TResult<Option<(u32, FrameInput)>> {
+    async fn dispatch_frame(
+        &self,
+        frame: TFrameId,
+        sender: &Sender<TFrameId>,
+    ) -> TResult<Option<(u32, FrameInput)>> {
         let id = *frame.id();
+        if *frame.frame().frame_type() == Type::PingRequest {
+            let response = TFrame::new(Type::PingResponse, Bytes::new());
+            sender.send(TFrameId::new(id, response)).await?;
+            return Ok(None);
+        }
         self.frame_dispatchers
             .dispatch(frame)
             .await
-- 
2.43.0


From 4a59bac93532b6b987dc01904c05cc33efd0f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 10/19] fix: do not take a late continuation for a new request

---
 src/connection/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 5be7f23..0355410 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -1,6 +1,6 @@
 use crate::errors::ConnectionError;
 use crate::frames::payloads::CodecResult;
-use crate::frames::{TFrame, TFrameId, TFrameIdCodec};
+use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use futures::prelude::*;
 use futures::{self, SinkExt};
 use futures::{future, StreamExt};
@@ -67,6 +67,13 @@ impl FramesDispatcher {
             return Ok(None);
         }
         std::mem::drop(senders);
+        if *frame.frame().frame_type() == Type::CallRequestContinue {
+            debug!(
+                "Dropping continuation (id {}) of a not pending message.",
+                frame.id()
+            );
+            return Ok(None);
+        }
         //TODO it will return error on check if it got concurrently inserted
         self.dispatch_first(frame).map_ok(Some).await
     }
-- 
2.43.0


From 3af28d9a0fc372f3d81460804df9fe83fcc2e2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 11/19] fix: keep reading frames while messages wait for their
 fragments

---
 src/server.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index d51cd1a..c8450ec 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -19,6 +19,7 @@ use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
+use tokio::sync::Semaphore;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
 /// Error messages are cut to fit in a single frame.
@@ -75,12 +76,14 @@ impl Server {
             self.subchannels.clone(),
             self.frame_dispatchers.clone(),
             sender,
+            self.server_tasks,
         );
 
         framed_read
             .map_err(TChannelError::CodecError)
             .try_filter_map(|frame| self.dispatch_frame(frame, &handler.sender))
-            .try_for_each_concurrent(self.server_tasks, |(id, frames)| handler.handle(id, frames))
+            // Limiting it here would stop reading of frames awaited by incomplete messages.
+            .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
         //TODO send fatal protocol error when it fails
     }
@@ -160,14 +163,33 @@ impl Server {
     }
 }
 
-#[derive(Debug, new)]
+#[derive(Debug)]
 struct FrameHandler {
     subchannels: SharedSubChannels,
     frame_dispatchers: Arc<FramesDispatcher>,
     sender: Sender<TFrameId>,
+    tasks: Semaphore,
 }
 
 impl FrameHandler {
+    pub fn new(
+        subchannels: SharedSubChannels,
+        frame_dispatchers: Arc<FramesDispatcher>,
+        sender: Sender<TFrameId>,
+        server_tasks: usize,
+    ) -> FrameHandler {
+        let permits = match server_tasks {
+            0 => u32::MAX as usize, // no limit
+            limit => limit.min(u32::MAX as usize),
+        };
+        FrameHandler {
+            subchannels,
+            frame_dispatchers,
+            sender,
+            tasks: Semaphore::new(permits),
+        }
+    }
+
     pub async fn handle(&self, id: u32, frame_input: FrameInput) -> TResult<()> {
         debug!("Handling message (id {})", &id);
         let frames = match self.handle_input(id, frame_input).await {
@@ -185,7 +207,9 @@ impl FrameHandler {
         self.frame_dispatchers.deregister(&id).await;
         let (request_fields, message_args) = request?;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
+        let permit = self.tasks.acquire().await;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
+        std::mem::drop(permit);
         match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
             .create_frames()
         {
-- 
2.43.0


From 2344d48f0fa58a20022f4c5575a5918a9c821f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 12/19] fix: fail pending messages when their connection gets
 closed

---
 src/connection/mod.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 0355410..0e00b72 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -7,7 +7,7 @@ use futures::{future, StreamExt};
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::sync::Arc;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
@@ -50,6 +50,8 @@ impl FrameOutput {
 pub struct FramesDispatcher {
     #[new(default)]
     senders: RwLock<HashMap<u32, Sender<TFrameId>>>,
+    #[new(default)]
+    closed: AtomicBool,
     buffer_size: usize,
 }
 
@@ -85,6 +87,9 @@ impl FramesDispatcher {
 
     pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
         let mut channels = self.senders.write().await;
+        if self.is_closed() {
+            return Err(ConnectionError::Error("Connection closed.".to_owned()));
+        }
         if channels.contains_key(&id) {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
@@ -93,6 +98,17 @@ impl FramesDispatcher {
         Ok(())
     }
 
+    /// Closes channels of all pending messages. No more messages can get registered.
+    pub async fn close(&self) {
+        let mut channels = self.senders.write().await;
+        self.closed.store(true, Ordering::Relaxed);
+        channels.clear();
+    }
+
+    pub fn is_closed(&self) -> bool {
+        self.closed.load(Ordering::Relaxed)
+    }
+
     async fn dispatch_first(&self, frame: TFrameId) -> ConnectionResult<Receiver<TFrameId>> {
         let id = *frame.id();
         debug!("Received frame with id: {}", id);
@@ -242,7 +258,8 @@ impl FrameReceiver {
             .filter_map(Self::print_if_err_and_skip)
             .map(|frame| self.frame_senders.dispatch_following(frame))
             .for_each(Self::print_if_err)
-            .await
+            .await;
+        self.frame_senders.close().await;
     }
 
     fn print_if_err_and_skip(
-- 
2.43.0


From 242920a53760cdb86a82685212de266768821ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 13/19] fix: do not keep closed connections in a pool

---
 src/connection/mod.rs  | 5 +++++
 src/connection/pool.rs | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 0e00b72..2f2046d 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -183,6 +183,11 @@ impl Connection {
         Ok((receiver, frame_output))
     }
 
+    /// Returns `true` when no more frames can be received.
+    pub fn is_closed(&self) -> bool {
+        self.pending_ids.is_closed()
+    }
+
     fn next_message_id(&self) -> u32 {
         self.next_message_id.fetch_add(1, Ordering::Relaxed)
     }
diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 7cdf9a0..0f24df0 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -102,9 +102,9 @@ impl bb8::ManageConnection for ConnectionManager {
         ping(conn).await
     }
 
-    fn has_broken(&self, _conn: &mut Self::Connection) -> bool {
-        debug!("Has broken? (not implemented)");
-        false
+    fn has_broken(&self, conn: &mut Self::Connection) -> bool {
+        debug!("Has broken?");
+        conn.is_closed()
     }
 }
 
-- 
2.43.0


From 02ce67b6a347cdda234026f701e80bfc414d3f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 14/19] fix: end incomplete messages of a closed connection

---
 src/server.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index c8450ec..0d202fe 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -10,7 +10,7 @@ use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::SubChannel;
 use bytes::Bytes;
-use futures::{self, SinkExt, StreamExt, TryStreamExt};
+use futures::{self, future, stream, SinkExt, Stream, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -82,6 +82,7 @@ impl Server {
         framed_read
             .map_err(TChannelError::CodecError)
             .try_filter_map(|frame| self.dispatch_frame(frame, &handler.sender))
+            .chain(self.close_dispatcher())
             // Limiting it here would stop reading of frames awaited by incomplete messages.
             .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
@@ -110,6 +111,11 @@ impl Server {
             })
     }
 
+    /// Ends messages which will not receive their remaining frames. Produces no items.
+    fn close_dispatcher(&self) -> impl Stream<Item = TResult<(u32, FrameInput)>> + '_ {
+        stream::once(self.frame_dispatchers.close()).filter_map(|_| future::ready(None))
+    }
+
     async fn handle_init_handshake(
         &self,
         framed_read: &mut TFramedRead,
-- 
2.43.0


From 80193d52e371d395253591f78ad8c0118f1e9bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 15/19] fix: fragment args of 2 GiB and more instead of
 truncating their length to 32 bits

---
 src/fragmentation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fragmentation.rs b/src/fragmentation.rs
index 6206e7d..6dc0c72 100644
--- a/src/fragmentation.rs
+++ b/src/fragmentation.rs
@@ -219,12 +219,12 @@ impl ArgsFragmenter {
         arg: &mut Bytes,
         payload_limit: i32,
     ) -> (FragmentationStatus, Option<Bytes>) {
-        let src_remaining = arg.remaining() as i32;
+        let src_remaining = arg.remaining();
         if src_remaining == 0 {
             (FragmentationStatus::Complete, Some(Bytes::new()))
         } else if payload_limit < 0 {
             (FragmentationStatus::Incomplete, None)
-        } else if src_remaining > payload_limit {
+        } else if src_remaining > payload_limit as usize {
             let fragment = arg.split_to(payload_limit as usize);
             (FragmentationStatus::Incomplete, Some(fragment))
         } else {
-- 
2.43.0


From 17074b68542a2596c1e644ac9e1cf1989b5cc738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 16/19] fix: calls being sent end when the connection stops
 receiving

When a peer closes its side without reading, the receiver of a connection
ends but its sender kept waiting to write. A call waiting to pass its frames
to that sender never ended. Stop the sender together with the receiver.
---
 src/connection/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 2f2046d..e027299 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -158,8 +158,8 @@ impl Connection {
         let framed_write = FramedWrite::new(write, TFrameIdCodec {});
         let (sender, receiver) = mpsc::channel::<TFrameId>(buffer_size);
         let connection = Connection::new(sender, buffer_size);
-        FrameReceiver::spawn(framed_read, connection.pending_ids.clone());
-        FrameSender::spawn(framed_write, receiver, buffer_size);
+        let frame_sender = FrameSender::spawn(framed_write, receiver, buffer_size);
+        FrameReceiver::spawn(framed_read, connection.pending_ids.clone(), frame_sender);
         Ok(connection)
     }
 
@@ -241,14 +241,19 @@ impl FrameSender {
 
 struct FrameReceiver {
     frame_senders: Arc<FramesDispatcher>,
+    frame_sender: JoinHandle<()>,
 }
 
 impl FrameReceiver {
     pub fn spawn(
         framed_read: FramedRead<OwnedReadHalf, TFrameIdCodec>,
         frame_senders: Arc<FramesDispatcher>,
+        frame_sender: JoinHandle<()>,
     ) -> JoinHandle<()> {
-        let frame_receiver = FrameReceiver { frame_senders };
+        let frame_receiver = FrameReceiver {
+            frame_senders,
+            frame_sender,
+        };
         tokio::spawn(async move {
             frame_receiver
                 .run(framed_read)
@@ -265,6 +270,8 @@ impl FrameReceiver {
             .for_each(Self::print_if_err)
             .await;
         self.frame_senders.close().await;
+        // Requests waiting to be sent would never get a response.
+        self.frame_sender.abort();
     }
 
     fn print_if_err_and_skip(
-- 
2.43.0


From 1d0d5f7fbcc9446497c93361b7ad55f418982c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 17/19] fix: refuse messages with more than three args

Frames of a message spread over several frames could carry more args than
a message has. The args past the third one were dropped silently.
---
 src/defragmentation.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 6501891..5c99621 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -4,7 +4,7 @@ use crate::errors::{CodecError, TChannelError};
 use crate::frames::headers::{ArgSchemeValue, TransportHeaderKey};
 use crate::frames::payloads::{
     Call, CallArgs, CallContinue, CallFields, CallRequest, CallRequestFields, CallResponse,
-    CallResponseFields, ChecksumType, Codec, CodecResult, Flags,
+    CallResponseFields, ChecksumType, Codec, CodecResult, Flags, MAX_FRAME_ARGS,
 };
 use crate::frames::Type;
 use crate::messages::args::{MessageArgs, ResponseCode};
@@ -103,6 +103,7 @@ impl Defragmenter {
             return Ok((fields, message_args));
         }
         read_continuation(&mut self.frame_input, &mut args_defragmenter).await?;
+        args_defragmenter.verify_args_count()?;
         let message_args = MessageArgs::new(args_scheme, args_defragmenter.args());
         Ok((fields, message_args))
     }
@@ -251,6 +252,17 @@ impl ArgsDefragmenter {
         }
     }
 
+    fn verify_args_count(&self) -> CodecResult<()> {
+        if self.args.len() > MAX_FRAME_ARGS {
+            return Err(CodecError::Error(format!(
+                "Message has {} args instead of {}",
+                self.args.len(),
+                MAX_FRAME_ARGS
+            )));
+        }
+        Ok(())
+    }
+
     fn args(&mut self) -> Vec<Bytes> {
         self.args
             .iter_mut()
-- 
2.43.0


From 6362283751e147eac87024f0e178d7f01a945560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 18/19] fix: a client which leaves before it is accepted does
 not stop the server

Errors of accept which concern a single client (see accept(2)) ended the
server task, so that no further client was served.
---
 src/server.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 0d202fe..b4e8678 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -14,6 +14,7 @@ use futures::{self, future, stream, SinkExt, Stream, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
 use std::fmt::Debug;
+use std::io::ErrorKind;
 use std::sync::Arc;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
@@ -50,7 +51,14 @@ impl Server {
         debug!("Starting server on {}", config.server_address);
         let listener = TcpListener::bind(config.server_address).await?;
         loop {
-            let (stream, addr) = listener.accept().await?;
+            let (stream, addr) = match listener.accept().await {
+                Ok(accepted) => accepted,
+                Err(err) if is_client_error(&err) => {
+                    debug!("Client left before it was accepted: {}", err);
+                    continue;
+                }
+                Err(err) => return Err(err.into()),
+            };
             debug!("Handling incoming connection from {}", addr);
             let subchannels = subchannels.clone();
             let mut server =
@@ -262,6 +270,14 @@ impl FrameHandler {
     }
 }
 
+/// Errors of `accept` which say something about a single client, not about the listener.
+fn is_client_error(err: &std::io::Error) -> bool {
+    matches!(
+        err.kind(),
+        ErrorKind::ConnectionAborted | ErrorKind::ConnectionReset | ErrorKind::ConnectionRefused
+    )
+}
+
 /// Truncates message to given length in bytes (or to the closest char boundary before it).
 fn truncate(mut msg: String, mut limit: usize) -> String {
     if msg.len() > limit {
-- 
2.43.0


From 82f14a6563a24e005133ce0d50efb8e7ef91c81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:51 +0000
Subject: [PATCH 19/19] fix: a server started again right after a stop did not
 listen

An aborted server task is dropped later, so that the next one could find its address still in use.
---
 src/channel.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/channel.rs b/src/channel.rs
index 9199598..b992a88 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -24,6 +24,7 @@ pub struct TChannel {
     connection_pools: Arc<ConnectionPools>,
     subchannels: SharedSubChannels,
     server_handle: ServerHandle,
+    server_lock: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl TChannel {
@@ -37,6 +38,7 @@ impl TChannel {
             connection_pools: Arc::new(connection_pools),
             subchannels,
             server_handle: Mutex::new(None),
+            server_lock: Arc::default(),
         })
     }
 
@@ -45,7 +47,13 @@ impl TChannel {
         let mut handle_lock = self.server_handle.lock().unwrap();
         if handle_lock.is_none() {
             debug!("Starting server"); //TODO lie
-            let handle = tokio::spawn(Server::run(self.config.clone(), self.subchannels.clone()));
+            let server = Server::run(self.config.clone(), self.subchannels.clone());
+            let server_lock = self.server_lock.clone();
+            let handle = tokio::spawn(async move {
+                // An aborted server gets dropped later, until then its address is in use.
+                let _guard = server_lock.lock().await;
+                server.await
+            });
             *handle_lock = Some(handle);
         } else {
             return Err(TChannelError::Error("Server already started".to_string()));
-- 
2.43.0

