From 193330182e4881c931c433ea36749e1235b93fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 01/22] fix: never emit '$' as a run-length repeat count

A run of 7 identical characters would be encoded with the repeat count '#',
and a run of 8 with '$'. The guard was off by one: it split runs of 6 and 7,
and let a run of 8 through, so the reply contained a bare '$' (start of packet).
---
 src/protocol/response_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/response_writer.rs b/src/protocol/response_writer.rs
index 42c2a20..1967c98 100644
--- a/src/protocol/response_writer.rs
+++ b/src/protocol/response_writer.rs
@@ -135,7 +135,7 @@ impl<'a, C: Connection + 'a> ResponseWriter<'a, C> {
                         }
                     }
                     // RLE would output an invalid char ('#' or '$')
-                    6 | 7 => {
+                    7 | 8 => {
                         self.inner_write(self.rle_char)?;
                         self.rle_repeat -= 1;
                         continue;
-- 
2.43.0


From 88eb8ad7550f6da2932356d21c9fde1968f1d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:57 +0000
Subject: [PATCH 02/22] fix: stop memory reads at the first short or failed
 chunk

A read larger than the packet buffer is served in chunks. If the target could
only provide part of a chunk, the remaining chunks were still read and appended,
so the reply presented bytes at the wrong addresses. A non-fatal error in a later
chunk was appended to the data already written ("<hex>E79"), and a read reaching
past the end of the address space overflowed the address.

Reply with the data up to that point instead.
---
 src/stub/core_impl/base.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/stub/core_impl/base.rs b/src/stub/core_impl/base.rs
index b42e1f0..4815a68 100644
--- a/src/stub/core_impl/base.rs
+++ b/src/stub/core_impl/base.rs
@@ -288,14 +288,14 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 let addr = <T::Arch as Arch>::Usize::from_be_bytes(cmd.addr)
                     .ok_or(Error::TargetMismatch)?;
 
-                let mut i = 0;
+                let mut addr = addr;
                 let mut n = cmd.len;
                 while n != 0 {
                     let chunk_size = n.min(buf.len());
 
+                    use num_traits::CheckedAdd;
                     use num_traits::NumCast;
 
-                    let addr = addr + NumCast::from(i).ok_or(Error::TargetMismatch)?;
                     let data = &mut buf[..chunk_size];
                     let data_len = match target.base_ops() {
                         BaseOps::SingleThread(ops) => ops.read_addrs(addr, data),
@@ -303,14 +303,32 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             ops.read_addrs(addr, data, self.current_mem_tid)
                         }
                     }
-                    .handle_error()?;
+                    .handle_error();
+
+                    let data_len = match data_len {
+                        Ok(data_len) => data_len,
+                        // part of the reply has already been written: report the data which could
+                        // be read, instead of mixing it with an error code.
+                        Err(Error::NonFatalError(_)) if n != cmd.len => break,
+                        Err(e) => return Err(e),
+                    };
 
                     n -= chunk_size;
-                    i += chunk_size;
 
                     // TODO: add more specific error variant?
                     let data = data.get(..data_len).ok_or(Error::PacketBufferOverflow)?;
                     res.write_hex_buf(data)?;
+
+                    // the target could only provide part of the chunk
+                    if data_len < chunk_size {
+                        break;
+                    }
+
+                    // stop at the end of the address space
+                    addr = match NumCast::from(chunk_size).and_then(|i| addr.checked_add(&i)) {
+                        Some(addr) => addr,
+                        None => break,
+                    };
                 }
                 HandlerStatus::Handled
             }
-- 
2.43.0


From 0cace2aed3ef232b14d486972224300db4b5314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 03/22] fix: report qCRC and vAttach{Name,OrWait,Wait} as
 unsupported

With extended mode support these packets were prefix-matched as qC / vAttach, failed
to parse, and the parse error tore down the entire debugging session.
---
 src/protocol/commands.rs | 13 +++++++++++++
 src/protocol/packet.rs   |  8 ++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/protocol/commands.rs b/src/protocol/commands.rs
index b18f860..f7fb5a5 100644
--- a/src/protocol/commands.rs
+++ b/src/protocol/commands.rs
@@ -180,6 +180,19 @@ macro_rules! commands {
                     }
                 }
 
+                // these packets aren't implemented, but start with the name of one that is. They
+                // should result in an "unsupported" response, instead of being misparsed.
+                const UNIMPLEMENTED: &[&[u8]] = &[
+                    b"qCRC:",
+                    b"vAttachName;",
+                    b"vAttachOrWait;",
+                    b"vAttachWait;",
+                ];
+
+                if UNIMPLEMENTED.iter().any(|prefix| buf.starts_with(prefix)) {
+                    return Some(Command::Unknown(buf.into_body()));
+                }
+
                 // TODO?: use tries for more efficient longest prefix matching
 
                 $(
diff --git a/src/protocol/packet.rs b/src/protocol/packet.rs
index 9723165..671bda2 100644
--- a/src/protocol/packet.rs
+++ b/src/protocol/packet.rs
@@ -90,6 +90,14 @@ impl<'a> PacketBuf<'a> {
         })
     }
 
+    /// Check if the current packet body starts with the specified prefix.
+    pub fn starts_with(&self, prefix: &[u8]) -> bool {
+        self.buf
+            .get(self.body_range.clone())
+            .map(|body| body.starts_with(prefix))
+            .unwrap_or(false)
+    }
+
     /// Strip the specified prefix from the packet buffer, returning `true` if
     /// there was a prefix match.
     pub fn strip_prefix(&mut self, prefix: &[u8]) -> bool {
-- 
2.43.0


From d02f9a7366de571a85218311f487c2b88a2edca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:07 +0000
Subject: [PATCH 04/22] fix: accept qSupported without features, and with empty
 entries

The feature list of qSupported is optional. Both forms used to end the session.
---
 src/protocol/commands/_qSupported.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/protocol/commands/_qSupported.rs b/src/protocol/commands/_qSupported.rs
index c436d09..ad3ed9d 100644
--- a/src/protocol/commands/_qSupported.rs
+++ b/src/protocol/commands/_qSupported.rs
@@ -16,6 +16,11 @@ impl<'a> ParseCommand<'a> for qSupported<'a> {
                 packet_buffer_len,
                 features: Features(body),
             }),
+            // the feature list is optional
+            [] => Some(qSupported {
+                packet_buffer_len,
+                features: Features(&[]),
+            }),
             _ => None,
         }
     }
@@ -27,7 +32,8 @@ pub struct Features<'a>(&'a [u8]);
 impl<'a> Features<'a> {
     pub fn into_iter(self) -> impl Iterator<Item = Result<Option<(Feature, bool)>, ()>> + 'a {
         self.0.split(|b| *b == b';').map(|s| match s.last() {
-            None => Err(()),
+            // tolerate empty entries
+            None => Ok(None),
             Some(&c) => match c {
                 b'+' | b'-' => {
                     let feature = match &s[..s.len() - 1] {
-- 
2.43.0


From 4eaad2e5f10d40eaa11b870fd1de8d9ed9b07744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 05/22] fix: pass empty vRun arguments on to the target

Empty arguments were silently dropped, which shifted all following arguments.
---
 src/protocol/commands/_QCatchSyscalls.rs |  2 +-
 src/protocol/commands/_vRun.rs           |  2 +-
 src/protocol/common/lists.rs             | 12 +++++++-----
 src/stub/core_impl/catch_syscalls.rs     |  1 +
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/protocol/commands/_QCatchSyscalls.rs b/src/protocol/commands/_QCatchSyscalls.rs
index 0991117..2ba5b89 100644
--- a/src/protocol/commands/_QCatchSyscalls.rs
+++ b/src/protocol/commands/_QCatchSyscalls.rs
@@ -16,7 +16,7 @@ impl<'a> ParseCommand<'a> for QCatchSyscalls<'a> {
         match body {
             [b':', b'0'] => Some(QCatchSyscalls::Disable),
             [b':', b'1', b';', sysno @ ..] => {
-                Some(QCatchSyscalls::Enable(ArgListHex::from_packet(sysno)?))
+                Some(QCatchSyscalls::Enable(ArgListHex::from_packet(Some(sysno))?))
             }
             [b':', b'1'] => Some(QCatchSyscalls::EnableAll),
             _ => None,
diff --git a/src/protocol/commands/_vRun.rs b/src/protocol/commands/_vRun.rs
index a4b619d..e20bc2f 100644
--- a/src/protocol/commands/_vRun.rs
+++ b/src/protocol/commands/_vRun.rs
@@ -19,7 +19,7 @@ impl<'a> ParseCommand<'a> for vRun<'a> {
             [] => None,
             s => Some(s as &[u8]),
         };
-        let args = body.next().unwrap_or(&mut []); // args are optional
+        let args = body.next(); // args are optional
 
         Some(vRun {
             filename,
diff --git a/src/protocol/common/lists.rs b/src/protocol/common/lists.rs
index 1f2bc88..811c957 100644
--- a/src/protocol/common/lists.rs
+++ b/src/protocol/common/lists.rs
@@ -3,13 +3,15 @@ use crate::protocol::common::hex::is_hex;
 
 /// A wrapper type around a list of hex encoded arguments separated by `;`.
 #[derive(Debug)]
-pub struct ArgListHex<'a>(&'a mut [u8]);
+pub struct ArgListHex<'a>(Option<&'a mut [u8]>);
 
 impl<'a> ArgListHex<'a> {
-    pub fn from_packet(args: &'a mut [u8]) -> Option<Self> {
+    /// `None` corresponds to a list with no arguments (as opposed to a list with
+    /// a single empty argument).
+    pub fn from_packet(args: Option<&'a mut [u8]>) -> Option<Self> {
         // validate that args have valid hex encoding (with ';' delimiters).
         // this removes all the error handling from the lazy `Args` iterator.
-        if args.iter().any(|b| !(is_hex(*b) || *b == b';')) {
+        if args.iter().flat_map(|args| args.iter()).any(|b| !(is_hex(*b) || *b == b';')) {
             return None;
         }
         Some(Self(args))
@@ -17,11 +19,11 @@ impl<'a> ArgListHex<'a> {
 
     pub fn into_iter(self) -> impl Iterator<Item = &'a [u8]> + 'a {
         self.0
-            .split_mut(|b| *b == b';')
+            .into_iter()
+            .flat_map(|args| args.split_mut(|b| *b == b';'))
             // the `from_packet` method guarantees that the args are valid hex ascii, so this should
             // method should never fail.
             .map(|raw| decode_hex_buf(raw).unwrap_or(&mut []))
             .map(|s| s as &[u8])
-            .filter(|s| !s.is_empty())
     }
 }
diff --git a/src/stub/core_impl/catch_syscalls.rs b/src/stub/core_impl/catch_syscalls.rs
index 7f38222..7656754 100644
--- a/src/stub/core_impl/catch_syscalls.rs
+++ b/src/stub/core_impl/catch_syscalls.rs
@@ -26,6 +26,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         let mut error = false;
                         let mut filter = sysno
                             .into_iter()
+                            .filter(|sysno| !sysno.is_empty())
                             .map(<T::Arch as Arch>::Usize::from_be_bytes)
                             .take_while(|x| {
                                 error = x.is_none();
-- 
2.43.0


From 2ee5b8ddbe59caed460d17a9da251cc5c987a543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 06/22] fix: don't panic on empty LLDB container / invalidate
 register lists

---
 src/stub/core_impl/lldb_register_info.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index 676991d..e63eedb 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -85,18 +85,18 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                                     Generic::Arg8 => "arg8",
                                 })?;
                             }
-                            if let Some(c_regs) = reg.container_regs {
+                            if let Some([first, c_regs @ ..]) = reg.container_regs {
                                 res.write_str(";container-regs:")?;
-                                res.write_num(c_regs[0])?;
-                                for reg in c_regs.iter().skip(1) {
+                                res.write_num(*first)?;
+                                for reg in c_regs.iter() {
                                     res.write_str(",")?;
                                     res.write_num(*reg)?;
                                 }
                             }
-                            if let Some(i_regs) = reg.invalidate_regs {
+                            if let Some([first, i_regs @ ..]) = reg.invalidate_regs {
                                 res.write_str(";invalidate-regs:")?;
-                                res.write_num(i_regs[0])?;
-                                for reg in i_regs.iter().skip(1) {
+                                res.write_num(*first)?;
+                                for reg in i_regs.iter() {
                                     res.write_str(",")?;
                                     res.write_num(*reg)?;
                                 }
-- 
2.43.0


From b35099f755c2b834a19c578ace1375ea0110866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 07/22] fix: reject tracepoint expressions with an overflowing
 length

---
 src/stub/core_impl/tracepoints.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 1637698..e2fa2c9 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -161,10 +161,11 @@ impl<'a, U: BeBytes> ExtendTracepoint<'a, U> {
                     );
                     let len: usize =
                         decode_hex(len_bytes).or(Err(Error::PacketParse(MalformedCommand)))?;
-                    if rem.len() < len * 2 {
-                        return Err(Error::PacketParse(MalformedCommand));
-                    }
-                    let (expr_bytes, next_bytes) = rem.split_at_mut(len * 2);
+                    let hex_len = match len.checked_mul(2) {
+                        Some(hex_len) if hex_len <= rem.len() => hex_len,
+                        _ => return Err(Error::PacketParse(MalformedCommand)),
+                    };
+                    let (expr_bytes, next_bytes) = rem.split_at_mut(hex_len);
                     let expr =
                         decode_hex_buf(expr_bytes).or(Err(Error::PacketParse(MalformedCommand)))?;
                     (f)(&TracepointAction::Expression {
-- 
2.43.0


From 6ae3e60805b8a52f12ec57451fc89017b4afc8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 08/22] fix: keep a deferred Ctrl-C stop reason across further
 idle interrupts

---
 src/stub/state_machine.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/stub/state_machine.rs b/src/stub/state_machine.rs
index 4a41aaf..d89a40c 100644
--- a/src/stub/state_machine.rs
+++ b/src/stub/state_machine.rs
@@ -44,6 +44,7 @@ use crate::protocol::ResponseWriter;
 use crate::stub::error::GdbStubError;
 use crate::stub::error::InternalError;
 use crate::stub::stop_reason::IntoStopReason;
+use crate::stub::stop_reason::MultiThreadStopReason;
 use crate::target::Target;
 use managed::ManagedSlice;
 
@@ -79,7 +80,6 @@ where
 // payloads, which are used when transitioning between states.
 pub mod state {
     use super::*;
-    use crate::stub::stop_reason::MultiThreadStopReason;
 
     // used internally when logging state transitions
     pub(crate) const MODULE_PATH: &str = concat!(module_path!(), "::");
@@ -169,6 +169,9 @@ struct GdbStubStateMachineReallyInner<'a, T: Target, C: Connection> {
     packet_buffer: ManagedSlice<'a, u8>,
     recv_packet: RecvPacketStateMachine,
     inner: GdbStubImpl<T, C>,
+    // stop reason deferred by an earlier Ctrl-C interrupt, kept while another
+    // interrupt received in the Idle state is being handled.
+    deferred_ctrlc_stop_reason: Option<MultiThreadStopReason<<T::Arch as Arch>::Usize>>,
 }
 
 /// Core state machine implementation that is parameterized by various
@@ -200,6 +203,7 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::Idle<T>,
                 packet_buffer: stub.packet_buffer,
                 recv_packet: RecvPacketStateMachine::new(),
                 inner: stub.inner,
+                deferred_ctrlc_stop_reason: None,
             },
             state: state::Idle {
                 deferred_ctrlc_stop_reason: None,
@@ -239,9 +243,11 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::Idle<T>,
                     None => self.transition(state::Running {}).into(),
                 }
             }
-            State::CtrlCInterrupt => self
-                .transition(state::CtrlCInterrupt { from_idle: true })
-                .into(),
+            State::CtrlCInterrupt => {
+                self.i.deferred_ctrlc_stop_reason = self.state.deferred_ctrlc_stop_reason.take();
+                self.transition(state::CtrlCInterrupt { from_idle: true })
+                    .into()
+            }
         })
     }
 }
@@ -326,15 +332,17 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::CtrlCInte
     ///   should send one of the stop reply packets (see Stop Reply Packets) to
     ///   GDB as a result of successfully stopping the program
     pub fn interrupt_handled(
-        self,
+        mut self,
         target: &mut T,
         stop_reason: Option<impl IntoStopReason<T>>,
     ) -> Result<GdbStubStateMachine<'a, T, C>, GdbStubError<T::Error, C::Error>> {
         if self.state.from_idle {
-            // target is stopped - we cannot report the stop reason yet
+            // target is stopped - we cannot report the stop reason yet. Don't
+            // forget a stop reason that is still waiting to be reported.
+            let pending = self.i.deferred_ctrlc_stop_reason.take();
             Ok(self
                 .transition(state::Idle {
-                    deferred_ctrlc_stop_reason: stop_reason.map(Into::into),
+                    deferred_ctrlc_stop_reason: stop_reason.map(Into::into).or(pending),
                 })
                 .into())
         } else {
-- 
2.43.0


From eae445ca744e720d0474bfe20e2ce8dc3e27c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 09/22] fix: flush the acknowledgement of resume requests

---
 src/stub/core_impl.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/stub/core_impl.rs b/src/stub/core_impl.rs
index d5ca4d5..ab64274 100644
--- a/src/stub/core_impl.rs
+++ b/src/stub/core_impl.rs
@@ -160,7 +160,14 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         res.write_str("OK")?;
                         None
                     }
-                    Ok(HandlerStatus::DeferredStopReason) => return Ok(State::DeferredStopReason),
+                    Ok(HandlerStatus::DeferredStopReason) => {
+                        // there is no response to flush yet, but the client is
+                        // still waiting for the acknowledgement
+                        if !self.features.no_ack_mode() {
+                            conn.flush().map_err(InternalError::conn_write)?;
+                        }
+                        return Ok(State::DeferredStopReason);
+                    }
                     Ok(HandlerStatus::Disconnect(reason)) => Some(reason),
                     // HACK: handling this "dummy" error is required as part of the
                     // `TargetResultExt::handle_error()` machinery.
-- 
2.43.0


From 856cf13e8bbcdb2cd53bf6a92e4a30138159afc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 10/22] fix: stop at the first error while extending a
 tracepoint

---
 src/stub/core_impl/tracepoints.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index e2fa2c9..6f00ccc 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -462,6 +462,10 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         let tp = extend_tracepoint.number;
                         let mut err: Option<Error<T::Error, C::Error>> = None;
                         let more = extend_tracepoint.actions(|action| {
+                            // don't overwrite (or act after) an earlier error
+                            if err.is_some() {
+                                return;
+                            }
                             if let Err(e) =
                                 ops.tracepoint_create_continue(tp, action).handle_error()
                             {
-- 
2.43.0


From 6f8f00a1cc946c8bbe0b34c0b404e08336137728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 11/22] fix: don't append an error code to a trace status reply

---
 src/stub/core_impl/tracepoints.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 6f00ccc..89bdae6 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -410,16 +410,23 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 .handle_error()?;
                 if has_status {
                     // Only bother trying to get info if we also have a status
-                    ops.trace_experiment_info(&mut |explanation: ExperimentExplanation<'_>| {
-                        if let Err(e) = res
-                            .write_str(";")
-                            .map_err(|e| e.into())
-                            .and_then(|()| explanation.write::<T, C>(res))
-                        {
-                            err = Some(e)
-                        }
-                    })
-                    .handle_error()?;
+                    let info = ops
+                        .trace_experiment_info(&mut |explanation: ExperimentExplanation<'_>| {
+                            if let Err(e) = res
+                                .write_str(";")
+                                .map_err(|e| e.into())
+                                .and_then(|()| explanation.write::<T, C>(res))
+                            {
+                                err = Some(e)
+                            }
+                        })
+                        .handle_error();
+                    match info {
+                        // The status is already part of the response, so it's too
+                        // late to send an error instead.
+                        Ok(()) | Err(Error::NonFatalError(_)) => {}
+                        Err(e) => return Err(e),
+                    }
                 }
 
                 if let Some(e) = err {
-- 
2.43.0


From 3b15660b99f3a8e1308be64257dc14f4ef56d7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:41 +0000
Subject: [PATCH 12/22] fix: order AArch64 fpsr and fpcr like the target
 description

---
 gdbstub_arch/src/aarch64/reg/aarch64_core.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
index e72f596..7d4771d 100644
--- a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
+++ b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
@@ -48,15 +48,16 @@ impl Registers for AArch64CoreRegs {
         for reg in self.v.iter() {
             write_bytes!(reg);
         }
-        write_bytes!(self.fpcr);
+        // GDB's register numbers put FPSR (66) in front of FPCR (67)
         write_bytes!(self.fpsr);
+        write_bytes!(self.fpcr);
     }
 
     fn gdb_deserialize(&mut self, bytes: &[u8]) -> Result<(), ()> {
         const CPSR_OFF: usize = core::mem::size_of::<u64>() * 33;
         const FPSIMD_OFF: usize = CPSR_OFF + core::mem::size_of::<u32>();
-        const FPCR_OFF: usize = FPSIMD_OFF + core::mem::size_of::<u128>() * 32;
-        const END: usize = FPCR_OFF + core::mem::size_of::<u32>() * 2;
+        const FPSR_OFF: usize = FPSIMD_OFF + core::mem::size_of::<u128>() * 32;
+        const END: usize = FPSR_OFF + core::mem::size_of::<u32>() * 2;
 
         if bytes.len() < END {
             return Err(());
@@ -78,7 +79,7 @@ impl Registers for AArch64CoreRegs {
 
         self.cpsr = regs.next().ok_or(())?;
 
-        let mut regs = bytes[FPSIMD_OFF..FPCR_OFF]
+        let mut regs = bytes[FPSIMD_OFF..FPSR_OFF]
             .chunks_exact(core::mem::size_of::<u128>())
             .map(|c| u128::from_le_bytes(c.try_into().unwrap()));
 
@@ -86,12 +87,12 @@ impl Registers for AArch64CoreRegs {
             *reg = regs.next().ok_or(())?
         }
 
-        let mut regs = bytes[FPCR_OFF..]
+        let mut regs = bytes[FPSR_OFF..]
             .chunks_exact(core::mem::size_of::<u32>())
             .map(|c| u32::from_le_bytes(c.try_into().unwrap()));
 
-        self.fpcr = regs.next().ok_or(())?;
         self.fpsr = regs.next().ok_or(())?;
+        self.fpcr = regs.next().ok_or(())?;
 
         Ok(())
     }
-- 
2.43.0


From 21619403df192f963495d83a5b61e199e0c97cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:41 +0000
Subject: [PATCH 13/22] fix: AArch64 FPSR and FPCR (66, 67) are 4 bytes wide

---
 gdbstub_arch/src/aarch64/reg/id.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gdbstub_arch/src/aarch64/reg/id.rs b/gdbstub_arch/src/aarch64/reg/id.rs
index c10e6ce..d2e6881 100644
--- a/gdbstub_arch/src/aarch64/reg/id.rs
+++ b/gdbstub_arch/src/aarch64/reg/id.rs
@@ -53,8 +53,9 @@ impl RegId for AArch64RegId {
             32 => Self::Pc,
             33 => Self::Pstate,
             34..=65 => Self::V((id - 34) as u8),
-            66 => Self::FPSR,
-            67 => Self::FPCR,
+            // the target description declares these two as 32 bits wide
+            66 => return Some((Self::FPSR, NonZeroUsize::new(4))),
+            67 => return Some((Self::FPCR, NonZeroUsize::new(4))),
             #[allow(clippy::unusual_byte_groupings)]
             // We configure GDB to use regnums that correspond to the architectural u16 opcode
             // and avoid clashes with core registers thanks to op0==0b00 and op0==0b01 not being
-- 
2.43.0


From 8eb39a03da47ec5c47493d1839985fce8762e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 14/22] fix: ARM F0-F7 are 12 bytes wide

---
 gdbstub_arch/src/arm/reg/id.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdbstub_arch/src/arm/reg/id.rs b/gdbstub_arch/src/arm/reg/id.rs
index 10f7c26..0795e75 100644
--- a/gdbstub_arch/src/arm/reg/id.rs
+++ b/gdbstub_arch/src/arm/reg/id.rs
@@ -33,6 +33,10 @@ impl RegId for ArmCoreRegId {
             25 => Self::Cpsr,
             _ => return None,
         };
-        Some((reg, Some(NonZeroUsize::new(4)?)))
+        let len = match reg {
+            Self::Fpr(_) => 12,
+            _ => 4,
+        };
+        Some((reg, Some(NonZeroUsize::new(len)?)))
     }
 }
-- 
2.43.0


From b83228c33a099945978ff661c6d1781e44840beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 15/22] fix: peeking must not leave a socket in non-blocking
 mode

---
 src/conn/impls/tcpstream.rs  | 5 ++++-
 src/conn/impls/unixstream.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/conn/impls/tcpstream.rs b/src/conn/impls/tcpstream.rs
index 512a15d..a7407c1 100644
--- a/src/conn/impls/tcpstream.rs
+++ b/src/conn/impls/tcpstream.rs
@@ -46,7 +46,10 @@ impl ConnectionExt for TcpStream {
         self.set_nonblocking(true)?;
 
         let mut buf = [0u8];
-        match Self::peek(self, &mut buf) {
+        let res = Self::peek(self, &mut buf);
+        // don't leave the socket in non-blocking mode: writes expect to block
+        self.set_nonblocking(false)?;
+        match res {
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
diff --git a/src/conn/impls/unixstream.rs b/src/conn/impls/unixstream.rs
index 575cc4e..a5c48a4 100644
--- a/src/conn/impls/unixstream.rs
+++ b/src/conn/impls/unixstream.rs
@@ -93,7 +93,10 @@ impl ConnectionExt for UnixStream {
         self.set_nonblocking(true)?;
 
         let mut buf = [0u8];
-        match PeekExt::peek(self, &mut buf) {
+        let res = PeekExt::peek(self, &mut buf);
+        // don't leave the socket in non-blocking mode: writes expect to block
+        self.set_nonblocking(false)?;
+        match res {
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
-- 
2.43.0


From dceb2d0a83d36aff08a1fabd7213c51e2d819d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 16/22] fix: forward support_libraries_svr4 through dyn targets

---
 src/target/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/target/mod.rs b/src/target/mod.rs
index f7a5b51..964d9ad 100644
--- a/src/target/mod.rs
+++ b/src/target/mod.rs
@@ -745,6 +745,7 @@ macro_rules! impl_dyn_target {
             __delegate_support!(exec_file);
             __delegate_support!(auxv);
             __delegate_support!(tracepoints);
+            __delegate!(fn support_libraries_svr4(&mut self) -> Option<ext::libraries::LibrariesSvr4Ops<'_, Self>>);
         }
     };
 }
-- 
2.43.0


From afbb99604f64178b615d5be1e913bde634a02382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:47 +0000
Subject: [PATCH 17/22] fix: BRBCR_EL2 must not share the encoding of BRBCR_EL1

---
 gdbstub_arch/src/aarch64/reg/id.rs   | 2 +-
 gdbstub_arch/src/aarch64/sysregs.xml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdbstub_arch/src/aarch64/reg/id.rs b/gdbstub_arch/src/aarch64/reg/id.rs
index d2e6881..7715ea3 100644
--- a/gdbstub_arch/src/aarch64/reg/id.rs
+++ b/gdbstub_arch/src/aarch64/reg/id.rs
@@ -1807,7 +1807,7 @@ impl AArch64RegId {
     /// Branch Record Buffer Control Register (EL1)
     pub const BRBCR_EL1: Self = Self::System(0b10_001_1001_0000_000);
     /// Branch Record Buffer Control Register (EL2)
-    pub const BRBCR_EL2: Self = Self::System(0b10_001_1001_0000_000);
+    pub const BRBCR_EL2: Self = Self::System(0b10_100_1001_0000_000);
     /// Branch Record Buffer Function Control Register
     pub const BRBFCR_EL1: Self = Self::System(0b10_001_1001_0000_001);
     /// Branch Record Buffer Timestamp Register
diff --git a/gdbstub_arch/src/aarch64/sysregs.xml b/gdbstub_arch/src/aarch64/sysregs.xml
index bd643ee..7449206 100644
--- a/gdbstub_arch/src/aarch64/sysregs.xml
+++ b/gdbstub_arch/src/aarch64/sysregs.xml
@@ -350,7 +350,6 @@
   <reg name="BRBSRC31_EL1" bitsize="64" regnum="35965" group="system"/>
   <reg name="BRBTGT31_EL1" bitsize="64" regnum="35966" group="system"/>
   <reg name="BRBCR_EL1" bitsize="64" regnum="35968" group="system"/>
-  <reg name="BRBCR_EL2" bitsize="64" regnum="35968" group="system"/>
   <reg name="BRBFCR_EL1" bitsize="64" regnum="35969" group="system"/>
   <reg name="BRBTS_EL1" bitsize="64" regnum="35970" group="system"/>
   <reg name="BRBINFINJ_EL1" bitsize="64" regnum="35976" group="system"/>
@@ -362,6 +361,7 @@
   <reg name="DBGDTRRX_EL0" bitsize="64" regnum="38952" group="system"/>
   <reg name="DBGDTRTX_EL0" bitsize="64" regnum="38952" group="system"/>
   <reg name="DBGVCR32_EL2" bitsize="64" regnum="41016" group="system"/>
+  <reg name="BRBCR_EL2" bitsize="64" regnum="42112" group="system"/>
   <reg name="MIDR_EL1" bitsize="64" regnum="49152" group="system"/>
   <reg name="MPIDR_EL1" bitsize="64" regnum="49157" group="system"/>
   <reg name="REVIDR_EL1" bitsize="64" regnum="49158" group="system"/>
-- 
2.43.0


From 65dc55632ec1ee7194fd0ab2c338f1f2260061a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:25 +0000
Subject: [PATCH 18/22] fix: LeBytes::from_le_bytes must check the most
 significant bytes for overflow

---
 src/internal/le_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/le_bytes.rs b/src/internal/le_bytes.rs
index fa12499..cfb1fb9 100644
--- a/src/internal/le_bytes.rs
+++ b/src/internal/le_bytes.rs
@@ -28,7 +28,7 @@ macro_rules! impl_to_le_bytes {
                     let len = core::mem::size_of::<$num>();
 
                     let buf = if buf.len() > len {
-                        let (extra, buf) = buf.split_at(buf.len() - len);
+                        let (buf, extra) = buf.split_at(len);
                         if extra.iter().any(|&b| b != 0) {
                             return None
                         }
-- 
2.43.0


From 09f42edd2724fc49a386278eb39b6345399d0fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:14 +0000
Subject: [PATCH 19/22] fix: don't swallow or overwrite connection errors in
 callback-built replies

QTFrame and qRegisterInfo dropped a connection error outright, qTBuffer and
the other replies which are written from within a target's callback went on
writing after one, reporting only the last error (or whatever error the
target returned).
---
 src/stub/core_impl/base.rs               | 14 ++++-
 src/stub/core_impl/lldb_register_info.rs | 23 +++++---
 src/stub/core_impl/monitor_cmd.rs        |  9 ++-
 src/stub/core_impl/tracepoints.rs        | 74 +++++++++++++++++-------
 4 files changed, 87 insertions(+), 33 deletions(-)

diff --git a/src/stub/core_impl/base.rs b/src/stub/core_impl/base.rs
index 4815a68..6969f2c 100644
--- a/src/stub/core_impl/base.rs
+++ b/src/stub/core_impl/base.rs
@@ -259,6 +259,10 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
 
                 let mut err = Ok(());
                 regs.gdb_serialize(|val| {
+                    // stop at the first error
+                    if err.is_err() {
+                        return;
+                    }
                     let res = match val {
                         Some(b) => res.write_hex_buf(&[b]),
                         None => res.write_str("xx"),
@@ -423,7 +427,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     BaseOps::MultiThread(ops) => {
                         let mut err: Result<_, Error<T::Error, C::Error>> = Ok(());
                         let mut first = true;
-                        ops.list_active_threads(&mut |tid| {
+                        let result = ops.list_active_threads(&mut |tid| {
+                            // stop at the first error
+                            if err.is_err() {
+                                return;
+                            }
                             // TODO: replace this with a try block (once stabilized)
                             let e = (|| {
                                 if !first {
@@ -443,9 +451,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             if let Err(e) = e {
                                 err = Err(e)
                             }
-                        })
-                        .map_err(Error::TargetError)?;
+                        });
                         err?;
+                        result.map_err(Error::TargetError)?;
                     }
                 }
 
diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index e63eedb..c6c8310 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -22,6 +22,10 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             LldbRegisterInfo::qRegisterInfo(cmd) => {
                 let mut err = Ok(());
                 let cb = &mut |reg: Option<Register<'_>>| {
+                    // stop at the first error
+                    if err.is_err() {
+                        return;
+                    }
                     let res = match reg {
                         // TODO: replace this with a try block (once stabilized)
                         Some(reg) => (|| {
@@ -118,20 +122,23 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     use crate::target::ext::lldb_register_info_override::Callback;
                     use crate::target::ext::lldb_register_info_override::CallbackToken;
 
-                    ops.lldb_register_info(
-                        cmd.reg_id,
-                        Callback {
-                            cb,
-                            token: CallbackToken(core::marker::PhantomData),
-                        },
-                    )
-                    .map_err(Error::TargetError)?;
+                    let result = ops
+                        .lldb_register_info(
+                            cmd.reg_id,
+                            Callback {
+                                cb,
+                                token: CallbackToken(core::marker::PhantomData),
+                            },
+                        )
+                        .map(|_| ());
                     err?;
+                    result.map_err(Error::TargetError)?;
                 } else if let Some(reg) = T::Arch::lldb_register_info(cmd.reg_id) {
                     match reg {
                         LLDBRegisterInfo::Register(reg) => cb(Some(reg)),
                         LLDBRegisterInfo::Done => cb(None),
                     };
+                    err?;
                 }
                 HandlerStatus::Handled
             }
diff --git a/src/stub/core_impl/monitor_cmd.rs b/src/stub/core_impl/monitor_cmd.rs
index e4cfc1e..78a6292 100644
--- a/src/stub/core_impl/monitor_cmd.rs
+++ b/src/stub/core_impl/monitor_cmd.rs
@@ -22,6 +22,10 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
 
                 let mut err: Result<_, Error<T::Error, C::Error>> = Ok(());
                 let mut callback = |msg: &[u8]| {
+                    // stop at the first error
+                    if err.is_err() {
+                        return;
+                    }
                     // TODO: replace this with a try block (once stabilized)
                     let e = (|| {
                         let mut res = ResponseWriter::new(res.as_conn(), use_rle);
@@ -36,9 +40,10 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     }
                 };
 
-                ops.handle_monitor_cmd(cmd.hex_cmd, ConsoleOutput::new(&mut callback))
-                    .map_err(Error::TargetError)?;
+                let result =
+                    ops.handle_monitor_cmd(cmd.hex_cmd, ConsoleOutput::new(&mut callback));
                 err?;
+                result.map_err(Error::TargetError)?;
 
                 HandlerStatus::NeedsOk
             }
diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 89bdae6..46d25a2 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -394,11 +394,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             Tracepoints::qTStatus(_) => {
                 let mut err: Option<Error<T::Error, C::Error>> = None;
                 let mut has_status = false;
-                ops.trace_experiment_status(&mut |status: ExperimentStatus<'_>| {
+                let result = ops.trace_experiment_status(&mut |status: ExperimentStatus<'_>| {
                     // If the target implementation calls us multiple times, then
                     // we would erroneously serialize an invalid response. Guard
                     // against it in the simplest way.
-                    if has_status {
+                    if has_status || err.is_some() {
                         return;
                     }
                     if let Err(e) = status.write(res) {
@@ -406,12 +406,20 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     } else {
                         has_status = true;
                     }
-                })
-                .handle_error()?;
+                });
+                if let Some(e) = err {
+                    return Err(e);
+                }
+                result.handle_error()?;
                 if has_status {
                     // Only bother trying to get info if we also have a status
+                    let mut err: Option<Error<T::Error, C::Error>> = None;
                     let info = ops
                         .trace_experiment_info(&mut |explanation: ExperimentExplanation<'_>| {
+                            // stop at the first error
+                            if err.is_some() {
+                                return;
+                            }
                             if let Err(e) = res
                                 .write_str(";")
                                 .map_err(|e| e.into())
@@ -421,6 +429,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             }
                         })
                         .handle_error();
+                    if let Some(e) = err {
+                        return Err(e);
+                    }
                     match info {
                         // The status is already part of the response, so it's too
                         // late to send an error instead.
@@ -428,10 +439,6 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         Err(e) => return Err(e),
                     }
                 }
-
-                if let Some(e) = err {
-                    return Err(e);
-                }
             }
             Tracepoints::qTP(qtp) => {
                 let addr = <T::Arch as Arch>::Usize::from_be_bytes(qtp.addr)
@@ -513,15 +520,20 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             Tracepoints::qTBuffer(buf) => {
                 let qTBuffer { offset, length } = buf;
                 let mut wrote: Result<bool, Error<T::Error, C::Error>> = Ok(false);
-                ops.trace_buffer_request(offset, length, &mut |data| {
+                let result = ops.trace_buffer_request(offset, length, &mut |data| {
+                    // stop at the first error
+                    if wrote.is_err() {
+                        return;
+                    }
                     if let Err(e) = res.write_hex_buf(data) {
                         wrote = Err(e.into())
                     } else {
                         wrote = Ok(true)
                     }
-                })
-                .handle_error()?;
-                if !wrote? {
+                });
+                let wrote = wrote?;
+                result.handle_error()?;
+                if !wrote {
                     res.write_str("l")?;
                 }
             }
@@ -546,7 +558,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 let parsed_req = parsed_qtframe.ok_or(Error::TargetMismatch)?;
                 let mut err: Result<_, Error<T::Error, C::Error>> = Ok(());
                 let mut any_results = false;
-                ops.select_frame(parsed_req, &mut |desc| {
+                let result = ops.select_frame(parsed_req, &mut |desc| {
+                    // stop at the first error
+                    if err.is_err() {
+                        return;
+                    }
                     let e = (|| -> Result<_, _> {
                         match desc {
                             FrameDescription::FrameNumber(n) => {
@@ -564,8 +580,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     if let Err(e) = e {
                         err = Err(e)
                     }
-                })
-                .handle_error()?;
+                });
+                err?;
+                result.handle_error()?;
                 if !any_results {
                     res.write_str("F-1")?;
                 }
@@ -585,6 +602,10 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 let mut started = None;
                 let step = ops
                     .tracepoint_enumerate_start(None, &mut |ctp| {
+                        // stop at the first error
+                        if err.is_some() {
+                            return;
+                        }
                         // We need to know what tracepoint to begin stepping, since the
                         // target will just tell us there's TracepointEnumerateStep::More
                         // otherwise.
@@ -594,10 +615,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             err = Some(e)
                         }
                     })
-                    .handle_error()?;
+                    .handle_error();
                 if let Some(e) = err {
                     return Err(e);
                 }
+                let step = step?;
                 if let Some((tp, addr)) = started {
                     ops.tracepoint_enumerate_state().cursor =
                         Some(TracepointEnumerateCursor::New { tp, addr });
@@ -620,24 +642,32 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         // a Next(tp) and we need to start reporting a new tracepoint
                         Some(
                             ops.tracepoint_enumerate_start(Some(tp), &mut |ctp| {
+                                // stop at the first error
+                                if err.is_some() {
+                                    return;
+                                }
                                 let e = ctp.write::<T, C>(res);
                                 if let Err(e) = e {
                                     err = Some(e)
                                 }
                             })
-                            .handle_error()?,
+                            .handle_error(),
                         )
                     }
                     Some(TracepointEnumerateCursor::Action { tp, addr, step }) => {
                         // Otherwise we should be continuing the advance the current tracepoint.
                         Some(
                             ops.tracepoint_enumerate_action(tp, step, &mut |action| {
+                                // stop at the first error
+                                if err.is_some() {
+                                    return;
+                                }
                                 let e = action.write::<T, C>(tp, addr, res);
                                 if let Err(e) = e {
                                     err = Some(e)
                                 }
                             })
-                            .handle_error()?,
+                            .handle_error(),
                         )
                     }
                     Some(TracepointEnumerateCursor::Source { tp, step, .. }) => {
@@ -645,12 +675,16 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             Some(
                                 supports_sources
                                     .tracepoint_enumerate_source(tp, step, &mut |src| {
+                                        // stop at the first error
+                                        if err.is_some() {
+                                            return;
+                                        }
                                         let e = src.write::<T, C>(res);
                                         if let Err(e) = e {
                                             err = Some(e)
                                         }
                                     })
-                                    .handle_error()?,
+                                    .handle_error(),
                             )
                         } else {
                             // If the target doesn't support tracepoint sources but told
@@ -664,7 +698,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     return Err(e);
                 }
                 if let Some(step) = step {
-                    self.handle_tracepoint_state_machine_step(target, step)?;
+                    self.handle_tracepoint_state_machine_step(target, step?)?;
                 }
             }
 
-- 
2.43.0


From 326fbedf62caf1bf60a049661f22b729486be610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 20/22] fix: don't append an error code to a partially written
 reply

---
 src/protocol/response_writer.rs | 6 ++++++
 src/stub/core_impl.rs           | 9 +++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/protocol/response_writer.rs b/src/protocol/response_writer.rs
index 1967c98..4786b15 100644
--- a/src/protocol/response_writer.rs
+++ b/src/protocol/response_writer.rs
@@ -78,6 +78,12 @@ impl<'a, C: Connection + 'a> ResponseWriter<'a, C> {
         Ok(())
     }
 
+    /// Returns true if nothing has been written to the response yet.
+    pub fn is_empty(&self) -> bool {
+        // (with RLE, the most recent char is still sitting in the RLE buffer)
+        !self.started && self.rle_repeat == 0
+    }
+
     /// Get a mutable reference to the underlying connection.
     pub fn as_conn(&mut self) -> &mut C {
         self.inner
diff --git a/src/stub/core_impl.rs b/src/stub/core_impl.rs
index ab64274..ac32a48 100644
--- a/src/stub/core_impl.rs
+++ b/src/stub/core_impl.rs
@@ -172,8 +172,13 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     // HACK: handling this "dummy" error is required as part of the
                     // `TargetResultExt::handle_error()` machinery.
                     Err(InternalError::NonFatalError(code)) => {
-                        res.write_str("E")?;
-                        res.write_num(code)?;
+                        // if the target failed after part of the response was already
+                        // written, it is too late to send an error instead: appending
+                        // the error code would only corrupt the data.
+                        if res.is_empty() {
+                            res.write_str("E")?;
+                            res.write_num(code)?;
+                        }
                         None
                     }
                     Err(e) => return Err(e),
-- 
2.43.0


From 7399129505945c664d90b5dfd8da99bea9c35d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 21/22] fix: count the byte that makes an owned packet buffer
 grow

ManagedVec::push grew the buffer without advancing its length, so the packet
trace lacked the last byte of a packet that made the buffer grow.
---
 src/util/managed_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/managed_vec.rs b/src/util/managed_vec.rs
index 5f3cf58..27981d8 100644
--- a/src/util/managed_vec.rs
+++ b/src/util/managed_vec.rs
@@ -26,6 +26,7 @@ impl<'a, 'b, T> ManagedVec<'a, 'b, T> {
                 #[cfg(feature = "alloc")]
                 ManagedSlice::Owned(buf) => {
                     buf.push(value);
+                    self.len += 1;
                     Ok(())
                 }
             }
-- 
2.43.0


From 109fbb650a75a5955412b7c25d6bf80173fdda7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 22/22] fix: report the selected thread for qC, also when its
 ID is 1

---
 src/stub/core_impl/extended_mode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stub/core_impl/extended_mode.rs b/src/stub/core_impl/extended_mode.rs
index 703b3f8..225ea0e 100644
--- a/src/stub/core_impl/extended_mode.rs
+++ b/src/stub/core_impl/extended_mode.rs
@@ -51,10 +51,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             ops.list_active_threads(&mut |tid| {
                                 // TODO: replace this with a try block (once stabilized)
                                 let e = (|| {
-                                    if first_tid.is_some() {
-                                        return Ok(());
+                                    // (the thread with the sentinel's ID may well
+                                    // exist, and be the one that is selected)
+                                    if first_tid.is_none() || tid == SINGLE_THREAD_TID {
+                                        first_tid = Some(tid);
                                     }
-                                    first_tid = Some(tid);
                                     Ok(())
                                 })();
 
-- 
2.43.0

