From 575a40e810fc0e5dc5d9b9ba5c93418b797eab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 01/13] fix: never emit '#' or '$' as an RLE repeat count

A run of n bytes is encoded as the byte, '*' and the character 28 + n, so the
runs whose count would be '#' (35) or '$' (36) are those of length 7 and 8 (not
6 and 7). A run of 8 produced an unescaped '$' inside the packet body.
---
 src/protocol/response_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/response_writer.rs b/src/protocol/response_writer.rs
index 42c2a20..1967c98 100644
--- a/src/protocol/response_writer.rs
+++ b/src/protocol/response_writer.rs
@@ -135,7 +135,7 @@ impl<'a, C: Connection + 'a> ResponseWriter<'a, C> {
                         }
                     }
                     // RLE would output an invalid char ('#' or '$')
-                    6 | 7 => {
+                    7 | 8 => {
                         self.inner_write(self.rle_char)?;
                         self.rle_repeat -= 1;
                         continue;
-- 
2.43.0


From da593793780edeb964a45a166ce8ea09e0bb9b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 02/13] fix: delegate support_libraries_svr4 in the dyn Target
 impls

Without the delegation, a target behind `&mut dyn Target` or `Box<dyn Target>`
lost its qXfer:libraries-svr4 support.
---
 src/target/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/target/mod.rs b/src/target/mod.rs
index f7a5b51..b6ae5a9 100644
--- a/src/target/mod.rs
+++ b/src/target/mod.rs
@@ -745,6 +745,8 @@ macro_rules! impl_dyn_target {
             __delegate_support!(exec_file);
             __delegate_support!(auxv);
             __delegate_support!(tracepoints);
+
+            __delegate!(fn support_libraries_svr4(&mut self) -> Option<ext::libraries::LibrariesSvr4Ops<'_, Self>>);
         }
     };
 }
-- 
2.43.0


From 1d79b95a4074d5f45c0dde3bc05bf695c5569a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 03/13] fix: reject oversized QTDP X action lengths instead of
 overflowing

A length of usize::MAX / 2 + 1 or more overflowed `len * 2`.
---
 src/stub/core_impl/tracepoints.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 1637698..6ad0dc1 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -161,7 +161,8 @@ impl<'a, U: BeBytes> ExtendTracepoint<'a, U> {
                     );
                     let len: usize =
                         decode_hex(len_bytes).or(Err(Error::PacketParse(MalformedCommand)))?;
-                    if rem.len() < len * 2 {
+                    // `len` counts bytes, each of which is two hex digits long
+                    if rem.len() / 2 < len {
                         return Err(Error::PacketParse(MalformedCommand));
                     }
                     let (expr_bytes, next_bytes) = rem.split_at_mut(len * 2);
-- 
2.43.0


From 167abe9c9d494c894cbb7436c462312582159c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 04/13] fix: don't panic on empty container-regs /
 invalidate-regs lists

A register description with `Some(&[])` indexed an empty slice.
---
 src/stub/core_impl/lldb_register_info.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index 676991d..20f5b9c 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -87,17 +87,19 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             }
                             if let Some(c_regs) = reg.container_regs {
                                 res.write_str(";container-regs:")?;
-                                res.write_num(c_regs[0])?;
-                                for reg in c_regs.iter().skip(1) {
-                                    res.write_str(",")?;
+                                for (i, reg) in c_regs.iter().enumerate() {
+                                    if i != 0 {
+                                        res.write_str(",")?;
+                                    }
                                     res.write_num(*reg)?;
                                 }
                             }
                             if let Some(i_regs) = reg.invalidate_regs {
                                 res.write_str(";invalidate-regs:")?;
-                                res.write_num(i_regs[0])?;
-                                for reg in i_regs.iter().skip(1) {
-                                    res.write_str(",")?;
+                                for (i, reg) in i_regs.iter().enumerate() {
+                                    if i != 0 {
+                                        res.write_str(",")?;
+                                    }
                                     res.write_num(*reg)?;
                                 }
                             }
-- 
2.43.0


From 8c3235c0fc7c9f7eff3397d03cdc1b34118bbdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 05/13] fix: keep multi-chunk memory reads contiguous and
 well-formed

A read longer than the packet buffer is done in several chunks. A short read of
one chunk was followed by the data of the next one (so GDB attributed bytes to
the wrong addresses), an error in a later chunk appended an error code to the
hex data already sent, and an address range running past the end of the address
space overflowed.
---
 src/stub/core_impl/base.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/stub/core_impl/base.rs b/src/stub/core_impl/base.rs
index b42e1f0..fbf6112 100644
--- a/src/stub/core_impl/base.rs
+++ b/src/stub/core_impl/base.rs
@@ -288,14 +288,20 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 let addr = <T::Arch as Arch>::Usize::from_be_bytes(cmd.addr)
                     .ok_or(Error::TargetMismatch)?;
 
-                let mut i = 0;
+                let mut i: usize = 0;
                 let mut n = cmd.len;
                 while n != 0 {
                     let chunk_size = n.min(buf.len());
 
+                    use num_traits::CheckedAdd;
                     use num_traits::NumCast;
 
-                    let addr = addr + NumCast::from(i).ok_or(Error::TargetMismatch)?;
+                    // the requested range runs past the end of the address space: reply with the
+                    // part which could be read
+                    let addr = match NumCast::from(i).and_then(|i| addr.checked_add(&i)) {
+                        Some(addr) => addr,
+                        None => break,
+                    };
                     let data = &mut buf[..chunk_size];
                     let data_len = match target.base_ops() {
                         BaseOps::SingleThread(ops) => ops.read_addrs(addr, data),
@@ -303,7 +309,14 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             ops.read_addrs(addr, data, self.current_mem_tid)
                         }
                     }
-                    .handle_error()?;
+                    .handle_error();
+
+                    let data_len = match data_len {
+                        // some data has already been sent: it's too late to report an error, but
+                        // the reply may be shorter than what was asked for
+                        Err(Error::NonFatalError(_)) if i != 0 => break,
+                        res => res?,
+                    };
 
                     n -= chunk_size;
                     i += chunk_size;
@@ -311,6 +324,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     // TODO: add more specific error variant?
                     let data = data.get(..data_len).ok_or(Error::PacketBufferOverflow)?;
                     res.write_hex_buf(data)?;
+
+                    // a short read: whatever follows wouldn't be contiguous
+                    if data_len < chunk_size {
+                        break;
+                    }
                 }
                 HandlerStatus::Handled
             }
-- 
2.43.0


From af3d987a8750d8bcb1548bf765a31c4e21749a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 06/13] fix: keep a deferred Ctrl-C stop reason across a
 further idle interrupt

interrupt_handled(None) is documented to return to the pre-interruption state,
but a stop reason deferred by an earlier Ctrl-C (also received while idle) was
dropped, so the next resume left the target running instead of reporting it.
---
 src/stub/state_machine.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/stub/state_machine.rs b/src/stub/state_machine.rs
index 4a41aaf..c3e0df7 100644
--- a/src/stub/state_machine.rs
+++ b/src/stub/state_machine.rs
@@ -44,6 +44,7 @@ use crate::protocol::ResponseWriter;
 use crate::stub::error::GdbStubError;
 use crate::stub::error::InternalError;
 use crate::stub::stop_reason::IntoStopReason;
+use crate::stub::stop_reason::MultiThreadStopReason;
 use crate::target::Target;
 use managed::ManagedSlice;
 
@@ -79,7 +80,6 @@ where
 // payloads, which are used when transitioning between states.
 pub mod state {
     use super::*;
-    use crate::stub::stop_reason::MultiThreadStopReason;
 
     // used internally when logging state transitions
     pub(crate) const MODULE_PATH: &str = concat!(module_path!(), "::");
@@ -169,6 +169,9 @@ struct GdbStubStateMachineReallyInner<'a, T: Target, C: Connection> {
     packet_buffer: ManagedSlice<'a, u8>,
     recv_packet: RecvPacketStateMachine,
     inner: GdbStubImpl<T, C>,
+    // stop reason deferred by an earlier Ctrl-C interrupt, kept while a further
+    // interrupt (which also arrived while idle) is being handled
+    pending_ctrlc_stop_reason: Option<MultiThreadStopReason<<T::Arch as Arch>::Usize>>,
 }
 
 /// Core state machine implementation that is parameterized by various
@@ -200,6 +203,7 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::Idle<T>,
                 packet_buffer: stub.packet_buffer,
                 recv_packet: RecvPacketStateMachine::new(),
                 inner: stub.inner,
+                pending_ctrlc_stop_reason: None,
             },
             state: state::Idle {
                 deferred_ctrlc_stop_reason: None,
@@ -239,9 +243,11 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::Idle<T>,
                     None => self.transition(state::Running {}).into(),
                 }
             }
-            State::CtrlCInterrupt => self
-                .transition(state::CtrlCInterrupt { from_idle: true })
-                .into(),
+            State::CtrlCInterrupt => {
+                self.i.pending_ctrlc_stop_reason = self.state.deferred_ctrlc_stop_reason.take();
+                self.transition(state::CtrlCInterrupt { from_idle: true })
+                    .into()
+            }
         })
     }
 }
@@ -326,15 +332,16 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::CtrlCInte
     ///   should send one of the stop reply packets (see Stop Reply Packets) to
     ///   GDB as a result of successfully stopping the program
     pub fn interrupt_handled(
-        self,
+        mut self,
         target: &mut T,
         stop_reason: Option<impl IntoStopReason<T>>,
     ) -> Result<GdbStubStateMachine<'a, T, C>, GdbStubError<T::Error, C::Error>> {
         if self.state.from_idle {
             // target is stopped - we cannot report the stop reason yet
+            let pending = self.i.pending_ctrlc_stop_reason.take();
             Ok(self
                 .transition(state::Idle {
-                    deferred_ctrlc_stop_reason: stop_reason.map(Into::into),
+                    deferred_ctrlc_stop_reason: stop_reason.map(Into::into).or(pending),
                 })
                 .into())
         } else {
-- 
2.43.0


From 3e3cf08d5d10db061ee4f2c917c140da91f45dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 07/13] fix: serialize AArch64 FPSR before FPCR, as the
 advertised description does

---
 gdbstub_arch/src/aarch64/reg/aarch64_core.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
index e72f596..0220415 100644
--- a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
+++ b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
@@ -48,15 +48,15 @@ impl Registers for AArch64CoreRegs {
         for reg in self.v.iter() {
             write_bytes!(reg);
         }
-        write_bytes!(self.fpcr);
         write_bytes!(self.fpsr);
+        write_bytes!(self.fpcr);
     }
 
     fn gdb_deserialize(&mut self, bytes: &[u8]) -> Result<(), ()> {
         const CPSR_OFF: usize = core::mem::size_of::<u64>() * 33;
         const FPSIMD_OFF: usize = CPSR_OFF + core::mem::size_of::<u32>();
-        const FPCR_OFF: usize = FPSIMD_OFF + core::mem::size_of::<u128>() * 32;
-        const END: usize = FPCR_OFF + core::mem::size_of::<u32>() * 2;
+        const FPSR_OFF: usize = FPSIMD_OFF + core::mem::size_of::<u128>() * 32;
+        const END: usize = FPSR_OFF + core::mem::size_of::<u32>() * 2;
 
         if bytes.len() < END {
             return Err(());
@@ -78,7 +78,7 @@ impl Registers for AArch64CoreRegs {
 
         self.cpsr = regs.next().ok_or(())?;
 
-        let mut regs = bytes[FPSIMD_OFF..FPCR_OFF]
+        let mut regs = bytes[FPSIMD_OFF..FPSR_OFF]
             .chunks_exact(core::mem::size_of::<u128>())
             .map(|c| u128::from_le_bytes(c.try_into().unwrap()));
 
@@ -86,12 +86,12 @@ impl Registers for AArch64CoreRegs {
             *reg = regs.next().ok_or(())?
         }
 
-        let mut regs = bytes[FPCR_OFF..]
+        let mut regs = bytes[FPSR_OFF..]
             .chunks_exact(core::mem::size_of::<u32>())
             .map(|c| u32::from_le_bytes(c.try_into().unwrap()));
 
-        self.fpcr = regs.next().ok_or(())?;
         self.fpsr = regs.next().ok_or(())?;
+        self.fpcr = regs.next().ok_or(())?;
 
         Ok(())
     }
-- 
2.43.0


From 0eea8b286a3cba13890f8ff17a1abcaf93cc2a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 08/13] fix: declare ARM FPA registers (f0-f7) as 12 bytes wide

---
 gdbstub_arch/src/arm/reg/id.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gdbstub_arch/src/arm/reg/id.rs b/gdbstub_arch/src/arm/reg/id.rs
index 10f7c26..0f017fa 100644
--- a/gdbstub_arch/src/arm/reg/id.rs
+++ b/gdbstub_arch/src/arm/reg/id.rs
@@ -33,6 +33,11 @@ impl RegId for ArmCoreRegId {
             25 => Self::Cpsr,
             _ => return None,
         };
-        Some((reg, Some(NonZeroUsize::new(4)?)))
+        let size = match reg {
+            // FPA registers are 96 bits wide
+            Self::Fpr(_) => 12,
+            _ => 4,
+        };
+        Some((reg, Some(NonZeroUsize::new(size)?)))
     }
 }
-- 
2.43.0


From 7eee8c64abc9c4043a51a81b252d49a07c28a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 09/13] fix: vRun dropped empty program arguments

---
 src/protocol/commands/_vRun.rs       | 11 ++++++-----
 src/protocol/common/lists.rs         | 15 ++++++++++-----
 src/stub/core_impl/catch_syscalls.rs |  1 +
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/protocol/commands/_vRun.rs b/src/protocol/commands/_vRun.rs
index a4b619d..a7ca803 100644
--- a/src/protocol/commands/_vRun.rs
+++ b/src/protocol/commands/_vRun.rs
@@ -19,12 +19,13 @@ impl<'a> ParseCommand<'a> for vRun<'a> {
             [] => None,
             s => Some(s as &[u8]),
         };
-        let args = body.next().unwrap_or(&mut []); // args are optional
+        // args are optional
+        let args = match body.next() {
+            Some(args) => ArgListHex::from_packet(args)?,
+            None => ArgListHex::empty(),
+        };
 
-        Some(vRun {
-            filename,
-            args: ArgListHex::from_packet(args)?,
-        })
+        Some(vRun { filename, args })
     }
 }
 
diff --git a/src/protocol/common/lists.rs b/src/protocol/common/lists.rs
index 1f2bc88..7871a34 100644
--- a/src/protocol/common/lists.rs
+++ b/src/protocol/common/lists.rs
@@ -1,27 +1,32 @@
 use crate::protocol::common::hex::decode_hex_buf;
 use crate::protocol::common::hex::is_hex;
 
-/// A wrapper type around a list of hex encoded arguments separated by `;`.
+/// A wrapper type around a list of (possibly empty) hex encoded arguments
+/// separated by `;`.
 #[derive(Debug)]
-pub struct ArgListHex<'a>(&'a mut [u8]);
+pub struct ArgListHex<'a>(Option<&'a mut [u8]>);
 
 impl<'a> ArgListHex<'a> {
+    pub fn empty() -> Self {
+        Self(None)
+    }
+
     pub fn from_packet(args: &'a mut [u8]) -> Option<Self> {
         // validate that args have valid hex encoding (with ';' delimiters).
         // this removes all the error handling from the lazy `Args` iterator.
         if args.iter().any(|b| !(is_hex(*b) || *b == b';')) {
             return None;
         }
-        Some(Self(args))
+        Some(Self(Some(args)))
     }
 
     pub fn into_iter(self) -> impl Iterator<Item = &'a [u8]> + 'a {
         self.0
-            .split_mut(|b| *b == b';')
+            .into_iter()
+            .flat_map(|args| args.split_mut(|b| *b == b';'))
             // the `from_packet` method guarantees that the args are valid hex ascii, so this should
             // method should never fail.
             .map(|raw| decode_hex_buf(raw).unwrap_or(&mut []))
             .map(|s| s as &[u8])
-            .filter(|s| !s.is_empty())
     }
 }
diff --git a/src/stub/core_impl/catch_syscalls.rs b/src/stub/core_impl/catch_syscalls.rs
index 7f38222..7656754 100644
--- a/src/stub/core_impl/catch_syscalls.rs
+++ b/src/stub/core_impl/catch_syscalls.rs
@@ -26,6 +26,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         let mut error = false;
                         let mut filter = sysno
                             .into_iter()
+                            .filter(|sysno| !sysno.is_empty())
                             .map(<T::Arch as Arch>::Usize::from_be_bytes)
                             .take_while(|x| {
                                 error = x.is_none();
-- 
2.43.0


From 0c20f2d22b98216d2f9283b72c32ef6a3f588815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 10/13] fix: report a failing write of a trace frame
 description

---
 src/stub/core_impl/tracepoints.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 6ad0dc1..cc25663 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -555,6 +555,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     }
                 })
                 .handle_error()?;
+                err?;
                 if !any_results {
                     res.write_str("F-1")?;
                 }
-- 
2.43.0


From e638a738ca399462695e8cd93b2d449450113d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 11/13] fix: keep an earlier write error of a trace buffer
 reply

---
 src/stub/core_impl/tracepoints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index cc25663..92185ee 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -505,7 +505,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 ops.trace_buffer_request(offset, length, &mut |data| {
                     if let Err(e) = res.write_hex_buf(data) {
                         wrote = Err(e.into())
-                    } else {
+                    } else if wrote.is_ok() {
                         wrote = Ok(true)
                     }
                 })
-- 
2.43.0


From 301c9a8b77cf1fe7b645f3f29032215aa95c46f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 12/13] fix: report a failing write of an architecture's
 register info

---
 src/stub/core_impl/lldb_register_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index 20f5b9c..8d1414e 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -128,13 +128,13 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         },
                     )
                     .map_err(Error::TargetError)?;
-                    err?;
                 } else if let Some(reg) = T::Arch::lldb_register_info(cmd.reg_id) {
                     match reg {
                         LLDBRegisterInfo::Register(reg) => cb(Some(reg)),
                         LLDBRegisterInfo::Done => cb(None),
                     };
                 }
+                err?;
                 HandlerStatus::Handled
             }
         };
-- 
2.43.0


From b64153f0da07bcf6ec8d65cb2eb1648dc30c745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 13/13] fix: leave sockets blocking after peeking

---
 src/conn/impls/tcpstream.rs  | 7 ++++++-
 src/conn/impls/unixstream.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/conn/impls/tcpstream.rs b/src/conn/impls/tcpstream.rs
index 512a15d..ff12192 100644
--- a/src/conn/impls/tcpstream.rs
+++ b/src/conn/impls/tcpstream.rs
@@ -46,7 +46,12 @@ impl ConnectionExt for TcpStream {
         self.set_nonblocking(true)?;
 
         let mut buf = [0u8];
-        match Self::peek(self, &mut buf) {
+        let res = Self::peek(self, &mut buf);
+
+        // writes must still block after peeking
+        self.set_nonblocking(false)?;
+
+        match res {
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
diff --git a/src/conn/impls/unixstream.rs b/src/conn/impls/unixstream.rs
index 575cc4e..369111e 100644
--- a/src/conn/impls/unixstream.rs
+++ b/src/conn/impls/unixstream.rs
@@ -93,7 +93,12 @@ impl ConnectionExt for UnixStream {
         self.set_nonblocking(true)?;
 
         let mut buf = [0u8];
-        match PeekExt::peek(self, &mut buf) {
+        let res = PeekExt::peek(self, &mut buf);
+
+        // writes must still block after peeking
+        self.set_nonblocking(false)?;
+
+        match res {
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
-- 
2.43.0

