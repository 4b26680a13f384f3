From 6cc26b1ddf86a3db1ddff867aab03520babf3910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 01/28] fix: disable every unused CPU memory channel

Channel 2 of most pushing instructions, channel 0 of the row after a push, and
the partial channel of context operations and padding rows were left free, so
that a row could perform memory writes its instruction does not have.
---
 evm_arithmetization/src/cpu/contextops.rs |  5 +++++
 evm_arithmetization/src/cpu/halt.rs       |  5 +++++
 evm_arithmetization/src/cpu/stack.rs      | 23 ++++++++++++++++-------
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/evm_arithmetization/src/cpu/contextops.rs b/evm_arithmetization/src/cpu/contextops.rs
index 11ffe0d..0470dba 100644
--- a/evm_arithmetization/src/cpu/contextops.rs
+++ b/evm_arithmetization/src/cpu/contextops.rs
@@ -288,6 +288,7 @@ pub(crate) fn eval_packed<P: PackedField>(
     // we can constrain both at the same time.
     let filter = lv.op.context_op;
     let channel = lv.mem_channels[2];
+    yield_constr.constraint(filter * lv.partial_channel.used);
     // For get_context, we check if lv.stack_len is 0. For set_context, we check if
     // nv.stack_len is 0. However, for get_context, we can deduce lv.stack_len
     // from nv.stack_len since the operation only pushes.
@@ -330,6 +331,10 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
     // we can constrain both at the same time.
     let filter = lv.op.context_op;
     let channel = lv.mem_channels[2];
+    {
+        let constr = builder.mul_extension(filter, lv.partial_channel.used);
+        yield_constr.constraint(builder, constr);
+    }
     // For get_context, we check if lv.stack_len is 0. For set_context, we check if
     // nv.stack_len is 0. However, for get_context, we can deduce lv.stack_len
     // from nv.stack_len since the operation only pushes.
diff --git a/evm_arithmetization/src/cpu/halt.rs b/evm_arithmetization/src/cpu/halt.rs
index 32e46fc..25f17c4 100644
--- a/evm_arithmetization/src/cpu/halt.rs
+++ b/evm_arithmetization/src/cpu/halt.rs
@@ -36,6 +36,7 @@ pub(crate) fn eval_packed<P: PackedField>(
         let channel = lv.mem_channels[i];
         yield_constr.constraint(halt_state * channel.used);
     }
+    yield_constr.constraint(halt_state * lv.partial_channel.used);
 
     // The last row must be a dummy padding row.
     yield_constr.constraint_last_row(halt_state - P::ONES);
@@ -81,6 +82,10 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(halt_state, channel.used);
         yield_constr.constraint(builder, constr);
     }
+    {
+        let constr = builder.mul_extension(halt_state, lv.partial_channel.used);
+        yield_constr.constraint(builder, constr);
+    }
 
     // The last row must be a dummy padding row.
     {
diff --git a/evm_arithmetization/src/cpu/stack.rs b/evm_arithmetization/src/cpu/stack.rs
index e5b1682..f619ca7 100644
--- a/evm_arithmetization/src/cpu/stack.rs
+++ b/evm_arithmetization/src/cpu/stack.rs
@@ -123,8 +123,8 @@ pub(crate) const POSEIDON_GENERAL_OP: StackBehavior = StackBehavior {
 // checked to ensure that every general-purpose memory channel is either
 // disabled or has its read flag and address properly constrained. The same
 // applies  when `disable_other_channels` is set to `false`, except the first
-// `num_pops` and the last `pushes as usize` channels have their read flag and
-// address constrained automatically in this file.
+// `num_pops` channels have their read flag and address constrained automatically
+// in this file.
 pub(crate) const STACK_BEHAVIORS: OpsColumnsView<Option<StackBehavior>> = OpsColumnsView {
     binary_op: BASIC_BINARY_OP,
     ternary_op: BASIC_TERNARY_OP,
@@ -156,7 +156,7 @@ pub(crate) const STACK_BEHAVIORS: OpsColumnsView<Option<StackBehavior>> = OpsCol
     m_op_32bytes: Some(StackBehavior {
         num_pops: 2,
         pushes: true,
-        disable_other_channels: false,
+        disable_other_channels: true,
     }),
     exit_kernel: Some(StackBehavior {
         num_pops: 1,
@@ -299,13 +299,17 @@ pub(crate) fn eval_packed_one<P: PackedField>(
     if stack_behavior.disable_other_channels {
         // The first channel contains (or not) the top of the stack and is constrained
         // elsewhere.
-        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS - (stack_behavior.pushes as usize)
-        {
+        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS {
             let channel = lv.mem_channels[i];
             yield_constr.constraint(filter * channel.used);
         }
     }
 
+    // If the op pushes, the new top of the stack isn't read from memory.
+    if stack_behavior.pushes {
+        yield_constr.constraint(filter * nv.mem_channels[0].used);
+    }
+
     // Constrain new stack length.
     let num_pops = P::Scalar::from_canonical_usize(stack_behavior.num_pops);
     let push = P::Scalar::from_canonical_usize(stack_behavior.pushes as usize);
@@ -616,14 +620,19 @@ pub(crate) fn eval_ext_circuit_one<F: RichField + Extendable<D>, const D: usize>
     if stack_behavior.disable_other_channels {
         // The first channel contains (or not) the top of the stack and is constrained
         // elsewhere.
-        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS - (stack_behavior.pushes as usize)
-        {
+        for i in max(1, stack_behavior.num_pops)..NUM_GP_CHANNELS {
             let channel = lv.mem_channels[i];
             let constr = builder.mul_extension(filter, channel.used);
             yield_constr.constraint(builder, constr);
         }
     }
 
+    // If the op pushes, the new top of the stack isn't read from memory.
+    if stack_behavior.pushes {
+        let constr = builder.mul_extension(filter, nv.mem_channels[0].used);
+        yield_constr.constraint(builder, constr);
+    }
+
     // Constrain new stack length.
     let diff = builder.constant_extension(
         F::Extension::from_canonical_usize(stack_behavior.num_pops)
-- 
2.43.0


From fe9c7217ba39e2e5dfd67f810d87fb656fe20c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 02/28] fix: constrain the stack of POP, MSTORE_GENERAL,
 GET_CONTEXT and SET_CONTEXT

With stack_inv = 0 the read of the new stack top (or GET_CONTEXT's write of
the old one) could be skipped on a nonempty stack, and nothing constrained the
stack length after MSTORE_GENERAL.
---
 evm_arithmetization/src/cpu/contextops.rs |  9 +++++++++
 evm_arithmetization/src/cpu/memio.rs      | 20 ++++++++++++++++++++
 evm_arithmetization/src/cpu/stack.rs      |  9 +++++++++
 3 files changed, 38 insertions(+)

diff --git a/evm_arithmetization/src/cpu/contextops.rs b/evm_arithmetization/src/cpu/contextops.rs
index 0470dba..92ee014 100644
--- a/evm_arithmetization/src/cpu/contextops.rs
+++ b/evm_arithmetization/src/cpu/contextops.rs
@@ -297,6 +297,7 @@ pub(crate) fn eval_packed<P: PackedField>(
     yield_constr.constraint(
         filter * (stack_len * lv.general.stack().stack_inv - lv.general.stack().stack_inv_aux),
     );
+    yield_constr.constraint(filter * stack_len * (lv.general.stack().stack_inv_aux - P::ONES));
     // Enable or disable the channel.
     yield_constr.constraint(filter * (lv.general.stack().stack_inv_aux - channel.used));
     let new_filter = filter * lv.general.stack().stack_inv_aux;
@@ -349,6 +350,14 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         );
         let constr = builder.mul_extension(filter, diff);
         yield_constr.constraint(builder, constr);
+
+        let nonempty_filter = builder.mul_extension(filter, stack_len);
+        let constr = builder.mul_sub_extension(
+            nonempty_filter,
+            lv.general.stack().stack_inv_aux,
+            nonempty_filter,
+        );
+        yield_constr.constraint(builder, constr);
     }
     // Enable or disable the channel.
     {
diff --git a/evm_arithmetization/src/cpu/memio.rs b/evm_arithmetization/src/cpu/memio.rs
index b68f78b..ae1404a 100644
--- a/evm_arithmetization/src/cpu/memio.rs
+++ b/evm_arithmetization/src/cpu/memio.rs
@@ -182,6 +182,9 @@ fn eval_packed_store<P: PackedField>(
         lv.op.m_op_general
             * (len_diff * lv.general.stack().stack_inv - lv.general.stack().stack_inv_aux),
     );
+    // `stack_inv_aux` is 1 if stack_len != 2.
+    yield_constr
+        .constraint(lv.op.m_op_general * len_diff * (lv.general.stack().stack_inv_aux - P::ONES));
     // If stack_len != 2 and MSTORE, read new top of the stack in
     // nv.mem_channels[0].
     let top_read_channel = nv.mem_channels[0];
@@ -205,6 +208,10 @@ fn eval_packed_store<P: PackedField>(
         lv.op.m_op_general * (lv.general.stack().stack_inv_aux - P::ONES) * top_read_channel.used,
     );
     yield_constr.constraint(lv.op.m_op_general * lv.opcode_bits[0] * top_read_channel.used);
+    // Constrain the new stack length.
+    yield_constr.constraint_transition(
+        filter * (nv.stack_len - lv.stack_len + P::Scalar::from_canonical_usize(2)),
+    );
 }
 
 /// Circuit version of `eval_packed_store`.
@@ -293,6 +300,12 @@ fn eval_ext_circuit_store<F: RichField + Extendable<D>, const D: usize>(
         );
         let constr = builder.mul_extension(lv.op.m_op_general, diff);
         yield_constr.constraint(builder, constr);
+
+        // `stack_inv_aux` is 1 if stack_len != 2.
+        let filter = builder.mul_extension(lv.op.m_op_general, len_diff);
+        let constr =
+            builder.mul_sub_extension(filter, lv.general.stack().stack_inv_aux, filter);
+        yield_constr.constraint(builder, constr);
     }
     // If stack_len != 2 and MSTORE, read new top of the stack in
     // nv.mem_channels[0].
@@ -349,6 +362,13 @@ fn eval_ext_circuit_store<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(mul, top_read_channel.used);
         yield_constr.constraint(builder, constr);
     }
+    // Constrain the new stack length.
+    {
+        let diff = builder.sub_extension(nv.stack_len, lv.stack_len);
+        let diff = builder.add_const_extension(diff, F::TWO);
+        let constr = builder.mul_extension(filter, diff);
+        yield_constr.constraint_transition(builder, constr);
+    }
 }
 
 /// Evaluates constraints for MLOAD_GENERAL and MSTORE_GENERAL.
diff --git a/evm_arithmetization/src/cpu/stack.rs b/evm_arithmetization/src/cpu/stack.rs
index f619ca7..0dbf570 100644
--- a/evm_arithmetization/src/cpu/stack.rs
+++ b/evm_arithmetization/src/cpu/stack.rs
@@ -381,6 +381,9 @@ pub(crate) fn eval_packed<P: PackedField>(
         lv.op.not_pop
             * (len_diff * lv.general.stack().stack_inv - lv.general.stack().stack_inv_aux),
     );
+    // `stack_inv_aux` is 1 if stack_len != 1.
+    yield_constr
+        .constraint(lv.op.not_pop * len_diff * (lv.general.stack().stack_inv_aux - P::ONES));
 
     // If stack_len != 1 and POP, read new top of the stack in nv.mem_channels[0].
     let top_read_channel = nv.mem_channels[0];
@@ -729,6 +732,12 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         );
         let constr = builder.mul_extension(lv.op.not_pop, diff);
         yield_constr.constraint(builder, constr);
+
+        // `stack_inv_aux` is 1 if stack_len != 1.
+        let filter = builder.mul_extension(lv.op.not_pop, len_diff);
+        let constr =
+            builder.mul_sub_extension(filter, lv.general.stack().stack_inv_aux, filter);
+        yield_constr.constraint(builder, constr);
     }
     // If stack_len != 4 and MSTORE, read new top of the stack in
     // nv.mem_channels[0].
-- 
2.43.0


From 5ca6873a9f0f7dd4d4976edc46d057eea23da0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 03/28] fix: constrain JUMPI's condition read and the mode
 after jumps

The condition of a JUMPI was not read from the stack, and the privilege level
of the row after a jump was free.
---
 evm_arithmetization/src/cpu/jumps.rs | 47 ++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/evm_arithmetization/src/cpu/jumps.rs b/evm_arithmetization/src/cpu/jumps.rs
index c100c4f..273089d 100644
--- a/evm_arithmetization/src/cpu/jumps.rs
+++ b/evm_arithmetization/src/cpu/jumps.rs
@@ -158,6 +158,19 @@ pub(crate) fn eval_packed_jump_jumpi<P: PackedField>(
     // Channel 1 is unused by the `JUMP` instruction.
     yield_constr.constraint(is_jump * lv.mem_channels[1].used);
 
+    // Channel 1 reads the condition of the `JUMPI` instruction from the stack.
+    let cond_channel = lv.mem_channels[1];
+    yield_constr.constraint(is_jumpi * (cond_channel.used - P::ONES));
+    yield_constr.constraint(is_jumpi * (cond_channel.is_read - P::ONES));
+    yield_constr.constraint(is_jumpi * (cond_channel.addr_context - lv.context));
+    yield_constr.constraint(
+        is_jumpi
+            * (cond_channel.addr_segment
+                - P::Scalar::from_canonical_usize(Segment::Stack.unscale())),
+    );
+    let cond_addr_virtual = lv.stack_len - P::Scalar::from_canonical_usize(2);
+    yield_constr.constraint(is_jumpi * (cond_channel.addr_virtual - cond_addr_virtual));
+
     // Update stack length.
     yield_constr.constraint_transition(is_jump * (nv.stack_len - lv.stack_len + P::ONES));
     yield_constr.constraint_transition(
@@ -172,6 +185,9 @@ pub(crate) fn eval_packed_jump_jumpi<P: PackedField>(
     );
     yield_constr
         .constraint_transition(filter * jumps_lv.should_jump * (nv.program_counter - jump_dest));
+
+    // Jumps don't change the privilege level.
+    yield_constr.constraint_transition(filter * (nv.is_kernel_mode - lv.is_kernel_mode));
 }
 
 /// Circuit version of `eval_packed_jumpi_jumpi`.
@@ -355,6 +371,30 @@ pub(crate) fn eval_ext_circuit_jump_jumpi<F: RichField + Extendable<D>, const D:
         yield_constr.constraint(builder, constr);
     }
 
+    // Channel 1 reads the condition of the `JUMPI` instruction from the stack.
+    {
+        let cond_channel = lv.mem_channels[1];
+        let constr = builder.mul_sub_extension(is_jumpi, cond_channel.used, is_jumpi);
+        yield_constr.constraint(builder, constr);
+        let constr = builder.mul_sub_extension(is_jumpi, cond_channel.is_read, is_jumpi);
+        yield_constr.constraint(builder, constr);
+        let diff = builder.sub_extension(cond_channel.addr_context, lv.context);
+        let constr = builder.mul_extension(is_jumpi, diff);
+        yield_constr.constraint(builder, constr);
+        let constr = builder.arithmetic_extension(
+            F::ONE,
+            -F::from_canonical_usize(Segment::Stack.unscale()),
+            is_jumpi,
+            cond_channel.addr_segment,
+            is_jumpi,
+        );
+        yield_constr.constraint(builder, constr);
+        let diff = builder.sub_extension(cond_channel.addr_virtual, lv.stack_len);
+        let diff = builder.add_const_extension(diff, F::TWO);
+        let constr = builder.mul_extension(is_jumpi, diff);
+        yield_constr.constraint(builder, constr);
+    }
+
     // Update stack length.
     {
         let diff = builder.sub_extension(nv.stack_len, lv.stack_len);
@@ -383,6 +423,13 @@ pub(crate) fn eval_ext_circuit_jump_jumpi<F: RichField + Extendable<D>, const D:
         let constr = builder.mul_extension(constr_a, constr_b);
         yield_constr.constraint_transition(builder, constr);
     }
+
+    // Jumps don't change the privilege level.
+    {
+        let diff = builder.sub_extension(nv.is_kernel_mode, lv.is_kernel_mode);
+        let constr = builder.mul_extension(filter, diff);
+        yield_constr.constraint_transition(builder, constr);
+    }
 }
 
 /// Evaluates constraints for EXIT_KERNEL, JUMP and JUMPI.
-- 
2.43.0


From d1328202655a2715b4985b5b252fdb2c53df11ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 04/28] fix: constrain the program counter and mode after PUSH
 and 32-byte memory operations

Both were free in the row after a PUSHn, MLOAD_32BYTES or MSTORE_32BYTES_n.
---
 evm_arithmetization/src/cpu/control_flow.rs | 37 ++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/evm_arithmetization/src/cpu/control_flow.rs b/evm_arithmetization/src/cpu/control_flow.rs
index 0aa1a30..74d178a 100644
--- a/evm_arithmetization/src/cpu/control_flow.rs
+++ b/evm_arithmetization/src/cpu/control_flow.rs
@@ -8,7 +8,7 @@ use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsume
 use crate::cpu::columns::{CpuColumnsView, COL_MAP};
 use crate::cpu::kernel::aggregator::KERNEL;
 
-const NATIVE_INST_LEN: usize = if cfg!(feature = "cdk_erigon") { 13 } else { 12 };
+const NATIVE_INST_LEN: usize = if cfg!(feature = "cdk_erigon") { 14 } else { 13 };
 
 const NATIVE_INSTRUCTIONS: [usize; NATIVE_INST_LEN] = [
     COL_MAP.op.binary_op,
@@ -24,9 +24,10 @@ const NATIVE_INSTRUCTIONS: [usize; NATIVE_INST_LEN] = [
     // Not PROVER_INPUT: it is dealt with manually below.
     // not JUMPS (possible need to jump)
     COL_MAP.op.pc_push0,
-    // not PUSH (need to increment by more than 1)
+    // not PUSH (need to increment by more than 1): it is dealt with manually below.
     COL_MAP.op.dup_swap,
     COL_MAP.op.context_op,
+    COL_MAP.op.m_op_32bytes,
     // not EXIT_KERNEL (performs a jump)
     COL_MAP.op.m_op_general,
     // not SYSCALL (performs a jump)
@@ -80,7 +81,23 @@ pub(crate) fn eval_packed_generic<P: PackedField>(
     yield_constr.constraint_transition(
         is_prover_input * (lv.program_counter - nv.program_counter + P::ONES),
     );
-    yield_constr.constraint_transition(is_prover_input * (lv.is_kernel_mode - nv.is_kernel_mode));
+
+    // A PUSH skips the bytes it pushes: their number is encoded, minus 1, in the 5
+    // low bits of the opcode.
+    let is_push = lv.op.push_prover_input * (P::ONES - lv.opcode_bits[7]);
+    let push_len_minus_one: P = lv.opcode_bits[..5]
+        .iter()
+        .enumerate()
+        .map(|(i, &bit)| bit * P::Scalar::from_canonical_u64(1 << i))
+        .sum();
+    yield_constr.constraint_transition(
+        is_push * (lv.program_counter - nv.program_counter + push_len_minus_one + P::Scalar::TWO),
+    );
+
+    // Neither of them changes the privilege level.
+    yield_constr.constraint_transition(
+        lv.op.push_prover_input * (lv.is_kernel_mode - nv.is_kernel_mode),
+    );
 
     // Check the helper value in the general columns. We do not need to enforce that
     // it is set to 0 if the operation is a `PROVER_INPUT`, as the latter is a
@@ -143,7 +160,19 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         let is_prover_input = builder.mul_extension(lv.op.push_prover_input, lv.opcode_bits[7]);
         let pc_constr = builder.mul_add_extension(is_prover_input, pc_diff, is_prover_input);
         yield_constr.constraint_transition(builder, pc_constr);
-        let kernel_constr = builder.mul_extension(is_prover_input, kernel_diff);
+
+        // A PUSH skips the bytes it pushes.
+        let is_push = builder.sub_extension(lv.op.push_prover_input, is_prover_input);
+        let mut push_diff = builder.add_const_extension(pc_diff, F::TWO);
+        for (i, &bit) in lv.opcode_bits[..5].iter().enumerate() {
+            push_diff =
+                builder.mul_const_add_extension(F::from_canonical_u64(1 << i), bit, push_diff);
+        }
+        let pc_constr = builder.mul_extension(is_push, push_diff);
+        yield_constr.constraint_transition(builder, pc_constr);
+
+        // Neither of them changes the privilege level.
+        let kernel_constr = builder.mul_extension(lv.op.push_prover_input, kernel_diff);
         yield_constr.constraint_transition(builder, kernel_constr);
     }
 
-- 
2.43.0


From 7730a59645678b466e12844b084682e3ff95747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 05/28] fix: constrain the first CPU row

Its program counter, privilege level, context, stack length, gas and stack top
channel were free: execution could start anywhere.
---
 evm_arithmetization/src/cpu/control_flow.rs | 25 +++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/evm_arithmetization/src/cpu/control_flow.rs b/evm_arithmetization/src/cpu/control_flow.rs
index 74d178a..9a6981a 100644
--- a/evm_arithmetization/src/cpu/control_flow.rs
+++ b/evm_arithmetization/src/cpu/control_flow.rs
@@ -106,6 +106,16 @@ pub(crate) fn eval_packed_generic<P: PackedField>(
         lv.op.push_prover_input * ((lv.is_kernel_mode + lv.general.push().is_not_kernel) - P::ONES),
     );
 
+    // The first row starts at `init`, in kernel mode, in the kernel context, with
+    // an empty stack and no gas used.
+    yield_constr.constraint_first_row(lv.program_counter - get_start_pc::<P::Scalar>());
+    yield_constr.constraint_first_row(lv.is_kernel_mode - P::ONES);
+    yield_constr.constraint_first_row(lv.context);
+    yield_constr.constraint_first_row(lv.stack_len);
+    yield_constr.constraint_first_row(lv.gas);
+    // There is no previous row to constrain the channel of the stack top.
+    yield_constr.constraint_first_row(lv.mem_channels[0].used);
+
     // If a non-CPU cycle row is followed by a CPU cycle row, then:
     //  - the `program_counter` of the CPU cycle row is `main` (the entry point of
     //    our kernel),
@@ -186,6 +196,21 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         yield_constr.constraint(builder, constr);
     }
 
+    // The first row starts at `init`, in kernel mode, in the kernel context, with
+    // an empty stack and no gas used.
+    {
+        let init = builder.constant_extension(get_start_pc::<F>().into());
+        let pc_diff = builder.sub_extension(lv.program_counter, init);
+        yield_constr.constraint_first_row(builder, pc_diff);
+        let kernel_diff = builder.sub_extension(lv.is_kernel_mode, one);
+        yield_constr.constraint_first_row(builder, kernel_diff);
+        yield_constr.constraint_first_row(builder, lv.context);
+        yield_constr.constraint_first_row(builder, lv.stack_len);
+        yield_constr.constraint_first_row(builder, lv.gas);
+        // There is no previous row to constrain the channel of the stack top.
+        yield_constr.constraint_first_row(builder, lv.mem_channels[0].used);
+    }
+
     // If a non-CPU cycle row is followed by a CPU cycle row, then:
     //  - the `program_counter` of the CPU cycle row is `main` (the entry point of
     //    our kernel),
-- 
2.43.0


From 09e94e27f60921b6fcd3b3656400ecfd6ae181fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 06/28] fix: bind the kind of operation in the arithmetic
 lookup

A range-check row answers with any opcode, so it could stand in for any
arithmetic operation with a free result, and nothing tied an arithmetic
opcode to the operation flag it is decoded to (an ADD could be executed as a
ternary operation, or ADDFP254 as a binary one in user mode).
---
 .../src/arithmetic/arithmetic_stark.rs        | 40 +++++++++++++++----
 evm_arithmetization/src/cpu/cpu_stark.rs      | 12 ++++++
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
index 2b7eb25..6da4d06 100644
--- a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
+++ b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
@@ -25,22 +25,26 @@ use crate::arithmetic::{addcy, byte, columns, divmod, modular, mul, Operation};
 /// Creates a vector of `Columns` to link the 16-bit columns of the arithmetic
 /// table, split into groups of N_LIMBS at a time in `regs`, with the
 /// corresponding 32-bit columns of the CPU table. Does this for all ops in
-/// `ops`.
+/// `ops`. The first two columns are the opcode and the kind of the operation.
 ///
 /// This is done by taking pairs of columns (x, y) of the arithmetic
 /// table and combining them as x + y*2^16 to ensure they equal the
 /// corresponding 32-bit number in the CPU table.
 fn cpu_arith_data_link<F: Field>(
     combined_ops: &[(usize, u8)],
+    op_kinds: &[(usize, u8)],
     regs: &[Range<usize>],
 ) -> Vec<Column<F>> {
     let limb_base = F::from_canonical_u64(1 << columns::LIMB_BITS);
 
-    let mut res = vec![Column::linear_combination(
-        combined_ops
-            .iter()
-            .map(|&(col, code)| (col, F::from_canonical_u8(code))),
-    )];
+    let combine = |coeffs: &[(usize, u8)]| {
+        Column::linear_combination(
+            coeffs
+                .iter()
+                .map(|&(col, coeff)| (col, F::from_canonical_u8(coeff))),
+        )
+    };
+    let mut res = vec![combine(combined_ops), combine(op_kinds)];
 
     // The inner for loop below assumes N_LIMBS is even.
     const_assert!(columns::N_LIMBS % 2 == 0);
@@ -90,6 +94,28 @@ pub(crate) fn ctl_arithmetic_rows<F: Field>() -> TableWithColumns<F> {
         (columns::IS_SHR, 0x1c),
     ];
 
+    // The kind of each operation on the CPU side: 1 for a binary, 2 for a ternary,
+    // 3 for an fp254 and 4 for a shift operation, 5 for a range check.
+    const OP_KINDS: [(usize, u8); 17] = [
+        (columns::IS_ADD, 1),
+        (columns::IS_MUL, 1),
+        (columns::IS_SUB, 1),
+        (columns::IS_DIV, 1),
+        (columns::IS_MOD, 1),
+        (columns::IS_LT, 1),
+        (columns::IS_GT, 1),
+        (columns::IS_BYTE, 1),
+        (columns::IS_ADDMOD, 2),
+        (columns::IS_MULMOD, 2),
+        (columns::IS_SUBMOD, 2),
+        (columns::IS_ADDFP254, 3),
+        (columns::IS_MULFP254, 3),
+        (columns::IS_SUBFP254, 3),
+        (columns::IS_SHL, 4),
+        (columns::IS_SHR, 4),
+        (columns::IS_RANGE_CHECK, 5),
+    ];
+
     const REGISTER_MAP: [Range<usize>; 4] = [
         columns::INPUT_REGISTER_0,
         columns::INPUT_REGISTER_1,
@@ -111,7 +137,7 @@ pub(crate) fn ctl_arithmetic_rows<F: Field>() -> TableWithColumns<F> {
     // is used as the operation filter).
     TableWithColumns::new(
         *Table::Arithmetic,
-        cpu_arith_data_link(&all_combined_cols, &REGISTER_MAP),
+        cpu_arith_data_link(&all_combined_cols, &OP_KINDS, &REGISTER_MAP),
         filter,
     )
 }
diff --git a/evm_arithmetization/src/cpu/cpu_stark.rs b/evm_arithmetization/src/cpu/cpu_stark.rs
index a0dd45e..755b065 100644
--- a/evm_arithmetization/src/cpu/cpu_stark.rs
+++ b/evm_arithmetization/src/cpu/cpu_stark.rs
@@ -107,6 +107,18 @@ pub(crate) fn ctl_arithmetic_base_rows<F: Field>() -> TableWithColumns<F> {
     // Instead of taking single columns, we reconstruct the entire opcode value
     // directly.
     let mut columns = vec![Column::le_bits(COL_MAP.opcode_bits)];
+    // The kind of the operation (see `ctl_arithmetic_rows`): an opcode must be
+    // answered by an operation with the operands its flag stands for, and only a
+    // range check may be answered by a range check row.
+    columns.push(Column::linear_combination([
+        (COL_MAP.op.binary_op, F::ONE),
+        (COL_MAP.op.ternary_op, F::TWO),
+        (COL_MAP.op.fp254_op, F::from_canonical_u8(3)),
+        (COL_MAP.op.shift, F::from_canonical_u8(4)),
+        (COL_MAP.op.push_prover_input, F::from_canonical_u8(5)),
+        (COL_MAP.op.syscall, F::from_canonical_u8(5)),
+        (COL_MAP.op.exception, F::from_canonical_u8(5)),
+    ]));
     columns.extend(ctl_data_ternops());
     // Create the CPU Table whose columns are those with the three
     // inputs and one output of the ternary operations listed in `ops`
-- 
2.43.0


From bbcc2439c9773bbd744321fc2e91cf7b01daac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 07/28] fix: constrain the value GET_CONTEXT writes back to the
 stack

The old stack top is written to memory, but the value written was free.
---
 evm_arithmetization/src/cpu/contextops.rs | 33 +++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/evm_arithmetization/src/cpu/contextops.rs b/evm_arithmetization/src/cpu/contextops.rs
index 92ee014..cee447d 100644
--- a/evm_arithmetization/src/cpu/contextops.rs
+++ b/evm_arithmetization/src/cpu/contextops.rs
@@ -94,6 +94,19 @@ fn eval_packed_get<P: PackedField>(
     // We cannot prune a context in GET_CONTEXT.
     yield_constr.constraint(filter * lv.general.context_pruning().pruning_flag);
 
+    // The old top is written with memory channel 2, if the stack wasn't empty (see
+    // eval_packed). As `stack_inv_aux_2 = stack_inv_aux * opcode_bits[0]`, the
+    // filter is 0 for SET_CONTEXT.
+    let nonempty_filter = lv.op.context_op
+        * (lv.general.stack().stack_inv_aux - lv.general.stack().stack_inv_aux_2);
+    for (&limb_old_top, &limb_write) in lv.mem_channels[0]
+        .value
+        .iter()
+        .zip(lv.mem_channels[2].value.iter())
+    {
+        yield_constr.constraint(nonempty_filter * (limb_write - limb_old_top));
+    }
+
     // Constrain new stack length.
     yield_constr.constraint(filter * (nv.stack_len - (lv.stack_len + P::ONES)));
 
@@ -130,6 +143,26 @@ fn eval_ext_circuit_get<F: RichField + Extendable<D>, const D: usize>(
     let constr = builder.mul_extension(filter, lv.general.context_pruning().pruning_flag);
     yield_constr.constraint(builder, constr);
 
+    // The old top is written with memory channel 2, if the stack wasn't empty (see
+    // eval_packed). As `stack_inv_aux_2 = stack_inv_aux * opcode_bits[0]`, the
+    // filter is 0 for SET_CONTEXT.
+    {
+        let diff = builder.sub_extension(
+            lv.general.stack().stack_inv_aux,
+            lv.general.stack().stack_inv_aux_2,
+        );
+        let nonempty_filter = builder.mul_extension(lv.op.context_op, diff);
+        for (&limb_old_top, &limb_write) in lv.mem_channels[0]
+            .value
+            .iter()
+            .zip(lv.mem_channels[2].value.iter())
+        {
+            let diff = builder.sub_extension(limb_write, limb_old_top);
+            let constr = builder.mul_extension(nonempty_filter, diff);
+            yield_constr.constraint(builder, constr);
+        }
+    }
+
     // Constrain new stack length.
     {
         let new_len = builder.add_const_extension(lv.stack_len, F::ONE);
-- 
2.43.0


From b1499bdd4df693c071f750ecd8dc636900c9ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 08/28] fix: constrain the kernel flag pushed by the final
 exception

It was free for exc_stop, while the witness pushes the current mode.
---
 .../src/cpu/syscalls_exceptions.rs                | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/evm_arithmetization/src/cpu/syscalls_exceptions.rs b/evm_arithmetization/src/cpu/syscalls_exceptions.rs
index cea7d70..47d03d3 100644
--- a/evm_arithmetization/src/cpu/syscalls_exceptions.rs
+++ b/evm_arithmetization/src/cpu/syscalls_exceptions.rs
@@ -114,15 +114,12 @@ pub(crate) fn eval_packed<P: PackedField>(
     // counter (limbs 6 and 7).
     yield_constr.constraint(filter_syscall * (output[0] - (lv.program_counter + P::ONES)));
     yield_constr.constraint(filter_exception * (output[0] - lv.program_counter));
-    // Check the kernel mode, for syscalls only
-    yield_constr.constraint(filter_syscall * (output[1] - lv.is_kernel_mode));
+    // Check the kernel mode
+    yield_constr.constraint(total_filter * (output[1] - lv.is_kernel_mode));
     yield_constr.constraint(total_filter * (output[6] - lv.gas));
     yield_constr.constraint(total_filter * output[7]); // High limb of gas is zero.
 
     // Zero the rest of that register
-    // output[1] is 0 for exceptions (except for the final halting step), but not
-    // for syscalls.
-    yield_constr.constraint(filter_exception * (exc_code - exc_stop_code) * output[1]);
     for &limb in &output[2..6] {
         yield_constr.constraint(total_filter * limb);
     }
@@ -294,10 +291,10 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
         let constr = builder.mul_extension(filter_exception, diff);
         yield_constr.constraint(builder, constr);
     }
-    // Push to stack(exception): current PC (limb 0), gas counter (limbs 6 and 7).
+    // Push to stack (both): kernel flag (limb 1).
     {
         let diff = builder.sub_extension(output[1], lv.is_kernel_mode);
-        let constr = builder.mul_extension(filter_syscall, diff);
+        let constr = builder.mul_extension(total_filter, diff);
         yield_constr.constraint(builder, constr);
     }
     {
@@ -312,10 +309,6 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
     }
 
     // Zero the rest of that register
-    // output[1] is 0 for exceptions (except for the final halting step), but not
-    // for syscalls.
-    let constr = builder.mul_many_extension([filter_exception, opcode_is_exc_stop, output[1]]);
-    yield_constr.constraint(builder, constr);
     for &limb in &output[2..6] {
         let constr = builder.mul_extension(total_filter, limb);
         yield_constr.constraint(builder, constr);
-- 
2.43.0


From cd189f531ffe346510caaad752d58506fc591ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 09/28] fix: constrain the shifting factor for displacements of
 2^32 or more

Nothing is read from the shift table then, and the factor given to the
arithmetic table was free.
---
 evm_arithmetization/src/cpu/shift.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/evm_arithmetization/src/cpu/shift.rs b/evm_arithmetization/src/cpu/shift.rs
index 12ed18b..3479af3 100644
--- a/evm_arithmetization/src/cpu/shift.rs
+++ b/evm_arithmetization/src/cpu/shift.rs
@@ -47,6 +47,12 @@ pub(crate) fn eval_packed<P: PackedField>(
     yield_constr.constraint(is_shift * (two_exp.addr_segment - shift_table_segment));
     yield_constr.constraint(is_shift * (two_exp.addr_virtual - displacement.value[0]));
 
+    // When the shift displacement is >= 2^32, nothing is read from the shift table
+    // and the shifting factor is 0.
+    for limb in two_exp.value {
+        yield_constr.constraint(is_shift * (P::ONES - high_limbs_are_zero) * limb);
+    }
+
     // Other channels must be unused
     for chan in &lv.mem_channels[3..NUM_GP_CHANNELS] {
         yield_constr.constraint(is_shift * chan.used); // channel is not used
@@ -115,6 +121,15 @@ pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
     let t = builder.mul_extension(is_shift, t);
     yield_constr.constraint(builder, t);
 
+    // When the shift displacement is >= 2^32, nothing is read from the shift table
+    // and the shifting factor is 0.
+    let t = builder.mul_extension(is_shift, high_limbs_are_zero);
+    let no_read = builder.sub_extension(is_shift, t);
+    for limb in two_exp.value {
+        let t = builder.mul_extension(no_read, limb);
+        yield_constr.constraint(builder, t);
+    }
+
     // Other channels must be unused
     for chan in &lv.mem_channels[3..NUM_GP_CHANNELS] {
         let t = builder.mul_extension(is_shift, chan.used);
-- 
2.43.0


From 714c58b866e3fd8d1128bf47d13c2138a4674cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 10/28] fix: constrain the quotient of a division by zero

With a zero denominator the remainder was not bounded, so DIV (and SHR with
a zero factor) could return any value up to the numerator.
---
 evm_arithmetization/src/arithmetic/divmod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/evm_arithmetization/src/arithmetic/divmod.rs b/evm_arithmetization/src/arithmetic/divmod.rs
index 30c7af8..3ced531 100644
--- a/evm_arithmetization/src/arithmetic/divmod.rs
+++ b/evm_arithmetization/src/arithmetic/divmod.rs
@@ -115,6 +115,12 @@ pub(crate) fn eval_packed_divmod_helper<P: PackedField>(
     for &c in constr_poly.iter() {
         yield_constr.constraint_transition(filter * c);
     }
+
+    // The quotient of a division by zero is zero: its limbs are range-checked, so
+    // it suffices that their sum is zero.
+    let div_denom_is_zero = nv[MODULAR_DIV_DENOM_IS_ZERO];
+    let quo_limb_sum = quo.into_iter().sum::<P>();
+    yield_constr.constraint_transition(filter * div_denom_is_zero * quo_limb_sum);
 }
 
 pub(crate) fn eval_packed<P: PackedField>(
@@ -177,6 +183,13 @@ pub(crate) fn eval_ext_circuit_divmod_helper<F: RichField + Extendable<D>, const
         let t = builder.mul_extension(filter, c);
         yield_constr.constraint_transition(builder, t);
     }
+
+    // The quotient of a division by zero is zero: its limbs are range-checked, so
+    // it suffices that their sum is zero.
+    let div_denom_is_zero = nv[MODULAR_DIV_DENOM_IS_ZERO];
+    let quo_limb_sum = builder.add_many_extension(quo);
+    let t = builder.mul_many_extension([filter, div_denom_is_zero, quo_limb_sum]);
+    yield_constr.constraint_transition(builder, t);
 }
 
 pub(crate) fn eval_ext_circuit<F: RichField + Extendable<D>, const D: usize>(
-- 
2.43.0


From bbcfbdf505f6aba153552ff459665fd8be03646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 11/28] fix: bind the stale contexts of the memory table to the
 pruned ones

---
 .../src/memory/memory_stark.rs                | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/evm_arithmetization/src/memory/memory_stark.rs b/evm_arithmetization/src/memory/memory_stark.rs
index 357e720..39fd913 100644
--- a/evm_arithmetization/src/memory/memory_stark.rs
+++ b/evm_arithmetization/src/memory/memory_stark.rs
@@ -492,6 +492,8 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let addr_virtual = lv.addr_virtual;
         let value_limbs = lv.value_limbs;
         let timestamp_inv = lv.timestamp_inv;
+        let stale_contexts = lv.stale_contexts;
+        let is_pruned = lv.is_pruned;
         let is_stale = lv.is_stale;
         let maybe_in_mem_after = lv.maybe_in_mem_after;
         let mem_after_filter = lv.mem_after_filter;
@@ -595,6 +597,13 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint_transition(initialize_aux * next_values_limbs[i]);
         }
 
+        // The contexts listed in `stale_contexts` are those sent to the pruning CTL.
+        yield_constr.constraint(is_pruned * (is_pruned - P::ONES));
+        yield_constr.constraint(stale_contexts * (is_pruned - P::ONES));
+
+        // `is_stale` must be binary, since it filters a lookup.
+        yield_constr.constraint(is_stale * (is_stale - P::ONES));
+
         // Validate `maybe_in_mem_after`.
         yield_constr.constraint_transition(
             maybe_in_mem_after + filter * not_address_unchanged * (is_stale - P::ONES),
@@ -644,6 +653,8 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let value_limbs = lv.value_limbs;
         let timestamp = lv.timestamp;
         let timestamp_inv = lv.timestamp_inv;
+        let stale_contexts = lv.stale_contexts;
+        let is_pruned = lv.is_pruned;
         let is_stale = lv.is_stale;
         let maybe_in_mem_after = lv.maybe_in_mem_after;
         let mem_after_filter = lv.mem_after_filter;
@@ -810,6 +821,20 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint_transition(builder, zero_init_constraint);
         }
 
+        // The contexts listed in `stale_contexts` are those sent to the pruning CTL.
+        {
+            let constr = builder.mul_sub_extension(is_pruned, is_pruned, is_pruned);
+            yield_constr.constraint(builder, constr);
+            let constr = builder.mul_sub_extension(stale_contexts, is_pruned, stale_contexts);
+            yield_constr.constraint(builder, constr);
+        }
+
+        // `is_stale` must be binary, since it filters a lookup.
+        {
+            let constr = builder.mul_sub_extension(is_stale, is_stale, is_stale);
+            yield_constr.constraint(builder, constr);
+        }
+
         // Validate `maybe_in_mem_after`.
         {
             let rhs = builder.mul_extension(filter, not_address_unchanged);
-- 
2.43.0


From c82bdfe8dad439a70291e2033d77c833ab2ae6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 12/28] fix: propagate every final memory value to the next
 segment

---
 evm_arithmetization/src/memory/columns.rs     |  4 +
 .../src/memory/memory_stark.rs                | 99 +++++++++++++++----
 2 files changed, 82 insertions(+), 21 deletions(-)

diff --git a/evm_arithmetization/src/memory/columns.rs b/evm_arithmetization/src/memory/columns.rs
index 10fb75b..66cac3d 100644
--- a/evm_arithmetization/src/memory/columns.rs
+++ b/evm_arithmetization/src/memory/columns.rs
@@ -57,6 +57,10 @@ pub(crate) struct MemoryColumnsView<T> {
     /// Segment::StorageLinkedList)`.
     pub preinitialized_segments_aux: T,
 
+    /// Inverse of `preinitialized_segments` if it is non-zero. Used to enforce
+    /// that all values of pre-initialized segments are propagated.
+    pub preinitialized_segments_inv: T,
+
     /// Contains `row_index` + 1 if and only if context `row_index` is stale,
     /// and zero if not.
     pub stale_contexts: T,
diff --git a/evm_arithmetization/src/memory/memory_stark.rs b/evm_arithmetization/src/memory/memory_stark.rs
index 39fd913..a9e7118 100644
--- a/evm_arithmetization/src/memory/memory_stark.rs
+++ b/evm_arithmetization/src/memory/memory_stark.rs
@@ -197,6 +197,8 @@ pub(crate) fn generate_first_change_flags_and_rc<F: RichField>(
         let address_changed =
             row.context_first_change + row.segment_first_change + row.virtual_first_change;
         row.initialize_aux = row.preinitialized_segments * address_changed * next_is_read;
+        row.preinitialized_segments_inv =
+            row.preinitialized_segments.try_inverse().unwrap_or_default();
     }
 }
 
@@ -363,15 +365,15 @@ impl<F: RichField + Extendable<D>, const D: usize> MemoryStark<F, D> {
         // - We change its filter to 0 to indicate that this is a dummy operation.
         // - We make sure it's a read, since dummy operations must be reads.
         // - We change the address so that the last operation can still be included in
-        //   `MemAfterStark`.
-        let padding_addr = MemoryAddress {
-            virt: last_op.address.virt + 1,
-            ..last_op.address
-        };
-        let padding_op = MemoryOp {
+        //   `MemAfterStark`. Each padding row has its own address, since a dummy
+        //   operation may not be the last one of an address that has other operations.
+        let padding_op = |i: usize| MemoryOp {
             filter: false,
             kind: Read,
-            address: padding_addr,
+            address: MemoryAddress {
+                virt: last_op.address.virt + 1 + i,
+                ..last_op.address
+            },
             timestamp: last_op.timestamp + 1,
             value: U256::zero(),
         };
@@ -379,8 +381,8 @@ impl<F: RichField + Extendable<D>, const D: usize> MemoryStark<F, D> {
         // We want at least one padding row, so that the last real operation can have
         // its flags set correctly.
         let num_ops_padded = (num_ops + 1).next_power_of_two();
-        for _ in num_ops..num_ops_padded {
-            memory_ops.push(padding_op);
+        for i in 0..num_ops_padded - num_ops {
+            memory_ops.push(padding_op(i));
         }
     }
 
@@ -500,6 +502,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let initialize_aux = lv.initialize_aux;
         let preinitialized_segments = lv.preinitialized_segments;
         let preinitialized_segments_aux = lv.preinitialized_segments_aux;
+        let preinitialized_segments_inv = lv.preinitialized_segments_inv;
 
         let next_timestamp = nv.timestamp;
         let next_is_read = nv.is_read;
@@ -535,6 +538,8 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let not_segment_first_change = one - segment_first_change;
         let not_virtual_first_change = one - virtual_first_change;
         let not_address_unchanged = one - address_unchanged;
+        let next_not_address_unchanged =
+            nv.context_first_change + nv.segment_first_change + nv.virtual_first_change;
 
         // First set of ordering constraint: first_change flags are boolean.
         yield_constr.constraint(context_first_change * not_context_first_change);
@@ -604,22 +609,35 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         // `is_stale` must be binary, since it filters a lookup.
         yield_constr.constraint(is_stale * (is_stale - P::ONES));
 
-        // Validate `maybe_in_mem_after`.
+        // A dummy operation is not the last one of an address that has other
+        // operations, whose final value would then not be propagated. In particular the
+        // last row is a dummy operation at an address of its own.
         yield_constr.constraint_transition(
-            maybe_in_mem_after + filter * not_address_unchanged * (is_stale - P::ONES),
+            address_unchanged * (P::ONES - nv.filter) * next_not_address_unchanged,
         );
+        yield_constr.constraint_last_row(filter);
+        yield_constr.constraint_last_row(address_unchanged);
+
+        // Validate `maybe_in_mem_after`.
+        yield_constr
+            .constraint(maybe_in_mem_after + filter * not_address_unchanged * (is_stale - P::ONES));
 
         // `mem_after_filter` must be binary.
         yield_constr.constraint(mem_after_filter * (mem_after_filter - P::ONES));
 
-        // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
+        // `mem_after_filter` can only be set if `maybe_in_mem_after` is, and is equal to
+        // it if:
+        // - segment is preinitialized OR
         // - value is not zero.
+        yield_constr.constraint(mem_after_filter * (maybe_in_mem_after - P::ONES));
         for i in 0..VALUE_LIMBS {
-            yield_constr.constraint(
-                (mem_after_filter - maybe_in_mem_after) * preinitialized_segments * value_limbs[i],
-            );
+            yield_constr.constraint((mem_after_filter - maybe_in_mem_after) * value_limbs[i]);
         }
+        yield_constr.constraint_transition(
+            (nv.mem_after_filter - nv.maybe_in_mem_after)
+                * (preinitialized_segments * preinitialized_segments_inv - P::ONES),
+        );
+        yield_constr.constraint_first_row(mem_after_filter - maybe_in_mem_after);
 
         // Validate timestamp_inv. Since it's used as a CTL filter, its value must be
         // checked.
@@ -661,6 +679,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let initialize_aux = lv.initialize_aux;
         let preinitialized_segments = lv.preinitialized_segments;
         let preinitialized_segments_aux = lv.preinitialized_segments_aux;
+        let preinitialized_segments_inv = lv.preinitialized_segments_inv;
 
         let next_addr_context = nv.addr_context;
         let next_addr_segment = nv.addr_segment;
@@ -701,6 +720,11 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let not_segment_first_change = builder.sub_extension(one, segment_first_change);
         let not_virtual_first_change = builder.sub_extension(one, virtual_first_change);
         let not_address_unchanged = builder.sub_extension(one, address_unchanged);
+        let next_not_address_unchanged = builder.add_many_extension([
+            nv.context_first_change,
+            nv.segment_first_change,
+            nv.virtual_first_change,
+        ]);
         let addr_context_diff = builder.sub_extension(next_addr_context, addr_context);
         let addr_segment_diff = builder.sub_extension(next_addr_segment, addr_segment);
         let addr_virtual_diff = builder.sub_extension(next_addr_virtual, addr_virtual);
@@ -835,12 +859,27 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint(builder, constr);
         }
 
+        // A dummy operation is not the last one of an address that has other
+        // operations, whose final value would then not be propagated. In particular the
+        // last row is a dummy operation at an address of its own.
+        {
+            let next_is_dummy = builder.sub_extension(one, nv.filter);
+            let constr = builder.mul_many_extension([
+                address_unchanged,
+                next_is_dummy,
+                next_not_address_unchanged,
+            ]);
+            yield_constr.constraint_transition(builder, constr);
+            yield_constr.constraint_last_row(builder, filter);
+            yield_constr.constraint_last_row(builder, address_unchanged);
+        }
+
         // Validate `maybe_in_mem_after`.
         {
             let rhs = builder.mul_extension(filter, not_address_unchanged);
             let rhs = builder.mul_sub_extension(rhs, is_stale, rhs);
             let constr = builder.add_extension(maybe_in_mem_after, rhs);
-            yield_constr.constraint_transition(builder, constr);
+            yield_constr.constraint(builder, constr);
         }
 
         // `mem_after_filter` must be binary.
@@ -850,15 +889,33 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint(builder, constr);
         }
 
-        // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
+        // `mem_after_filter` can only be set if `maybe_in_mem_after` is, and is equal to
+        // it if:
+        // - segment is preinitialized OR
         // - value is not zero.
+        {
+            let constr =
+                builder.mul_sub_extension(mem_after_filter, maybe_in_mem_after, mem_after_filter);
+            yield_constr.constraint(builder, constr);
+        }
         let mem_after_filter_diff = builder.sub_extension(mem_after_filter, maybe_in_mem_after);
         for i in 0..VALUE_LIMBS {
-            let prod = builder.mul_extension(preinitialized_segments, value_limbs[i]);
-            let constr = builder.mul_extension(mem_after_filter_diff, prod);
+            let constr = builder.mul_extension(mem_after_filter_diff, value_limbs[i]);
             yield_constr.constraint(builder, constr);
         }
+        {
+            let next_mem_after_filter_diff =
+                builder.sub_extension(nv.mem_after_filter, nv.maybe_in_mem_after);
+            let inv_prod =
+                builder.mul_extension(preinitialized_segments, preinitialized_segments_inv);
+            let constr = builder.mul_sub_extension(
+                next_mem_after_filter_diff,
+                inv_prod,
+                next_mem_after_filter_diff,
+            );
+            yield_constr.constraint_transition(builder, constr);
+        }
+        yield_constr.constraint_first_row(builder, mem_after_filter_diff);
 
         // Validate timestamp_inv. Since it's used as a CTL filter, its value must be
         // checked.
-- 
2.43.0


From e2eb9e550dbf956e23ee9a43ff0ee2cabaf75f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 13/28] fix: constrain the bits of the Keccak table to be
 boolean

---
 .../src/keccak/keccak_stark.rs                | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/evm_arithmetization/src/keccak/keccak_stark.rs b/evm_arithmetization/src/keccak/keccak_stark.rs
index 0a086d0..ae8ec39 100644
--- a/evm_arithmetization/src/keccak/keccak_stark.rs
+++ b/evm_arithmetization/src/keccak/keccak_stark.rs
@@ -58,6 +58,16 @@ pub(crate) fn ctl_filter_outputs<F: Field>() -> Filter<F> {
     Filter::new_simple(Column::single(reg_step(NUM_ROUNDS - 1)))
 }
 
+/// The registers holding a single bit of the state: those of C, A' and
+/// A''[0, 0]. C' doesn't need to be checked, as it is the xor of bits of C.
+fn bit_columns() -> impl Iterator<Item = usize> {
+    let c = (0..5).flat_map(|x| (0..64).map(move |z| reg_c(x, z)));
+    let a_prime = (0..5)
+        .flat_map(|x| (0..5).flat_map(move |y| (0..64).map(move |z| reg_a_prime(x, y, z))));
+    let a_prime_prime_0_0 = (0..64).map(reg_a_prime_prime_0_0_bit);
+    c.chain(a_prime).chain(a_prime_prime_0_0)
+}
+
 #[derive(Copy, Clone, Default)]
 pub(crate) struct KeccakStark<F, const D: usize> {
     pub(crate) f: PhantomData<F>,
@@ -288,6 +298,12 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakStark<F
             sum_round_flags * not_final_step * (next_values[TIMESTAMP] - local_values[TIMESTAMP]),
         );
 
+        // The bits of C, A' and A''[0, 0] must be boolean.
+        for bit in bit_columns() {
+            let bit = local_values[bit];
+            yield_constr.constraint(bit * (bit - P::ONES));
+        }
+
         // C'[x, z] = xor(C[x, z], C[x - 1, z], C[x + 1, z - 1]).
         for x in 0..5 {
             for z in 0..64 {
@@ -452,6 +468,13 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakStark<F
         let constr = builder.mul_many_extension([sum_round_flags, not_final_step, diff]);
         yield_constr.constraint(builder, constr);
 
+        // The bits of C, A' and A''[0, 0] must be boolean.
+        for bit in bit_columns() {
+            let bit = local_values[bit];
+            let constr = builder.mul_sub_extension(bit, bit, bit);
+            yield_constr.constraint(builder, constr);
+        }
+
         // C'[x, z] = xor(C[x, z], C[x - 1, z], C[x + 1, z - 1]).
         for x in 0..5 {
             for z in 0..64 {
-- 
2.43.0


From e56cbed7e125120ee7bc83997fd2b7e8e06f532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 14/28] fix: range-check the digest bytes of the Keccak sponge

---
 .../src/keccak_sponge/keccak_sponge_stark.rs     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
index 26cc764..da90fb6 100644
--- a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
+++ b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
@@ -228,6 +228,15 @@ pub(crate) fn ctl_looking_keccak_filter<F: Field>() -> Filter<F> {
     ]))
 }
 
+/// The columns which must contain bytes: those of the input block, and those of
+/// the digest, whose limbs are sent in both endiannesses.
+fn range_checked_columns() -> impl Iterator<Item = usize> {
+    let cols = KECCAK_SPONGE_COL_MAP;
+    cols.block_bytes
+        .into_iter()
+        .chain(cols.updated_digest_state_bytes)
+}
+
 /// Information about a Keccak sponge operation needed for witness generation.
 #[derive(Clone, Debug)]
 pub(crate) struct KeccakSpongeOp {
@@ -517,8 +526,7 @@ impl<F: RichField + Extendable<D>, const D: usize> KeccakSpongeStark<F, D> {
         // For each column c in cols, generate the range-check
         // permutations and put them in the corresponding range-check
         // columns rc_c and rc_c+1.
-        for col in 0..KECCAK_RATE_BYTES {
-            let c = KECCAK_SPONGE_COL_MAP.block_bytes[col];
+        for c in range_checked_columns() {
             for i in 0..n_rows {
                 let x = cols[c][i].to_canonical_u64() as usize;
                 assert!(
@@ -945,10 +953,10 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
 
     fn lookups(&self) -> Vec<Lookup<F>> {
         vec![Lookup {
-            columns: Column::singles(KECCAK_SPONGE_COL_MAP.block_bytes).collect(),
+            columns: Column::singles(range_checked_columns()).collect(),
             table_column: Column::single(KECCAK_SPONGE_COL_MAP.range_counter),
             frequencies_column: Column::single(KECCAK_SPONGE_COL_MAP.rc_frequencies),
-            filter_columns: vec![Default::default(); KECCAK_RATE_BYTES],
+            filter_columns: vec![Default::default(); KECCAK_RATE_BYTES + KECCAK_DIGEST_BYTES],
         }]
     }
 
-- 
2.43.0


From fe7a6a9ffbbecea6809892e45d28b05d98479940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 15/28] fix: check the padding of a block in the last row of
 the Keccak sponge

---
 .../src/keccak_sponge/keccak_sponge_stark.rs  | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
index da90fb6..18778a9 100644
--- a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
+++ b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
@@ -679,7 +679,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
 
         // If the row has a single padding byte, then it must be the last byte with
         // value 0b10000001.
-        yield_constr.constraint_transition(
+        yield_constr.constraint(
             has_single_padding_byte
                 * (local_values.block_bytes[KECCAK_RATE_BYTES - 1]
                     - P::from(FE::from_canonical_u8(0b10000001))),
@@ -694,19 +694,18 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
                 }
             };
             // If the row has multiple padding bytes, the first padding byte must be 1.
-            yield_constr.constraint_transition(
-                is_first_padding_byte * (local_values.block_bytes[i] - P::ONES),
-            );
+            yield_constr
+                .constraint(is_first_padding_byte * (local_values.block_bytes[i] - P::ONES));
             // If the row has multiple padding bytes, the other padding bytes
             // except the last one must be 0.
-            yield_constr.constraint_transition(
+            yield_constr.constraint(
                 local_values.is_padding_byte[i]
                     * (is_first_padding_byte - P::ONES)
                     * local_values.block_bytes[i],
             );
         }
         // If the row has multiple padding bytes, then the last byte must be 0b10000000.
-        yield_constr.constraint_transition(
+        yield_constr.constraint(
             is_final_block
                 * (has_single_padding_byte - P::ONES)
                 * (local_values.block_bytes[KECCAK_RATE_BYTES - 1]
@@ -890,7 +889,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
             padding_byte,
         );
         let constraint = builder.mul_extension(has_single_padding_byte, diff);
-        yield_constr.constraint_transition(builder, constraint);
+        yield_constr.constraint(builder, constraint);
 
         for i in 0..KECCAK_RATE_BYTES - 1 {
             let is_first_padding_byte = {
@@ -909,7 +908,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
                 local_values.block_bytes[i],
                 is_first_padding_byte,
             );
-            yield_constr.constraint_transition(builder, constraint);
+            yield_constr.constraint(builder, constraint);
 
             // If the row has multiple padding bytes, the other padding bytes
             // except the last one must be 0.
@@ -919,7 +918,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
                 local_values.is_padding_byte[i],
             );
             let constraint = builder.mul_extension(sel, local_values.block_bytes[i]);
-            yield_constr.constraint_transition(builder, constraint);
+            yield_constr.constraint(builder, constraint);
         }
 
         // If the row has multiple padding bytes, then the last byte must be 0b10000000.
@@ -931,7 +930,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
             padding_byte,
         );
         let constraint = builder.mul_extension(sel, diff);
-        yield_constr.constraint_transition(builder, constraint);
+        yield_constr.constraint(builder, constraint);
 
         // A dummy row is always followed by another dummy row, so the prover can't put
         // dummy rows "in between" to avoid the above checks.
-- 
2.43.0


From a7045da813ca5a359aa8343772193b14e31e95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:26 +0000
Subject: [PATCH 16/28] fix: link the input and output of each Keccak
 permutation

---
 evm_arithmetization/src/keccak/columns.rs     |  3 ++-
 .../src/keccak_sponge/columns.rs              |  5 ++++
 .../src/keccak_sponge/keccak_sponge_stark.rs  | 25 ++++++++++++++++---
 evm_arithmetization/src/witness/traces.rs     |  7 ++++++
 4 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/keccak/columns.rs b/evm_arithmetization/src/keccak/columns.rs
index bbd96a7..474d0f9 100644
--- a/evm_arithmetization/src/keccak/columns.rs
+++ b/evm_arithmetization/src/keccak/columns.rs
@@ -49,7 +49,8 @@ const R: [[u8; 5]; 5] = [
 ];
 
 /// Column holding the timestamp, used to link inputs and outputs
-/// in the `KeccakSpongeStark`.
+/// in the `KeccakSpongeStark`. It is unique to each permutation there: it is the
+/// index of the row of the `KeccakSpongeStark` using this permutation.
 pub(crate) const TIMESTAMP: usize = NUM_ROUNDS;
 
 const START_A: usize = TIMESTAMP + 1;
diff --git a/evm_arithmetization/src/keccak_sponge/columns.rs b/evm_arithmetization/src/keccak_sponge/columns.rs
index ed30056..95815a4 100644
--- a/evm_arithmetization/src/keccak_sponge/columns.rs
+++ b/evm_arithmetization/src/keccak_sponge/columns.rs
@@ -43,6 +43,11 @@ pub(crate) struct KeccakSpongeColumnsView<T: Copy> {
     /// The timestamp at which inputs should be read from memory.
     pub timestamp: T,
 
+    /// The index of this row, starting from 0. It is unique to this block, unlike
+    /// the timestamp which is shared by all the blocks of an input, and it links
+    /// the input and output of this block's permutation in the `KeccakStark`.
+    pub row_index: T,
+
     /// The number of input bytes that have already been absorbed prior to this
     /// block.
     pub already_absorbed_bytes: T,
diff --git a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
index 18778a9..c868b06 100644
--- a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
+++ b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
@@ -63,7 +63,8 @@ pub(crate) fn ctl_looked_data<F: Field>() -> Vec<Column<F>> {
 
 /// Creates the vector of `Columns` corresponding to the inputs of the Keccak
 /// sponge. This is used to check that the inputs of the sponge correspond to
-/// the inputs given by `KeccakStark`.
+/// the inputs given by `KeccakStark`. The index of the row links the inputs and
+/// outputs of a permutation.
 pub(crate) fn ctl_looking_keccak_inputs<F: Field>() -> Vec<Column<F>> {
     let cols = KECCAK_SPONGE_COL_MAP;
     let mut res: Vec<_> = Column::singles(
@@ -74,14 +75,15 @@ pub(crate) fn ctl_looking_keccak_inputs<F: Field>() -> Vec<Column<F>> {
         .concat(),
     )
     .collect();
-    res.push(Column::single(cols.timestamp));
+    res.push(Column::single(cols.row_index));
 
     res
 }
 
 /// Creates the vector of `Columns` corresponding to the outputs of the Keccak
 /// sponge. This is used to check that the outputs of the sponge correspond to
-/// the outputs given by `KeccakStark`.
+/// the outputs given by `KeccakStark`. The index of the row links the inputs and
+/// outputs of a permutation.
 pub(crate) fn ctl_looking_keccak_outputs<F: Field>() -> Vec<Column<F>> {
     let cols = KECCAK_SPONGE_COL_MAP;
 
@@ -98,7 +100,7 @@ pub(crate) fn ctl_looking_keccak_outputs<F: Field>() -> Vec<Column<F>> {
     let mut res: Vec<_> = digest_u32s.collect();
 
     res.extend(Column::singles(&cols.partial_updated_state_u32s));
-    res.push(Column::single(cols.timestamp));
+    res.push(Column::single(cols.row_index));
 
     res
 }
@@ -302,6 +304,10 @@ impl<F: RichField + Extendable<D>, const D: usize> KeccakSpongeStark<F, D> {
         for _ in rows.len()..padded_rows {
             rows.push(self.generate_padding_row());
         }
+        // Number the rows.
+        for (i, row) in rows.iter_mut().enumerate() {
+            row[KECCAK_SPONGE_COL_MAP.row_index] = F::from_canonical_usize(i);
+        }
         rows
     }
 
@@ -577,6 +583,11 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
         let range_max = P::Scalar::from_canonical_u64((BYTE_RANGE_MAX - 1) as u64);
         yield_constr.constraint_last_row(rc1 - range_max);
 
+        // The row index starts from 0 and increments by 1.
+        yield_constr.constraint_first_row(local_values.row_index);
+        yield_constr
+            .constraint_transition(next_values.row_index - local_values.row_index - P::ONES);
+
         // Each flag (full-input block, padding byte or implied dummy flag) must be
         // boolean.
         let is_full_input_block = local_values.is_full_input_block;
@@ -750,6 +761,12 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
         let t = builder.sub_extension(rc1, range_max);
         yield_constr.constraint_last_row(builder, t);
 
+        // The row index starts from 0 and increments by 1.
+        yield_constr.constraint_first_row(builder, local_values.row_index);
+        let incr = builder.sub_extension(next_values.row_index, local_values.row_index);
+        let t = builder.sub_extension(incr, one);
+        yield_constr.constraint_transition(builder, t);
+
         // Each flag (full-input block, final block, padding byte or implied dummy flag)
         // must be boolean.
         let is_full_input_block = local_values.is_full_input_block;
diff --git a/evm_arithmetization/src/witness/traces.rs b/evm_arithmetization/src/witness/traces.rs
index e1daa53..f4af5fa 100644
--- a/evm_arithmetization/src/witness/traces.rs
+++ b/evm_arithmetization/src/witness/traces.rs
@@ -175,6 +175,13 @@ impl<T: Copy + Field> Traces<T> {
         );
         let cpu_rows = cpu.into_iter().map(|x| x.into()).collect();
         let cpu_trace = trace_rows_to_poly_values(cpu_rows);
+        // The permutations are in the order of the rows of the `KeccakSponge` table,
+        // and are identified by the index of their row.
+        let keccak_inputs = keccak_inputs
+            .into_iter()
+            .enumerate()
+            .map(|(i, (input, _))| (input, i))
+            .collect();
         let keccak_trace = timed!(
             timing,
             "generate Keccak trace",
-- 
2.43.0


From 95bc8414b8c679374386a788e8382b574f1d9ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 17/28] fix: reject access list hints that point below their
 segment

The hinted predecessor of insert_accessed_addresses, insert_accessed_storage_keys
and the matching removals was only checked against the end of the list. A prover
could point it at an even address of any lower segment of the kernel context,
and so make a cold access warm, or have the insertion overwrite other kernel
memory.
---
 .../src/cpu/kernel/asm/core/access_lists.asm     | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm b/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
index 84cc407..cf001dd 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
@@ -72,8 +72,16 @@ global init_access_lists:
 
 // Multiply the value at the top of the stack, denoted by ptr/2, by 2
 // and abort if ptr/2 >= mem[@GLOBAL_METADATA_ACCESSED_ADDRESSES_LEN]/2
+// Also checks that ptr >= @SEGMENT_ACCESSED_ADDRESSES.
 // In this way 2*ptr/2 must be pointing to the beginning of a node.
 %macro get_valid_addr_ptr
+    // stack: ptr/2
+    // Check that the pointer is not below the segment.
+    PUSH @SEGMENT_ACCESSED_ADDRESSES
+    DUP2
+    %mul_const(2)
+    // stack: ptr, @SEGMENT_ACCESSED_ADDRESSES, ptr/2
+    %assert_ge
     // stack: ptr/2
     DUP1
     // stack: ptr/2, ptr/2
@@ -218,8 +226,16 @@ global remove_accessed_addresses:
 
 // Multiply the ptr at the top of the stack, denoted by ptr/4, by 4
 // and abort if ptr/4 >= @GLOBAL_METADATA_ACCESSED_STORAGE_KEYS_LEN/4
+// Also checks that ptr >= @SEGMENT_ACCESSED_STORAGE_KEYS.
 // In this way 4*ptr/4 be pointing to the beginning of a node.
 %macro get_valid_storage_ptr
+    // stack: ptr/4
+    // Check that the pointer is not below the segment.
+    PUSH @SEGMENT_ACCESSED_STORAGE_KEYS
+    DUP2
+    %mul_const(4)
+    // stack: ptr, @SEGMENT_ACCESSED_STORAGE_KEYS, ptr/4
+    %assert_ge
     // stack: ptr/4
     DUP1
     %mload_global_metadata(@GLOBAL_METADATA_ACCESSED_STORAGE_KEYS_LEN)
-- 
2.43.0


From da9061da4e2b8faa9e25e3dcf988c5896f507e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 18/28] fix: check the successor before reporting an account or
 slot as absent

search_account and search_slot reported 'not found' for any hinted node with a
smaller key. A prover could hint a node that is not the predecessor (or one that
has been deleted) and have an existing account or slot read as absent.
---
 .../asm/mpt/linked_list/linked_list.asm       | 46 +++++++++++++++++--
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 650d69d..42465dd 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -301,7 +301,19 @@ account_found:
 
 account_not_found:
     // stack: pred_addr_key, pred_ptr, addr_key, retdest
-    %stack (pred_addr_key, pred_ptr, addr_key, retdest) -> (retdest, 0)
+    POP
+    %next_account
+    // stack: next_ptr, addr_key, retdest
+    // Check that the predecessor is not a deleted node
+    DUP1 NOT %assert_nonzero
+    MLOAD_GENERAL
+    // stack: next_addr_key, addr_key, retdest
+    // Here, (addr_key > pred_addr_key) || (pred_ptr == @SEGMENT_ACCOUNTS_LINKED_LIST).
+    // The account is only absent if also addr_key < next_addr_key.
+    %assert_gt
+    // stack: retdest
+    PUSH 0
+    SWAP1
     JUMP
 
 %macro remove_account_from_linked_list
@@ -831,8 +843,36 @@ global search_slot:
     PANIC
 slot_not_found:    
     // stack: pred_addr_or_pred_key, pred_ptr, addr_key, key, value, retdest
-    %stack (pred_addr_or_pred_key, pred_ptr, addr_key, key, value, retdest)
-        -> (retdest, value)
+    POP
+    %next_slot
+    // stack: next_ptr, addr_key, key, value, retdest
+    // Check that the predecessor is not a deleted node
+    DUP1 NOT %assert_nonzero
+    // The slot is only absent if it is also strictly smaller than the next one.
+    DUP1
+    MLOAD_GENERAL
+    // stack: next_addr_key, next_ptr, addr_key, key, value, retdest
+    DUP1 DUP4
+    LT
+    %jumpi(slot_not_found_next_ok)
+    // stack: next_addr_key, next_ptr, addr_key, key, value, retdest
+    // If addr_key >= next_addr_key, then they must be equal.
+    DUP3
+    %assert_eq
+    // stack: next_ptr, addr_key, key, value, retdest
+    DUP1
+    %increment
+    MLOAD_GENERAL
+    // stack: next_key, next_ptr, addr_key, key, value, retdest
+    DUP1 // This is added just to have the correct stack in slot_not_found_next_ok
+    DUP5
+    // The next key must be strictly larger
+    %assert_lt
+slot_not_found_next_ok:
+    // stack: next_addr_or_next_key, next_ptr, addr_key, key, value, retdest
+    %pop4
+    // stack: value, retdest
+    SWAP1
     JUMP
 
 slot_found_no_write:
-- 
2.43.0


From 52d9df156d0601b33603533675d568b82cc357d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 19/28] fix: have remove_all_account_slots remove all slots for
 any hint

The hinted node only had to belong to another account. A prover could hint a
node that is not the predecessor of the account's first slot, or a deleted node,
and have the slots of a deleted account survive.
---
 .../asm/mpt/linked_list/linked_list.asm       | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 42465dd..e1e171f 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -945,10 +945,13 @@ global remove_all_account_slots:
     // pred_ptr/5, retdest
     %get_valid_slot_ptr
     // stack: pred_ptr, addr_key, retdest
-    // First, check that the previous address is not `addr`
+    // First, check that the previous address is smaller than `addr`, or the special node.
     DUP1 MLOAD_GENERAL
     // stack: pred_addr_key, pred_ptr, addr_key, retdest
-    DUP3 EQ %jumpi(panic)
+    DUP3 GT
+    DUP2 %eq_const(@SEGMENT_STORAGE_LINKED_LIST)
+    ADD // OR
+    %assert_nonzero
     // stack: pred_ptr, addr_key, retdest
     DUP1
 
@@ -957,13 +960,14 @@ remove_all_slots_loop:
     // stack: pred_ptr, pred_ptr, addr_key, retdest
     %add_const(@STORAGE_NEXT_NODE_PTR) DUP1 MLOAD_GENERAL
     // stack: cur_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
-    DUP1 %eq_const(@U256_MAX) %jumpi(remove_all_slots_end)
+    // The previous node cannot be a deleted node.
+    DUP1 NOT %assert_nonzero
     DUP1 %add_const(@STORAGE_NEXT_NODE_PTR) MLOAD_GENERAL 
     // stack: next_ptr, cur_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     SWAP1 DUP1
     // stack: cur_ptr, cur_ptr, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     MLOAD_GENERAL
-    DUP6 EQ ISZERO %jumpi(remove_all_slots_pop_and_end)
+    DUP6 EQ ISZERO %jumpi(remove_all_slots_end)
     
     // Remove slot: update the value in cur_ptr_ptr, and set cur_ptr+4 to @U256_MAX.
     // stack: cur_ptr, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
@@ -977,9 +981,12 @@ remove_all_slots_loop:
     DUP1
     %jump(remove_all_slots_loop)
 
-remove_all_slots_pop_and_end:
-    POP
 remove_all_slots_end:
+    // stack: cur_ptr, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
+    // The next address must be strictly larger than `addr`.
+    MLOAD_GENERAL
+    DUP5
+    %assert_lt
     // stack: next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     %pop4 JUMP
 
-- 
2.43.0


From 4fc18ee95d71e78c59dd0e0729e5d7c7078966c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 20/28] fix: forget the slots of a deleted account in the
 prover's hints

remove_all_account_slots deletes all slots of an account, but the generation
state kept pointing to them, so that a later access whose closest smaller key
was one of them got a deleted node as a hint, which the kernel rejects.
---
 evm_arithmetization/src/generation/prover_input.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 704e2f4..0c0c92a 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -611,6 +611,9 @@ impl<F: RichField> GenerationState<F> {
             .range(..(addr, U256::zero()))
             .next_back()
             .unwrap_or((&DUMMYHEAD, &(Segment::StorageLinkedList as usize)));
+        self.state_ptrs
+            .storage
+            .retain(|&(slot_addr, _), _| slot_addr != addr);
 
         Ok(U256::from(
             (pred_ptr - Segment::StorageLinkedList as usize) / STORAGE_LINKED_LIST_NODE_SIZE,
-- 
2.43.0


From e48df8b677bf3bbce468763df8b78dc09adf8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 21/28] fix: reject deleted predecessors when removing from the
 linked lists

A deleted node has U256_MAX as its next pointer, which the removals followed:
the key they compared was read at that address (0 when nothing was written
there), and the links of address U256_MAX + 1 = 0 would be rewritten. For the
zero address in the access list this check could pass.
---
 evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm  | 4 ++++
 .../src/cpu/kernel/asm/mpt/linked_list/linked_list.asm        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm b/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
index cf001dd..8aacd69 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
@@ -198,6 +198,8 @@ global remove_accessed_addresses:
     DUP1
     MLOAD_GENERAL
     // stack: next_ptr, next_ptr_ptr, addr, retdest
+    // Check that this is not a deleted node
+    DUP1 NOT %assert_nonzero
     DUP1
     MLOAD_GENERAL
     // stack: next_val, next_ptr, next_ptr_ptr, addr, retdest
@@ -380,6 +382,8 @@ global remove_accessed_storage_keys:
     DUP1
     MLOAD_GENERAL
     // stack: next_ptr, next_ptr_ptr, addr, key, retdest
+    // Check that this is not a deleted node
+    DUP1 NOT %assert_nonzero
     DUP1
     %increment
     MLOAD_GENERAL
diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index e1e171f..4d51a3c 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -336,6 +336,8 @@ global remove_account:
     DUP1
     MLOAD_GENERAL
     // stack: next_ptr, next_ptr_ptr, addr_key, retdest
+    // Check that this is not a deleted node
+    DUP1 NOT %assert_nonzero
     DUP1
     MLOAD_GENERAL
     // stack: next_addr_key, next_ptr, next_ptr_ptr, addr_key, retdest
@@ -912,6 +914,8 @@ global remove_slot:
     DUP1
     MLOAD_GENERAL
     // stack: next_ptr, next_ptr_ptr, addr_key, key, retdest
+    // Check that this is not a deleted node
+    DUP1 NOT %assert_nonzero
     DUP1
     MLOAD_GENERAL
     // stack: next_addr_key, next_ptr, next_ptr_ptr, addr_key, key, retdest
-- 
2.43.0


From 18c2c1e25c2e433ca1ba13be60a508a6a38f64f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 22/28] fix: require disjoint payloads for the initial accounts

---
 .../asm/mpt/linked_list/linked_list.asm       | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 4d51a3c..ebdff0a 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -38,8 +38,9 @@
 /// the accounts, storing a pointer to the copied account in the node.
 /// Computes the length of `SEGMENT_ACCOUNTS_LINKED_LIST` and 
 /// stores it in `GLOBAL_METADATA_ACCOUNTS_LINKED_LIST_NEXT_AVAILABLE`.
-/// It also checks that the next node address is current address + 4
-/// and that all keys are strictly increasing.
+/// It also checks that the next node address is current address + 4,
+/// that all keys are strictly increasing and that the payloads are
+/// consecutive and end before the copies.
 /// NOTE: It may be more efficient to check that the next node addres != U256_MAX
 /// (i.e. node was not deleted) and ensure that no node with repeated key
 /// is ever read.
@@ -116,11 +117,37 @@ loop_store_initial_accounts:
     MLOAD_GENERAL
     %assert_gt // next_addr_key > current_addr_key
     // stack: next_node_ptr, cur_len', retdest
+    // Check that the payloads are consecutive, so that no two accounts share one.
+    DUP1 %increment
+    MLOAD_GENERAL
+    // stack: next_payload_ptr, next_node_ptr, cur_len', retdest
+    PUSH 3 DUP3 SUB
+    MLOAD_GENERAL
+    // stack: payload_ptr, next_payload_ptr, next_node_ptr, cur_len', retdest
+    %add_const(4) // Each payload has 4 elements.
+    %assert_eq
+    // stack: next_node_ptr, cur_len', retdest
     %jump(loop_store_initial_accounts)
 
 store_initial_accounts_end_pop_key:
     // stack: next_node_ptr, current_addr_key, cur_len', retdest
     SWAP1 POP
+    // Check that the payloads end before the first copy, so that no payload is also a copy.
+    PUSH 3 DUP3 SUB
+    MLOAD_GENERAL
+    // stack: last_payload_ptr, next_node_ptr, cur_len', retdest
+    %add_const(4)
+    // There are as many elements in the payloads and in the copies as in the nodes.
+    PUSH @SEGMENT_ACCOUNTS_LINKED_LIST
+    PUSH 4 ADD // Size of the head.
+    DUP4 SUB
+    // stack: payloads_len, payloads_end, next_node_ptr, cur_len', retdest
+    DUP2 DUP2
+    %assert_le
+    // stack: payloads_len, payloads_end, next_node_ptr, cur_len', retdest
+    %get_trie_data_size SUB
+    // stack: first_cpy_ptr, payloads_end, next_node_ptr, cur_len', retdest
+    %assert_ge
 store_initial_accounts_end:
     // stack: next_node_ptr, cur_len', retdest
     %assert_eq_const(@SEGMENT_ACCOUNTS_LINKED_LIST)
-- 
2.43.0


From 95626bcaff1b05d7aaa69b08dbeb0c0ca7a0bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 23/28] fix: BLOBHASH and BLOBBASEFEE in the set of invalid
 opcodes

0x49 was not in the set without eth_mainnet, and 0x4a was in it with eth_mainnet, where it is
BLOBBASEFEE: a prover could raise an invalid opcode exception at a valid instruction.
---
 .../src/cpu/kernel/constants/exc_bitfields.rs     | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/constants/exc_bitfields.rs b/evm_arithmetization/src/cpu/kernel/constants/exc_bitfields.rs
index 5ed5972..ee9c433 100644
--- a/evm_arithmetization/src/cpu/kernel/constants/exc_bitfields.rs
+++ b/evm_arithmetization/src/cpu/kernel/constants/exc_bitfields.rs
@@ -57,11 +57,24 @@ pub(crate) const STACK_LENGTH_INCREASING_OPCODES_USER: U256 = u256_from_set_inde
     0x5f..=0x8f, // PUSH*, DUP*
 ]);
 
+#[cfg(feature = "eth_mainnet")]
+pub(crate) const INVALID_OPCODES_USER: U256 = u256_from_set_index_ranges(&[
+    0x0c..=0x0f,
+    0x1e..=0x1f,
+    0x21..=0x2f,
+    0x4b..=0x4f,
+    0xa5..=0xef,
+    0xf6..=0xf9,
+    0xfb..=0xfc,
+    0xfe..=0xfe,
+]);
+
+#[cfg(not(feature = "eth_mainnet"))]
 pub(crate) const INVALID_OPCODES_USER: U256 = u256_from_set_index_ranges(&[
     0x0c..=0x0f,
     0x1e..=0x1f,
     0x21..=0x2f,
-    0x4a..=0x4f,
+    0x49..=0x4f,
     0xa5..=0xef,
     0xf6..=0xf9,
     0xfb..=0xfc,
-- 
2.43.0


From 9592a9589f3a76d2603331774a767e8955126ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 24/28] fix: compare the stack top at the ends of a segment
 without overflow

The difference of the two tops times the stack length is also zero when the product overflows:
two different tops were accepted for a stack length divisible by a power of two.
---
 evm_arithmetization/src/cpu/kernel/asm/core/exception.asm | 4 ++--
 evm_arithmetization/src/cpu/kernel/asm/main.asm           | 4 ++--
 evm_arithmetization/src/generation/mod.rs                 | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
index bea641c..0e92112 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
@@ -209,8 +209,8 @@ global exc_stop:
     DUP3 %add_const(3)
     MLOAD_GENERAL
     // stack: stored_stack_top, stack_top_before_exc, stack_len_before_exc, addr_registers, trap_info
-    SUB MUL
-    // stack: (stored_stack_top - stack_top_before_exc) * stack_len_before_exc, addr_registers, trap_info
+    EQ ISZERO MUL
+    // stack: (stored_stack_top != stack_top_before_exc) * stack_len_before_exc, addr_registers, trap_info
     %assert_zero
 
     // Check the program counter.
diff --git a/evm_arithmetization/src/cpu/kernel/asm/main.asm b/evm_arithmetization/src/cpu/kernel/asm/main.asm
index cb170ef..0a7145f 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/main.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/main.asm
@@ -31,10 +31,10 @@ global init:
     DUP3 %add_const(3)
     MLOAD_GENERAL
     // stack: pv_stack_top, stack_top, prev_stack_len, addr_registers
-    SUB
+    EQ ISZERO
     // If the stack length was previously 0, we do not need to check the previous stack top.
     MUL
-    // stack: (pv_stack_top - stack_top) * prev_stack_len, addr_registers
+    // stack: (pv_stack_top != stack_top) * prev_stack_len, addr_registers
     %assert_zero
 
     // Check the context.
diff --git a/evm_arithmetization/src/generation/mod.rs b/evm_arithmetization/src/generation/mod.rs
index 023e1f2..8d28d50 100644
--- a/evm_arithmetization/src/generation/mod.rs
+++ b/evm_arithmetization/src/generation/mod.rs
@@ -46,10 +46,10 @@ use crate::witness::util::mem_write_log;
 
 /// Number of cycles to go after having reached the halting state. It is
 /// equal to the number of cycles in `exc_stop` + 1.
-pub const NUM_EXTRA_CYCLES_AFTER: usize = 82;
+pub const NUM_EXTRA_CYCLES_AFTER: usize = 83;
 /// Number of cycles to go before starting the execution: it is the number of
 /// cycles in `init`.
-pub const NUM_EXTRA_CYCLES_BEFORE: usize = 64;
+pub const NUM_EXTRA_CYCLES_BEFORE: usize = 65;
 /// Memory values used to initialize `MemBefore`.
 pub type MemBeforeValues = Vec<(MemoryAddress, U256)>;
 
-- 
2.43.0


From 7be459bb892e832bb486bce466fc6a6a979f0403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 25/28] fix: jump destinations in init code may lie beyond
 MAX_CODE_SIZE

Init code may have up to MAX_INITCODE_SIZE bytes: a jump to a valid destination beyond
MAX_CODE_SIZE was treated as invalid.
---
 evm_arithmetization/src/cpu/kernel/asm/core/exception.asm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
index 0e92112..2f043cf 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
@@ -130,10 +130,10 @@ global invalid_jump_jumpi_destination_common:
         // We have a jump destination on the stack. We want to `PANIC` if it is valid, and jump to
         // `fault_exception` if it is not. An address is a valid jump destination if it points to a
         // `JUMPDEST` instruction. In practice, we check two things:
-        //  1. the address is no greater than MAX_CODE_SIZE, and
+        //  1. the address is no greater than MAX_INITCODE_SIZE, and
         //  2. it points to a `JUMPDEST` instruction.
         // stack: jump_dest
-        PUSH @MAX_CODE_SIZE
+        PUSH @MAX_INITCODE_SIZE
         DUP2
         // stack: jump_dest, max_size, jump_dest
         GT // jump_dest > max_size == !(jump_dest <= max_size)
-- 
2.43.0


From 6a019c9f910306ab7a6d3f3192f0335d46fd9b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 26/28] fix: reject jumpdest proofs behind the jump destination

jumpdest_analysis accepted any proof: with one close to 2^256, proof + 32 wraps around to a
position in the first 32 bytes, whose check reads bytes outside of the code, so that a JUMPDEST
byte in the data of a PUSH could be marked as a jump destination.
---
 .../src/cpu/kernel/asm/core/jumpdest_analysis.asm  | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
index 842d794..716776f 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
@@ -138,6 +138,13 @@ global write_table_if_jumpdest:
     %jumpi(verify_path_and_write_jumpdest_table)
 
 
+    // stack: proof_prefix_addr, ctx, jumpdest, retdest
+    // Check that proof <= jumpdest. Otherwise a malicious prover could pick a proof such that
+    // `proof + 32` wraps around, and the bytes checked below are not those of the code, or one that
+    // leaves `@SEGMENT_JUMPDEST_BITS` as 0 at position jumpdest while it shouldn't.
+    DUP3 DUP2
+    %assert_le
+
     // stack: proof_prefix_addr, ctx, jumpdest, retdest
     // If we are here we need to check that the next 32 bytes are not
     // PUSHXX for XX > 32 - n, n in {1, 32}.
@@ -266,12 +273,7 @@ global verify_non_jumpdest:
     SWAP1
     // stack: addr, ctx
     PROVER_INPUT(jumpdest_table::non_jumpdest_proof)
-    // stack: proof, addr, ctx,
-    // Check that proof <= addr as otherwise it allows
-    // a malicious prover to leave `@SEGMENT_JUMPDEST_BITS` as 0
-    // at position addr while it shouldn't.
-    DUP2 DUP2
-    %assert_le
+    // stack: proof, addr, ctx
     %write_table_if_jumpdest
     JUMP
 
-- 
2.43.0


From e52682bafdd1007b7cf7ec410e175cba8270df5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:15 +0000
Subject: [PATCH 27/28] fix: observe the registers before drawing the
 challenges

The registers before and after the segment are public values, but they were
in the transcript of neither verifier, so a prover could choose them after the
challenges of the lookup arguments are drawn.
---
 evm_arithmetization/src/get_challenges.rs | 36 +++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/evm_arithmetization/src/get_challenges.rs b/evm_arithmetization/src/get_challenges.rs
index 4bdffd5..94f31b6 100644
--- a/evm_arithmetization/src/get_challenges.rs
+++ b/evm_arithmetization/src/get_challenges.rs
@@ -199,6 +199,38 @@ fn observe_block_hashes_target<
     challenger.observe_elements(&block_hashes.cur_hash);
 }
 
+fn observe_registers<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
+    challenger: &mut Challenger<F, C::Hasher>,
+    registers: &RegistersData,
+) -> Result<(), ProgramError> {
+    challenger.observe_element(u256_to_u32(registers.program_counter)?);
+    challenger.observe_element(u256_to_u32(registers.is_kernel)?);
+    challenger.observe_element(u256_to_u32(registers.stack_len)?);
+    challenger.observe_elements(&u256_limbs::<F>(registers.stack_top));
+    challenger.observe_element(u256_to_u32(registers.context)?);
+    challenger.observe_element(u256_to_u32(registers.gas_used)?);
+
+    Ok(())
+}
+
+fn observe_registers_target<
+    F: RichField + Extendable<D>,
+    C: GenericConfig<D, F = F>,
+    const D: usize,
+>(
+    challenger: &mut RecursiveChallenger<F, C::Hasher, D>,
+    registers: &RegistersDataTarget,
+) where
+    C::Hasher: AlgebraicHasher<F>,
+{
+    challenger.observe_element(registers.program_counter);
+    challenger.observe_element(registers.is_kernel);
+    challenger.observe_element(registers.stack_len);
+    challenger.observe_elements(&registers.stack_top);
+    challenger.observe_element(registers.context);
+    challenger.observe_element(registers.gas_used);
+}
+
 pub(crate) fn observe_public_values<
     F: RichField + Extendable<D>,
     C: GenericConfig<D, F = F>,
@@ -212,6 +244,8 @@ pub(crate) fn observe_public_values<
     observe_block_metadata::<F, C, D>(challenger, &public_values.block_metadata)?;
     observe_block_hashes::<F, C, D>(challenger, &public_values.block_hashes);
     observe_extra_block_data::<F, C, D>(challenger, &public_values.extra_block_data)?;
+    observe_registers::<F, C, D>(challenger, &public_values.registers_before)?;
+    observe_registers::<F, C, D>(challenger, &public_values.registers_after)?;
 
     #[cfg(feature = "cdk_erigon")]
     {
@@ -241,6 +275,8 @@ pub(crate) fn observe_public_values_target<
     observe_block_metadata_target::<F, C, D>(challenger, &public_values.block_metadata);
     observe_block_hashes_target::<F, C, D>(challenger, &public_values.block_hashes);
     observe_extra_block_data_target::<F, C, D>(challenger, &public_values.extra_block_data);
+    observe_registers_target::<F, C, D>(challenger, &public_values.registers_before);
+    observe_registers_target::<F, C, D>(challenger, &public_values.registers_after);
     #[cfg(feature = "cdk_erigon")]
     observe_burn_addr_target::<F, C, D>(challenger, public_values.burn_addr.clone());
 }
-- 
2.43.0


From a7ecca17ea53afcb0ea7528aaa0e7b7268e2d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:32 +0000
Subject: [PATCH 28/28] fix: step over whole entries in the search of the
 transient storage

---
 .../src/cpu/kernel/asm/memory/transient_storage.asm            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm b/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
index 8aa32c3..ce4c3e7 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
@@ -56,7 +56,8 @@ search_transient_storage_loop:
     %jumpi(search_transient_storage_found)
 increment_and_loop:
     // stack: i, len, addr, key, retdest
-    %increment
+    // Each entry has three words: address, key and value.
+    %add_const(3)
     %jump(search_transient_storage_loop)
 
 search_transient_storage_not_found:
-- 
2.43.0

