#![allow(missing_docs, clippy::all, dead_code, unused)]
use std::borrow::Borrow;
use ethereum_types::U256;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::field::polynomial::PolynomialValues;
use starky::constraint_consumer::ConstraintConsumer;
use starky::evaluation_frame::StarkEvaluationFrame;
use starky::stark::Stark;
use crate::cpu::columns::CpuColumnsView;
use crate::cpu::cpu_stark::CpuStark;
use crate::generation::state::{GenerationState, State};
use crate::witness::memory::MemoryAddress;
use crate::witness::state::RegistersState;
use crate::witness::transition::Transition;
use crate::memory::segments::Segment;

/// Whether all constraints of the table vanish on this pair of rows.
pub fn holds<S: Stark<F, 2>>(s: &S, lv: &[F], nv: &[F], first: bool, last: bool) -> bool {
    let b = |x: bool| if x { F::ONE } else { F::ZERO };
    let mut cc = ConstraintConsumer::<F>::new(
        vec![F::from_canonical_u64(0x1234_5678_9abc_def1)], b(!last), b(first), b(last));
    let fr = S::EvaluationFrame::<F, F, 1>::from_values(lv, nv, &[]);
    s.eval_packed_generic::<F, F, 1>(&fr, &mut cc);
    cc.accumulators()[0] == F::ZERO
}
/// Whether the whole table, given by rows, satisfies its constraints.
pub fn table_holds<S: Stark<F, 2>>(s: &S, rows: &[Vec<F>]) -> bool {
    let n = rows.len();
    (0..n).all(|i| holds(s, &rows[i], &rows[(i + 1) % n], i == 0, i == n - 1))
}
pub fn rows_of(cols: &[PolynomialValues<F>]) -> Vec<Vec<F>> {
    (0..cols[0].values.len()).map(|i| cols.iter().map(|c| c.values[i]).collect()).collect()
}
/// The CPU rows of running `code`, in kernel mode (placed at address 0 of the kernel's code) or in
/// user mode (in context 1), with the given initial stack (last = top).
pub fn cpu_rows(code: &[u8], kernel: bool, stack: &[U256], steps: usize) -> (Vec<CpuColumnsView<F>>, GenerationState<F>) {
    let mut st = GenerationState::<F>::new(&Default::default(), &crate::cpu::kernel::aggregator::KERNEL.code).unwrap();
    let ctx = if kernel { 0 } else { 1 };
    st.memory.contexts.resize_with(2, Default::default);
    let base = if kernel { 1_000_000 } else { 0 };
    let put = |st: &mut GenerationState<F>, c: usize, s: Segment, i: usize, v: U256| {
        st.memory.set(MemoryAddress::new(c, s, i), v)
    };
    for (i, b) in code.iter().enumerate() {
        put(&mut st, ctx, Segment::Code, base + i, U256::from(*b));
    }
    for (i, v) in stack.iter().enumerate() {
        put(&mut st, ctx, Segment::Stack, i, *v);
    }
    use crate::cpu::kernel::constants::context_metadata::ContextMetadata;
    put(&mut st, ctx, Segment::ContextMetadata, ContextMetadata::GasLimit.unscale(), U256::from(1u64 << 30));
    st.registers = RegistersState {
        program_counter: base,
        is_kernel: kernel,
        stack_len: stack.len(),
        stack_top: stack.last().copied().unwrap_or_default(),
        is_stack_top_read: false,
        check_overflow: false,
        context: ctx,
        gas_used: 0,
    };
    for _ in 0..steps { st.transition().unwrap(); }
    (st.traces.cpu.clone(), st)
}
pub fn cpu_ok(lv: &CpuColumnsView<F>, nv: &CpuColumnsView<F>) -> bool {
    let l: &[F; crate::cpu::columns::NUM_CPU_COLUMNS] = lv.borrow();
    let n: &[F; crate::cpu::columns::NUM_CPU_COLUMNS] = nv.borrow();
    holds(&CpuStark::<F, 2>::default(), l, n, false, false)
}
pub fn f(x: u64) -> F { F::from_canonical_u64(x) }
/// Runs the kernel from code offset `pc`, with this stack (last = top) and memory, until it gets to
/// `end`.  None when it panics or needs more than `max` steps.
pub fn kernel_run(pc: usize, stack: &[U256], mem: &[(MemoryAddress, U256)], end: usize, max: usize) -> Option<GenerationState<F>> {
    kernel_run_hint(pc, stack, mem, end, max, |_, _| None)
}
/// The same, with answers to the kernel's questions to the prover: `hint(pc, state)`.
pub fn kernel_run_hint(pc: usize, stack: &[U256], mem: &[(MemoryAddress, U256)], end: usize, max: usize,
    mut hint: impl FnMut(usize, &GenerationState<F>) -> Option<U256>) -> Option<GenerationState<F>> {
    let code = &crate::cpu::kernel::aggregator::KERNEL.code;
    let mut st = GenerationState::<F>::new(&Default::default(), code).unwrap();
    st.memory.contexts.resize_with(4, Default::default);
    for (i, b) in code.iter().enumerate() {
        st.memory.set(MemoryAddress::new(0, Segment::Code, i), U256::from(*b));
    }
    for (a, v) in mem { st.memory.set(*a, *v); }
    for (i, v) in stack.iter().enumerate() {
        st.memory.set(MemoryAddress::new(0, Segment::Stack, i), *v);
    }
    st.registers = RegistersState {
        program_counter: pc, is_kernel: true, stack_len: stack.len(), stack_top: stack.last().copied().unwrap_or_default(),
        is_stack_top_read: false, check_overflow: false, context: 0, gas_used: 0,
    };
    for _ in 0..max {
        let p = st.registers.program_counter;
        if p == end && st.registers.is_kernel || !st.registers.is_kernel { return Some(st); }
        if p < code.len() && code[p] == 0xee {
            if let Some(h) = hint(p, &st) {
                // the effect of PROVER_INPUT with this answer
                let n = st.registers.stack_len;
                if n > 0 { let t = st.registers.stack_top; let c = st.registers.context; st.memory.set(MemoryAddress::new(c, Segment::Stack, n - 1), t); }
                st.registers.stack_len = n + 1;
                st.registers.stack_top = h;
                st.registers.is_stack_top_read = false;
                st.registers.program_counter = p + 1;
                continue;
            }
        }
        if st.transition().is_err() { return None; }
        let _ = st.traces.memory_ops.len();
    }
    None
}
pub fn label(n: &str) -> usize { crate::cpu::kernel::aggregator::KERNEL.global_labels[n] }
pub fn cell(st: &GenerationState<F>, c: usize, s: Segment, i: usize) -> U256 { st.memory.get_with_init(MemoryAddress::new(c, s, i)) }
/// The stack, last = top.
pub fn stack_of(st: &GenerationState<F>) -> Vec<U256> {
    let (n, c) = (st.registers.stack_len, st.registers.context);
    (0..n).map(|i| if i == n - 1 { st.registers.stack_top } else { st.memory.get_with_init(MemoryAddress::new(c, Segment::Stack, i)) }).collect()
}
