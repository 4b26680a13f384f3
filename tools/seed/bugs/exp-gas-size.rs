use crate::cpu::kernel::constants::context_metadata::ContextMetadata;
pub fn demo() -> bool {
    let lim = (MemoryAddress::new(0, Segment::ContextMetadata, ContextMetadata::GasLimit.unscale()), U256::from(1u64 << 30));
    [1usize, 8, 9, 200, 247, 248, 249, 255].iter().all(|&b| {
        let e = U256::one() << b;
        let info = (U256::from(7u64) << 192) + U256::from(1u64 << 10);
        let st = kernel_run(label("sys_exp"), &[e, U256::one(), info], &[lim], usize::MAX, 100_000).unwrap();
        let used = st.registers.gas_used;
        used == 7 + 10 + 50 * (b as u64 / 8 + 1) && stack_of(&st) == [U256::one()]
    })
}
