use crate::cpu::kernel::constants::context_metadata::ContextMetadata;
pub fn demo() -> bool {
    let lim = (MemoryAddress::new(0, Segment::ContextMetadata, ContextMetadata::GasLimit.unscale()), U256::from(1u64 << 30));
    [0u64, 1, 100, 4000].iter().all(|&off| {
        let info = U256::from(1u64 << 10);
        let st = kernel_run(label("sys_mstore"), &[U256::from(77), U256::from(off), info], &[lim], usize::MAX, 100_000).unwrap();
        let words = (off + 32 + 31) / 32;
        let c = st.registers.context;
        st.registers.gas_used == 3 + 3 * words + words * words / 512 && cell(&st, c, Segment::MainMemory, off as usize + 31) == U256::from(77)
    })
}
