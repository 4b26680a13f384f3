use crate::cpu::kernel::constants::context_metadata::ContextMetadata;
pub fn demo() -> bool {
    let lim = (MemoryAddress::new(0, Segment::ContextMetadata, ContextMetadata::GasLimit.unscale()), U256::from(1u64 << 30));
    [0u64, 1, 5].iter().all(|&i| {
        let info = (U256::from(7u64) << 192) + U256::from(1u64 << 10);
        let st = kernel_run(label("sys_blobhash"), &[U256::from(i), info], &[lim], usize::MAX, 100_000).unwrap();
        st.registers.gas_used == 10 && stack_of(&st) == [U256::zero()]
    })
}
