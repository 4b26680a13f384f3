use crate::cpu::kernel::constants::global_metadata::GlobalMetadata;
fn insert(addr: u64, hint: usize, mem: &[(MemoryAddress, U256)]) -> Option<U256> {
    let l = label("insert_accessed_addresses");
    let h = U256::from(Segment::AccessedAddresses as usize / 2 + hint);
    let st = kernel_run_hint(l, &[0xdead0000u64.into(), addr.into()], mem, 0xdead0000, 10_000, |_, _| Some(h))?;
    Some(stack_of(&st)[0])
}
pub fn demo() -> bool {
    // the list holds 5 and 9
    let seg = Segment::AccessedAddresses as usize;
    let c = |i, v: U256| (MemoryAddress::new(0, Segment::AccessedAddresses, i), v);
    let mem = [c(0, U256::MAX), c(1, (seg + 2).into()), c(2, 5.into()), c(3, (seg + 4).into()), c(4, 9.into()), c(5, seg.into()),
        (MemoryAddress::new(0, Segment::GlobalMetadata, GlobalMetadata::AccessedAddressesLen.unscale()), U256::from(seg + 6))];
    // the outcome must not depend on the hint
    (0..12u64).all(|a| (0..3).all(|h| match insert(a, h, &mem) {
        None => true,
        Some(cold) => cold == U256::from((a != 5 && a != 9) as u64),
    }))
    && insert(7, 1, &mem) == Some(1.into()) && insert(5, 1, &mem) == Some(0.into())
}
