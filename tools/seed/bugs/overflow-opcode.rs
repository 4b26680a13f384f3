pub fn demo() -> bool {
    let pc = 1_000_000usize;
    let run = |op: u64, len: usize| {
        let mut stack = vec![U256::zero(); len];
        stack.push(U256::from(pc as u64) + (U256::from(50u64) << 192));
        let code = (MemoryAddress::new(0, Segment::Code, pc), U256::from(op));
        kernel_run(label("exc_stack_overflow"), &stack, &[code], label("fault_exception"), 1000).is_some()
    };
    // everything that pushes a word more than it pops overflows a full stack, nothing else does
    let pushes = |op: u64| matches!(op, 0x30 | 0x32..=0x34 | 0x36 | 0x38 | 0x3a | 0x3d | 0x41..=0x48 | 0x58..=0x5a | 0x5f..=0x8f);
    (0..=0xffu64).filter(|&op| op != 0x4a).all(|op| run(op, 1024) == pushes(op))
}
