PROPERTY="E07"
P="evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm"
EDITS=[(P,"""    DUP5
    // Here, (addr > pred_addr) || (pred_ptr == @SEGMENT_ACCESSED_STORAGE_KEYS).
    // We should have (addr < next_val), meaning the new value can be inserted between pred_ptr and next_ptr.
    %assert_lt
    // stack: next_ptr, new_ptr, next_ptr_ptr, addr, retdest
""","""    DUP5
    // Here, (addr > pred_addr) || (pred_ptr == @SEGMENT_ACCESSED_STORAGE_KEYS).
    // We should have (addr <= next_val), meaning the new value can be inserted between pred_ptr and next_ptr.
    %assert_le
    // stack: next_ptr, new_ptr, next_ptr_ptr, addr, retdest
""")]
NEEDS="a dishonest prover hinting the predecessor of an address that is already in the list of accessed addresses"
BREAKS="an address can be inserted twice into the accessed addresses: a warm access is charged as a cold one, at the prover's choice"
