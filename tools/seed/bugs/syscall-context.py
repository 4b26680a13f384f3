PROPERTY="C05"
P="evm_arithmetization/src/cpu/contextops.rs"
EDITS=[(P,"    syscall: true,\n    exception: true,","    syscall: false,\n    exception: true,")]
NEEDS="a dishonest prover switching the context in the very step that performs a system call"
BREAKS="a system call may change the current context, so the kernel handler serves (and charges, and writes to) another call frame"
