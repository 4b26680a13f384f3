PROPERTY="C08"
P="evm_arithmetization/src/cpu/syscalls_exceptions.rs"
EDITS=[(P,"for &limb in &output[2..6] {","for &limb in &output[2..5] {",2)]
NEEDS="a system call or exception performed by a dishonest prover"
BREAKS="one limb of the return state pushed by a system call is unconstrained, so the saved state is not the one at the call"
