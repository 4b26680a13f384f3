PROPERTY="E03"
P="evm_arithmetization/src/cpu/kernel/constants/mod.rs"
EDITS=[(P,'("GAS_MEMORY", 3)','("GAS_MEMORY", 2)')]
NEEDS="an opcode that expands the memory"
BREAKS="memory expansion costs 2 gas per word instead of 3"
