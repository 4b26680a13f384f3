PROPERTY="E01"
P="evm_arithmetization/src/cpu/kernel/constants/mod.rs"
EDITS=[(P,'("GAS_EXPBYTE", 50)','("GAS_EXPBYTE", 10)')]
NEEDS="EXP with a nonzero exponent"
BREAKS="EXP charges 10 gas per byte of the exponent (the price before EIP-160) instead of 50"
