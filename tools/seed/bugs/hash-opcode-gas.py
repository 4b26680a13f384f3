PROPERTY="E02"
P="evm_arithmetization/src/cpu/kernel/constants/mod.rs"
EDITS=[(P,'("GAS_HASH_OPCODE", 3)','("GAS_HASH_OPCODE", 2)')]
NEEDS="a transaction that executes BLOBHASH"
BREAKS="BLOBHASH charges 2 gas instead of 3"
