PROPERTY="E05"
P="evm_arithmetization/src/cpu/kernel/constants/exc_bitfields.rs"
EDITS=[(P,"    0x41..=0x48, /* COINBASE, TIMESTAMP, NUMBER, DIFFICULTY, GASLIMIT, CHAINID, SELFBALANCE,\n                  * BASEFEE */\n    0x4a","    0x41..=0x47, /* COINBASE, TIMESTAMP, NUMBER, DIFFICULTY, GASLIMIT, CHAINID, SELFBALANCE */\n    0x4a")]
NEEDS="BASEFEE executed with 1024 words on the stack"
BREAKS="the kernel denies the stack overflow of BASEFEE: the exception ends in a panic, so the block cannot be proved"
