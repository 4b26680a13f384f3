PROPERTY="B01"
P="evm_arithmetization/src/byte_packing/byte_packing_stark.rs"
EDITS=[(P,"for i in 0..NUM_BYTES - 1 {","for i in 0..NUM_BYTES - 2 {",2)]
NEEDS="a 31-byte memory access by a dishonest prover"
BREAKS="for a 31-byte sequence the 32nd byte of the word is unconstrained, so a word larger than the 31 bytes in memory can be read"
