PROPERTY="K02"
P="evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs"
EDITS=[(P,".skip(KECCAK_RATE_U32S - KECCAK_DIGEST_U32S)\n            .zip(next_values.original_capacity_u32s.iter())",
 ".skip(KECCAK_RATE_U32S - KECCAK_DIGEST_U32S)\n            .zip(next_values.original_capacity_u32s.iter().take(KECCAK_DIGEST_U32S))",2)]
NEEDS="hashing more than one block with a dishonest prover"
BREAKS="the upper half of the sponge's capacity is not carried from one block to the next, so a prover chooses it freely and obtains a digest that is not Keccak-256 of the input"
