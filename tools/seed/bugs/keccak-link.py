PROPERTY="K01"
P="evm_arithmetization/src/keccak/keccak_stark.rs"
EDITS=[(P,"let sum_round_flags = (0..NUM_ROUNDS)","let sum_round_flags = (0..NUM_ROUNDS - 2)"),
       (P,"builder.add_many_extension((0..NUM_ROUNDS).map(|i| local_values[reg_step(i)]));","builder.add_many_extension((0..NUM_ROUNDS - 2).map(|i| local_values[reg_step(i)]));")]
NEEDS="a dishonest prover changing the link value between round 22 and the last round of a permutation"
BREAKS="the output of one permutation can be published under the link value of another: two hash computations can swap their results"
