PROPERTY="C04"
P="evm_arithmetization/src/cpu/gas.rs"
EDITS=[(P,"yield_constr.constraint_transition(lv.op.not_pop * (gas_diff - not_pop_cost));","yield_constr.constraint_transition(\n        lv.op.not_pop * lv.opcode_bits[0] * (gas_diff - not_pop_cost),\n    );"),
 (P,"let not_pop_constr = builder.mul_extension(filter, not_pop_gas_diff);","let filter = builder.mul_extension(filter, lv.opcode_bits[0]);\n    let not_pop_constr = builder.mul_extension(filter, not_pop_gas_diff);")]
NEEDS="a dishonest prover executing POP"
BREAKS="POP can be executed with any gas charge (only NOT, which shares its flag, is still constrained)"
