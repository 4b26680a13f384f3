PROPERTY="A03"
P="evm_arithmetization/src/arithmetic/modular.rs"
EDITS=[(P,"let limb_sum = modulus.into_iter().sum::<P>();\n    yield_constr.constraint_transition(filter * limb_sum * mod_is_zero);\n\n    // See the file documentation for why this suffices to handle\n    // modulus = 0.",
 "let limb_sum = modulus.into_iter().take(N_LIMBS - 1).sum::<P>();\n    yield_constr.constraint_transition(filter * limb_sum * mod_is_zero);\n\n    // See the file documentation for why this suffices to handle\n    // modulus = 0."),
 (P,"let limb_sum = builder.add_many_extension(modulus);\n    let t = builder.mul_extension(limb_sum, mod_is_zero);\n    let t = builder.mul_extension(filter, t);\n    yield_constr.constraint_transition(builder, t);\n\n    modulus[0] =",
  "let limb_sum = builder.add_many_extension(&modulus[..N_LIMBS - 1]);\n    let t = builder.mul_extension(limb_sum, mod_is_zero);\n    let t = builder.mul_extension(filter, t);\n    yield_constr.constraint_transition(builder, t);\n\n    modulus[0] =")]
NEEDS="a modulus that is a nonzero multiple of 2^240, and a dishonest prover"
BREAKS="the zero-modulus flag can be set for a modulus whose only nonzero limb is the top one: the remainder is then taken modulo m+1"
