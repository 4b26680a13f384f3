PROPERTY="A01"
P="evm_arithmetization/src/arithmetic/addcy.rs"
EDITS=[(P,"""        yield_constr.constraint(filter * (cy - given_cy[0]));
        for i in 1..N_LIMBS {""","""        yield_constr.constraint(filter * (cy - given_cy[0]));
        for i in 1..N_LIMBS - 1 {"""),(P,"""        yield_constr.constraint(builder, cy_filter);
        for i in 1..N_LIMBS {""","""        yield_constr.constraint(builder, cy_filter);
        for i in 1..N_LIMBS - 1 {""")]
NEEDS="a LT or GT answered by a dishonest prover"
BREAKS="the top 16 bits of a comparison's result are unconstrained: LT can return a huge nonzero number instead of 0"
