PROPERTY="L01"
P="evm_arithmetization/src/logic.rs"
EDITS=[(P,"        for &flag in &[is_and, is_or, is_xor] {\n            yield_constr","        for &flag in &[is_and, is_or] {\n            yield_constr"),
 (P,"        let all_flags = is_and + is_or + is_xor;\n        yield_constr.constraint(all_flags * (all_flags - P::ONES));","        let all_flags = is_and + is_or + is_xor;\n        yield_constr.constraint((is_and + is_or) * (all_flags - P::ONES));"),
 (P,"        for &flag in &[is_and, is_or, is_xor] {\n            let constraint","        for &flag in &[is_and, is_or] {\n            let constraint"),
 (P,"        let constraint = builder.mul_sub_extension(all_flags, all_flags, all_flags);","        let other_flags = builder.add_extension(is_and, is_or);\n        let constraint = builder.mul_sub_extension(other_flags, all_flags, other_flags);")]
NEEDS="a dishonest prover giving a logic row a XOR flag other than 0 or 1"
BREAKS="a row can announce a fractional XOR and carry a multiple of the exclusive or; rows are counted with a weight other than 0 or 1"
