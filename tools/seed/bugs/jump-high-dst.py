PROPERTY="C03"
P="evm_arithmetization/src/cpu/jumps.rs"
EDITS=[(P,"let dst_hi_sum: P = dst[1..].iter().copied().sum();","let dst_hi_sum: P = dst[2..].iter().copied().sum();"),
       (P,"builder.add_many_extension(&dst[1..])","builder.add_many_extension(&dst[2..])")]
NEEDS="a jump whose destination word exceeds 32 bits but whose low limb is a valid destination"
BREAKS="JUMP and JUMPI accept destinations whose second limb is nonzero and jump to the truncated address instead of raising an exception"
