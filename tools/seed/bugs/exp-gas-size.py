PROPERTY="E01"
P="evm_arithmetization/src/cpu/kernel/asm/exp.asm"
EDITS=[(P,"""    dup3
    dup2
    shr
    // stack: e >> shift, shift, x, e, return_info
    %jumpi(sys_exp_gas_loop)
""","""    // The loop ends at the last byte of the word.
    dup3
    dup2
    shr
    dup2
    %lt_const(248)
    and
    // stack: e >> shift != 0, shift, x, e, return_info
    %jumpi(sys_exp_gas_loop)
""")]
NEEDS="EXP with an exponent of full bits: the lowest bit of e >> shift is 0 for some shift, or the exponent has 32 bytes"
BREAKS="EXP charges too little gas: the loop that counts the bytes of the exponent can end early"
EDITS=[(P,"""    dup3
    dup2
    shr
    // stack: e >> shift, shift, x, e, return_info
    %jumpi(sys_exp_gas_loop)
""","""    dup3
    dup2
    shr
    // The last byte of the word ends the loop.
    dup2
    %lt_const(248)
    mul
    // stack: e >> shift, or 0, shift, x, e, return_info
    %jumpi(sys_exp_gas_loop)
""")]
NEEDS="EXP with an exponent of 32 bytes (at least 2^248)"
BREAKS="EXP charges 50 gas too little for exponents of 32 bytes"
