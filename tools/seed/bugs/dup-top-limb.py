PROPERTY="C02"
P="evm_arithmetization/src/cpu/dup_swap.rs"
EDITS=[(P,"izip!(ch_a.value, ch_b.value) {","izip!(&ch_a.value[..7], &ch_b.value[..7]) {",1+1)]
EDITS=[(P,"    for (limb_a, limb_b) in izip!(ch_a.value, ch_b.value) {\n        yield_constr.constraint(filter * (limb_a - limb_b));",
          "    for (limb_a, limb_b) in izip!(ch_a.value, ch_b.value).take(7) {\n        yield_constr.constraint(filter * (limb_a - limb_b));"),
       (P,"    for (limb_a, limb_b) in izip!(ch_a.value, ch_b.value) {\n        let diff","    for (limb_a, limb_b) in izip!(ch_a.value, ch_b.value).take(7) {\n        let diff")]
NEEDS="a dishonest prover changing the top 32 bits of the word a DUP or SWAP moves"
BREAKS="DUPn and SWAPn no longer tie the most significant limb of the moved words, so a proof can attest a step that changes them"
