PROPERTY="M02"
A="evm_arithmetization/src/memory/memory_stark.rs"
B="evm_arithmetization/src/memory_continuation/memory_continuation_stark.rs"
EDITS=[(A,"""    let mut res = Column::singles([
        MEMORY_COL_MAP.addr_context,
        MEMORY_COL_MAP.addr_segment,
        MEMORY_COL_MAP.addr_virtual,
    ])
    .collect_vec();
    res.extend(Column::singles(MEMORY_COL_MAP.value_limbs));
    res
""","""    let mut res = Column::singles([
        MEMORY_COL_MAP.addr_context,
        MEMORY_COL_MAP.addr_virtual,
    ])
    .collect_vec();
    res.extend(Column::singles(MEMORY_COL_MAP.value_limbs));
    res
"""),(B,"    let mut res = Column::singles([ADDR_CONTEXT, ADDR_SEGMENT, ADDR_VIRTUAL]).collect_vec();\n    res.extend(Column::singles((0..8).map(value_limb)));\n    res\n",
 "    let mut res = Column::singles([ADDR_CONTEXT, ADDR_VIRTUAL]).collect_vec();\n    res.extend(Column::singles((0..8).map(value_limb)));\n    res\n")]
NEEDS="a prover who moves a final value to another memory segment when handing memory over to the next proof segment"
BREAKS="the memory handed over is not tied to the memory segment of each cell (both sides of the lookup leave it out, so they agree)"
