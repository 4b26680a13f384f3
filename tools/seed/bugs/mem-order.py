PROPERTY="M01"
P="evm_arithmetization/src/memory/memory_stark.rs"
EDITS=[(P,"""        yield_constr
            .constraint_transition(virtual_first_change * (next_addr_segment - addr_segment));
""",""),(P,"""        let virtual_first_change_check_2 =
            builder.mul_extension(virtual_first_change, addr_segment_diff);
        yield_constr.constraint_transition(builder, virtual_first_change_check_2);
""","")]
NEEDS="a memory table whose rows return to an earlier segment of a context at a higher virtual address"
BREAKS="rows are no longer sorted by segment within a context: an address can be visited in two separate runs, and a read in the second one is not answered with the last written value"
