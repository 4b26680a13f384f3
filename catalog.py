#!/usr/bin/env python3
"""The catalogue of properties.  Running it writes properties.jsonl and MANIFEST.json."""
import json, os, sys

EA = "evm_arithmetization/src/"
AIR = "contract-based deductive verification: contracts over the real constraint polynomials, discharged by airvc (field/integer VC checker)"
AIR_NOTE = ("Proof for all rows and all field values: every obligation is generated from the constraint polynomials, lookups and column lists that the real code "
            "(eval_packed_generic run on symbolic values) produces on this tree. Trusts starky/plonky2 soundness, LogUp, the extraction and the airvc checker; "
            "circuit versions of the constraints are tied to these by the repository's own tests only.")
TESTS_AIR = ("The tests compare packed and circuit constraints at random points and prove a few honest executions; no test tries the rows a dishonest prover could write, "
             "so a missing or weakened constraint passes all of them.")
CPU = [EA + "cpu/" + f for f in ("cpu_stark.rs", "byte_unpacking.rs", "clock.rs", "contextops.rs", "control_flow.rs", "decode.rs", "dup_swap.rs", "gas.rs", "halt.rs", "jumps.rs",
                                 "membus.rs", "memio.rs", "modfp254.rs", "pc.rs", "push0.rs", "shift.rs", "simple_logic/eq_iszero.rs", "simple_logic/not.rs", "stack.rs",
                                 "syscalls_exceptions.rs")] + [EA + "all_stark.rs"]
P = []


def add(id, title, statement, over, text, why, files, mech, technique=AIR, level="proof", note=AIR_NOTE, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, level=level, note=note, na=na))


ROWS = "every pair of consecutive rows a prover can commit to, i.e. every assignment of field elements, for every opcode and both privilege modes"

add("C01", "Opcodes decode to exactly one instruction",
    "In every execution a verified proof can attest, each step executes the instruction that its opcode byte denotes in the current privilege mode (or the system call / exception entry the EVM assigns to it), never a different one, never two, and privileged opcodes never execute natively in user mode. Every opcode the specification allows has at least one admissible step.",
    ["inputs", "programs"], ROWS, TESTS_AIR, CPU, [("decoding constraints and operation kind sent to the other tables", EA + "cpu/decode.rs")])
add("C02", "Stack effect of every instruction",
    "In every execution a verified proof can attest, each step pops and pushes exactly the number of stack words its instruction prescribes, reads operands from the right positions, leaves the rest of the stack untouched, writes the cached top of stack back when it must, and user code never gets past 1024 elements or below zero without an exception.",
    ["inputs", "programs"], ROWS, TESTS_AIR, CPU, [("stack constraints", EA + "cpu/stack.rs"), ("DUP/SWAP", EA + "cpu/dup_swap.rs")])
add("C03", "Program counter, privilege mode and halting",
    "In every execution a verified proof can attest, control flow starts at the kernel entry point in kernel mode, each step moves to the program counter and privilege mode its instruction prescribes (including taken and untaken jumps to valid destinations, calls into and returns from the kernel), and execution ends in the halt state and stays there.",
    ["inputs", "programs"], ROWS, TESTS_AIR, CPU, [("control flow", EA + "cpu/control_flow.rs"), ("jumps", EA + "cpu/jumps.rs"), ("halt", EA + "cpu/halt.rs")])
add("C04", "Gas charged per instruction",
    "In every execution a verified proof can attest, each natively executed instruction charges exactly its prescribed gas, system calls and exceptions preserve or reset the counter as prescribed, and gas starts at zero: no step is free or cheaper than prescribed.",
    ["inputs", "programs"], ROWS, TESTS_AIR, CPU, [("gas constraints", EA + "cpu/gas.rs")])
add("C05", "No unprescribed memory effect of a step",
    "In every execution a verified proof can attest, a step performs exactly the memory operations its instruction prescribes (right direction, address and time) and no others: a prover cannot smuggle in an extra read or write, leave one out, or change untouched machine registers.",
    ["inputs", "programs"], ROWS, TESTS_AIR, CPU, [("memory bus", EA + "cpu/membus.rs"), ("channel activation", EA + "cpu/stack.rs")])
add("C06", "Contexts and memory instructions",
    "In every execution a verified proof can attest, context switches install exactly the requested context with its own saved stack, contexts are released only when asked, and general memory loads and stores access exactly the address and value on the stack.",
    ["inputs", "programs"], ROWS, TESTS_AIR, CPU, [("context switching", EA + "cpu/contextops.rs"), ("memory instructions", EA + "cpu/memio.rs")])
add("C07", "Results are tied to the tables that compute them",
    "In every execution a verified proof can attest, the value an instruction leaves on the stack is the one it prescribes for its operands: computed in place (comparison with zero, equality, NOT, PC, constants) or answered by the arithmetic, logic, hashing or byte-packing table for exactly these operands and that operation.",
    ["inputs", "programs"], ROWS, TESTS_AIR, CPU, [("cross-table lookups of the CPU", EA + "cpu/cpu_stark.rs"), ("equality and zero test", EA + "cpu/simple_logic/eq_iszero.rs")])
add("C08", "System calls and exceptions enter the kernel correctly",
    "In every execution a verified proof can attest, a system call or exception jumps to the handler that the kernel's own jump table holds for it, pushes the return state (address, privilege flag, gas) faithfully, and only occurs for an opcode or exception code that exists.",
    ["inputs", "programs"], ROWS, TESTS_AIR, CPU, [("trap entry", EA + "cpu/syscalls_exceptions.rs")])
AR = [EA + "arithmetic/" + f for f in ("arithmetic_stark.rs", "addcy.rs", "mul.rs", "divmod.rs", "modular.rs", "shift.rs", "byte.rs", "columns.rs")]
AQ = "all operands in [0, 2^256) and every assignment of the prover's auxiliary columns"
add("A01", "256-bit addition, subtraction and comparison",
    "Every arithmetic row a verified proof can contain for ADD, SUB, LT or GT carries the exact result: a+b and a-b modulo 2^256, and the truth value of a<b or a>b; operands and results are genuine 256-bit numbers and a row performs a single kind of operation.",
    ["inputs"], AQ, TESTS_AIR, AR, [("carry chains", EA + "arithmetic/addcy.rs"), ("16-bit range checks", EA + "arithmetic/arithmetic_stark.rs")])
add("A02", "256-bit multiplication and left shift",
    "Every arithmetic row a verified proof can contain for MUL or SHL carries the exact product modulo 2^256 (for SHL: of the value and the power of two supplied for the shift).",
    ["inputs"], AQ, TESTS_AIR, AR, [("schoolbook product with carries", EA + "arithmetic/mul.rs"), ("shift", EA + "arithmetic/shift.rs")])
add("A03", "Division, remainder and modular arithmetic",
    "Every arithmetic row a verified proof can contain for DIV, MOD, SHR, ADDMOD, MULMOD, SUBMOD or the BN254 field operations carries the exact quotient or the fully reduced remainder, with the EVM's answer 0 when the divisor or modulus is 0.",
    ["inputs"], AQ, TESTS_AIR, AR, [("modular reduction", EA + "arithmetic/modular.rs"), ("division", EA + "arithmetic/divmod.rs")])
add("A04", "BYTE extraction",
    "Every arithmetic row a verified proof can contain for BYTE carries the byte of the value at the given big-endian index, and 0 when the index is 32 or more.",
    ["inputs"], AQ, TESTS_AIR, AR, [("binary decomposition of the index", EA + "arithmetic/byte.rs")])
add("L01", "Bitwise AND, OR and XOR",
    "Every logic row a verified proof can contain carries the exact bitwise AND, OR or XOR of two 256-bit operands, for the operation it announces.",
    ["inputs"], "all operands and every assignment of the logic table's columns", TESTS_AIR, [EA + "logic.rs"], [("bit decomposition", EA + "logic.rs")])
add("B01", "Byte packing agrees with memory bytes",
    "Every multi-byte memory access a verified proof can contain touches exactly the `length` consecutive byte cells it names, all at one time and in one direction, and relates them to the stack word as a big-endian number of that length.",
    ["inputs"], "lengths 1 to 32 and every assignment of the byte packing table's columns", TESTS_AIR, [EA + "byte_packing/byte_packing_stark.rs"],
    [("byte messages and range check", EA + "byte_packing/byte_packing_stark.rs")])
add("M01", "Memory consistency",
    "In every execution a verified proof can attest, a memory read returns the value most recently written to that address (or the value carried over from the previous segment), zero if it was never written outside the segments meant to be supplied by the prover, whatever the order in which the operations are listed.",
    ["inputs", "histories"], "every memory trace: any number of operations, any addresses and times", TESTS_AIR,
    [EA + "memory/memory_stark.rs", EA + "memory/columns.rs"], [("ordering by range-checked differences", EA + "memory/memory_stark.rs")],
    note=AIR_NOTE + " The step from the per-row contracts to the whole trace (addresses sorted strictly, so the rows of an address are contiguous and time-ordered) is an induction over rows written in DESIGN.md; it assumes fewer than 2^32 rows.")
add("M02", "Memory continuity across segments",
    "Every memory cell touched in a segment whose context was not released ends up, with its final value, in the memory handed to the next segment (cells that are zero may be left out where memory starts at zero), each at most once; the next segment starts with exactly the cells handed over; and only contexts the program released may be dropped.",
    ["inputs", "histories"], "every memory trace and every split of an execution into segments", TESTS_AIR + " The honest generator never drops or duplicates cells, so continuation holes stay invisible.",
    [EA + "memory/memory_stark.rs", EA + "memory/columns.rs", EA + "memory_continuation/memory_continuation_stark.rs", EA + "all_stark.rs"],
    [("final value propagation", EA + "memory/memory_stark.rs"), ("initial memory", EA + "memory_continuation/memory_continuation_stark.rs")])

if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "catalog2.py")):
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "catalog2.py")).read())


def main():
    root = os.path.dirname(os.path.abspath(__file__))
    with open(root + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            for x in p["files"]:
                assert os.path.exists("/repo/" + x), x
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh",
             hooks=dict(guard="none: /repo carries no hook; the checks compile a view of /repo's working tree (a copy made on every run) in which the lib.rs of a crate gets one line that declares /verif/hooks/<crate>.rs as a module",
                        enable="python3 -m lib.build <harness>", source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"python3 run.py {p['id']} thorough", technique=p["technique"], level=p["level"],
                          level_note=p["note"]) for p in P if not p["na"]],
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]])
    json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
    print(len(P), "properties")


main()
