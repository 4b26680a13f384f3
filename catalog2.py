KE = [EA + "keccak/" + f for f in ("keccak_stark.rs", "columns.rs", "constants.rs", "logic.rs", "round_flags.rs")]
add("K01", "The permutation table computes Keccak-f[1600]",
    "Every permutation output a verified proof can contain is Keccak-f[1600] (FIPS 202, 24 rounds) of the input asked for under the same link value; rounds cannot be skipped, repeated, reordered or mixed between permutations.",
    ["inputs"], "all 1600-bit states and every assignment of the table's columns, in every row arrangement", TESTS_AIR, KE + [EA + "all_stark.rs"],
    [("round constraints", EA + "keccak/keccak_stark.rs"), ("round flags", EA + "keccak/round_flags.rs")])
add("K02", "Hashing a memory range yields its Keccak-256 digest",
    "Every hash answer a verified proof can contain is the Keccak-256 digest, as a big-endian word, of exactly the `length` bytes held in memory at the given address and time: blocks are absorbed once, in order, with the right padding, from the zero state.",
    ["inputs"], "all lengths and contents and every assignment of the sponge table's columns", TESTS_AIR + " The trace generator only writes honest rows.",
    [EA + "keccak_sponge/keccak_sponge_stark.rs", EA + "keccak_sponge/columns.rs", EA + "all_stark.rs"],
    [("absorption, padding, chaining", EA + "keccak_sponge/keccak_sponge_stark.rs"), ("lookups", EA + "all_stark.rs")])
add("X01", "Tables exchange exactly the prescribed messages",
    "The parts of a verified proof agree with each other: each result or memory access one part uses is one that another part really establishes, the same number of times, and every part that feeds memory is accounted for; no message can be counted with a weight other than 0 or 1.",
    ["inputs"], "every pair of tables that exchange messages and every row a prover can commit to", TESTS_AIR + " An honest trace never sends a message a fractional or negative number of times.",
    [EA + "all_stark.rs", EA + "cpu/cpu_stark.rs", EA + "memory/memory_stark.rs", EA + "byte_packing/byte_packing_stark.rs", EA + "keccak_sponge/keccak_sponge_stark.rs"],
    [("list of cross-table lookups", EA + "all_stark.rs")])

KERN = "contract-based deductive verification: contracts over the assembled kernel routines, discharged by kvc (symbolic execution of the real byte code) with z3 over 256-bit vectors"
KERN_NOTE = ("Proof for all machine words, gas limits, memory contents and prover inputs: each routine of the kernel that the repository's own assembler produces from this tree is executed symbolically "
             "against an executable specification; callers are checked against the contract of their callees, loops against invariants. Trusts z3, kvc and the instruction semantics established by the circuit "
             "contracts; products and quotients of two unknown words are uninterpreted with instances of arithmetic lemmas; partial correctness.")
TESTS_K = "The kernel tests run each routine on a handful of inputs with an honest prover; boundary values, prover answers that an honest prover would not give and gas amounts on rare paths are not tried."
ASM = EA + "cpu/kernel/asm/"


def kern(id, title, statement, over, text, files, mech, why=TESTS_K, note=KERN_NOTE):
    add(id, title, statement, over, text, why, [ASM + f for f in files], [(w, ASM + f) for w, f in mech], technique=KERN, note=note)


kern("E01", "Signed arithmetic and exponentiation system calls",
     "SDIV, SMOD, SIGNEXTEND, SAR, SLT, SGT and EXP leave exactly the result the EVM defines for their operands, charge exactly the EVM's gas (for EXP: 10 + 50 per byte of the exponent), raise an exception when the gas does not suffice, and change nothing else.",
     ["inputs"], "all pairs of 256-bit operands, all amounts of gas", ["signed.asm", "exp.asm", "core/gas.asm", "core/syscall.asm"],
     [("signed operations", "signed.asm"), ("EXP and its gas", "exp.asm")])
kern("E07", "Account, storage and access lists cannot be falsified by hints",
     "Whatever hints the prover gives, the sorted lists of accounts, storage slots, accessed addresses and accessed storage keys behave as maps: a search returns the value stored under the key, reports an absence only when no node has the key, an insertion adds the key once or finds it, a removal removes exactly the key (or all slots of an account), other entries stay as they were, and the initial lists are accepted only when sorted and free of duplicates and of shared payloads. A hint the list does not justify ends in a panic.",
     ["inputs", "histories"], "all lists of fewer than 2^27 nodes, all keys, all hints", ["mpt/linked_list/linked_list.asm", "core/access_lists.asm"],
     [("accounts and storage", "mpt/linked_list/linked_list.asm"), ("access lists", "core/access_lists.asm")],
     why="The tests use the hints of an honest prover. A search that accepts a wrong hint (an account hidden from the state, a warm address charged as cold) passes all of them.")
kern("E02", "Environment and account queries answer from block, transaction and state",
     "ADDRESS, CALLER, CALLVALUE, CALLDATASIZE, CODESIZE, RETURNDATASIZE, MSIZE, COINBASE, TIMESTAMP, NUMBER, GASLIMIT, CHAINID, BASEFEE, PREVRANDAO, ORIGIN, GASPRICE, GAS, BLOBHASH, BLOCKHASH (the last 256 blocks, else 0), BALANCE, SELFBALANCE, EXTCODESIZE and EXTCODEHASH (0 for an empty account) push exactly the value of the frame, transaction, block or state they name, charge exactly the EVM's gas (2600 or 100 for the first or a later access to an address), and change nothing but the list of accessed addresses.",
     ["inputs"], "all states, blocks, frames, addresses, amounts of gas and prover inputs", ["core/syscall.asm", "memory/metadata.asm", "balance.asm", "account_code.asm", "core/gas.asm"],
     [("block and transaction", "memory/metadata.asm"), ("balances", "balance.asm"), ("code", "account_code.asm")])
kern("E03", "Memory and copy operations move exactly the bytes they name",
     "MLOAD, MSTORE, MSTORE8, MCOPY (also of overlapping ranges), CALLDATALOAD, CALLDATACOPY, CODECOPY, EXTCODECOPY and RETURNDATACOPY read and write exactly the bytes the EVM defines, with zeros behind the end of the data, expand the memory and charge for the expansion and the copied words exactly as the EVM does, raise an exception when the gas does not suffice or RETURNDATACOPY reads behind the end, and change nothing else.",
     ["inputs"], "all offsets, sizes, memory contents and amounts of gas", ["memory/syscalls.asm", "memory/memcpy.asm", "memory/memset.asm", "core/gas.asm"],
     [("memory opcodes", "memory/syscalls.asm"), ("copy loops", "memory/memcpy.asm"), ("clearing", "memory/memset.asm")])
kern("E06", "Storage and transient storage follow the EVM's values, gas and refunds",
     "SLOAD, SSTORE, TLOAD and TSTORE read and write exactly the slot of the current account that they name (absent slots read 0, a write of 0 deletes), charge exactly the gas of EIP-2200, EIP-2929 and EIP-1153 and change the refund by exactly the amounts of EIP-3529, record the change so that a revert can undo it, fail in static calls and when too little gas is left, and change nothing else.",
     ["inputs", "histories"], "all states, slots, values, earlier accesses and amounts of gas", ["mpt/storage/storage_read.asm", "mpt/storage/storage_write.asm", "memory/transient_storage.asm", "core/access_lists.asm"],
     [("storage reads", "mpt/storage/storage_read.asm"), ("storage writes", "mpt/storage/storage_write.asm"), ("transient storage", "memory/transient_storage.asm")])
kern("E05", "System calls reach their handlers; exceptions and segment ends cannot be forged",
     "Each opcode enters the handler of its instruction. A prover can end a call exceptionally only where the EVM does: out of gas only when the instruction's gas exceeds what is left, invalid instruction only for opcodes the EVM does not define, stack underflow and overflow only when the stack is that short or full. An execution segment begins and ends only with the program counter, mode, stack length, stack top, context and gas that its public values claim.",
     ["inputs"], "all opcodes, programs, stack depths, amounts of gas and register values", ["core/exception.asm", "core/syscall.asm", "main.asm"],
     [("system call table", "core/syscall.asm"), ("exception handlers", "core/exception.asm"), ("start of a segment", "main.asm")],
     why="The tests raise exceptions only where an honest prover raises them, and run honest segments; a handler that accepts a forged exception or a forged register passes them.")
kern("E13", "Jumps land exactly on JUMPDEST instructions",
     "A position is ever accepted as a jump destination only if it holds a JUMPDEST that starts an instruction of the code that is being run (not push data), and a jump is refused as invalid only if its destination is not such a position, whatever destinations and proofs the prover supplies.",
     ["inputs"], "all programs, destinations, prover-supplied positions and proofs", ["core/jumpdest_analysis.asm", "core/exception.asm"],
     [("jump destination analysis", "core/jumpdest_analysis.asm"), ("invalid jumps", "core/exception.asm")],
     why="The tests run the analysis on a few programs with honest proofs; a walk that starts inside push data, or a proof that hides a valid destination, is not tried.")

add("P01", "Public values are bound to the execution they claim",
    "Each public value of a segment (trie roots, block metadata, bloom, block hashes, extra block data, registers before and after) is the content of the memory cell the kernel reads it from, limb by limb, in the native and in the recursive verifier alike; together with the kernel's code hash these are the only rows a verifier adds to memory. All public values enter the transcript before the challenges are drawn, so none can be chosen after them, and both verifiers draw the same challenges. The public inputs of the recursive proof decode to the same public values.",
    ["inputs"], "all public values and all challenges (checked: bounded, see DESIGN.md)",
    "An honest prover's public values are right whether or not a verifier looks at them: the tests do not notice a public value, or some limb of one, that is left out of the transcript or of the memory rows.",
    [EA + "verifier.rs", EA + "recursive_verifier.rs", EA + "get_challenges.rs", EA + "proof.rs"],
    [("rows added to memory, native", EA + "verifier.rs"), ("rows added to memory, recursive", EA + "recursive_verifier.rs"), ("transcript", EA + "get_challenges.rs")],
    technique="bounded stand-in for function contracts: the real native and circuit functions are executed against the contract (the list of rows, the injectivity of the transcript) at random public values and challenges; nothing is counted as proved",
    level="exploration",
    note="Bounded: N random assignments of all public values (quick 4, thorough 24), each row and each 32-bit limb changed once per assignment, at random challenges (an identity of rational functions over a 64-bit field is tested at random points). "
         "The functions are generic over plonky2's fields, hashers and circuit builder, which no deductive verifier here accepts, so no contract on them can be discharged.")


def nope(id, title, statement, over, text, files, mech, why, na):
    add(id, title, statement, over, text, why, files, mech, na=na)


nope("G01", "Aggregation circuits connect all public values",
     "A block or batch proof is accepted only when the proofs it combines are consecutive: segments chain registers and memory, transaction batches chain trie roots, counters, gas and block metadata, blocks chain block hashes and state roots, and every public value of the outer proof is the one of the inner proofs.",
     ["inputs"], "all public values and all proofs", [EA + "fixed_recursive_verifier.rs", EA + "recursive_verifier.rs", EA + "get_challenges.rs", EA + "proof.rs"], [("connect_* functions", EA + "fixed_recursive_verifier.rs")],
     "Tests aggregate a few honest proofs; a missing connection is invisible to them.",
     "The connections are made by imperative calls on plonky2's CircuitBuilder inside functions that also build the whole recursive circuit (tens of GB, many minutes), with private state in a dependency; "
     "no deductive verifier here takes this Rust, and no extraction of its constraints (as for the tables) was built. Assumed by M02 and E05.")
nope("T01", "Merkle Patricia tries behave as maps with canonical roots",
     "Inserting, reading and deleting keys in a partial trie behaves as a map, the root hash depends only on the contents and equals Ethereum's, and hashed-out nodes are never silently dropped or expanded.",
     ["inputs", "histories"], "all tries and operation sequences", ["mpt_trie/src/trie_ops.rs", "mpt_trie/src/trie_hashing.rs", "mpt_trie/src/nibbles.rs", "mpt_trie/src/partial_trie.rs"], [("insertion and deletion", "mpt_trie/src/trie_ops.rs")],
     "Random tests compare with a reference on small tries.",
     "Recursive shared trees (Arc, trait-generic node types), RLP and Keccak crates: outside Verus's subset, and Kani can only unroll tiny tries, which would be a bounded model check and not this family of technique.")
nope("T02", "The trace decoder's witness is faithful to the trace",
     "For every block trace the decoder's per-batch inputs contain exactly the trie nodes, codes and withdrawals the batch touches, and applying them gives the state roots of the trace.",
     ["inputs"], "all block traces", ["trace_decoder/src/core.rs", "trace_decoder/src/type1.rs"], [("splitting a block into batches", "trace_decoder/src/core.rs")],
     "Tests replay a few recorded blocks.",
     "About 3000 lines over tries, serde and RLP crates; the statement needs an EVM semantics of whole blocks. A wrong witness makes the proof fail, it cannot make a wrong block provable (the circuits and kernel check it), so it is a completeness matter.")
nope("E04", "Precompiled contracts compute their functions",
     "ECRECOVER, SHA256, RIPEMD160, IDENTITY, MODEXP, BN254 addition, multiplication and pairing, BLAKE2F and the KZG point evaluation return exactly the specified output, fail exactly on invalid input and charge the specified gas.",
     ["inputs"], "all inputs", [ASM + "core/precompiles/main.asm", ASM + "curve/secp256k1/ecrecover.asm", ASM + "hash/sha2/main.asm", ASM + "bignum/modexp.asm"], [("precompiles", ASM + "core/precompiles/main.asm")],
     "Known-answer tests sample a few inputs.",
     "The functional correctness of pairings, scalar multiplication with endomorphism and big-number arithmetic needs an algebraic theory of the curves over the routines' loops; z3 over 256-bit vectors cannot decide products modulo a 254-bit prime, and kvc's lemmas are for linear facts.")
nope("E09", "Logs are recorded as the EVM prescribes",
     "LOG0 to LOG4 record the address, the topics and the data they name, charge 375 + 375 per topic + 8 per byte and the memory expansion, and fail in static calls.",
     ["inputs"], "all offsets, sizes, memory contents and amounts of gas", [ASM + "core/log.asm"], [("log entries", ASM + "core/log.asm")],
     TESTS_K, "Within kvc's reach (a copy loop and the journal), but its specification was not finished in the time available, so nothing is claimed.")
nope("E08", "Calls, creations, reverts and transactions change the state as the EVM does",
     "CALL, CALLCODE, DELEGATECALL, STATICCALL, CREATE, CREATE2, RETURN, REVERT, SELFDESTRUCT and the processing of transactions and withdrawals transfer value, gas, code, nonces and refunds as the EVM prescribes, a failed frame leaves no trace but the gas, and the final tries hash to the claimed roots.",
     ["inputs", "histories"], "all blocks, programs and states", [ASM + "core/call.asm", ASM + "core/create.asm", ASM + "core/process_txn.asm", ASM + "journal/revert.asm"], [("calls", ASM + "core/call.asm"), ("journal", ASM + "journal/revert.asm")],
     TESTS_K, "Contracts over frames that run arbitrary user code need a relation between whole executions (rely-guarantee over the user program), which kvc's per-routine contracts cannot express; not attempted.")
