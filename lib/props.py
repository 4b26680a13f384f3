"""The registry of properties: how each one is run, what it trusts."""
import os, subprocess, time
from . import build as B, runner

DUMP = B.BUILD + "/dump"


def airdump(harness="airdump"):
    """Extracts the constraint polynomials, lookups and kernel from the current tree."""
    b = B.build([harness])[harness]
    os.makedirs(DUMP, exist_ok=True)
    r = subprocess.run([b, DUMP], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise runner.Failure("the constraint extraction failed: " + r.stdout[-3000:])
    from .model import Model
    return Model(DUMP)


AIR_TRUST = [
    "the extraction: hooks/evm_arithmetization.rs runs the real eval_packed_generic on symbolic field elements (a PackedField implementation); rustc compiles it faithfully",
    "airvc (lib/air.py, lib/lift.py): polynomial arithmetic, case splitting and the certificate checks, written for this task, in Python",
    "starky and plonky2: a verified STARK proof implies rows that satisfy every constraint, and LogUp cross-table lookups and lookups imply equality of the multisets of messages (soundness error neglected)",
    "the circuit versions (eval_ext_circuit) equal the packed versions (compared at random points by the repository's test_stark_circuit tests)",
]


def split_inputs(items):
    inputs, out = {}, []
    for x in items:
        x = list(x)
        if "\nFAILING INPUT\n" in x[4]:
            x[4], inputs[f"{x[1]}: {x[2]}"] = x[4].split("\nFAILING INPUT\n")
        out.append(tuple(x))
    return out, inputs


class Air:
    level = "proof"

    def __init__(self, spec, functions, assumptions=()):
        self.spec, self.functions, self.assumptions = spec, functions, list(assumptions)

    def run(self, prop):
        t = time.time()
        m = airdump()
        tb = time.time() - t
        mod, cls = self.spec
        import importlib
        spec = getattr(importlib.import_module("lib." + mod), cls)(m, None)
        from .spec_cpu import Report
        spec.r = Report()
        t = time.time()
        items, inputs = split_inputs(runner.run_spec(spec, prop))
        ts = time.time() - t
        fam = sorted({x[2] for x in items})
        meta = dict(coverage=dict(
            checker_cmd=f"python3 run.py {prop}",
            trusted_base=AIR_TRUST,
            functions_under_contract=self.functions,
            back_end="airvc: case splitting over the factors of the real constraints, linear algebra over the field, integer certificates",
            build_s=round(tb, 1), solver_s=round(ts, 1),
            obligation_families={f: sum(1 for x in items if x[2] == f) for f in fam[:60]},
            samples=[f"{x[1]}: {x[2]}" for x in items[:: max(1, len(items) // 8)]][:8],
        ), assumptions=self.assumptions)
        return items, meta, inputs


KERN_TRUST = [
    "the extraction: the harness assembles the kernel with the repository's own assembler from the working tree and writes its byte code, global labels, constants and the prover-input table",
    "kvc (lib/kvc.py, lib/kbase.py): symbolic execution of that byte code, written for this task in Python; the instructions have the semantics that the circuit contracts (C01-C08, A01-A04, L01, B01, M01, K02) establish",
    "z3: every obligation is decided over 256-bit vectors; products, quotients and remainders of two unknown words are uninterpreted, with instances of the arithmetic lemmas in lib/kbase.py mul_facts",
    "partial correctness: a routine that does not return satisfies its contract; the prover cannot prove an execution that does not end",
    "KERNEL_PANIC ends are allowed only where the contract says so (a panic cannot be proved, so it is a completeness matter)",
]


def python_vt():
    """z3 is only in the tooling's Python"""
    import sys
    try:
        import z3
    except ImportError:
        if os.environ.get("VERIF_VT") == "1":
            raise runner.Failure("z3 is not available")
        os.environ["VERIF_VT"] = "1"
        os.execvp("python3-vt", ["python3-vt"] + sys.argv)


class Kern:
    level = "proof"

    def __init__(self, spec, functions, assumptions=()):
        self.spec, self.functions, self.assumptions = spec, functions, list(assumptions)

    def run(self, prop):
        python_vt()
        t = time.time()
        airdump()
        tb = time.time() - t
        import importlib
        mod, cls = self.spec
        spec = getattr(importlib.import_module("lib." + mod), cls)(DUMP)
        from .spec_cpu import Report
        spec.r = Report()
        t = time.time()
        items = runner.run_spec(spec, prop)
        ts = time.time() - t
        out, inputs = split_inputs(items)
        fam = sorted({x[1] for x in items})
        meta = dict(coverage=dict(
            checker_cmd=f"python3 run.py {prop}",
            trusted_base=KERN_TRUST,
            functions_under_contract=sorted(set(self.functions) | {f"kernel routine {f}" for f in fam}),
            back_end="kvc with z3 over 256-bit vectors",
            build_s=round(tb, 1), solver_s=round(ts, 1),
            obligation_families={f: sum(1 for x in items if x[1] == f) for f in fam[:80]},
            samples=[f"{x[1]}: {x[2]}" for x in items[:: max(1, len(items) // 8)]][:8],
        ), assumptions=self.assumptions)
        return out, meta, inputs


CPU_F = ["cpu::cpu_stark::CpuStark::eval_packed_generic", "cpu::byte_unpacking", "cpu::clock", "cpu::contextops", "cpu::control_flow", "cpu::decode",
         "cpu::dup_swap", "cpu::gas", "cpu::halt", "cpu::jumps", "cpu::membus", "cpu::memio", "cpu::modfp254", "cpu::pc", "cpu::push0", "cpu::shift",
         "cpu::simple_logic", "cpu::stack", "cpu::syscalls_exceptions", "cpu::cpu_stark::ctl_*", "all_stark::all_cross_table_lookups"]
ARITH_F = ["arithmetic::arithmetic_stark::ArithmeticStark::eval_packed_generic", "ArithmeticStark::lookups", "arithmetic::addcy", "arithmetic::mul",
           "arithmetic::divmod", "arithmetic::modular", "arithmetic::shift", "arithmetic::byte"]
PROPS = {}
for k in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"):
    PROPS[k] = Air(("spec_cpu", "CpuSpec"), CPU_F)
for k in ("A01", "A02", "A03", "A04"):
    PROPS[k] = Air(("spec_arith", "ArithSpec"), ARITH_F)
PROPS["L01"] = Air(("spec_tables", "LogicSpec"), ["logic::LogicStark::eval_packed_generic", "logic::ctl_data", "logic::ctl_filter"])
PROPS["B01"] = Air(("spec_tables", "PackSpec"), ["byte_packing::BytePackingStark::eval_packed_generic", "BytePackingStark::lookups", "byte_packing::ctl_looked_data", "byte_packing::ctl_looking_memory"])
for k in ("M01", "M02"):
    PROPS[k] = Air(("spec_tables", "MemSpec"), ["memory::MemoryStark::eval_packed_generic", "MemoryStark::lookups", "memory::ctl_data", "memory::ctl_looking_mem",
                   "memory::ctl_filter_mem_before", "memory::ctl_filter_mem_after", "memory::ctl_context_pruning_looking",
                   "memory_continuation::MemoryContinuationStark::eval_packed_generic", "memory_continuation::ctl_data", "memory_continuation::ctl_data_memory"])
PROPS["K01"] = Air(("spec_keccak", "KeccakSpec"), ["keccak::KeccakStark::eval_packed_generic", "keccak::round_flags", "keccak::ctl_data_inputs", "keccak::ctl_data_outputs", "keccak::ctl_filter_*"])
PROPS["K02"] = Air(("spec_keccak", "SpongeSpec"), ["keccak_sponge::KeccakSpongeStark::eval_packed_generic", "KeccakSpongeStark::lookups", "keccak_sponge::ctl_looked_data",
                   "keccak_sponge::ctl_looking_*", "all_stark::ctl_keccak_*"])
PROPS["X01"] = Air(("spec_tables", "CtlSpec"), ["all_stark::all_cross_table_lookups", "all_stark::ctl_*", "every ctl_looked_*/ctl_looking_*/ctl_filter_* function they call"])
PROPS["E01"] = Kern(("kspec_ops", "KernelSpec"), ["kernel asm/core/syscall.asm", "asm/signed.asm", "asm/exp.asm"])
PROPS["E07"] = Kern(("kspec_lists", "ListSpec"), ["kernel asm/core/access_lists.asm", "asm/linked_list.asm"])
PROPS["E05"] = Kern(("kspec_exc", "ExcSpec"), ["kernel asm/core/exception.asm", "asm/core/syscall.asm (table)", "asm/main.asm (init)", "cpu::kernel::constants::exc_bitfields"],
                    ["the opcode at the program counter is a byte and the trap information is the program counter, mode and gas of the row (C08)", "user code runs in a context other than 0",
                     "the kernel's code is in the code segment of context 0 (the initial memory that the aggregation fixes)"])
PROPS["E13"] = Kern(("kspec_exc", "ExcSpec"), ["kernel asm/core/jumpdest_analysis.asm", "asm/core/exception.asm (invalid jumps)"],
                    ["memory behind the code of a context is zero, and no code is longer than 49152 bytes", "the table of jump destinations of a new context is empty (M02: memory starts zero)",
                     "the instruction starts are the values of a sequence (lemmas proved by induction)"])
LIST_CONTRACTS = "the list routines (insert_accessed_addresses, insert_accessed_storage_keys, search_account, search_slot) meet the contracts of E07; here their results are functions of the key and of the memory they read"
PROPS["E02"] = Kern(("kspec_env", "EnvSpec"), ["kernel asm/core/syscall.asm", "asm/account_code.asm", "asm/balance.asm", "asm/core/call.asm (metadata)", "asm/core/gas.asm", "asm/memory/metadata.asm"],
                    [LIST_CONTRACTS, "block numbers are below 2^64", "the list of blob hashes is followed by zeros", "no account has the code hash 0", "contexts are numbered upwards, and a new one is empty (M02)",
                     "Keccak is a function without known collisions: code with the hash of the account is the code of the account"])
PROPS["E03"] = Kern(("kspec_mem", "MemSpec"), ["kernel asm/memory/syscalls.asm", "asm/memory/memcpy.asm", "asm/memory/memset.asm", "asm/memory/packing.asm", "asm/core/gas.asm"],
                    [LIST_CONTRACTS, "the words of calldata and the words a 32-byte load reads are bytes (kept by every write to those segments)", "the gas used covers the cost of the active memory (each expansion charges it)",
                     "sizes of calldata, return data and code are below 2^31"])
PROPS["E06"] = Kern(("kspec_store", "StoreSpec"), ["kernel asm/mpt/storage/storage_read.asm", "asm/mpt/storage/storage_write.asm", "asm/memory/transient_storage.asm", "asm/journal/journal.asm (macros)", "asm/core/gas.asm"],
                    [LIST_CONTRACTS + " (also remove_slot and insert_slot_with_value, which leave the journal's lengths as they are)", "the journal has fewer than 2^31 words and the transient storage fewer than 2^29 entries",
                     "Keccak is a function (the keys of the state trie)"])


PUBLIC_TRUST = [
    "bounded: the real functions run on random public values (every limb set) at random challenges; agreement at a random point of a polynomial identity over a 64-bit field stands for the identity",
    "the enumeration of the public values and of the memory cells that hold them in lib/spec_public.py",
    "plonky2's circuit builder, witness generation and challengers; serde's reading of PublicValues",
]


class Public:
    level = "exploration"

    def run(self, prop):
        t = time.time()
        m = airdump("pubdump")
        tb = time.time() - t
        from .spec_public import PublicSpec
        from .spec_cpu import Report
        spec = PublicSpec(m, Report())
        t = time.time()
        items, inputs = split_inputs(runner.run_spec(spec, prop))
        counts = [tuple(map(int, x[4].split())) for x in items if x[3] and x[4]]
        fam = {}
        for x in items:
            fam[f"{x[1]}: {x[2]}"] = fam.get(f"{x[1]}: {x[2]}", 0) + 1
        meta = dict(coverage=dict(
            checker_cmd=f"python3 run.py {prop}", trusted_base=PUBLIC_TRUST,
            functions_under_contract=["verifier::get_memory_extra_looking_sum", "recursive_verifier::get_memory_extra_looking_sum_circuit", "recursive_verifier::set_public_value_targets",
                                      "recursive_verifier::add_virtual_public_values_public_input", "get_challenges::observe_public_values", "get_challenges::observe_public_values_target", "proof::PublicValues::from_public_inputs"],
            back_end="execution of the real native and circuit functions; bounded (random points)",
            bound=f"{len(spec.tasks())} assignments of random values to all public values; for each, every memory row and every 32-bit limb is changed once",
            evaluations=sum(c[0] for c in counts), distinct_nontrivial=sum(c[1] for c in counts),
            rule="an evaluation runs the real native (and, for memory rows, circuit) functions on one assignment of values to all public values; each has every limb set at random, or is such an assignment with one value or one limb changed; counted as non-trivial when sums and challenges differ from those of all other assignments of its group",
            comparisons=fam, build_s=round(tb, 1), run_s=round(time.time() - t, 1),
            samples=sorted(fam)[:: max(1, len(fam) // 8)][:8]), assumptions=[])
        return items, meta, inputs


PROPS["P01"] = Public()
