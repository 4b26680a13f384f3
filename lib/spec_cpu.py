"""Contract of the CPU table: what one row, given its opcode, privilege and decoded flag, does.

For every (flag, opcode byte, mode) the real constraint polynomials, partially evaluated at those
bits, must entail the instruction's contract for every value of all other columns: next pc, mode,
context, stack length and gas, and the exact set of memory operations and of messages to the other
tables (through the real cross-table lookups) with their exact contents.
"""
from .air import *
from . import witness
from .model import Model

LIMB = 1 << 32
ANY = "any"


class Inst:
    def __init__(s, flag, ops, modes, pops, push, gas, name, **kw):
        s.flag, s.ops, s.modes, s.pops, s.push, s.gas, s.name = flag, ops, modes, pops, push, gas, name
        s.kw = kw


def instructions():
    U, K = 0, 1
    both = (U, K)
    out = []
    A = lambda *a, **k: out.append(Inst(*a, **k))
    for op, name, gas in ((0x01, "ADD", 3), (0x02, "MUL", 5), (0x03, "SUB", 3), (0x04, "DIV", 5), (0x06, "MOD", 5),
                          (0x10, "LT", 3), (0x11, "GT", 3), (0x1a, "BYTE", 3)):
        A("binary_op", [op], both, 2, 1, gas, name, arith=name)
    for op, name, gas, m in ((0x08, "ADDMOD", 8, both), (0x09, "MULMOD", 8, both), (0x0f, "SUBMOD", 0, (K,))):
        A("ternary_op", [op], m, 3, 1, gas, name, arith=name)
    for op, name in ((0x0c, "ADDFP254"), (0x0d, "MULFP254"), (0x0e, "SUBFP254")):
        A("fp254_op", [op], (K,), 2, 1, 0, name, arith=name)
    A("eq_iszero", [0x14], both, 2, 1, 3, "EQ", fn="eq")
    A("eq_iszero", [0x15], both, 1, 1, 3, "ISZERO", fn="iszero")
    for op, name in ((0x16, "AND"), (0x17, "OR"), (0x18, "XOR")):
        A("logic_op", [op], both, 2, 1, 3, name, logic=op)
    A("not_pop", [0x19], both, 1, 1, 3, "NOT", fn="not")
    A("not_pop", [0x50], both, 1, 0, 2, "POP")
    for op, name in ((0x1b, "SHL"), (0x1c, "SHR")):
        A("shift", [op], both, 2, 1, 3, name, arith=name, fn="shift")
    A("jumpdest_keccak_general", [0x21], (K,), 2, 1, 0, "KECCAK_GENERAL", fn="keccak")
    A("jumpdest_keccak_general", [0x5b], both, 0, 0, 1, "JUMPDEST")
    A("jumps", [0x56], both, 1, 0, 8, "JUMP", fn="jump")
    A("jumps", [0x57], both, 2, 0, 10, "JUMPI", fn="jumpi")
    A("pc_push0", [0x58], both, 0, 1, 2, "PC", fn="pc")
    A("pc_push0", [0x5f], both, 0, 1, 2, "PUSH0", fn="push0")
    for n in range(1, 33):
        A("push_prover_input", [0x5f + n], both, 0, 1, 3, f"PUSH{n}", fn="push", n=n)
    A("push_prover_input", [0xee], (K,), 0, 1, 0, "PROVER_INPUT", fn="prover_input")
    for n in range(16):
        A("dup_swap", [0x80 + n], both, None, None, 3, f"DUP{n + 1}", fn="dup", n=n)
        A("dup_swap", [0x90 + n], both, None, None, 3, f"SWAP{n + 1}", fn="swap", n=n)
    A("context_op", [0xf6], (K,), 0, 1, 0, "GET_CONTEXT", fn="get_context")
    A("context_op", [0xf7], (K,), None, None, 0, "SET_CONTEXT", fn="set_context")
    for n in range(1, 33):
        A("m_op_32bytes", [0xbf + n], (K,), 2, 1, 0, f"MSTORE_32BYTES_{n}", fn="mstore32", n=n)
    A("m_op_32bytes", [0xf8], (K,), 2, 1, 0, "MLOAD_32BYTES", fn="mload32")
    A("exit_kernel", [0xf9], (K,), 1, 0, None, "EXIT_KERNEL", fn="exit_kernel")
    A("m_op_general", [0xfb], (K,), 1, 1, 0, "MLOAD_GENERAL", fn="mload")
    A("m_op_general", [0xfc], (K,), 2, 0, 0, "MSTORE_GENERAL", fn="mstore")
    A("syscall", list(range(256)), both, 0, 1, None, "SYSCALL", fn="syscall")
    A("exception", list(range(256)), both, 0, 1, None, "EXCEPTION", fn="exception")
    return out


class Obligations:
    """Outcome of one attempt: {(prop, what): None or failure detail}, and the variables of the
    open goals (to choose the next case split)."""

    def __init__(self):
        self.items, self.vars, self.open = {}, set(), False

    def __call__(self, prop, what, ok, detail="", vs=()):
        k = (prop, what)
        self.items.setdefault(k, None)
        if not ok:
            self.open = True
            self.vars.update(vs)
            if self.items[k] is None:
                self.items[k] = detail or "open"


class Mem:
    """An expected memory operation; val is a list of 8 polynomials (None = any) or a name to bind."""

    def __init__(s, read, ctx, seg, virt, val, when="row", after=()):
        s.read, s.ctx, s.seg, s.virt, s.val, s.when, s.after = read, ctx, seg, virt, val, when, after


class CpuSpec:
    def __init__(self, model, report):
        self.m, self.r = model, report
        self.only, self.listed = None, set()
        self.T = T = model.tables["Cpu"]
        c = model.C["cpu"]
        self.c = c
        self.flags = {k: v for k, v in c["op"].items() if k != "_"}
        self.bits = c["opcode_bits"]
        n = T.n
        V = lambda x: var(x)
        N = lambda x: var(x + n)
        self.ctx, self.cctx, self.pc = V(c["context"]), V(c["code_context"]), V(c["program_counter"])
        self.slen, self.kern, self.gas, self.clock = V(c["stack_len"]), V(c["is_kernel_mode"]), V(c["gas"]), V(c["clock"])
        self.nctx, self.npc, self.nslen = N(c["context"]), N(c["program_counter"]), N(c["stack_len"])
        self.nkern, self.ngas, self.nclock = N(c["is_kernel_mode"]), N(c["gas"]), N(c["clock"])
        self.top = [V(x) for x in c["mem_channels"][0]["value"]]
        self.ntop = [N(x) for x in c["mem_channels"][0]["value"]]
        self.seg = model.seg
        # lookups in which the CPU takes part
        self.bus = {}
        for lookings, looked in model.ctls:
            for s in lookings:
                if s.table == "Cpu":
                    self.bus.setdefault(looked.table, []).append(s)
            if looked.table == "Cpu":
                self.bus.setdefault("Pruning", []).append(looked)
        self.looked = {s.table: s for _, s in model.ctls}
        self.shift_cache = {}
        self._arith_classes()
        self.deferred = self._deferred()

    # -------------------------------------------------------------- pieces
    def shift(self, p):
        n = self.T.n
        for m in p:
            for v in m:
                if v >= n:
                    return None
        return {tuple(v + n for v in m): c for m, c in p.items()}

    def env(self, flag, op, mode):
        e = {v: 0 for v in self.flags.values()}
        if flag:
            e[self.flags[flag]] = 1
        for i, b in enumerate(self.bits):
            e[b] = (op >> i) & 1
        e[self.c["is_kernel_mode"]] = mode
        return e

    def sub(self, p, env):
        return substitute(p, {k: const(v) for k, v in env.items()})

    def _arith_classes(self):
        """For each kind of arithmetic row: the non-operand columns of its side of the lookup."""
        m = self.m
        side = self.looked["Arithmetic"]
        a = m.cols["arithmetic"]
        T = m.tables["Arithmetic"]
        pos = {}
        for reg in ("IN0", "IN1", "IN2", "OUT"):
            r = a[reg]
            for i in range(len(r) // 2):
                want = lin([(r[2 * i], 1), (r[2 * i + 1], 1 << 16)])
                hit = [k for k, p in enumerate(side.cols) if p == want]
                if len(hit) != 1:
                    raise Unsupported(f"arithmetic lookup: operand {reg}[{i}] found {len(hit)} times")
                pos[reg, i] = hit[0]
        self.apos = pos
        self.tags = [k for k in range(len(side.cols)) if k not in pos.values()]
        isf = {k[3:]: v for k, v in a.items() if k.startswith("IS_")}
        self.aclass = {}
        for name, col in isf.items():
            e = {v: 0 for v in isf.values()}
            e[col] = 1
            only = State(T.constraints(e, ("all",), only=None)) if False else None
            st = self._tag_state(T, e)
            f = st.red(self.sub(side.filter, e))
            if f == const(1):
                self.aclass[name] = [st.red(self.sub(side.cols[k], e)) for k in self.tags]
            elif f:
                raise Unsupported("arithmetic lookup filter is not 0/1")

    def _tag_state(self, T, e):
        """Only constraints that mention the tag columns (the rest is irrelevant here)."""
        side = self.looked["Arithmetic"]
        tv = set()
        for k in self.tags:
            tv |= pvars(side.cols[k])
        cs = [c for c in T.constraints(e, ("all",)) if any(pvars(f) & tv for f in c) and all(pvars(f) <= tv for f in c)]
        return State(cs)

    def _deferred(self):
        """Memory lookups whose use in a row is decided by the previous row: those whose filter,
        taken in the next row, is decided by the constraints of DUP1."""
        out = []
        st = self.state("dup_swap", 0x80, 0)
        for i, s in enumerate(self.bus["Memory"]):
            f = self.shift(s.filter)
            if f is None or not f:
                continue
            # only filters made of non-flag columns can be decided by the previous row
            if is_const(st.red(f)) and not is_const(self.sub(s.filter, self.env("dup_swap", 0x80, 0))):
                out.append(i)
        if len(out) != 1:
            raise Unsupported(f"expected one memory channel decided by the previous row, found {out}")
        return out

    def state(self, flag, op, mode, extra=(), nonzero=()):
        e = self.env(flag, op, mode)
        st = State(self.T.constraints(e), nonzero)
        st.add([[p] for p in extra])
        for z in nonzero:
            st.assume_nonzero(z)
        if nonzero:
            p, st.pending = st.pending, []
            st.add(p)
        return st

    # -------------------------------------------------------------- one instruction
    def scenarios(self, ins, op, mode):
        """Yields (name, zero polys, nonzero polys, expectation)."""
        fn = ins.kw.get("fn")
        S = self
        one = const(1)
        sg = lambda n: const(self.seg[n])
        E = lambda: dict(mem=[], pc=padd(S.pc, one), kern=const(mode), ctx=S.ctx, gas=padd(S.gas, const(ins.gas or 0)),
                         slen=None, rel=[], msgs=[], ntop=None)
        code = Mem(1, S.cctx, sg("Code"), S.pc, [const(op)] + [{}] * 7)
        pops, push = ins.pops, ins.push
        if fn in ("dup", "swap"):
            n = ins.kw["n"]
            e = E()
            if fn == "dup":
                e["slen"] = padd(S.slen, one)
                e["mem"] = [code, Mem(0, S.ctx, sg("Stack"), padd(S.slen, one, -1), S.top),
                            Mem(1, S.ctx, sg("Stack"), padd(S.slen, const(1 + n), -1), S.ntop, after=(1,))]
            else:
                e["slen"] = S.slen
                e["mem"] = [code, Mem(1, S.ctx, sg("Stack"), padd(S.slen, const(2 + n), -1), S.ntop),
                            Mem(0, S.ctx, sg("Stack"), padd(S.slen, const(2 + n), -1), S.top, after=(1,))]
            yield "", [], [], e
            return
        if fn == "set_context":
            for nm, z, nz in (("", [], [S.nslen]), (" to an empty stack", [S.nslen], [])):
                e = E()
                e["ctx"] = S.top[2]
                e["slen"] = None
                fld = const(self.m.cols["stack_size_field"])
                e["mem"] = [code,
                            Mem(0, S.ctx, sg("ContextMetadata"), fld, [padd(S.slen, one, -1)] + [{}] * 7),
                            Mem(1, S.nctx, sg("ContextMetadata"), fld, [S.nslen] + [{}] * 7, after=(1,))]
                if nz:
                    e["mem"].append(Mem(1, S.nctx, sg("Stack"), padd(S.nslen, one, -1), S.ntop))
                e["msgs"] = [("Pruning", [S.ctx], S.top[0])]
                e["rel"] = [("the stack top is a context", [S.top[1]] + S.top[3:]),
                            ("the pruning flag is a bit", [pmul(S.top[0], padd(S.top[0], one, -1))])]
                yield nm, z, nz, e
            return
        # the generic stack effect
        base_slen = padd(S.slen, const(push - pops))
        depth_reads = [Mem(1, S.ctx, sg("Stack"), padd(S.slen, const(i + 1), -1), f"w{i}") for i in range(1, pops)]
        if pops == 0 and push:
            cases = [("", [], [S.slen], [Mem(0, S.ctx, sg("Stack"), padd(S.slen, one, -1), S.top)]),
                     (" on an empty stack", [S.slen], [], [])]
        elif pops and not push:
            left = padd(S.slen, const(pops), -1)
            cases = [("", [], [left], [Mem(1, S.nctx, sg("Stack"), padd(S.nslen, one, -1), S.ntop, when="next")]),
                     (" emptying the stack", [left], [], [])]
        else:
            cases = [("", [], [], [])]
        for nm, z, nz, mem in cases:
            e = E()
            e["slen"] = base_slen
            e["mem"] = [code] + depth_reads + mem
            if pops == 0 and not push:
                e["ntop"] = S.top
            if "arith" in ins.kw and fn != "shift":
                e["msgs"] = [("Arithmetic", ins.kw["arith"], "w")]
            elif "logic" in ins.kw:
                e["msgs"] = [("Logic", [const(op)] + S.top + ["w1"] + S.ntop, None)]
            if fn is None:
                yield nm, z, nz, e
                continue
            for x in getattr(self, "fn_" + fn)(ins, op, mode, e):
                nm2, z2, nz2, e2 = x
                yield nm + nm2, z + z2, nz + nz2, e2

    # each fn_* refines the generic expectation; yields (name, zeros, nonzeros, expectation)
    def cp(self, e):
        r = dict(e)
        for k in ("mem", "rel", "msgs"):
            r[k] = list(e[k])
        return r

    def fn_eq(self, ins, op, mode, e):
        # equal operands
        a = self.cp(e)
        a["ntop"] = [const(1)] + [{}] * 7
        a["hyp_w"] = lambda w: ([padd(x, y, -1) for x, y in zip(self.top, w["w1"])], [])
        yield " of equal values", [], [], a
        for i in range(8):
            b = self.cp(e)
            b["ntop"] = [{}] * 8
            b["hyp_w"] = lambda w, i=i: ([], [padd(self.top[i], w["w1"][i], -1)])
            yield f" of values that differ in limb {i}", [], [], b

    def fn_iszero(self, ins, op, mode, e):
        a = self.cp(e)
        a["ntop"] = [const(1)] + [{}] * 7
        yield " of zero", list(self.top), [], a
        for i in range(8):
            b = self.cp(e)
            b["ntop"] = [{}] * 8
            yield f" of a value with limb {i} nonzero", [], [self.top[i]], b

    def fn_not(self, ins, op, mode, e):
        e["ntop"] = [padd(const(LIMB - 1), x, -1) for x in self.top]
        yield "", [], [], e

    def fn_pc(self, ins, op, mode, e):
        e["ntop"] = [self.pc] + [{}] * 7
        yield "", [], [], e

    def fn_push0(self, ins, op, mode, e):
        e["ntop"] = [{}] * 8
        yield "", [], [], e

    def ts(self, k=0):
        return padd(pscale(self.clock, 5), const(-4 + k))

    def fn_push(self, ins, op, mode, e):
        n = ins.kw["n"]
        e["pc"] = padd(self.pc, const(1 + n))
        e["msgs"] = [("BytePacking", [const(1), self.cctx, const(self.seg["Code"]), padd(self.pc, const(1)), const(n), self.ts()]
                      + self.ntop, None)]
        yield "", [], [], e

    def fn_prover_input(self, ins, op, mode, e):
        e["msgs"] = [("Arithmetic", "RANGE_CHECK", "n")]
        yield "", [], [], e

    def fn_shift(self, ins, op, mode, e):
        d = self.top
        a = self.cp(e)
        a["mem"].append(Mem(1, {}, const(self.seg["ShiftTable"]), d[0], "w2"))
        a["msgs"] = [("Arithmetic", ins.kw["arith"], "w2")]
        yield " by less than 2^32", d[1:], [], a
        s = psum(d[1:])
        b = self.cp(e)
        b["msgs"] = [("Arithmetic", ins.kw["arith"], "w0")]
        yield " by 2^32 or more", [], [s], b

    def fn_keccak(self, ins, op, mode, e):
        e["msgs"] = [("KeccakSponge", [self.top[2], self.top[1], self.top[0], ("w1", 0), self.ts()] + self.ntop, None)]
        yield "", [], [], e

    def fn_mload32(self, ins, op, mode, e):
        e["msgs"] = [("BytePacking", [const(1), self.top[2], self.top[1], self.top[0], ("w1", 0), self.ts()] + self.ntop, None)]
        yield "", [], [], e

    def fn_mstore32(self, ins, op, mode, e):
        n = ins.kw["n"]
        e["msgs"] = [("BytePacking", [const(0), self.top[2], self.top[1], self.top[0], const(n), self.ts(), "w1"], None)]
        e["ntop"] = [padd(self.top[0], const(n)), self.top[1], self.top[2]] + [{}] * 5
        yield "", [], [], e

    def fn_mload(self, ins, op, mode, e):
        e["mem"].append(Mem(1, self.top[2], self.top[1], self.top[0], self.ntop))
        yield "", [], [], e

    def fn_mstore(self, ins, op, mode, e):
        e["mem"].append(Mem(0, ("w1", 2), ("w1", 1), ("w1", 0), self.top))
        yield "", [], [], e

    def fn_get_context(self, ins, op, mode, e):
        e["ntop"] = [{}, {}, self.ctx] + [{}] * 5
        yield "", [], [], e

    def fn_exit_kernel(self, ins, op, mode, e):
        e["pc"], e["kern"], e["gas"] = self.top[0], self.top[1], self.top[6]
        e["rel"] = [("the restored gas fits 32 bits", [self.top[7]])]
        yield "", [], [], e

    def fn_jump(self, ins, op, mode, e):
        e["pc"] = self.top[0]
        e["rel"] = [("the destination fits 32 bits", self.top[1:])]
        if mode == 0:
            e["mem"].append(Mem(1, self.ctx, const(self.seg["JumpdestBits"]), self.top[0], [const(1)] + [None] * 7))
        yield "", [], [], e

    def fn_jumpi(self, ins, op, mode, e):
        a = self.cp(e)
        a["hyp_w"] = lambda w: (w["w1"], [])
        yield " not taken", [], [], a
        b = self.cp(e)
        b["pc"] = self.top[0]
        b["rel"] = [("the destination fits 32 bits", self.top[1:])]
        if mode == 0:
            b["mem"].append(Mem(1, self.ctx, const(self.seg["JumpdestBits"]), self.top[0], [const(1)] + [None] * 7))
        b["hyp_w"] = lambda w: ([], [psum(w["w1"])])
        yield " taken", [], [], b

    def trap(self, e, code_addr, entry_kern, pc):
        e["kern"], e["gas"] = const(1), {}
        e["pc"] = None
        e["ntop"] = [pc, entry_kern] + [{}] * 4 + [self.gas, {}]
        e["msgs"] = [("BytePacking", [const(1), {}, const(self.seg["Code"]), code_addr, const(3), self.ts(), self.npc] + [{}] * 7, None),
                     ("Arithmetic", "RANGE_CHECK", "n")]
        return e

    def fn_syscall(self, ins, op, mode, e):
        start = self.m.labels["syscall_jumptable"]
        yield "", [], [], self.trap(e, const(start + 3 * op), const(mode), padd(self.pc, const(1)))

    def fn_exception(self, ins, op, mode, e):
        start = self.m.labels["exception_jumptable"]
        stop = [c for c in range(8) if self.m.jumptable(start, c) == self.m.labels["exc_stop"]]
        codes = range(8) if mode == 0 else stop
        yield "", [], [], self.trap(e, [const(start + 3 * c) for c in codes], const(mode), self.pc)

    # -------------------------------------------------------------- checking
    PROP = dict(pc="C03", kern="C03", ctx="C06", slen="C02", gas="C04")

    def name(self, ins, op, mode):
        n = ins.name
        if ins.flag in ("syscall", "exception"):
            n += f"(0x{op:02x})"
        return f"{n} in {'kernel' if mode else 'user'} mode"

    def check(self, ins, op, mode):
        who = self.name(ins, op, mode)
        for scen, zeros, nonzeros, e in self.scenarios(ins, op, mode):
            label = who + scen
            try:
                st = self.state(ins.flag, op, mode)
                base = st.copy()
                base.add([[p] for p in zeros])
                for z in nonzeros:
                    base.assume_nonzero(z)
                pend, base.pending = base.pending, []
                base.add(pend)
            except Contradiction:
                self.r.add("C01", label, "some row exists", False, "the constraints admit no such row")
                continue
            self.run(ins, op, mode, label, base, e)

    def fam(self, ins, fn):
        return ins.flag

    def run(self, ins, op, mode, label, base, e):
        """Proves every obligation of the scenario, splitting on the constraints that are
        disjunctions only where an obligation is still open."""
        env = self.env(ins.flag, op, mode)
        binders = [j for j, x in enumerate(e["mem"]) if isinstance(x.val, str)]
        others = [j for j, x in enumerate(e["mem"]) if not isinstance(x.val, str)]
        result = {}          # (prop, what) -> failure detail or None
        closed = [0]
        fails = {}           # (prop, what) -> where it failed

        def stage2(st, ctxt):
            w, stamps, free = ctxt
            ob = Obligations()
            fr, sp, w = list(free), dict(stamps), dict(w)
            self.match(ins, e, others, st, env, fr, w, sp, ob)
            for j, x in enumerate(e["mem"]):
                for a in x.after:
                    ob(self.mem_prop(ins, x), f"performs its {'read' if x.read else 'write'} at {self.where(x)} after the write before it",
                       a in sp and j in sp and signed(cval(sp[a])) < signed(cval(sp[j])), f"timestamp offsets {sp}")
            self.run_leaf(ins, op, mode, e, st, w, fr, env, ob)
            return ob

        def stage1(st, _):
            ob = Obligations()
            w, stamps, free = {}, {}, list(range(len(self.bus["Memory"])))
            self.match(ins, e, binders, st, env, free, w, stamps, ob)
            if "hyp_w" in e and any(e["mem"][j].val not in w for j in binders):
                ob("C05", "the value it depends on is read", False, "not read from memory")
            ob.ctxt = (w, stamps, free)
            return ob

        def settle(st, fn, ctxt, then):
            budget = 3000
            stack = [st]
            while stack:
                s = stack.pop()
                ob = fn(s, ctxt)
                if ob.open:
                    kids = split_on(s, ob.vars)
                    if kids is not None:
                        budget -= 1
                        if budget < 0:
                            raise Unsupported(f"{label}: too many case splits")
                        stack += kids
                        continue
                for k, d in ob.items.items():
                    if d is not None and len(fails.setdefault(k, [])) < 2:
                        fails[k].append((s, fn, ctxt))
                    if d is None or result.get(k) is None:
                        result[k] = d if d is not None else result.get(k)
                then(s, ob)

        def after1(s, ob):
            t = s.copy()
            if "hyp_w" in e:
                if any(k[1] == "the value it depends on is read" and d for k, d in ob.items.items()):
                    closed[0] += 1
                    return
                z, nz = e["hyp_w"](ob.ctxt[0])
                try:
                    t.add([[p] for p in z])
                    for q in nz:
                        t.assume_nonzero(q)
                    t.again()
                except Contradiction:
                    return
            settle(t, stage2, ob.ctxt, lambda s, o: closed.__setitem__(0, closed[0] + 1))

        settle(base, stage1, None, after1)
        self.r.add("C01", label, "some row exists", closed[0] > 0, "the constraints admit no such row")
        texts = {}
        for k in fails:
            mine = self.only is None or self.only in {k[0]} | self.also(ins, mode, e, k[1])
            for s, fn, ctxt in fails[k] if mine and k not in texts and f"{label}: {k[1]}" not in self.listed else ():
                hit = witness.search(self.T, s, env, lambda S, ev: {q for q, d in fn(S, ctxt).items.items() if d is not None})
                if hit:
                    texts.update((q, hit[0]) for q in hit[1])
                    break
        for (prop, what), d in result.items():
            d = (d() if callable(d) else d) or ("" if d is None else "open")
            if d and (prop, what) in texts:
                d += "\nFAILING INPUT\n" + texts[prop, what]
            for q in sorted({prop} | self.also(ins, mode, e, what)):
                self.r.add(q, label, what, not d, d)

    def also(self, ins, mode, e, what):
        """Further properties an obligation belongs to (their statements overlap)."""
        trap = ins.flag in ("syscall", "exception")
        if what.startswith("performs its "):
            return {"C05"}
        if what == "next context":
            return {"C05"}
        if what == "next mode":
            return {"C08"} if trap else {"C05"} if e["kern"] == const(mode) else set()
        if what == "next stack length":
            return {"C05"} if e["slen"] == self.slen else {"C08"} if trap else set()
        if what in ("next program counter", "next gas"):
            return {"C08"} if trap else set()
        return set()

    def mem_prop(self, ins, x):
        if ins.kw.get("fn") in ("jump", "jumpi") and x.seg == const(self.seg["JumpdestBits"]):
            return "C03"
        return "C02" if x.seg == const(self.seg["Stack"]) else "C06" if x.seg != const(self.seg["Code"]) else "C01"

    def mem_filter(self, i, env, leaf):
        s = self.bus["Memory"][i]
        return leaf.red(self.shift(s.filter) if i in self.deferred else self.sub(s.filter, env))

    def mem_cols(self, i, env, leaf, upto=13):
        s = self.bus["Memory"][i]
        return [leaf.red(self.shift(p) if i in self.deferred else self.sub(p, env)) for p in s.cols[:upto]]

    def match(self, ins, e, idx, leaf, env, free, w, stamps, ob):
        """Finds, for every expected memory operation of idx, a lookup that is forced to perform it."""
        for j in idx:
            x = e["mem"][j]
            get = lambda p: (w[p[0]][p[1]] if p[0] in w else None) if isinstance(p, tuple) and isinstance(p[0], str) else p
            ctx, seg, virt = get(x.ctx), get(x.seg), get(x.virt)
            hit = None
            for i in free:
                if (i in self.deferred) != (x.when == "next"):
                    continue
                if not leaf.equal(padd(self.mem_filter(i, env, leaf), const(1), -1)):
                    continue
                cols = self.mem_cols(i, env, leaf)
                if ctx is None or not all(leaf.equal(padd(a, b, -1)) for a, b in zip(cols, (const(x.read), ctx, seg, virt))):
                    continue
                vals = cols[4:12]
                if isinstance(x.val, str):
                    w[x.val] = vals
                elif not all(v is None or leaf.equal(padd(a, v, -1)) for a, v in zip(vals, x.val)):
                    continue
                hit = i
                stamps[j] = leaf.red(padd(cols[12], pscale(self.clock if x.when == "row" else self.nclock, 5), -1))
                break
            what = f"performs its {'read' if x.read else 'write'} at {self.where(x)}"
            prop = self.mem_prop(ins, x)
            ob(prop, what, hit is not None, "no such memory operation is forced")
            if hit is not None:
                free.remove(hit)
                ok = is_const(stamps[j]) and (x.when == "next" or -4 <= signed(cval(stamps[j])) <= 0)
                ob(prop, what + " in order", ok, f"timestamp offset {stamps}")

    def where(self, x):
        inv = {v: k for k, v in self.seg.items()}
        if isinstance(x.seg, dict) and is_const(x.seg):
            return inv.get(cval(x.seg), "?")
        return "the given address"

    def run_leaf(self, ins, op, mode, e, leaf, w, free, env, ob):
        T = self.T
        sh = lambda p: T.show(leaf.red(p))
        # entries left over must be inactive (a hypothesis may have decided them)
        left, lv = [], set()
        for i in free:
            f = self.mem_filter(i, env, leaf)
            if f and not leaf.equal(f):
                lv |= pvars(f)
                left.append(f"memory operation ({', '.join(T.show(c) for c in self.mem_cols(i, env, leaf, 4))}) is possible (filter {T.show(f)})")
        ob("C05", "performs no other memory operation", not left, "; ".join(left), lv)
        def eq(prop, what, a, b):
            if b is None:
                return
            d = padd(a, b, -1)
            ob(prop, what, leaf.equal(d), lambda: f"{sh(a)} is not forced to equal {sh(b)}", pvars(leaf.red(d)))
        eq("C03", "next program counter", self.npc, e["pc"])
        eq("C03", "next mode", self.nkern, e["kern"])
        eq("C06", "next context", self.nctx, e["ctx"])
        eq("C02", "next stack length", self.nslen, e["slen"])
        eq("C04", "next gas", self.ngas, e["gas"])
        eq("C03", "clock increments", self.nclock, padd(self.clock, const(1)))
        eq("C06", "code context", self.cctx, {} if mode else self.ctx)
        res = dict(eq="C07", iszero="C07", get_context="C06", mstore32="C06", syscall="C08", exception="C08").get(ins.kw.get("fn"), "C07")
        if e["ntop"] is not None:
            for i, (a, b) in enumerate(zip(self.ntop, e["ntop"])):
                eq(res, f"result", a, b)
        for what, ps in e["rel"]:
            ok = all(leaf.equal(p) for p in ps) or self.sum_zero(leaf, ps)
            ob("C03" if ins.kw.get("fn") in ("jump", "jumpi", "exit_kernel") else "C06", what, ok, "; ".join(sh(p) for p in ps))
        self.messages(ins, op, mode, e, leaf, w, env, ob)

    def sum_zero(self, leaf, ps):
        """each p is a 32-bit limb and their sum is 0 (fewer than 2^31 of them): all are 0"""
        lim = {frozenset(x) for x in (self.top,) for x in x}
        for p in ps:
            if not (len(p) == 1 and len(next(iter(p))) == 1 and next(iter(p.values())) == 1):
                return False
        if not all(p in self.top for p in ps):
            return False
        return leaf.equal(psum(ps))

    def messages(self, ins, op, mode, e, leaf, w, env, ob):
        T = self.T
        sent = []
        for bus, sides in self.bus.items():
            if bus == "Memory":
                continue
            for s in sides:
                f = leaf.red(self.sub(s.filter, env))
                if f and not leaf.equal(f):
                    if leaf.equal(padd(f, const(1), -1)):
                        f = const(1)
                    sent.append((bus, s, f))
        exp = list(e["msgs"])
        zero = [{}] * 8
        vec = lambda n: zero if n == "w0" else w.get(n)
        for m in exp:
            bus = m[0]
            if bus == "Arithmetic":
                self.arith_message(ins, e, leaf, w, env, ob, m, sent)
                continue
            want, mult = [], m[2]
            okw = True
            for x in m[1]:
                if isinstance(x, str):
                    v = vec(x)
                    want += v if v else [None] * 8
                    okw &= v is not None
                elif isinstance(x, tuple):
                    want.append(w[x[0]][x[1]] if x[0] in w else None)
                    okw &= x[0] in w
                else:
                    want.append(x)
            hit = None
            for en in sent:
                if en[0] != bus:
                    continue
                cols = [self.sub(p, env) for p in en[1].cols]
                if len(cols) != len(want):
                    raise Unsupported(f"the {bus} lookup has {len(cols)} columns, not {len(want)}")
                alts = lambda p: p if isinstance(p, list) else [p]
                if not leaf.equal(padd(en[2], mult if mult is not None else const(1), -1)):
                    continue
                if okw and all(any(leaf.equal(padd(a, q, -1)) for q in alts(b)) for a, b in zip(cols, want)):
                    hit = en
                    break
            prop = {"Logic": "C07", "BytePacking": "C08" if ins.flag in ("syscall", "exception") else "C06",
                    "KeccakSponge": "C07", "Pruning": "C06"}[bus]
            if ins.kw.get("fn") == "push":
                prop = "C07"
            if hit is None and mult is not None and leaf.equal(mult):
                continue       # a lookup with multiplicity 0
            ob(prop, f"hands its operands to the {bus} table" if bus != "Pruning" else "prunes the old context exactly when asked",
               hit is not None, "; ".join(f"{b}: " + ", ".join(T.show(leaf.red(self.sub(p, env))) for p in s.cols) for b, s, f in sent) or "nothing is sent")
            if hit:
                sent.remove(hit)
        ob("C05", "sends nothing else to other tables", not sent, "; ".join(f"{b} (filter {T.show(f)})" for b, s, f in sent))

    def arith_message(self, ins, e, leaf, w, env, ob, m, sent):
        T = self.T
        kind = m[1]
        prop = "C08" if ins.flag in ("syscall", "exception") else "C07"
        hit = [en for en in sent if en[0] == "Arithmetic" and en[2] == const(1)]
        if len(hit) != 1:
            ob(prop, "hands its operands to the Arithmetic table", False, "no message")
            return
        s = hit[0][1]
        sent.remove(hit[0])
        cols = [leaf.red(self.sub(p, env)) for p in s.cols]
        reg = lambda r: [cols[self.apos[r, i]] for i in range(8)]
        # which rows of the arithmetic table can answer
        tags = [cols[k] for k in self.tags]
        can = sorted(n for n, t in self.aclass.items() if all(is_const(padd(a, b, -1)) is False or a == b for a, b in zip(tags, t)))
        ob("C01" , "only the arithmetic operation of this opcode answers", can == [kind], f"rows of kind {can} answer")
        same = lambda a, b: all(leaf.equal(padd(x, y, -1)) for x, y in zip(a, b))
        if kind == "RANGE_CHECK":
            ok = any(same(reg(r), self.ntop) for r in ("IN0", "IN1", "IN2", "OUT"))
            ob(prop, "its result is range-checked", ok, "the pushed value is not in the range-checked registers")
            return
        npop = {"binary_op": 2, "fp254_op": 2, "ternary_op": 3, "shift": 2}[ins.flag]
        ok = same(reg("IN0"), self.top) and "w1" in w and same(reg("IN1"), w["w1"])
        ob(prop, "hands its operands to the Arithmetic table", ok, f"{[T.show(x) for x in reg('IN0') + reg('IN1')]}")
        if npop == 3:
            ob(prop, "hands its third operand to the Arithmetic table", "w2" in w and same(reg("IN2"), w["w2"]), "")
        if ins.flag == "shift":
            v = [{}] * 8 if m[2] == "w0" else w.get("w2")
            ob(prop, "hands the shift table's entry (0 for a displacement of 2^32 or more) to the Arithmetic table",
               v is not None and same(reg("IN2"), v), f"third operand: {[T.show(x) for x in reg('IN2')]}")
        ob(prop, "its result is the Arithmetic table's", same(reg("OUT"), self.ntop), f"{[T.show(x) for x in reg('OUT')]}")

    # -------------------------------------------------------------- what rows there are
    def decode_table(self):
        allowed = {}
        for ins in instructions():
            for op in ins.ops:
                for mode in ins.modes:
                    allowed.setdefault((op, mode), set()).add(ins.flag)
        return allowed

    def row(self, state, env, bad, filters=(1, 0, 0)):
        """A concrete pair of rows of the state that is accepted and bad, as text."""
        hit = witness.search(self.T, state, env, lambda S, ev: bad(S), filters)
        return "\nFAILING INPUT\n" + hit[0] if hit else ""

    def check_decode(self, mode, op):
        allowed = self.decode_table()
        bad, text = [], ""
        for f in self.flags:
            if f in allowed[op, mode]:
                continue
            try:
                st = self.state(f, op, mode)
            except Contradiction:
                continue
            env = self.env(f, op, mode)
            for leaf in leaves(st):
                if self.answerable(leaf, env):
                    bad.append(f)
                    text = text or self.row(leaf, env, lambda S: self.answerable(S, env))
                    break
        self.r.add("C01", f"opcode 0x{op:02x} in {'kernel' if mode else 'user'} mode", "decodes only to its instruction",
                   not bad, f"flag(s) {', '.join(bad)} also accepted" + text)

    def tasks(self):
        ins = list(instructions())
        out = [("C0", "check_one", (i, op, mode)) for i, x in enumerate(ins) for op in x.ops for mode in x.modes]
        out += [("C01", "check_flags", ()), ("C0", "check_halt", ()), ("C02", "check_overflow", ())]
        out += [("C01", "check_decode", (m, op)) for m in (0, 1) for op in range(256)]
        return out

    def check_one(self, i, op, mode):
        self.check(list(instructions())[i], op, mode)

    def answerable(self, leaf, env):
        """Could the other tables answer the messages of this row?"""
        for bus, sides in self.bus.items():
            if bus in ("Memory", "Pruning"):
                continue
            for s in sides:
                f = leaf.red(self.sub(s.filter, env))
                if f != const(1):
                    continue
                cols = [leaf.red(self.sub(p, env)) for p in s.cols]
                if bus == "Arithmetic":
                    tags = [cols[k] for k in self.tags]
                    if not any(all(is_const(padd(a, b, -1)) is False or a == b for a, b in zip(tags, t)) for t in self.aclass.values()):
                        return False
                elif bus == "Logic":
                    if not self.logic_answers(cols[0]):
                        return False
        return True

    def logic_answers(self, p):
        side = self.looked["Logic"]
        ops = self.m.C["logic"]["op"]
        fl = [v for k, v in ops.items() if k != "_"]
        for on in fl:
            e = {v: int(v == on) for v in fl}
            f = self.sub(side.filter, e)
            t = self.sub(side.cols[0], e)
            if f == const(1) and (t == p or not is_const(padd(t, p, -1))):
                return True
        return False

    def check_flags(self):
        """Flags are bits of which at most one is set; opcode bits and mode are bits."""
        T = self.T
        cs = T.constraints({})
        bits = list(self.flags.values()) + self.bits + [self.c["is_kernel_mode"]]
        need = {v: [lin({v: 1}), lin({v: 1}, -1)] for v in bits}
        have = [frozenset(freeze(normalize(f)) for f in c) for c in cs]
        def forced_bit(v):
            w = frozenset(freeze(normalize(f)) for f in need[v])
            if w in have:
                return True
            for c in cs:
                if all(pvars(f) <= {v} for f in c):
                    rs = [g for f in c for g in split_linear(f)]
                    if all(degree(g) == 1 for g in rs) and {(-cval(normalize(g))) % P for g in rs} <= {0, 1}:
                        return True
            return False
        fl = list(self.flags.values())
        def some_row(part, test):
            """A concrete row with the given values in some of the bit columns."""
            for op in range(256):
                e = {v: 0 for v in fl}
                e.update({b: (op >> i) & 1 for i, b in enumerate(self.bits)})
                e[self.c["is_kernel_mode"]] = op & 1
                e.update(part)
                try:
                    st = State(T.constraints(e))
                except Contradiction:
                    continue
                x = self.row(st, e, test)
                if x:
                    return x
            return ""
        for v in bits:
            ok = forced_bit(v)
            text = ""
            for part in [] if ok else [{v: 2}] + [{v: P - 1, w: 1} for w in fl if w != v]:
                text = text or some_row(part, lambda S: not S.equal(var(v)) and not S.equal(lin({v: 1}, -1)))
            self.r.add("C01", f"column {T.nm(v)}", "is a bit", ok, "" if ok else "no constraint forces it" + text)
        # at most one flag: the sum of the flags (as an integer at most 18) is 0 or 1 -- by the
        # constraint on the total or by those on parts that together imply it
        pair_bad, text = [], ""
        sys_, exc = self.flags["syscall"], self.flags["exception"]
        small = [c for c in cs if all(pvars(f) <= set(fl) for f in c)]
        for i in range(len(fl)):
            for j in range(i):
                e = {v: 0 for v in fl}
                e[fl[i]] = e[fl[j]] = 1
                if all(any(peval(f, e) == 0 for f in c) for c in small):
                    pair_bad.append((T.nm(fl[j]), T.nm(fl[i])))
                    text = text or some_row({fl[i]: 1, fl[j]: 1}, lambda S: True)
        k3 = [] if one_hot(small, fl) else ["three or more"]
        self.r.add("C01", "operation flags", "at most one is set", not pair_bad and not k3, f"pairs {pair_bad[:5]} sizes {k3}" + text)

    def check_halt(self):
        """Padding rows, the first and the last row."""
        S = self
        T = self.T
        st0 = None
        fl = list(self.flags.values())
        for mode in (0, 1):
            e = {v: 0 for v in fl}
            e[self.c["is_kernel_mode"]] = mode
            try:
                st = State(T.constraints(e))
            except Contradiction:
                continue
            if mode == 0:
                n = sum(1 for _ in leaves(st))
                S.r.add("C03", "padding row", "is in kernel mode", n == 0, "a user-mode padding row is accepted")
                continue
            for leaf in leaves(st):
                def pad(what, poly):
                    ok = leaf.equal(poly)
                    S.r.add("C03", "padding row", what, ok, "" if ok else self.row(leaf, e, lambda X: not X.equal(poly)))
                pad("is at the halt label", padd(S.pc, const(S.m.labels["halt_final"]), -1))
                pad("is followed by padding rows only", psum(var(v + T.n) for v in fl))
                bad = []
                for i, s in enumerate(S.bus["Memory"]):
                    f = leaf.red(S.sub(s.filter, e))
                    if f:
                        bad.append(f"lookup {i} (filter {T.show(f)})")
                for b, ss in S.bus.items():
                    if b != "Memory":
                        for s in ss:
                            f = leaf.red(S.sub(s.filter, e))
                            if f:
                                bad.append(f"{b} (filter {T.show(f)})")
                S.r.add("C05", "padding row", "performs no memory operation", not bad, "; ".join(bad))
        def first_last(kind, prop, what, st, poly, detail=""):
            ok = st.equal(poly)
            if not ok:
                fl = (1, 1, 0) if kind == "first row" else (0, 0, 1)
                full = State(T.constraints({}, ("all", "trans", "first") if fl[1] else ("all", "last")))
                detail += self.row(full, {}, lambda S: not S.equal(poly), fl)
            S.r.add(prop, kind, what, ok, detail)
        # last row
        cs = T.constraints({}, ("last",))
        st = State(cs)
        first_last("last row", "C03", "is a padding row", st, psum(var(v) for v in fl))
        # first row
        cs = T.constraints({}, ("first",))
        st = State(cs)
        first_last("first row", "C03", "starts at the kernel's init label", st, padd(S.pc, const(S.m.labels["init"]), -1), "the first pc is free")
        first_last("first row", "C03", "starts in kernel mode", st, padd(S.kern, const(1), -1), "the first mode is free")
        first_last("first row", "C04", "starts with no gas used", st, S.gas, "the first gas value is free")
        first_last("first row", "C06", "starts in the kernel context", st, S.ctx, "the first context is free")
        first_last("first row", "C02", "starts with an empty stack", st, S.slen, "the first stack length is free")
        first_last("first row", "C03", "starts at clock 1", st, padd(S.clock, const(1), -1), "")
        bad = []
        for i in S.deferred:
            f = st.red(S.bus["Memory"][i].filter)
            if f:
                bad.append(T.show(f))
        S.r.add("C05", "first row", "performs no memory operation beyond its instruction's", not bad, f"filter {bad}")

    def check_overflow(self):
        """In user mode the stack never reaches 1025 elements."""
        S = self
        limit = padd(S.nslen, const(1025), -1)
        for ins in instructions():
            fn = ins.kw.get("fn")
            grows = fn == "dup" or (ins.pops == 0 and ins.push)
            if not grows and fn != "exit_kernel":
                continue
            if ins.flag in ("syscall", "exception"):
                continue
            for op in ins.ops:
                for mode in ins.modes:
                    if mode == 1 and fn != "exit_kernel":
                        continue
                    text, n = "", 0
                    try:
                        st = S.state(ins.flag, op, mode, extra=[limit, S.nkern])
                        for leaf in leaves(st):
                            n += 1
                            text = text or self.row(leaf, S.env(ins.flag, op, mode), lambda X: True)
                    except Contradiction:
                        pass
                    S.r.add("C02", S.name(ins, op, mode), "does not leave 1025 elements on the user stack", n == 0, text)


def one_hot(cs, fl):
    """A constraint on the sum of all flags leaves only 0 and 1 (flags being bits); otherwise by
    enumeration of every assignment."""
    tot = {(v,): 1 for v in fl}
    for c in cs:
        rs = [normalize(g) for f in c for g in split_linear(f)]
        if all({m: x for m, x in g.items() if m} == tot for g in rs) and {(-cval(padd(g, tot, -1))) % P for g in rs} <= {0, 1}:
            return True
    for mask in range(1 << len(fl)):
        if bin(mask).count("1") > 2:
            e = {v: mask >> i & 1 for i, v in enumerate(fl)}
            if all(any(peval(f, e) == 0 for f in c) for c in cs):
                return False
    return True


class Report:
    def __init__(self):
        self.items = []

    def add(self, prop, subject, what, ok, detail=""):
        self.items.append((prop, subject, what, bool(ok), detail))
