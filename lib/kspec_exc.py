"""E05: system calls reach the right handler, and no exception or segment boundary can be forged.
E13: the jump destinations that the kernel records are exactly the JUMPDEST instructions."""
import z3
from . import kvc, kbase
from .kvc import *
from .kbase import Case, Routine, Spec, Verifier, Kernel, prove

# ---------------------------------------------------------------- the EVM (Cancun)
NATIVE = {  # opcode: gas, for the instructions that the CPU executes itself
    0x01: 3, 0x02: 5, 0x03: 3, 0x04: 5, 0x06: 5, 0x08: 8, 0x09: 8, 0x10: 3, 0x11: 3, 0x14: 3, 0x15: 3, 0x16: 3, 0x17: 3, 0x18: 3, 0x19: 3,
    0x1a: 3, 0x1b: 3, 0x1c: 3, 0x50: 2, 0x56: 8, 0x57: 10, 0x58: 2, 0x5b: 1, 0x5f: 2,
    **{o: 3 for o in range(0x60, 0xa0)}}
SYS = {0x00: "stop", 0x05: "sdiv", 0x07: "smod", 0x0a: "exp", 0x0b: "signextend", 0x12: "slt", 0x13: "sgt", 0x1d: "sar", 0x20: "keccak256",
       0x30: "address", 0x31: "balance", 0x32: "origin", 0x33: "caller", 0x34: "callvalue", 0x35: "calldataload", 0x36: "calldatasize",
       0x37: "calldatacopy", 0x38: "codesize", 0x39: "codecopy", 0x3a: "gasprice", 0x3b: "extcodesize", 0x3c: "extcodecopy",
       0x3d: "returndatasize", 0x3e: "returndatacopy", 0x3f: "extcodehash", 0x40: "blockhash", 0x41: "coinbase", 0x42: "timestamp",
       0x43: "number", 0x44: "prevrandao", 0x45: "gaslimit", 0x46: "chainid", 0x47: "selfbalance", 0x48: "basefee", 0x49: "blobhash",
       0x4a: "blobbasefee", 0x51: "mload", 0x52: "mstore", 0x53: "mstore8", 0x54: "sload", 0x55: "sstore", 0x59: "msize", 0x5a: "gas",
       0x5c: "tload", 0x5d: "tstore", 0x5e: "mcopy", 0xa0: "log0", 0xa1: "log1", 0xa2: "log2", 0xa3: "log3", 0xa4: "log4", 0xf0: "create",
       0xf1: "call", 0xf2: "callcode", 0xf3: "return", 0xf4: "delegatecall", 0xf5: "create2", 0xfa: "staticcall", 0xfd: "revert",
       0xff: "selfdestruct"}
VALID = set(NATIVE) | set(SYS)
# stack items that an instruction needs; stack items that it leaves more than it takes
NEED = {**{o: 2 for o in (1, 2, 3, 4, 5, 6, 7, 0xa, 0xb, *range(0x10, 0x15), *range(0x16, 0x19), 0x1a, 0x1b, 0x1c, 0x1d, 0x20, 0x52, 0x53, 0x55, 0x57, 0x5d, 0xf3, 0xfd)},
        **{o: 3 for o in (8, 9, 0x37, 0x39, 0x3e, 0x5e, 0xf0)}, **{o: 1 for o in (0x15, 0x19, 0x31, 0x35, 0x3b, 0x3f, 0x40, 0x49, 0x50, 0x51, 0x54, 0x56, 0x5c, 0xff)},
        0x3c: 4, **{0x80 + i: i + 1 for i in range(16)}, **{0x90 + i: i + 2 for i in range(16)}, **{0xa0 + i: i + 2 for i in range(5)},
        0xf1: 7, 0xf2: 7, 0xf4: 6, 0xfa: 6, 0xf5: 4}
GROW = {0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, *range(0x41, 0x49), 0x4a, 0x58, 0x59, 0x5a, *range(0x5f, 0x90)}
EXC = ["exc_out_of_gas", "exc_invalid_opcode", "exc_stack_underflow", "exc_invalid_jump_destination", "exc_invalid_jumpi_destination",
       "exc_stack_overflow", "exc_stop", "panic"]
MAX_INITCODE = 49152


def table(x, f, n=256):
    """f(x) for a word x < n"""
    if isinstance(x, int):
        return f(x)
    runs, i = [], 0
    while i < n:
        j = i
        while j + 1 < n and f(j + 1) == f(i):
            j += 1
        runs.append((j, f(i)))
        i = j + 1
    v = z3.BitVecVal(runs[-1][1], W)
    for j, y in reversed(runs[:-1]):
        v = z3.If(z3.ULE(bv(x), j), z3.BitVecVal(y, W), v)
    return norm(v)


def member(x, s):
    return table(x, lambda i: int(i in s)) if isinstance(x, int) else Not(EQ(table(x, lambda i: int(i in s)), 0))


def with_code(p, mem):
    """the kernel's code is in the code segment of context 0"""
    n = len(p.code)
    kc = z3.Function("kernel_code", BV, BV)

    def f(a):
        if isinstance(a, int):
            return a < n, lambda: p.code[a]
        lo, hi = interval(a, bounds_of(LOADCONDS[0]))
        if lo >= n:
            return False, lambda: 0
        if hi < n and hi - lo <= 600:
            return True, lambda: table(norm(bv(a) - lo), lambda i: p.code[lo + i], hi - lo + 1)
        return z3.ULT(bv(a), n), lambda: kc(bv(a))
    return mem.bulk(f)


# ---------------------------------------------------------------- E05
def opcode(k, st, trap):
    return load(st.mem, add(st.ctx, and_(trap, 0xffffffff)), st.conds)


def user(k, st, args):
    """enters a handler with trap_info on a stack of `len` words in a user context"""
    st.mem = with_code(k.p, st.mem)
    st.base, st.stack = args[1], [args[0]]
    if not isinstance(st.ctx, int):
        st.assume(st.ctx != 0)


def exc_pre(k, st, args):
    trap, n = args[:2]
    r = [("the trap information is gas and program counter", EQ(and_(trap, ((1 << 192) - 1) ^ 0xffffffff), 0)),
         ("gas below 2^32", ULT(shr(192, trap), 1 << 32)),
         ("at most 1024 stack items", ULE(n, 1024)),
         ("the gas limit is below 2^64", ULT(load(st.mem, k.field("CTX_METADATA_GAS_LIMIT", st.ctx), st.conds), 1 << 64))]
    return r + [("the opcode is a byte (the CPU row decodes it from 8 bits)", ULT(opcode(k, st, trap), 256))]


def sample(rng, k, args, lazy, ctx):
    """inputs in which the exception is likely to be at a boundary"""
    from .kreplay import Lazy
    ctx = ctx or 3 << 64
    lim = rng.choice((0, 1, 7, 100, 30000))
    pc = rng.choice((0, 1, 77))
    n = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 15, 16, 17, 1023, 1024))
    op = rng.randrange(256)
    used = max(0, lim - rng.choice((0, 1, 2, 3, 4, 5, 8, 9, 10)))
    stack = k.c["SEGMENT_STACK"]
    L = Lazy(lambda a: rng.choice((0, 1, 5, 100, 24576, 24577, 49152, 49153, 1 << 40)), {ctx + pc: op, k.field("CTX_METADATA_GAS_LIMIT", ctx): lim})
    return [(used << 192) + pc, n] + args[2:], L, ctx


def exc(name, spec, **kw):
    return Routine(name, ["trap_info", "len"], spec, pre=exc_pre, kind="exc", may_panic=True, setup=user, sample=sample, **kw)


def oog_cond(s, costs):
    used = shr(192, s.args[0])
    lim = load(s.st.mem, s.k.field("CTX_METADATA_GAS_LIMIT", s.ctx), s.path)
    cost = table(opcode(s.k, s.st, s.args[0]), lambda o: costs.get(o, 0))
    return And(ULE(used, lim), Not(ULE(add(used, cost), lim)))


def oog(s):
    """the system calls charge themselves; those with a fixed price may also be refused here"""
    s.split("the instruction's gas does not suffice", "fault", oog_cond(s, {**NATIVE, 0x05: 5, 0x07: 5, 0x0b: 5, 0x12: 3, 0x13: 3, 0x1d: 3}))


def only(f, name, live=None):
    def spec(s):
        s.split(name, "fault", f(s, opcode(s.k, s.st, s.args[0]), s.args[1]))
    return dict(spec=spec, live=lambda s: (live or f)(s, opcode(s.k, s.st, s.args[0]), s.args[1]))


def e05(k):
    r = [exc("exc_out_of_gas", oog, live=lambda s: oog_cond(s, NATIVE)),
         exc("exc_invalid_opcode", **only(lambda s, op, n: Not(member(op, VALID)), "no such instruction")),
         # an invalid instruction faults, whatever exception is raised
         exc("exc_stack_underflow", **only(lambda s, op, n: ULT(n, table(op, lambda o: NEED.get(o, 0) if o in VALID else 1025)), "too few stack items",
                                           lambda s, op, n: ULT(n, table(op, lambda o: NEED.get(o, 0) if o in VALID else 0)))),
         exc("exc_stack_overflow", **only(lambda s, op, n: And(member(op, GROW), EQ(n, 1024)), "the stack is full"))]

    def registers(s, base, pc, kern, n, gas):
        R = lambda i: load(s.st.mem, base + i, s.path)
        top = load(s.st.mem, add(add(s.ctx, s.k.c["SEGMENT_STACK"]), sub(n, 1)), s.path)
        return And(EQ(R(0), pc), EQ(R(1), kern), EQ(R(2), n), Or(EQ(n, 0), EQ(R(3), top)), EQ(shl(64, R(4)), s.ctx), EQ(R(5), gas))

    def stopped(s):
        t, n = s.args
        f = lambda o: and_(shr(o, t), 0xffffffff)
        return registers(s, s.k.c["FINAL_REGISTERS_ADDR"], f(0), f(32), n, f(192))

    def stop(s):
        s.split("the final registers are the claimed ones", "halt", stopped(s))

    def stop_setup(k, st, args):
        st.base, st.stack = args[1], [args[0]]

    def init_setup(k, st, args):
        st.base, st.stack = args[0], []

    def claimed(s):
        R = lambda i: load(s.st.mem, s.k.c["SEGMENT_REGISTERS_STATES"] + i, s.path)
        n = s.args[0]
        top = load(s.st.mem, add(add(s.ctx, s.k.c["SEGMENT_STACK"]), sub(n, 1)), s.path)
        return R, And(EQ(R(2), n), Or(EQ(n, 0), EQ(R(3), top)), EQ(shl(64, R(4)), s.ctx))

    def init(s):
        R, c = claimed(s)
        s.split("execution continues from the claimed registers", "exit", c, stack=[add(shl(192, R(5)), add(shl(32, R(1)), R(0)))])

    small = lambda i: (lambda k, st, args: [("the stack length is below 2^32", ULT(args[i], 1 << 32))])

    def stop_sample(rng, k, args, lazy, ctx):
        from .kreplay import Lazy
        pc, kern, n, gas, top = rng.randrange(100), rng.randrange(2), rng.randrange(4), rng.randrange(1000), rng.getrandbits(256)
        F, I = k.c["FINAL_REGISTERS_ADDR"], k.c["SEGMENT_REGISTERS_STATES"]
        d = {}
        for b in (F, I):
            regs = [pc, kern, n, top, ctx >> 64, gas]
            if rng.random() < .8:
                i = rng.randrange(6)
                regs[i] = (regs[i] + rng.choice((1, 1 << 255, 1 << 254, MASK, 2))) & MASK
            d.update({b + i: v for i, v in enumerate(regs)})
        d[ctx + k.c["SEGMENT_STACK"] + n - 1] = top
        L = Lazy(lambda a: 0, d)
        return ([(gas << 192) + (kern << 32) + pc, n] if len(args) == 2 else [n]), L, ctx
    r.append(Routine("exc_stop", ["trap_info", "len"], stop, pre=small(1), kind="exc", may_panic=True, setup=stop_setup, ends=[("halt", "halt_final")],
                     sample=stop_sample, live=stopped))
    r.append(Routine("init", ["len"], init, pre=small(0), kind="exc", may_panic=True, setup=init_setup, sample=stop_sample,
                     live=lambda s: claimed(s)[1]))
    return r


# ---------------------------------------------------------------- E13
START = z3.Function("instruction_start", BV, z3.BoolSort())


def skip(op):
    return table(op, lambda o: o - 0x5e if 0x60 <= o < 0x80 else 1)


class Walk:
    """the instructions of the code in one context: START is the least predicate with START(0) and START(p) -> START(p + skip(code p))"""

    def __init__(self, k, mem, ctx):
        self.k, self.m, self.ctx = k, mem, ctx

    def code(self, p, conds):
        return load(self.m, add(self.ctx, p), conds)

    def valid(self, p, conds):
        return z3.And(START(bv(p)), T(EQ(self.code(p, conds), 0x5b)))

    def bit(self, p):
        return add(add(self.ctx, self.k.c["SEGMENT_JUMPDEST_BITS"]), p)

    def position(self, g):
        """(g is the address of a jump destination bit of this context, its position)"""
        p = norm(bv(g) - bv(self.bit(0)))
        return z3.ULT(bv(p), 1 << 32), p

    def closed(self, p, conds):
        return z3.Implies(START(bv(p)), START(bv(add(p, skip(self.code(p, conds))))))

    def gap(self, p, q, conds):
        """no instruction starts within another one (lemma walk)"""
        n = add(p, skip(self.code(p, conds)))
        return z3.Implies(z3.And(START(bv(p)), START(bv(q)), z3.ULT(bv(p), bv(q)), z3.ULT(bv(p), 1 << 40)), z3.ULE(bv(n), bv(q)))

    def havoc(self, mem, name):
        """(memory with new bits, fact about address g)"""
        nb = z3.Function(f"{name}!{next(kvc._fresh)}", BV, BV)

        def f(a):
            c, _ = self.position(a)
            return inside(a, *self.region()), lambda: nb(bv(a))

        def fact(g, conds):
            c, p = self.position(g)
            old = load(mem, g, conds)
            return z3.Implies(c, z3.Or(nb(bv(g)) == bv(old), z3.And(nb(bv(g)) == 1, self.valid(p, conds))))
        return mem.bulk(f), fact

    def region(self):
        b = self.bit(0)
        return b, add(b, 1 << 32)


def inside(a, lo, hi):
    return z3.And(z3.UGE(bv(a), bv(lo)), z3.ULT(bv(a), bv(hi)))


class ExcSpec:
    def __init__(self, dump):
        self.k = Kernel(dump)
        self.e05 = e05(self.k)

    def tasks(self):
        return [("E05", "tables", ())] + [("E05", "routine", (i,)) for i in range(len(self.e05))] + \
               [("E13", n, ()) for n in ("lemmas", "verify_path", "write_table", "write_table_end", "non_jumpdest", "analysis", "jump", "jumpi")]

    def routine(self, i):
        Verifier(self.k, self.r, "E05").verify(self.e05[i])

    def tables(self):
        k = self.k
        for o in range(256):
            want = "sys_" + SYS[o] if o in SYS else "panic"
            got = k.jumptable("syscall_jumptable", o)
            ok = got == k.p.labels.get(want)
            self.r.add("E05", f"opcode {o:#04x}", f"its system call is {want}", ok, f"the table holds {got:#x}, {k.p.where(got)}")
        for i, want in enumerate(EXC):
            got = k.jumptable("exception_jumptable", i)
            self.r.add("E05", f"exception {i}", f"its handler is {want}", got == k.p.labels.get(want), f"the table holds {got:#x}, {k.p.where(got)}")

    # ------------------------------------------------------------ E13
    def add(self, sub, what, ok, detail=""):
        self.r.add("E13", sub, what, ok, detail)

    def goal(self, sub, what, conds, g, timeout=LONG):
        s, m = prove(conds, g, timeout)
        self.note(sub, what, s == "ok", "not proved" if s == "unknown" else "" if s == "ok" else f"counterexample: {str(m)[:400]}")

    def note(self, sub, what, ok, d=""):
        a = self.items.setdefault((sub, what), [True, ""])
        if not ok and a[0]:
            a[0], a[1] = False, d

    def flush(self):
        bad = [x for x, (ok, d) in self.items.items() if not ok]
        if bad:
            t = search_jumps(self.k)
            if t:
                self.items[bad[0]][1] += "\nFAILING INPUT\n" + t
        for (s, w), (ok, d) in self.items.items():
            self.add(s, w, ok, d)

    def run(self, sub, f):
        self.items = {}
        try:
            f(sub)
        except Stuck as e:
            self.note(sub, "the code stays within the form that its contract describes", False, str(e))
        self.flush()

    def lemmas(self):
        self.run("lemmas", self._lemmas)

    def _lemmas(self, sub):
        # walk: s is the sequence of instruction starts; a <= b implies s(a) <= s(b), and a < b implies s(a + 1) <= s(b)
        s, d = z3.Function("s", z3.IntSort(), z3.IntSort()), z3.Function("d", z3.IntSort(), z3.IntSort())
        a, b = z3.Ints("a b")
        step = z3.And(s(b + 1) == s(b) + d(s(b)), d(s(b)) >= 1)
        r, _ = check([step, a <= b, z3.Implies(a < b, s(a + 1) <= s(b)), z3.Not(s(a + 1) <= s(b + 1))], LONG)
        self.note(sub, "no instruction starts within another one (induction step)", r == z3.unsat)
        # cover: for every m there is an instruction that contains position m
        S = z3.Function("S", z3.IntSort(), z3.BoolSort())
        m, x = z3.Ints("m x")
        cover = lambda y, m: z3.And(S(y), y <= m, y + d(y) > m)
        nx = x + d(x)
        r, _ = check([cover(x, m), d(x) >= 1, d(nx) >= 1, z3.Implies(S(x), S(nx)), z3.Not(cover(x, m + 1)), z3.Not(cover(nx, m + 1))], LONG)
        self.note(sub, "every position lies in an instruction (induction step)", r == z3.unsat)
        r, _ = check([S(0), d(0) >= 1, z3.Not(cover(z3.IntVal(0), z3.IntVal(0)))], LONG)
        self.note(sub, "every position lies in an instruction (induction base)", r == z3.unsat)

    def ctx0(self, st):
        ctx = z3.BitVec("ctx", W)
        st.assume(z3.ULT(ctx, 1 << 96), ctx & ((1 << 64) - 1) == 0, ctx != 0)
        return ctx

    def begin(self, names):
        args = [z3.BitVec(n, W) for n in names]
        st = self.k.state(args, with_code(self.k.p, Mem.fresh("mem0")), None)
        st.ctx = z3.BitVec("current", W)
        st.assume(z3.ULT(st.ctx, 1 << 96), st.ctx & ((1 << 64) - 1) == 0, st.ctx != 0)
        return st, args

    def verify_path(self):
        self.run("verify_path_and_write_jumpdest_table", self._verify_path)

    def frame(self, sub, w, m0, st, cs, g):
        """every bit of the table is as before or marks an instruction JUMPDEST; nothing else changes"""
        c, p = w.position(g)
        new, old = load(st.mem, g, cs), load(m0, g, cs)
        self.goal(sub, "only jump destination bits change", cs + [z3.Not(c)], EQ(new, old))
        self.goal(sub, "a bit is set only for a JUMPDEST that starts an instruction", cs + [c],
                  z3.Or(bv(new) == bv(old), z3.And(bv(new) == 1, w.valid(p, cs))))

    def _verify_path(self, sub):
        k = self.k
        st, (init, ctx, final, ret) = self.begin(["init", "ctx_arg", "final", "retdest"])
        w = Walk(k, st.mem, ctx)
        st.assume(z3.ULT(ctx, 1 << 96), ctx & ((1 << 64) - 1) == 0, ctx != 0, z3.ULT(init, 1 << 33), z3.ULT(final, 1 << 32), START(init),
                  EQ(w.code(final, st.conds), 0x5b))
        ends = [("ret", ret), ("panic", k.label("panic"))]
        ex = lambda **kw: Exec(k.p, {}, ends, **kw)
        e = ex()
        e.track = "back"
        i = z3.BitVec("i", W)
        outs = e.run(st, k.label("verify_path_and_write_jumpdest_table"))
        heads = {s.pc for kd, s in outs if kd == "head"}
        if len(heads) != 1:
            raise Stuck(f"{len(heads)} loops where one is expected")
        head = heads.pop()
        stop = {head: lambda ex, s: [("head", s)]}
        g = z3.BitVec("any_address", W)
        m0 = st.mem

        def inv(x, cs):
            return z3.And(START(bv(x)), z3.ULT(bv(x), 1 << 34), z3.Implies(z3.And(START(final), z3.ULE(init, final)), z3.ULE(bv(x), final)))

        slots = [s.stack for kd, s in ex(loops=stop).run(st, k.label("verify_path_and_write_jumpdest_table")) if kd == "head"][0]

        def at(x):
            """the stack at the head of the loop when the walk has come to x"""
            return [norm(z3.substitute(bv(y), (init, bv(x)))) for y in slots]
        pos = [j for j, y in enumerate(slots) if z3.is_expr(y) and kvc.has(y, init)]
        if not pos or kvc.has(bv(sub_(slots[pos[0]], init)), init):
            raise Stuck("no word on the stack at the loop head tells the position")

        def where(s):
            return sub_(s.stack[pos[0]], sub_(slots[pos[0]], init))

        def arrive(s, x, when):
            self.goal(sub, f"loop {when}: the stack", s.conds, z3.And(len(s.stack) == len(slots), *[T(EQ(a, b)) for a, b in zip(s.stack, at(x))]))
            self.goal(sub, f"loop {when}: the position starts an instruction, at most at the destination", s.conds, inv(x, s.conds))
            self.frame(sub, w, m0, s, s.conds, g)

        def returned(s):
            self.frame(sub, w, m0, s, s.conds, g)
            self.goal(sub, "leaves the stack empty", s.conds, z3.BoolVal(not s.stack))
            self.goal(sub, "the destination is marked when it starts an instruction", s.conds,
                      z3.Implies(z3.And(START(final), z3.ULE(init, final)), T(EQ(load(s.mem, w.bit(final), s.conds), 1))))
        n = 0
        for kd, s in ex(loops=stop).run(st, k.label("verify_path_and_write_jumpdest_table")):
            n += 1
            if kd == "head":
                arrive(s, init, "entry")
            elif kd == "ret":
                returned(s)
            else:
                self.note(sub, "never panics", False)
        t = st.copy()
        t.mem, fact = w.havoc(m0, "bits")
        t.assume(inv(i, st.conds), fact(g, st.conds))
        op = w.code(i, t.conds)
        t.assume(ULT(op, 256), w.closed(i, t.conds), w.gap(i, final, t.conds))
        t.stack = at(i)
        for kd, s in ex(loops=stop).run(t, head):
            if kd == "head":
                self.goal(sub, "loop step: goes on to the next instruction", s.conds, EQ(where(s), add(i, skip(op))))
                arrive(s, where(s), "step")
            elif kd == "ret":
                returned(s)
            else:
                self.goal(sub, "never panics", s.conds, z3.BoolVal(False))

    def call_path(self, ex, st):
        """contract of verify_path_and_write_jumpdest_table at a call"""
        init, ctx, final, ret = [st.stack.pop() for _ in range(4)]
        w = self.w
        ex.require(st, "the path starts at an instruction of the code that is analysed", And(EQ(ctx, w.ctx), ULT(init, 1 << 33), ULT(final, 1 << 32), EQ(w.code(final, st.conds), 0x5b)))
        st.ghost["init"] = init
        if not isinstance(init, int) or init:
            ex.require(st, "the path starts at an instruction of the code that is analysed: start", START(bv(init)))
        else:
            st.assume(START(bv(0)))
        st.mem, fact = w.havoc(st.mem, "marked")
        for g in [self.g, w.bit(final)]:
            st.assume(fact(g, st.conds))
        st.assume(z3.Implies(z3.And(START(bv(final)), T(ULE(init, final))), T(EQ(load(st.mem, w.bit(final), st.conds), 1))))
        return ex.jump(st, ret)

    def write_table(self):
        self.run("write_table_if_jumpdest", self._write_table)

    def write_table_end(self):
        self.run("write_table_if_jumpdest", self._aligned)

    def paths(self, contracts):
        k = self.k
        st, (proof, dest, ctx, ret) = self.begin(["proof", "jumpdest", "ctx_arg", "retdest"])
        st.assume(z3.ULT(ctx, 1 << 96), ctx & ((1 << 64) - 1) == 0, ctx != 0, z3.ULT(dest, 1 << 32))
        self.w = w = Walk(k, st.mem, ctx)
        self.g = g = z3.BitVec("any_address", W)
        ex = Exec(k.p, contracts, [("ret", ret), ("panic", k.label("panic"))])
        return st, proof, dest, ctx, ret, w, ex

    def _write_table(self, sub):
        """with the alignment (checked in _aligned) assumed at the call"""
        k = self.k

        def call(ex, st):
            init = st.stack[-1]
            st.assume(START(bv(init)))
            return self.call_path(ex, st)
        st, proof, dest, ctx, ret, w, ex = self.paths({k.label("verify_path_and_write_jumpdest_table"): call})
        for kd, s in ex.run(st, k.label("write_table_if_jumpdest")):
            if kd == "panic":
                continue
            self.frame(sub, w, st.mem, s, s.conds, self.g)
            self.goal(sub, "leaves the stack empty", s.conds, z3.BoolVal(not s.stack))
            c = s.conds
            self.goal(sub, "the destination is marked when it is a JUMPDEST that starts an instruction, if the path does not start after it", c,
                      z3.Implies(z3.And(w.valid(dest, st.conds), before(proof, dest)), T(EQ(load(s.mem, w.bit(dest), c), 1))))
            self.goal(sub, "a proof is not after its JUMPDEST", c, z3.Implies(T(EQ(w.code(dest, st.conds), 0x5b)), z3.ULE(proof, dest)))
        for what, cs, g in ex.obl:
            if "START" in what or ": start" in what:
                continue
            self.goal(sub, what, cs, g)

    def _aligned(self, sub):
        """after the check of 32 bytes, the next position starts an instruction"""
        k = self.k
        st, proof, dest, ctx, ret, w, ex = self.paths({k.label("verify_path_and_write_jumpdest_table"): lambda ex, s: [("walk", s)]})
        x = z3.BitVec("x", W)
        n = 0
        for kd, s in ex.run(st, k.label("write_table_if_jumpdest")):
            if kd != "walk":
                continue
            init = s.stack[-1]
            if init == 0 or prove(s.conds, EQ(init, 0), 5000)[0] == "ok":
                self.note(sub, "a path may start at 0", True)
                continue
            n += 1
            cs = s.conds
            self.goal(sub, "a path starts 32 bytes after its proof", cs, z3.And(T(EQ(init, add(proof, 32))), z3.ULT(proof, 1 << 32)))
            # x: the instruction that contains position proof + 31 (lemma cover)
            cs = cs + [z3.ULT(proof, 1 << 32), z3.ULE(x, proof + 31), START(x)]
            op = z3.BitVec("op", W)
            nxt = lambda o: x + bv(skip(o))
            for j in range(32):
                o = w.code(add(proof, j), s.conds)
                self.goal(sub, "no instruction of the 32 bytes reaches past them", cs + [x == proof + j, z3.ULT(bv(o), 256)], z3.ULE(nxt(o), proof + 32))
            self.goal(sub, "an instruction before the 32 bytes ends within or right after them", cs + [z3.ULT(x, proof), z3.ULT(op, 256)], z3.ULE(nxt(op), proof + 32))
        self.note(sub, "there is a path that starts after a checked prefix", n > 0)

    def call_write(self, ex, st):
        proof, dest, ctx, ret = [st.stack.pop() for _ in range(4)]
        w = self.w
        ex.require(st, "the destination lies in the analysed code", And(EQ(ctx, w.ctx), ULT(dest, 1 << 32)))
        st.mem, fact = w.havoc(st.mem, "table")
        v = w.valid(dest, st.conds)
        for g in [self.g, w.bit(dest)]:
            st.assume(fact(g, st.conds))
        st.assume(z3.Implies(z3.And(v, before(proof, dest)), T(EQ(load(st.mem, w.bit(dest), st.conds), 1))))
        st.assume(z3.Implies(v, z3.ULE(bv(proof), bv(dest))))
        self.proof = proof
        return ex.jump(st, ret)

    def non_jumpdest(self):
        self.run("verify_non_jumpdest", self._non_jumpdest)

    def _non_jumpdest(self, sub):
        k = self.k
        st, (dest, ret) = self.begin(["addr", "retdest"])
        self.w = w = Walk(k, st.mem, st.ctx)
        self.g = z3.BitVec("any_address", W)
        st.assume(z3.ULT(dest, 1 << 32))
        ex = Exec(k.p, {k.label("write_table_if_jumpdest"): self.call_write}, [("ret", ret), ("panic", k.label("panic"))])
        for kd, s in ex.run(st, k.label("verify_non_jumpdest")):
            if kd == "panic":
                continue
            self.frame(sub, w, st.mem, s, s.conds, self.g)
            self.goal(sub, "leaves the stack empty", s.conds, z3.BoolVal(not s.stack))
            self.goal(sub, "stays in its context", s.conds, EQ(s.ctx, st.ctx))
            v = w.valid(dest, st.conds)
            self.goal(sub, "the bit of a valid destination is set afterwards, if the path does not start after it", s.conds,
                      z3.Implies(z3.And(v, before(self.proof, dest)), T(EQ(load(s.mem, w.bit(dest), s.conds), 1))))
            self.goal(sub, "a proof after a valid destination is rejected", s.conds, z3.Implies(v, z3.ULE(bv(self.proof), dest)))
            self.goal(sub, "a proof less than 32 bytes before a valid destination is rejected", s.conds, z3.Implies(v, before(self.proof, dest)))
        for what, cs, g in ex.obl:
            self.goal(sub, what, cs, g)

    def analysis(self):
        self.run("jumpdest_analysis", self._analysis)

    def _analysis(self, sub):
        k = self.k
        st, (ctx, n, ret) = self.begin(["ctx_arg", "code_len", "retdest"])
        st.assume(z3.ULT(ctx, 1 << 96), ctx & ((1 << 64) - 1) == 0, ctx != 0, z3.ULT(n, 1 << 32))
        self.w = w = Walk(k, st.mem, ctx)
        self.g = g = z3.BitVec("any_address", W)
        start = k.label("jumpdest_analysis")
        ends = [("ret", ret), ("panic", k.label("panic"))]
        m0 = st.mem
        t = st.copy()
        t.mem, fact = w.havoc(m0, "before")
        t.assume(fact(g, st.conds))
        ex = Exec(k.p, {k.label("write_table_if_jumpdest"): self.call_write}, ends, loops={start: lambda ex, s: [("head", s)]})
        for kd, s in ex.run(t, start):
            if kd == "panic":
                continue
            self.frame(sub, w, m0, s, s.conds, g)
            if kd == "head":
                self.goal(sub, "loop step: the stack", s.conds, z3.And(len(s.stack) == 3, *[T(EQ(a, b)) for a, b in zip(s.stack, [ret, n, ctx])]))
            else:
                self.goal(sub, "leaves the stack empty", s.conds, z3.BoolVal(not s.stack))
        for what, cs, gg in ex.obl:
            self.goal(sub, what, cs, gg)

    def call_non(self, ex, st):
        dest, ret = st.stack.pop(), st.stack.pop()
        w = self.w
        ex.require(st, "the destination is below 2^32", ULT(dest, 1 << 32))
        v = w.valid(dest, st.conds)
        st.mem, fact = w.havoc(st.mem, "table")
        st.assume(fact(w.bit(dest), st.conds), z3.Implies(v, T(EQ(load(st.mem, w.bit(dest), st.conds), 1))))
        return ex.jump(st, ret)

    def jump(self):
        self.run("exc_invalid_jump_destination", lambda s: self._jump(s, 0x56))

    def jumpi(self):
        self.run("exc_invalid_jumpi_destination", lambda s: self._jump(s, 0x57))

    def _jump(self, sub, op):
        k = self.k
        st, (trap, dest, cond) = self.begin(["trap_info", "jump_dest", "condition"])
        st.stack = [cond, dest, trap]
        self.w = w = Walk(k, st.mem, st.ctx)
        pc = and_(trap, 0xffffffff)
        o = load(st.mem, add(st.ctx, pc), st.conds)
        st.assume(ULT(o, 256))
        # the memory behind the code is zero, and no code is longer than the limit for init code
        st.assume(z3.Implies(z3.UGE(dest, MAX_INITCODE), z3.Not(w.valid(dest, st.conds))))
        ex = Exec(k.p, {k.label("verify_non_jumpdest"): self.call_non}, [("fault", k.label("fault_exception")), ("panic", k.label("panic"))])
        n = 0
        for kd, s in ex.run(st, k.label(sub)):
            if kd == "panic":
                continue
            n += 1
            if kd != "fault":
                self.note(sub, "ends in a fault or not at all", False, kd)
                continue
            self.goal(sub, f"the instruction is {'JUMP' if op == 0x56 else 'JUMPI'}", s.conds, EQ(o, op))
            self.goal(sub, "the destination is not a JUMPDEST that starts an instruction", s.conds, z3.Not(w.valid(dest, st.conds)))
            if op == 0x57:
                self.goal(sub, "the condition is not zero", s.conds, Not(EQ(cond, 0)))
        self.note(sub, "a fault is possible", n > 0)
        for what, cs, g in ex.obl:
            self.goal(sub, what, cs, g)


def before(proof, dest):
    """the path of the proof starts at or before the destination"""
    p, d = bv(proof), bv(dest)
    return z3.Or(p == 0, z3.And(z3.ULT(p, 1 << 32), z3.ULE(p + 32, d)))


def sub_(a, b):
    return norm(bv(a) - bv(b))


# ---------------------------------------------------------------- concrete runs
def starts(code):
    r, p = set(), 0
    while p < len(code):
        r.add(p)
        p += code[p] - 0x5e if 0x60 <= code[p] < 0x80 else 1
    return r


def search_jumps(k, seed=1, budget=60):
    """runs the routines on random code, destinations and proofs; returns a description of a run that breaks the contract"""
    import random, time
    from .kreplay import Lazy
    rng, t0 = random.Random(seed), time.time()
    ctx = 5 << 64
    bits = ctx + k.c["SEGMENT_JUMPDEST_BITS"]
    n = 0
    while time.time() - t0 < budget:
        n += 1
        size = rng.choice((0, 3, 10, 40, 70, 100))
        pool = rng.choice(([0x5b, 0x60, 0x61], [0x5b, 0, 1], [0x5b, 0x5b, 0x7f, 0x7e, 0x60], list(range(0x5a, 0x82)), list(range(256))))
        code = [rng.choice(pool) for _ in range(size)]
        if n % 40 == 0:
            code += [0] * (rng.choice((24575, 24577, 30000, 49000)) - len(code)) + [0x5b] * 3
        st, pool2 = starts(code), [p for p, o in enumerate(code) if o == 0x5b] or [0]
        dest = rng.choice(pool2 if rng.random() < .8 else [rng.randrange(len(code) + 40)])
        near = [0, dest - 32, dest - 33, dest - 31, dest - 1, dest, dest + 1, -32, -31, -1, dest - rng.randrange(64), rng.randrange(len(code) + 1)]
        hint = [rng.choice(near) & MASK for _ in range(8)]
        name = rng.choice(("write_table_if_jumpdest", "verify_non_jumpdest", "jumpdest_analysis", "exc_invalid_jump_destination", "exc_invalid_jumpi_destination"))
        d = {ctx + i: o for i, o in enumerate(code)}
        if len(code) > 1000:
            name = rng.choice(("exc_invalid_jump_destination", "verify_non_jumpdest"))
            dest, hint = rng.choice(pool2[-3:]), [(rng.choice(pool2[-3:]) - 32) & MASK] * 8
        ret = 0xdead0000
        exc = name.startswith("exc")
        pc = len(code) + 50
        if exc:
            d[ctx + pc] = rng.choice((0x56, 0x57, 0x56 if name.endswith("jump_destination") else 0x57))
        cond = rng.choice((0, 1, 5))
        mem = Lazy(lambda a: 0, d)
        args = {"write_table_if_jumpdest": [hint[0], dest, ctx, ret], "verify_non_jumpdest": [dest, ret], "jumpdest_analysis": [ctx, len(code), ret]}.get(name, [pc, dest, cond])
        if name == "jumpdest_analysis":
            h = []
            for _ in range(3):
                q = rng.choice(pool2)
                h += [q + 1, rng.choice([0, q - 32, q - 33, q - rng.randrange(64), q, -32, rng.randrange(len(code) + 1)]) & MASK]
            hint = h + [0]
        it = iter(hint)
        s = k.state(args, with_code(k.p, Mem(None, "dict", mem, None)), ctx)

        def nxt(ex, s_, pc_):
            try:
                return next(it)
            except StopIteration:
                raise Stuck("no hint")
        ends = [("ret", ret), ("fault", k.label("fault_exception")), ("panic", k.label("panic"))]
        try:
            (kd, o), = Exec(k.p, {}, ends, hint=nxt, max_steps=1500000).run(s, k.label(name))
        except (Stuck, ValueError, KeyError, z3.Z3Exception):
            continue
        if kd == "panic":
            continue
        valid = lambda p: p < len(code) and p in st and code[p] == 0x5b
        bad = None
        m, seen = o.mem, set()
        while m is not None:
            if m.kind == "st":
                seen.add(m.a)
            m = m.prev
        marked = {a - bits for a in seen if bits <= a < bits + (1 << 32) and load(o.mem, a, []) == 1}
        for p in marked:
            if not valid(p):
                bad = f"position {p} is marked as a jump destination; it is not a JUMPDEST that starts an instruction"
        near_proof = 0 < hint[0] <= dest < hint[0] + 32
        if exc and valid(dest) and not near_proof:
            bad = f"the jump to {dest} is refused, which is a JUMPDEST that starts an instruction"
        if exc and (d[ctx + pc] != (0x56 if name.endswith("jump_destination") else 0x57) or name.endswith("jumpi_destination") and not cond):
            bad = "a fault is raised for another instruction"
        if name in ("write_table_if_jumpdest", "verify_non_jumpdest") and valid(dest) and dest not in marked and not near_proof:
            bad = f"the routine returns without marking {dest}, which is a JUMPDEST that starts an instruction"
        if any(a < bits or a >= bits + (1 << 32) for a in seen) and not exc:
            bad = bad or "the routine writes outside the table of jump destinations"
        if bad:
            c = bytes(code).hex()
            return f"routine {name} of the assembled kernel, run on the code {c if len(c) < 400 else c[:80] + '...' + c[-60:]} ({len(code)} bytes)\n" + \
                f"  arguments (top first) {[hex(a) for a in args]}\n  prover inputs {[hex(h) for h in hint]}\n{bad}"
    return None
