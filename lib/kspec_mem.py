"""E03: memory opcodes and the copy loops beneath them."""
import os
import z3
from . import kvc, kbase, kopaque
from .kvc import *
from .kbase import Case, Routine, Spec, Verifier, Kernel, prove, mul_facts
from .kloop import Loop
from .kspec_ops import sys_pre, charge, syscall, done, expand, words, memcost, gas_used, limit
from .kspec_env import EMPTY_HASH, ADDR, access, account, data, next_ctx, finish, stackfree, codefree, code_of, ctx_pre, prune_contract, hash_bytes

TOPA = 1 << 97


def small(a, b, n):
    return And(ULT(a, TOPA), ULT(b, TOPA), ULT(n, 1 << 32))


def copy(mem, dst, src, n):
    """n words from src to dst, all read before the first is written"""
    d = sub(src, dst)

    def upd(a):
        return T(ULT(sub(a, dst), n)), lambda: load(mem, add(a, d), LOADCONDS[0])
    m = mem.bulk(upd)
    m.b = range(dst, dst + n) if all(isinstance(x, int) for x in (dst, n)) and n < 5000 else ()
    return m


def fill(mem, dst, n):
    m = mem.bulk(lambda a: (T(ULT(sub(a, dst), n)), lambda: 0))
    m.b = range(dst, dst + n) if all(isinstance(x, int) for x in (dst, n)) and n < 5000 else ()
    return m


def least(a, b):
    return ite(ULT(a, b), a, b) if not both(a, b) else min(a, b)


def copy_contract(s):
    dst, src, n, ret = s.args
    s.mem = copy(s.mem, dst, src, n)
    s.case("copies", "ret", [])


def forward(k, st, a):
    dst, src, n = a[:3]
    return [("the ranges are in memory", small(dst, src, n)), ("a forward copy does not overwrite what it has yet to read", Or(ULE(dst, src), ULE(add(src, n), dst), ULE(n, 32)))]


def backward(k, st, a):
    dst, src, n = a[:3]
    return [("the ranges are in memory", And(small(dst, src, n), ULE(n, add(dst, 32)), ULE(n, add(src, 32)))), ("a backward copy does not overwrite what it has yet to read", ULE(src, dst))]


def start_of(a, n):
    """the last chunk of n bytes starts at a: where do the bytes start"""
    return sub(add(a, least(n, 32)), n)


def back_contract(s):
    dst, src, n, ret = s.args
    s.mem = copy(s.mem, start_of(dst, n), start_of(src, n), n)
    s.case("copies", "ret", [])


def fill_contract(s):
    dst, n, ret = s.args
    s.mem = fill(s.mem, dst, n)
    s.case("clears", "ret", [])


def contracts(k):
    k.call_contract("memcpy", 4, copy_contract, lambda k, st, a: [("the ranges are in memory", small(*a[:3])), ("a forward copy does not overwrite what it has yet to read", Or(ULE(a[0], a[1]), ULE(add(a[1], a[2]), a[0])))])
    k.call_contract("memcpy_bytes", 4, copy_contract, forward)
    k.call_contract("memcpy_bytes_backwards", 4, back_contract, backward)
    k.call_contract("memset", 3, fill_contract, lambda k, st, a: [("the range is in memory", And(ULT(a[0], TOPA), ULT(a[1], 1 << 32)))])


class Loops:
    """the copy loops, by induction on the number of chunks"""

    def __init__(self, k, name, note):
        self.k, self.name, self.note = k, name, note

    def goal(self, what, conds, goal):
        goal = T(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        s, m = prove(conds, goal)
        self.note(what, s == "ok", "" if s == "ok" else "not proved (the solver gave no answer)" if s == "unknown" else "not valid; counterexample: " + ", ".join(
            f"{d.name()}={m[d]}" for d in m.decls() if d.arity() == 0)[:400])

    def case(self, c):
        k, name = self.k, self.name
        fillp, back = name == "memset", name == "memcpy_bytes_backwards"
        unit = 1 if name == "memcpy" else 32
        zx = lambda n, w: z3.ZeroExt(W - w, z3.BitVec(n, w))
        dst, src, ret, ctx, dist = zx("dst", 97), zx("src", 97), z3.BitVec("retdest", W), z3.BitVec("ctx", W), zx("distance", 97)
        # the number of words: what is left in the i-th iteration and what the earlier ones did
        i, e, l = zx("i", 32), z3.BitVec("any_distance", W), z3.BitVec("left", 32)
        n = norm(add(z3.ZeroExt(W - 32, l), mul(unit, i))) if c != "short" else z3.ZeroExt(W - 32, l)
        # the three ways to fulfil the contract's precondition
        if c == "below":
            src = norm(dst + dist)
        elif c == "apart":
            dst = norm(src + n + dist)
        elif c == "above":
            dst = norm(src + dist)
            base = dst, src
            src, dst = norm(src + n - 32), norm(dst + n - 32)
        mem0 = Mem.fresh("mem0")
        args = [dst, n, ret] if fillp else [dst, src, n, ret]
        st = k.state(args, mem0, ctx)
        st.assume(z3.ULT(ctx, 1 << 96), ctx & ((1 << 64) - 1) == 0)
        st.assume(z3.ULT(n, 1 << 32))
        if c == "short":
            st.assume(z3.ULE(n, 32))
        if back:
            st.assume(*[g for _, g in backward(k, st, args)])
            if c == "above":
                st.assume(z3.UGT(n, 32))
        D, S = (start_of(dst, n), start_of(src, n)) if back else (dst, src)
        if c == "above":
            self.goal("the start of the ranges", st.conds, And(EQ(D, base[0]), EQ(S, base[1])))
            D, S = base
        ends = list(k.ends) + [("ret", ret)]
        left = lambda j: sub(n, mul(unit, j))

        def mem(j):
            d = mul(unit, j)
            if fillp:
                return fill(mem0, D, d)
            if back:
                return copy(mem0, add(D, left(j)), add(S, left(j)), d)
            return copy(mem0, D, S, d)
        place = (lambda j: [ret, left(j), sub(add(S, left(j)), least(left(j), 32)), sub(add(D, left(j)), least(left(j), 32))]) if back else None
        lp = Pointers(k, st, k.label(name), ends, self.note, self.goal, place)
        # where the i-th chunk goes
        at = sub(add(D, left(i)), 32) if back else add(D, mul(unit, i))
        gs = [(add(at, j), []) for j in range(unit)] + [(add(at, e), [z3.UGE(e, unit)])]
        inv = lambda j: {"all chunks but the last are full": Or(EQ(j, 0), And(ULE(mul(unit, j), n), ULT(mul(unit, j), n))) if unit > 1 else ULE(j, n)}
        exits = lp.direct
        if lp.head is None:
            i = 0
            at = D
        else:
            exits = exits + lp.induct(i, [z3.ULT(i, 1 << (27 if unit > 1 else 32))], mem, inv, gs=gs, lazy=True)
        full = fill(mem0, D, n) if fillp else copy(mem0, D, S, n)
        for kd, o in exits:
            self.goal("ends by returning", o.conds, kd == "ret")
            if kd != "ret":
                continue
            self.goal("nothing is left on the stack", [], len(o.stack) == 0)
            cs = o.conds + [T(x) for x in inv(i).values()]
            r = D if back else at
            rest, exact, (verdict, m) = unit, False, check(cs, 20000)
            if verdict == z3.sat:
                v = m.model().eval(bv(left(i)), model_completion=True).as_long()
                exact = v <= unit and prove(cs, EQ(z3.ZeroExt(W - 32, l), v))[0] == "ok"
                rest = v if exact else unit
            hs = cs + [T(ULT(rest - 1, left(i)))] if rest else cs
            if exact:
                # the path proves what is left: write it so
                known = lambda f: z3.simplify(z3.substitute(f, (l, z3.BitVecVal(rest, 32))))
            else:
                known = lambda f: f
            goal = lambda what, hs, f: self.goal(what, [known(T(h)) for h in hs], known(T(f)))
            goal("the bytes are copied" if not fillp else "the bytes are cleared", hs,
                      z3.And([T(EQ(load(o.mem, add(r, j), hs, True), load(full, add(r, j), hs, True))) for j in range(rest)]))
            g = add(r, e)
            hs = cs + [z3.UGE(e, bv(left(i)))]
            goal("memory: nothing else changes", hs, EQ(load(o.mem, g, hs, True), load(full, g, hs, True)))


class Pointers(Loop):
    """a loop at whose head the routine starts"""
    def __init__(self, k, st, entry, ends, note, goal, place):
        self.place = place
        super().__init__(k, st, entry, ends, note, goal)

    def at(self, j):
        return self.place(j) if self.place else super().at(j)

    def find(self):
        stop = {self.entry: lambda ex, s: [("head", s)]}
        outs = self.exec(loops=stop, havoc=True).run(self.st, self.entry)
        back = [s for kd, s in outs if kd == "head"]
        if back:
            s = self.st.copy()
            s.pc = self.head = self.entry
            self.first, self.direct, self.slots, self.stop = [s], [], s.stack, stop
            if any(len(b.stack) != len(s.stack) for b in back):
                raise Stuck("the stack height at the loop head varies")
            if not self.place:
                self.steps = [sub(b, a) for a, b in zip(s.stack, back[0].stack)]
                if not all(isinstance(d, int) for d in self.steps):
                    raise Stuck("a word on the stack at the loop head is not affine in the iteration number")
            return
        try:
            super().find()
        except Stuck as e:
            if "0 loops" not in str(e):
                raise
            self.head, self.stop, self.direct, self.first = None, {}, self.exec().run(self.st, self.entry), []


# ---------------------------------------------------------------- opcodes
def mem_pre(k, st, args):
    mw = load(st.mem, k.field("CTX_METADATA_MEM_WORDS", st.ctx), st.conds)
    return sys_pre(k, st, args) + [("the gas used covers the active memory", And(ULT(mw, 1 << 31), ULE(memcost(mw), gas_used(args[0]))))]


def main(s, off):
    return add(add(s.k.c["SEGMENT_MAIN_MEMORY"], s.ctx), off)


def load_bytes_spec(s, a, n):
    t = s.st.copy()
    t.mem, t.conds = s.mem, list(s.path)
    v = load_bytes(t, a, n)
    s.conds += t.conds[len(s.path):]
    return v


def mload(s, off):
    expand(s, (off, 32))
    done(s, load_bytes_spec(s, main(s, off), 32))


def mstore(s, off, v):
    expand(s, (off, 32))
    s.mem = store_bytes(s.mem, main(s, off), v, 32)
    done(s)


def mstore8(s, off, v):
    expand(s, (off, 1))
    s.store(main(s, off), and_(v, 255))
    done(s)


def calldataload(s, i):
    n = s.load(s.k.field("CTX_METADATA_CALLDATA_SIZE", s.ctx))
    base = add(s.k.c["SEGMENT_CALLDATA"], s.ctx)
    parts = []
    for j in range(32):
        x = s.load(add(base, add(i, j)))
        parts.append(z3.If(T(And(ULT(i, n), ULT(add(i, j), n))), z3.Extract(7, 0, bv(x)), z3.BitVecVal(0, 8)))
    done(s, norm(z3.Concat(*parts)))


def zero_behind(sizefield, segment, idx):
    """the words of a segment behind the size are zero"""
    def pre(k, st, args):
        n = load(st.mem, k.field(sizefield, st.ctx), st.conds)
        out = [("sizes are below 2^31", ULT(n, 1 << 31))]
        for i in idx(k, st, args):
            x = load(st.mem, add(add(k.c[segment], st.ctx), i), st.conds)
            out.append((f"the data is followed by zeros", Or(ULT(i, n), Not(ULT(i, 1 << 32)), EQ(x, 0))))
            out.append((f"the data consists of bytes", ULT(x, 256)))
        return mem_pre(k, st, args) + out
    return pre


def wcopy(segment, sizefield, strict=False, code=False):
    def body(s, dest, off, size):
        total = s.load(s.k.field(sizefield, s.ctx))
        if strict:
            end = add(off, size)
            s.fault_if(Or(ULT(end, off), Not(ULE(end, total))), "reads behind the return data")
        s.branch(EQ(size, 0), empty, lambda t: full(t, dest, off, size, total))

    def empty(s):
        charge(s, 3)
        done(s)

    def full(s, dest, off, size, total):
        charge(s, add(3, mul(3, words(size))))
        expand(s, (dest, size))
        put(s, dest, off, size, total, add(s.k.c[segment], s.ctx))
        done(s)
    return body


def put(s, dest, off, size, total, src):
    """bytes off.. of a data of the given size, zeros behind it"""
    at, mem = main(s, dest), s.mem

    def upd(a):
        i = add(off, sub(a, at))
        return T(ULT(sub(a, at), size)), lambda: ite(And(ULE(off, i), ULT(i, total)), load(mem, add(src, i), LOADCONDS[0]), 0)
    s.mem = mem.bulk(upd)
    s.mem.b = range(at, at + size) if both(at, size) and size < 5000 else ()


def mcopy(s, dest, off, size):
    def empty(s):
        charge(s, 3)
        done(s)

    def full(s):
        charge(s, add(3, mul(3, words(size))))
        expand(s, (dest, size))
        expand(s, (off, size))
        s.mem = copy(s.mem, main(s, dest), main(s, off), size)
        done(s)
    s.branch(EQ(size, 0), empty, full)


def extcodecopy(s, a, dest, off, size):
    a = and_(a, ADDR)
    cold = kopaque.call(s, "insert_accessed_addresses", a)
    price = add(100, mul(cold, 2500))

    def empty(t):
        charge(t, price)
        done(t)

    def full(t):
        charge(t, add(price, mul(3, words(size))))
        expand(t, (dest, size))
        new = next_ctx(t)
        p = account(t, a)
        fr = [stackfree([t.ctx, new]), codefree(new)]
        n = z3.BitVec("code_size", W)
        h = data(t, p, 3)

        def zeros(u):
            at = main(u, dest)
            u.mem = fill(u.mem, at, size)
            finish(u, free=fr)

        def code(u):
            put(u, dest, off, size, n, new)
            kx = u.kx
            u.case("copies the code", "exit", [kx], free=kopaque_free(fr), goals=[("the code has the hash of the account", code_of(lambda st: n, new, h))])
        nocode = Or(isz(p), isz(h))
        t.branch(nocode, zeros, code)
    s.branch(EQ(size, 0), empty, full)


def kopaque_free(fr):
    from .kspec_env import free_scratch
    return free_scratch(fr)


def mem_sample(*rest):
    """offsets and sizes that can be paid for"""
    def sample(rng, k, args, lazy, ctx):
        near = lambda: rng.choice((0, 1, 31, 32, 33, 63, 64, 65, 100, rng.randrange(300), rng.randrange(3000)))
        lazy[k.c["CTX_METADATA_GAS_LIMIT"] + ctx] = 10 ** 7
        mw = rng.randrange(40)
        lazy[k.c["CTX_METADATA_MEM_WORDS"] + ctx] = mw
        for f in ("CALLDATA", "RETURNDATA", "CODE"):
            lazy[k.c[f"CTX_METADATA_{f}_SIZE"] + ctx] = near()
        args[0] = (rng.randrange(3 * mw + mw * mw // 512, 20000) << 192) + rng.getrandbits(40)
        for j in range(1, len(args)):
            if rng.random() < .9 and j in rest:
                args[j] = near()
        pick = lazy.pick

        def bytes_(a):
            sgm, virt, c = (a >> 32) & 0xffffffff, a & 0xffffffff, a >> 64 << 64
            for name, f in (("SEGMENT_CALLDATA", "CALLDATA"), ("SEGMENT_RETURNDATA", "RETURNDATA"), ("SEGMENT_CODE", "CODE"), ("SEGMENT_MAIN_MEMORY", None)):
                if sgm == k.c[name] >> 32:
                    n = lazy.get(k.c[f"CTX_METADATA_{f}_SIZE"] + c) if f else 1 << 32
                    return rng.randrange(256) if virt < n else 0
            return pick(a)
        lazy.pick = bytes_
        return args, lazy, ctx
    return sample


def e03(k):
    idx1 = lambda k, st, a: [add(a[1], j) for j in range(32)]
    g = z3.BitVec("any_address", W)
    idx3 = lambda k, st, a: [add(a[2], sub(g, add(add(k.c["SEGMENT_MAIN_MEMORY"], st.ctx), a[1])))]
    m, m1, m2, m3 = mem_sample(), mem_sample(1), mem_sample(1, 2), mem_sample(1, 2, 3)
    cp = dict(sample=m3)
    loops = ["memcpy_bytes", "memcpy_bytes_backwards", "memset"]

    def size_pre(f):
        return lambda k, st, a: mem_pre(k, st, a) + [("sizes are below 2^31", ULT(load(st.mem, k.field(f, st.ctx), st.conds), 1 << 31))]
    return [syscall("mload", ["offset"], mload, cost=3, pre=mem_pre, sample=m1), syscall("mstore", ["offset", "value"], mstore, cost=3, pre=mem_pre, sample=m1),
            syscall("mstore8", ["offset", "value"], mstore8, cost=3, pre=mem_pre, sample=m1),
            syscall("calldataload", ["i"], calldataload, cost=3, pre=zero_behind("CTX_METADATA_CALLDATA_SIZE", "SEGMENT_CALLDATA", idx1), sample=m1),
            syscall("calldatacopy", ["dest", "offset", "size"], wcopy("SEGMENT_CALLDATA", "CTX_METADATA_CALLDATA_SIZE"), pre=zero_behind("CTX_METADATA_CALLDATA_SIZE", "SEGMENT_CALLDATA", idx3), use=loops, **cp),
            syscall("returndatacopy", ["dest", "offset", "size"], wcopy("SEGMENT_RETURNDATA", "CTX_METADATA_RETURNDATA_SIZE", strict=True), pre=size_pre("CTX_METADATA_RETURNDATA_SIZE"), use=loops, **cp),
            syscall("codecopy", ["dest", "offset", "size"], wcopy("SEGMENT_CODE", "CTX_METADATA_CODE_SIZE"), pre=size_pre("CTX_METADATA_CODE_SIZE"), use=loops, **cp),
            syscall("mcopy", ["dest", "offset", "size"], mcopy, pre=mem_pre, use=loops, **cp),
            syscall("extcodecopy", ["address", "dest", "offset", "size"], extcodecopy, pre=lambda k, st, a: mem_pre(k, st, a) + ctx_pre(k, st, a) + [("code sizes are below 2^31", ULT(z3.BitVec("code_size", W), 1 << 31))],
                    use=loops + ["insert_accessed_addresses", "search_account", "prune_context"], hint=lambda ex, s, pc: z3.BitVec("code_size", W), may_panic=True)]


class MemSpec:
    LOOPS = [("memcpy", "below"), ("memcpy", "apart"), ("memcpy_bytes", "below"), ("memcpy_bytes", "apart"), ("memcpy_bytes", "short"), ("memcpy_bytes_backwards", "above"), ("memcpy_bytes_backwards", "short"), ("memset", None)]

    def __init__(self, dump):
        self.k = Kernel(dump)
        kopaque.lists(self.k)
        prune_contract(self.k)
        contracts(self.k)
        self.rs = e03(self.k)

    SLOW = ("sys_mcopy", "sys_codecopy", "sys_extcodecopy", ("memcpy_bytes", "apart"), ("memcpy_bytes_backwards", "above"))      # decided in the thorough tier only

    def tasks(self):
        deep = os.environ.get("VERIF_TIER") == "thorough"
        rs = [i for i, r in enumerate(self.rs) if deep or r.name not in self.SLOW]
        loops = [n for n in self.LOOPS if deep or n not in self.SLOW]
        return [("E03", "loop", n) for n in reversed(loops)] + [("E03", "routine", (i,)) for i in reversed(rs)]

    def routine(self, i):
        Verifier(self.k, self.r, "E03").verify(self.rs[i])

    def loop(self, name, case):
        items = {}

        def note(what, ok, detail=""):
            a = items.setdefault(what, [True, ""])
            if not ok and a[0]:
                a[0], a[1] = False, detail
        try:
            Loops(self.k, name, note).case(case)
        except Stuck as e:
            note("the code stays within the form that its contract describes", False, str(e))
        for what, (ok, d) in items.items():
            self.r.add("E03", name + {"below": " (to a lower address)", "apart": " (to a later range)", "short": " (at most 32 bytes)"}.get(case, ""), what, ok, d)
