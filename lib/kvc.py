"""kvc: contract verification of the assembled kernel bytecode.

The program verified is the byte string that the repository's assembler produces from the working tree's
kernel assembly (build/dump/kernel.json).  Its instructions have the semantics that the CPU contract (C01..C08, A01..A04,
L01, B01, M01, K02) establishes for the table rows.  A routine is executed symbolically from an arbitrary state that
satisfies its precondition; a jump to a routine that has a contract applies the contract; a loop is cut at its head by an
invariant; every path that reaches the end of the routine gives obligations, discharged by z3 over 256-bit vectors."""
import itertools, json, os, time
import z3

W = 256
MASK = (1 << W) - 1
P254 = 0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47
CTXU = 1 << 64
BV = z3.BitVecSort(W)
SHORT, LONG = 2000, 60000


class Stuck(Exception):
    pass


# ---------------------------------------------------------------- values
class B:
    """a word known to be 0 or 1"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


def bv(x):
    if isinstance(x, int):
        return z3.BitVecVal(x & MASK, W)
    if isinstance(x, B):
        return z3.If(x.c, z3.BitVecVal(1, W), z3.BitVecVal(0, W))
    return x


def mkb(c):
    if isinstance(c, bool):
        return int(c)
    c = z3.simplify(c)
    if z3.is_true(c):
        return 1
    if z3.is_false(c):
        return 0
    return B(c)


def norm(e):
    if isinstance(e, (int, B)):
        return e
    e = z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else e


def isz(x):
    """the z3 (or Python) truth value of x == 0"""
    if isinstance(x, int):
        return x == 0
    if isinstance(x, B):
        return z3.Not(x.c)
    return x == 0


def nz(x):
    if isinstance(x, int):
        return x != 0
    if isinstance(x, B):
        return x.c
    return x != 0


def both(a, b):
    return isinstance(a, int) and isinstance(b, int)


def add(a, b):
    if both(a, b):
        return (a + b) & MASK
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) or isinstance(b, int):
        x = lift(add, a, b)
        if x is not None:
            return x
    return norm(bv(a) + bv(b))


def sub(a, b):
    if both(a, b):
        return (a - b) & MASK
    if isinstance(b, int) and b == 0:
        return a
    return norm(bv(a) - bv(b))


UF = {}


def uf(name, *args):
    k = (name, len(args))
    if k not in UF:
        UF[k] = z3.Function(name, *([BV] * (len(args) + 1)))
    return UF[k](*[bv(a) for a in args])


REALMUL = False   # True while a routine is verified with the exact product


def mul(a, b):
    if both(a, b):
        return (a * b) & MASK
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int):
            if x == 0:
                return 0
            if x == 1:
                return y
            return norm(bv(x) * bv(y))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, B):
            if isinstance(y, B):
                return mkb(z3.And(x.c, y.c))
            return norm(z3.If(x.c, bv(y), z3.BitVecVal(0, W)))
    if REALMUL:
        return norm(a * b)
    x = lift(mul, a, b)
    if x is not None:
        return x
    a, b = sorted((z3.simplify(a), z3.simplify(b)), key=lambda t: t.get_id())
    return uf("mul", a, b)


def lift(f, a, b):
    """distributes a binary operation over an if-then-else argument"""
    for i, x in ((0, a), (1, b)):
        if z3.is_expr(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
            c, u, v = x.children()
            u, v = norm(u), norm(v)
            return ite(c, f(u, b) if i == 0 else f(a, u), f(v, b) if i == 0 else f(a, v))
    return None


def div(a, b):
    if both(a, b):
        return a // b if b else 0
    x = None if REALMUL else lift(div, a, b)
    if x is not None:
        return x
    if isinstance(b, int):
        if b == 0:
            return 0
        if b & (b - 1) == 0:
            return norm(z3.LShR(bv(a), b.bit_length() - 1))
        if REALMUL:
            return norm(z3.UDiv(bv(a), bv(b)))
        return uf("udiv", a, b)
    q = z3.UDiv(bv(a), bv(b)) if REALMUL else uf("udiv", a, b)
    return norm(z3.If(bv(b) == 0, z3.BitVecVal(0, W), q))


def mod(a, b):
    if both(a, b):
        return a % b if b else 0
    x = None if REALMUL else lift(mod, a, b)
    if x is not None:
        return x
    if isinstance(b, int):
        if b == 0:
            return 0
        if b & (b - 1) == 0:
            return and_(a, b - 1)
        if REALMUL:
            return norm(z3.URem(bv(a), bv(b)))
        return uf("umod", a, b)
    r = z3.URem(bv(a), bv(b)) if REALMUL else uf("umod", a, b)
    return norm(z3.If(bv(b) == 0, z3.BitVecVal(0, W), r))


def lt(a, b):
    return int(a < b) if both(a, b) else mkb(z3.ULT(bv(a), bv(b)))


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return int(a == b) if both(a, b) else mkb(bv(a) == bv(b))


def iszero(a):
    return mkb(isz(a))


def and_(a, b):
    if both(a, b):
        return a & b
    if isinstance(a, B) and isinstance(b, B):
        return mkb(z3.And(a.c, b.c))
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int) and y == 1:
            return x if isinstance(x, B) else mkb(z3.Extract(0, 0, x) == 1)
    return norm(bv(a) & bv(b))


def or_(a, b):
    if both(a, b):
        return a | b
    if isinstance(a, B) and isinstance(b, B):
        return mkb(z3.Or(a.c, b.c))
    return norm(bv(a) | bv(b))


def xor(a, b):
    return a ^ b if both(a, b) else norm(bv(a) ^ bv(b))


def not_(a):
    return a ^ MASK if isinstance(a, int) else norm(~bv(a))


def shl(s, x):
    if both(s, x):
        return (x << s) & MASK if s < 256 else 0
    return norm(bv(x) << bv(s))


def shr(s, x):
    if both(s, x):
        return x >> s if s < 256 else 0
    return norm(z3.LShR(bv(x), bv(s)))


def byte(i, x):
    if both(i, x):
        return x >> (8 * (31 - i)) & 255 if i < 32 else 0
    if isinstance(i, int):
        return and_(shr(8 * (31 - i), x), 255) if i < 32 else 0
    return norm(z3.If(z3.ULT(bv(i), 32), z3.LShR(bv(x), (31 - bv(i)) * 8) & 255, z3.BitVecVal(0, W)))


def addmod(a, b, m):
    if both(a, b) and isinstance(m, int):
        return (a + b) % m if m else 0
    return uf("addmod", a, b, m)


def mulmod(a, b, m):
    if both(a, b) and isinstance(m, int):
        return (a * b) % m if m else 0
    return uf("mulmod", a, b, m)


def submod(a, b, m):
    if both(a, b) and isinstance(m, int):
        return (a - b) % m if m else 0
    return uf("submod", a, b, m)


def fp(op):
    def f(a, b):
        if both(a, b):
            return {"fpadd": a + b, "fpsub": a - b, "fpmul": a * b}[op] % P254
        return uf(op, a, b)
    return f


def ite(c, a, b):
    """c: a truth value (Python bool or z3)"""
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if both(a, b) and a == b:
        return a
    return norm(z3.If(c, bv(a), bv(b)))


def T(c):
    """a word's truth value -> z3 Bool"""
    c = nz(c) if isinstance(c, (int, B)) or z3.is_bv(c) else c
    return z3.BoolVal(c) if isinstance(c, bool) else c


def And(*cs):
    return z3.And(*[T(c) for c in cs])


def Or(*cs):
    return z3.Or(*[T(c) for c in cs])


def Not(c):
    return z3.Not(T(c))


def ULE(a, b):
    return a <= b if both(a, b) else z3.ULE(bv(a), bv(b))


def ULT(a, b):
    return a < b if both(a, b) else z3.ULT(bv(a), bv(b))


def EQ(a, b):
    return a == b if both(a, b) else bv(a) == bv(b)


BIN = {0x01: add, 0x02: mul, 0x03: sub, 0x04: div, 0x06: mod, 0x0c: fp("fpadd"), 0x0d: fp("fpmul"), 0x0e: fp("fpsub"),
       0x10: lt, 0x11: gt, 0x14: eq, 0x16: and_, 0x17: or_, 0x18: xor, 0x1a: byte, 0x1b: shl, 0x1c: shr}
TER = {0x08: addmod, 0x09: mulmod, 0x0f: submod}
UN = {0x15: iszero, 0x19: not_}


# ---------------------------------------------------------------- memory
class Mem:
    """a memory: a base function and a list of updates; addresses are words ctx*2^64 + segment*2^32 + offset"""
    __slots__ = ("prev", "kind", "a", "b", "_h")

    def __init__(self, prev, kind, a, b=None):
        self.prev, self.kind, self.a, self.b = prev, kind, a, b

    @staticmethod
    def fresh(name):
        return Mem(None, "base", z3.Function(name, BV, BV))

    @staticmethod
    def concrete(d, default=0):
        return Mem(None, "dict", d, default)

    def store(self, a, v):
        return Mem(self, "st", a, v)

    def bulk(self, f):
        """f(address) -> (condition, value)"""
        return Mem(self, "bulk", f)


class State:
    __slots__ = ("pc", "stack", "base", "mem", "ctx", "conds", "ghost", "trail", "inputs")

    def copy(self):
        s = State()
        s.pc, s.stack, s.base, s.mem, s.ctx = self.pc, list(self.stack), self.base, self.mem, self.ctx
        s.conds, s.ghost, s.trail, s.inputs = list(self.conds), dict(self.ghost), list(self.trail), list(self.inputs)
        return s

    def assume(self, *cs):
        for c in cs:
            c = T(c)
            if not z3.is_true(c):
                self.conds.append(c)
        return self


def check(conds, timeout):
    s = z3.SolverFor("QF_UFBV") if False else z3.Solver()
    s.set("timeout", timeout)
    s.add(*conds)
    r = s.check()
    return r, s


_dcache = {}


TOP = (0, MASK)
_bcache = {}


def bounds_of(conds):
    """upper bounds of terms that the path condition states: {term id: bound}"""
    k = tuple(c.get_id() for c in conds)
    if k in _bcache:
        return _bcache[k][0]
    ub, later = {}, []

    def put(t, hi):
        i = t.get_id()
        if hi < ub.get(i, (MASK + 1,))[0]:
            ub[i] = (hi, t)
            return True

    def atom(c):
        n = c.decl().kind()
        if n == z3.Z3_OP_AND:
            for x in c.children():
                atom(x)
        elif n in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ):
            later.append((c.arg(0), c.arg(1), n == z3.Z3_OP_ULT))
        elif n in (z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
            later.append((c.arg(1), c.arg(0), n == z3.Z3_OP_UGT))
        elif n == z3.Z3_OP_NOT:
            x = c.arg(0)
            m = x.decl().kind()
            if m in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ):
                later.append((x.arg(1), x.arg(0), m == z3.Z3_OP_ULEQ))
            elif m in (z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
                later.append((x.arg(0), x.arg(1), m == z3.Z3_OP_UGEQ))
    for c in conds:
        atom(c)
    for _ in range(3):
        ch = False
        for a, b, strict in later:
            if a.size() != W:
                continue
            hi = interval(b, ub)[1] - (1 if strict else 0)
            if hi >= 0:
                ch = put(a, hi) or ch
        if not ch:
            break
    _bcache[k] = (ub, list(conds))
    return ub


def interval(t, ub, depth=12):
    """a range that contains the value of the term"""
    if isinstance(t, int):
        return (t, t)
    if isinstance(t, B):
        return (0, 1)
    if z3.is_bv_value(t):
        v = t.as_long()
        return (v, v)
    r = TOP
    n = t.decl().kind()
    if depth and t.size() == W:
        if n == z3.Z3_OP_BADD:
            lo = hi = 0
            for x in t.children():
                a, b = interval(x, ub, depth - 1)
                lo, hi = lo + a, hi + b
            if hi <= MASK:
                r = (lo, hi)
        elif n == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            c = t.arg(0).as_long()
            a, b = interval(t.arg(1), ub, depth - 1)
            if c * b <= MASK:
                r = (c * a, c * b)
        elif n == z3.Z3_OP_ITE:
            a, b = interval(t.arg(1), ub, depth - 1), interval(t.arg(2), ub, depth - 1)
            r = (min(a[0], b[0]), max(a[1], b[1]))
        elif n == z3.Z3_OP_CONCAT:
            x = t.arg(0)
            z = 0
            for x in t.children():
                if z3.is_bv_value(x) and x.as_long() == 0:
                    z += x.size()
                else:
                    break
            r = (0, (1 << (W - z)) - 1)
    u = ub.get(t.get_id())
    if u and u[0] < r[1]:
        r = (min(r[0], u[0]), u[0])
    return r


def linear(e):
    """e as (constant, {term id: (coefficient, term)}) modulo 2^256"""
    if isinstance(e, int):
        return e, {}
    c, d = 0, {}
    for x in (e.children() if z3.is_app_of(e, z3.Z3_OP_BADD) else [e]):
        k = 1
        if z3.is_bv_value(x):
            c += x.as_long()
            continue
        if z3.is_app_of(x, z3.Z3_OP_BMUL) and x.num_args() == 2 and z3.is_bv_value(x.arg(0)):
            k, x = x.arg(0).as_long(), x.arg(1)
        d[x.get_id()] = ((d.get(x.get_id(), (0,))[0] + k) & MASK, x)
    return c & MASK, d


def solve(st, c):
    """when the path condition c determines a word read from memory, writes it on the stack in the solved form"""
    if not z3.is_eq(c) or not z3.is_bv(c.arg(0)) or c.arg(0).size() != W:
        return
    k, d = linear(norm(c.arg(0) - c.arg(1)))
    for i, (f, t) in d.items():
        if f & 1 and z3.is_app(t) and t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if any(i != j and has(u, t) for j, (_, u) in d.items()) or has(t.arg(0), t):
                continue
            v = -pow(f, -1, 1 << W)
            r = z3.BitVecVal(k * v & MASK, W)
            for j, (g, u) in d.items():
                if j != i:
                    r = r + u * z3.BitVecVal(g * v & MASK, W)
            r = norm(r)
            st.stack = [norm(z3.substitute(x, (t, bv(r)))) if z3.is_expr(x) else x for x in st.stack]
            return


def has(e, t):
    seen, todo, i = set(), [e], t.get_id()
    while todo:
        x = todo.pop()
        if x.get_id() == i:
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return False


def relation(a, b, conds, quick=False):
    """'eq' / 'ne' / None for two addresses under the path condition"""
    if both(a, b):
        return "eq" if a == b else "ne"
    d = norm(bv(a) - bv(b))
    if isinstance(d, int):
        return "eq" if d == 0 else "ne"
    if quick:
        return None
    k = (d.get_id(), tuple(c.get_id() for c in conds))
    if k in _dcache:
        return _dcache[k][0]
    ub = bounds_of(conds)
    (al, ah), (bl, bh) = interval(a, ub), interval(b, ub)
    if ah < bl or bh < al:
        _dcache[k] = ("ne", d, list(conds))
        return "ne"
    r = None
    vs = vars_of(d)
    rel = [c for c in conds if vars_of(c) & vs]
    if check(rel + [d == 0], 600)[0] == z3.unsat:
        r = "ne"
    elif check(rel + [d != 0], 600)[0] == z3.unsat:
        r = "eq"
    elif len(rel) < len(conds):
        if check(list(conds) + [d == 0], 600)[0] == z3.unsat:
            r = "ne"
    _dcache[k] = (r, d, list(conds))
    return r


LOADCONDS = [()]


def inside(a, lo, hi):
    """the condition lo <= a < hi; False when the bounds known on the path refute it"""
    if isinstance(a, int):
        return lo <= a < hi
    x, y = interval(a, bounds_of(LOADCONDS[0]))
    if y < lo or x >= hi:
        return False
    return And(Not(ULT(a, lo)), ULT(a, hi))


_vcache = {}


def vars_of(e):
    k = e.get_id()
    if k in _vcache:
        return _vcache[k][0]
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    _vcache[k] = (out, e)
    return out


def load(mem, a, conds, lazy=False):
    """the value of a memory at an address (lazy: without deciding which part of the memory it lies in)"""
    m, acc = mem, []
    val = None
    while True:
        if m.kind == "st":
            r = relation(a, m.a, conds, lazy)
            if r == "eq":
                val = m.b
                break
            if r is None:
                acc.append((bv(a) == bv(m.a), m.b))
        elif m.kind == "bulk":
            LOADCONDS[0] = conds
            c, v = m.a(a)
            c = T(c)
            c = z3.simplify(c)
            if z3.is_true(c):
                val = v()
                break
            if not z3.is_false(c):
                u = check(list(conds) + [c], 400)[0] if not lazy else None
                if u != z3.unsat:
                    acc.append((c, v()))
        elif m.kind == "base":
            val = norm(m.a(bv(a)))
            break
        elif m.kind == "dict":
            if not isinstance(a, int):
                raise Stuck("symbolic address in a concrete run")
            val = m.a.get(a, m.b)
            break
        m = m.prev
    for c, v in reversed(acc):
        val = ite(c, v, val)
    return val


# ---------------------------------------------------------------- the program
class Prog:
    def __init__(self, path):
        k = json.load(open(path))
        self.code = bytes.fromhex(k["code"])
        self.labels = k["labels"]
        self.const = {n: int(v, 16) for n, v in k["constants"].items()}
        self.inputs = {int(o): f for o, f in k["prover_inputs"].items()}
        self.names = {v: n for n, v in sorted(self.labels.items(), reverse=True)}

    def where(self, pc):
        c = [v for v in self.names if v <= pc]
        return f"{self.names[max(c)]}+{pc - max(c)}" if c else str(pc)


_fresh = itertools.count()


def fresh(name="v"):
    return z3.BitVec(f"{name}!{next(_fresh)}", W)


class Exec:
    """symbolic execution of one routine.  contracts: pc -> f(ex, state) -> list of (kind, state)."""

    def __init__(self, prog, contracts, ends=(), loops=None, max_steps=400000, max_paths=4000, assume_bytes=True, hint=None, entry_is_call=True):
        self.p, self.contracts, self.ends = prog, contracts, list(ends)
        self.loops = loops or {}
        self.max_steps, self.max_paths = max_steps, max_paths
        self.steps = 0
        self.hint = hint
        self.obl = []          # (what, conds, goal)
        self.queries = 0
        self.entry = None
        self.havoc = False     # a load from an address that nothing bounds gives any value
        self.track = False     # end a path with "head" at its second jump to the same place

    # -- outcome collection
    def run(self, st, pc):
        st = st.copy()
        st.pc = pc
        self.entry = pc
        out, work = [], [(st, True)]
        n = 0
        while work:
            s, first = work.pop()
            res = self.path(s, first)
            for kind, s2 in res:
                if kind == "go":
                    work.append((s2, False))
                else:
                    out.append((kind, s2))
                    n += 1
                    if n > self.max_paths:
                        raise Stuck("too many paths")
        return out

    def feasible(self, st, c):
        c = T(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.queries += 1
        return check(st.conds + [c], SHORT)[0] != z3.unsat

    def require(self, st, what, goal):
        """an obligation on the path (a callee's precondition, memory discipline)"""
        self.obl.append((what, list(st.conds), T(goal)))

    def pop(self, st):
        if st.stack:
            return st.stack.pop()
        if st.base is None:
            raise Stuck("the routine reads below its arguments")
        # the stack below is in the stack segment of the context's memory
        st.base = sub(st.base, 1)
        return load(st.mem, add(add(st.ctx, self.p.const["SEGMENT_STACK"]), st.base), st.conds)

    def need(self, st, n):
        while len(st.stack) < n:
            x = self.pop_base(st)
            st.stack.insert(0, x)

    def pop_base(self, st):
        if st.base is None:
            raise Stuck("the routine reads below its arguments")
        st.base = sub(st.base, 1)
        return load(st.mem, add(add(st.ctx, self.p.const["SEGMENT_STACK"]), st.base), st.conds)

    def fork(self, st, x, limit=40, what="value"):
        """enumerate the possible values of x"""
        if isinstance(x, int):
            return [(x, st)]
        out, s = [], z3.Solver()
        s.set("timeout", 5000)
        s.add(*st.conds)
        x = bv(x)
        while True:
            r = s.check()
            if r == z3.unsat:
                return out
            if r != z3.sat or len(out) > limit:
                raise Stuck(f"unbounded {what} at {self.p.where(st.pc)}: {z3.simplify(x).sexpr()[:200]}")
            v = s.model().eval(x, model_completion=True).as_long()
            t = st.copy()
            t.assume(x == v)
            out.append((v, t))
            s.add(x != v)

    def path(self, st, first):
        """runs until the path forks or ends; returns [(kind, state)]"""
        code = self.p.code
        while True:
            pc = st.pc
            if not first:
                for k, e in self.ends:
                    if e == pc:
                        return [(k, st)]
                if pc in self.loops:
                    return self.loops[pc](self, st)
                if pc in self.contracts:
                    return self.contracts[pc](self, st)
            first = False
            self.steps += 1
            if self.steps > self.max_steps:
                raise Stuck("too many steps")
            if pc >= len(code):
                return [("panic", st)]
            op = code[pc]
            stack = st.stack
            st.pc = pc + 1
            if 0x5f <= op <= 0x7f:
                n = op - 0x5f
                stack.append(int.from_bytes(code[pc + 1:pc + 1 + n], "big"))
                st.pc = pc + 1 + n
            elif 0x80 <= op <= 0x8f:
                self.need(st, op - 0x7f)
                st.stack.append(st.stack[-(op - 0x7f)])
            elif 0x90 <= op <= 0x9f:
                n = op - 0x8f
                self.need(st, n + 1)
                s = st.stack
                s[-1], s[-1 - n] = s[-1 - n], s[-1]
            elif op in BIN:
                a, b = self.pop(st), self.pop(st)
                st.stack.append(BIN[op](a, b))
            elif op in UN:
                st.stack.append(UN[op](self.pop(st)))
            elif op in TER:
                a, b, c = self.pop(st), self.pop(st), self.pop(st)
                st.stack.append(TER[op](a, b, c))
            elif op == 0x50:
                self.pop(st)
            elif op == 0x5b:
                pass
            elif op == 0x58:
                st.stack.append(pc)
            elif op == 0x56:
                d = self.pop(st)
                return self.jump(st, d)
            elif op == 0x57:
                d, c = self.pop(st), self.pop(st)
                c = z3.simplify(T(nz(c)))
                yes, no = self.feasible(st, c), self.feasible(st, z3.Not(c))
                if yes and no:
                    t = st.copy().assume(c)
                    st.assume(z3.Not(c))
                    solve(t, c)
                    solve(st, z3.simplify(z3.Not(c)))
                    return self.jump(t, d) + [("go", st)]
                if yes:
                    return self.jump(st, d)
            elif op == 0xfb:
                a = self.pop(st)
                if self.havoc and not isinstance(a, int) and interval(a, bounds_of(st.conds)) == TOP:
                    st.stack.append(fresh("any"))
                else:
                    st.stack.append(load(st.mem, a, st.conds))
            elif op == 0xfc:
                v, a = self.pop(st), self.pop(st)
                st.mem = st.mem.store(a, v)
            elif 0xc0 <= op <= 0xdf:
                n = op - 0xbf
                a, v = self.pop(st), self.pop(st)
                st.mem = store_bytes(st.mem, a, v, n)
                st.stack.append(add(a, n))
            elif op == 0xf8:
                a, n = self.pop(st), self.pop(st)
                if isinstance(n, int):
                    st.stack.append(load_bytes(st, a, n))
                else:
                    out = []
                    for v, t in self.fork(st, n, what="length"):
                        t.stack.append(load_bytes(t, a, v))
                        out.append(("go", t))
                    return out
            elif op == 0xf6:
                st.stack.append(st.ctx)
            elif op == 0xf7:
                self.set_context(st, self.pop(st))
            elif op == 0xee:
                x = self.hint(self, st, pc) if self.hint else fresh("hint")
                st.inputs.append((pc, x))
                st.stack.append(x)
            elif op == 0x21:
                a, n = self.pop(st), self.pop(st)
                st.stack.append(keccak(st, a, n))
            elif op == 0xf9:
                return [("exit", st)]
            elif op == 0xa5:
                return [("panic", st)]
            else:
                raise Stuck(f"instruction {op:#x} at {self.p.where(pc)}")

    def jump(self, st, d):
        if isinstance(d, B):
            d = bv(d)
        if isinstance(d, int):
            here, st.pc = st.pc, d
            if self.track:
                if self.track != "back" or here is None or d < here:
                    if d in st.trail:
                        return [("head", st)]
                    st.trail = st.trail + [d]
            return [("go", st)]
        for k, e in self.ends:
            if not isinstance(e, int) and relation(d, e, []) == "eq":
                st.pc = None
                return [(k, st)]
        out = []
        for v, t in self.fork(st, d, what="jump target"):
            t.pc = v
            out.append(("go", t))
        return out

    def set_context(self, st, x):
        """saves the stack of the current context, moves to another one (whose stack is in memory)"""
        c = self.p.const
        prune = 0
        st.ghost["setctx"] = st.ghost.get("setctx", ()) + (x,)
        base = st.base
        if base is None:
            base = st.ghost.get("base")
            if base is None:
                base = st.ghost["base"] = z3.BitVec("stack_below", W)
        size = add(base, len(st.stack))
        here = add(st.ctx, c["CTX_METADATA_STACK_SIZE"])
        st.mem = st.mem.store(here, size)
        new = x
        if relation(new, st.ctx, st.conds) == "eq":
            return
        odd = norm(bv(new) & 1)
        if not isinstance(odd, int):
            if not self.feasible(st, bv(new) & 1 == 1):
                odd = 0
            elif not self.feasible(st, bv(new) & 1 == 0):
                odd = 1
            else:
                raise Stuck("the low bit of the new context is not determined")
        if odd:
            new = sub(new, 1)
            st.ghost["pruned"] = st.ghost.get("pruned", ()) + (st.ctx,)
        for i, v in enumerate(st.stack):
            st.mem = st.mem.store(add(add(st.ctx, c["SEGMENT_STACK"]), add(base, i)), v)
        st.ctx = new
        st.stack = []
        st.base = load(st.mem, add(new, c["CTX_METADATA_STACK_SIZE"]), st.conds)


def store_bytes(mem, a, v, n):
    for i in range(n):
        mem = mem.store(add(a, i), and_(shr(8 * (n - 1 - i), v), 255))
    return mem


def load_bytes(st, a, n):
    if n > 32:
        raise Stuck("a load of more than 32 bytes")
    if n == 0:
        return 0
    parts = []
    for i in range(n):
        x = load(st.mem, add(a, i), st.conds)
        if not isinstance(x, int):
            x = bv(x)
            k = z3.simplify(z3.ULT(x, 256))
            if not z3.is_true(k):
                st.assume(k)     # the byte-packing rows only exist for bytes (B01)
        parts.append(x)
    if all(isinstance(x, int) for x in parts):
        v = 0
        for x in parts:
            v = v * 256 + (x & 255)
        return v
    e = [z3.Extract(7, 0, bv(x)) for x in parts]
    e = z3.Concat(*e) if n > 1 else e[0]
    return norm(z3.ZeroExt(W - 8 * n, e) if n < 32 else e)


MEMID = itertools.count()
KECC = {}


def keccak(st, a, n):
    """the digest of n bytes at a: a function of the bytes.  Symbolically, an uninterpreted value attached to the memory,
    the address and the length."""
    m = st.mem
    if both(a, n) and n <= 1024:
        bs = [load(m, a + i, st.conds) for i in range(n)]
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(keccak256(bytes(b & 255 for b in bs)), "big")
    if isinstance(n, int) and n <= 96:
        bs = [load(m, add(a, i), st.conds) for i in range(n)]
        if n == 0:
            return int.from_bytes(keccak256(b""), "big")
        f = UF.setdefault(("keccak", n), z3.Function(f"keccak{n}", *([z3.BitVecSort(8 * n), BV])))
        e = [z3.Extract(7, 0, bv(b)) for b in bs]
        return norm(f(z3.simplify(z3.Concat(*e) if n > 1 else e[0])))
    for (m2, a2, n2, v) in KECC.setdefault("calls", []):
        if m2 is m and relation(a2, a, st.conds) == "eq" and relation(n2, n, st.conds) == "eq":
            return v
    v = fresh("keccak")
    KECC["calls"].append((m, a, n, v))
    return v


_RC = [0x1, 0x8082, 0x800000000000808A, 0x8000000080008000, 0x808B, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8A, 0x88,
       0x80008009, 0x8000000A, 0x8000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002,
       0x8000000000000080, 0x800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008]


def keccak256(data):
    M64 = (1 << 64) - 1
    rol = lambda x, n: ((x << n) | (x >> (64 - n))) & M64 if n else x
    s = [[0] * 5 for _ in range(5)]
    d = bytearray(data) + b"\x01"
    d += b"\0" * (-len(d) % 136)
    d[-1] |= 0x80
    for o in range(0, len(d), 136):
        for i in range(17):
            s[i % 5][i // 5] ^= int.from_bytes(d[o + 8 * i:o + 8 * i + 8], "little")
        for rc in _RC:
            c = [s[x][0] ^ s[x][1] ^ s[x][2] ^ s[x][3] ^ s[x][4] for x in range(5)]
            t = [c[(x - 1) % 5] ^ rol(c[(x + 1) % 5], 1) for x in range(5)]
            s = [[s[x][y] ^ t[x] for y in range(5)] for x in range(5)]
            x, y, cur = 1, 0, s[1][0]
            for k in range(24):
                x, y = y, (2 * x + 3 * y) % 5
                cur, s[x][y] = s[x][y], rol(cur, (k + 1) * (k + 2) // 2 % 64)
            s = [[s[x][y] ^ (~s[(x + 1) % 5][y] & s[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
            s[0][0] ^= rc
    return b"".join(s[i % 5][i // 5].to_bytes(8, "little") for i in range(4))
