"""Executable EVM specifications of the kernel's system calls (Yellow Paper, Shanghai/Cancun)."""
import z3
from . import kvc, kbase
from .kvc import *
from .kbase import Case, Routine, Spec, Verifier, Kernel

SIGN = 1 << 255
REASONABLE = 50_000_000      # bytes; expanding to more than this costs more than 2^32 gas (lemma below)


def neg(x):
    return sub(0, x)


def is_neg(x):
    return x >= SIGN if isinstance(x, int) else z3.Extract(255, 255, bv(x)) == 1


# ---------------------------------------------------------------- gas
def gas_used(kx):
    return shr(192, kx)


def limit(s):
    return s.load(s.k.field("CTX_METADATA_GAS_LIMIT", s.ctx))


def sys_pre(k, st, args):
    """the state in which a system call handler is entered: gas within the limit of the context, limits below 2^32"""
    lim = load(st.mem, k.field("CTX_METADATA_GAS_LIMIT", st.ctx), st.conds)
    mw = load(st.mem, k.field("CTX_METADATA_MEM_WORDS", st.ctx), st.conds)
    return [("gas limit below 2^32", ULT(lim, 1 << 32)), ("gas used within the limit", ULE(gas_used(args[0]), lim)),
            ("active memory was paid for", ULE(mw, REASONABLE // 32))]


def charge(s, cost):
    """s.kx: the exit information; faults when the context's gas does not suffice"""
    s.fault_if(Not(ULE(add(gas_used(s.kx), cost), limit(s))), "out of gas")
    s.kx = add(s.kx, shl(192, cost))


def words(n):
    return shr(5, add(n, 31))


def memcost(w):
    """Yellow Paper (326)"""
    return add(mul(3, w), shr(9, mul(w, w)))


def expand(s, *ranges):
    """memory expansion for the byte ranges (offset, size) with a non-zero size"""
    for off, size in ranges:
        end = add(off, size)
        s.fault_if(Or(ULT(end, off), Not(ULE(end, 1 << 40))), "out of gas: unpayable memory")
        f = s.k.field("CTX_METADATA_MEM_WORDS", s.ctx)
        old, new = s.load(f), words(end)
        c = ULE(old, new)
        charge(s, ite(c, sub(memcost(new), memcost(old)), 0))
        s.store(f, ite(c, new, old))


def syscall(name, argn, body, cost=None, **kw):
    def spec(s):
        s.kx = s.args[0]
        if cost is not None:
            charge(s, cost)
        body(s, *s.args[1:])
    return Routine("sys_" + name, ["kexit_info"] + argn, spec, pre=kw.pop("pre", sys_pre), kind="syscall", **kw)


def done(s, *results):
    s.case("returns", "exit", [*reversed(results), s.kx])


# ---------------------------------------------------------------- E01
def sdiv(a, b):
    q = div(ite(is_neg(a), neg(a), a), ite(is_neg(b), neg(b), b))
    same = EQ(T1(is_neg(a)), T1(is_neg(b)))
    return ite(same, q, neg(q))


def T1(c):
    return ite(c, 1, 0)


def smod(a, b):
    r = mod(ite(is_neg(a), neg(a), a), ite(is_neg(b), neg(b), b))
    return ite(is_neg(a), neg(r), r)


def sar(s, v):
    if both(s, v):
        x = v - (1 << 256) if v >= SIGN else v
        return (x >> min(s, 256)) & MASK
    return norm(bv(v) >> bv(s))


def signextend(n, v):
    if both(n, v):
        if n >= 31:
            return v
        b = 8 * (n + 1)
        x = v & ((1 << b) - 1)
        return (x | (MASK ^ ((1 << b) - 1))) if x >> (b - 1) else x
    b = 248 - bv(n) * 8          # 256 - 8 (n + 1)
    return norm(z3.If(z3.UGE(bv(n), 31), bv(v), (bv(v) << b) >> b))


def slt(a, b):
    if both(a, b):
        f = lambda x: x - (1 << 256) if x >= SIGN else x
        return int(f(a) < f(b))
    return mkb(bv(a) < bv(b))


def e01():
    two = lambda n, g, f: syscall(n, ["a", "b"], lambda s, a, b: done(s, f(a, b)), cost=g)
    return [two("sdiv", 5, sdiv), two("smod", 5, smod), two("signextend", 5, signextend), two("sar", 3, sar),
            two("slt", 3, slt), two("sgt", 3, lambda a, b: slt(b, a))]


# ---------------------------------------------------------------- EXP
def power(x, e):
    """x^e mod 2^256"""
    if both(x, e):
        return pow(x, e, 1 << 256)
    return uf("pow", x, e)


def exp_spec(s):
    x, e, ret = s.args
    s.case("returns the power", "ret", [power(x, e)])


def exp_unfolded(s):
    """x^0 = 1, x^e = (x if e is odd else 1) * (x^2)^(e/2): the definition that makes the recursion an induction"""
    x, e, ret = s.args
    sq = mul(x, x)
    rest = power(sq, shr(1, e))
    v = ite(T(isz(e)), 1, ite(T(nz(and_(e, 1))), mul(x, rest), rest))
    s.case("returns the power", "ret", [v])


def bytelen(e):
    """number of bytes of e without leading zeros"""
    if isinstance(e, int):
        return (e.bit_length() + 7) // 8
    v = z3.BitVecVal(0, W)
    for i in range(32):
        v = z3.If(z3.Extract(8 * i + 7, 8 * i, e) != 0, z3.BitVecVal(i + 1, W), v)
    return v


def exp_routines(k):
    k.call_contract("exp", 3, exp_spec)
    return [Routine("exp", ["x", "e", "retdest"], exp_unfolded),
            Routine("sys_exp", ["kexit_info", "x", "e"], sysexp_spec, pre=sys_pre, kind="syscall")]


def sysexp_spec(s):
    s.kx = s.args[0]
    charge(s, add(10, mul(50, bytelen(s.args[2]))))
    done(s, power(s.args[1], s.args[2]))


class KernelSpec:
    def __init__(self, dump):
        self.k = Kernel(dump)
        self.groups = {"E01": e01() + exp_routines(self.k)}

    def tasks(self):
        return [(p, "routine", (p, i)) for p, rs in self.groups.items() for i in range(len(rs))]

    def routine(self, prop, i):
        Verifier(self.k, self.r, prop).verify(self.groups[prop][i])
