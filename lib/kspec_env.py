"""E02: the environment, block and account opcodes."""
import z3
from . import kvc, kbase
from .kvc import *
from .kbase import Routine, Spec, Verifier, Kernel
from .kspec_ops import sys_pre, charge, syscall, done, gas_used, limit, T1
from . import kopaque
from .kopaque import Opaque, call, scratch

EMPTY_HASH = 0xc5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470
ADDR = (1 << 160) - 1


def field(op, fld, gas=2, ctxf=True, post=lambda x: x):
    def body(s):
        a = s.k.field(fld, s.ctx) if ctxf else s.k.c[fld]
        done(s, post(s.load(a)))
    return syscall(op, [], body, cost=gas)


def statekey(k, a):
    """the key of an account: the hash of the address"""
    return hash_bytes(a, 20)


def hash_bytes(v, n):
    if isinstance(v, int):
        return int.from_bytes(keccak256((v & ((1 << 8 * n) - 1)).to_bytes(n, "big")), "big")
    f = UF.setdefault(("keccak", n), z3.Function(f"keccak{n}", z3.BitVecSort(8 * n), BV))
    return norm(f(z3.simplify(z3.Extract(8 * n - 1, 0, v))))


def hashed(s, a, n):
    """hashing goes through the scratch words"""
    s.mem = store_bytes(s.mem, s.k.c["SEGMENT_KERNEL_GENERAL"], a, n)
    return hash_bytes(a, n)


def free_scratch(extra=()):
    def free(k, g):
        return Or(kopaque.within(g, [scratch(k)]), *[f(k, g) for f in extra])
    return free


def account(s, addr):
    """the account's data (0 when it does not exist)"""
    return call(s, "search_account", hashed(s, addr, 20))


def data(s, p, i):
    return s.load(add(s.k.c["SEGMENT_TRIE_DATA"], add(p, i)))


def access(s, addr):
    """warm or cold access of an address"""
    cold = call(s, "insert_accessed_addresses", addr)
    charge(s, add(100, mul(cold, 2500)))
    return cold


def finish(s, *res, free=None, goals=()):
    s.case("returns", "exit", [*reversed(res), s.kx], free=free_scratch(free or ()), goals=goals)


def balance(s, addr, free=()):
    p = account(s, addr)
    finish(s, ite(T(isz(p)), 0, data(s, p, 1)), free=free)


def sys_balance(s, a):
    a = and_(a, ADDR)
    access(s, a)
    balance(s, a)


def selfbalance(s):
    balance(s, s.load(s.k.field("CTX_METADATA_ADDRESS", s.ctx)))


def extcodehash(s, a):
    a = and_(a, ADDR)
    access(s, a)
    p = account(s, a)
    empty = And(isz(data(s, p, 0)), isz(data(s, p, 1)), EQ(data(s, p, 3), EMPTY_HASH))
    finish(s, ite(Or(isz(p), empty), 0, data(s, p, 3)))


def stackfree(ctxs):
    """the stack segments and saved stack sizes of contexts"""
    def f(k, g):
        return kopaque.within(g, [r for c in ctxs for r in (kopaque.seg(k, "SEGMENT_STACK", c), kopaque.word(k, "CTX_METADATA_STACK_SIZE", c))])
    return f


def codefree(ctx):
    return lambda k, g: kopaque.within(g, [kopaque.seg(k, "SEGMENT_CODE", ctx)])


def next_ctx(s):
    f = s.k.c["GLOBAL_METADATA_LARGEST_CONTEXT"]
    new = add(s.load(f), 1 << 64)
    s.store(f, new)
    return new


def code_of(size, where, hash_):
    """the code in memory has the size that is reported and the hash of the account"""
    def f(st):
        return Or(*[And(EQ(a, where), EQ(n, size(st)), EQ(v, hash_)) for m, a, n, v in KECC.get("calls", [])])
    return f


def extcodesize(s, a):
    a = and_(a, ADDR)
    access(s, a)
    new = next_ctx(s)
    p = account(s, a)
    fr = [stackfree([s.ctx, new]), codefree(new)]
    b = s.fork(isz(p))
    finish(b, 0, free=fr)
    s.conds.append(Not(isz(p)))
    s.cases += b.cases
    kx = s.kx
    s.case("returns the size of the code", "exit", None, free=free_scratch(fr),
           goals=[("the size is that of a code with the hash of the account", (lambda h, f: lambda st: Or(isz(h), f(st)))(data(s, p, 3), code_of(lambda st: st.stack[-2], new, data(s, p, 3)))),
                  ("the gas charged", lambda st: And(len(st.stack) == 2, EQ(st.stack[-1], kx)))])


def ctx_pre(k, st, args):
    """contexts are numbered upwards"""
    big = load(st.mem, k.c["GLOBAL_METADATA_LARGEST_CONTEXT"], st.conds)
    return [("contexts are numbered upwards", And(ULE(st.ctx, big), EQ(and_(big, (1 << 64) - 1), 0), ULT(big, (1 << 96) - (1 << 64))))]


def prune_contract(k):
    def apply(ex, st):
        ex.need(st, 2)
        stale, ret = st.stack.pop(), st.stack.pop()
        ex.require(st, "the precondition of prune_context holds at the call: the pruned context is not the current one", And(Not(EQ(stale, st.ctx)), EQ(and_(stale, (1 << 64) - 1), 0)))
        regs = [r for c in (st.ctx, stale) for r in (kopaque.seg(k, "SEGMENT_STACK", c), kopaque.word(k, "CTX_METADATA_STACK_SIZE", c))]
        st.mem = kopaque.havoc(st.mem, f"prune!{next(MEMID)}", regs)
        st.ghost["pruned"] = st.ghost.get("pruned", ()) + (stale,)
        return ex.jump(st, ret)
    k.contracts[k.label("prune_context")] = apply


def prune_spec(s):
    stale = s.args[0]
    base = lambda o: o.ghost["base"]
    s.case("returns", "ret", [], free=lambda k, g: stackfree([s.ctx, stale])(k, g), ctx=s.ctx,
           goals=[("the stack is where it was", lambda o: EQ(o.base, base(o))), ("the context given, and no other, is pruned", lambda o: And(len(o.ghost.get("pruned", ())) == 1, EQ(o.ghost["pruned"][0], stale)))])


def prune_pre(k, st, args):
    base = st.ghost["base"] = z3.BitVec("stack_below", W)
    return [("the stack is below its limit", ULT(base, 1 << 20)), ("context", And(EQ(and_(args[0], (1 << 64) - 1), 0), ULT(args[0], 1 << 96), Not(EQ(args[0], st.ctx))))]


def blobhash(s, i):
    n = s.load(s.k.c["GLOBAL_METADATA_BLOB_VERSIONED_HASHES_LEN"])
    done(s, ite(And(ULT(i, n), ULT(mul(33, i), n)), s.load(add(s.k.c["SEGMENT_TXN_BLOB_VERSIONED_HASHES"], i)), 0))


def blob_pre(k, st, args):
    n = load(st.mem, k.c["GLOBAL_METADATA_BLOB_VERSIONED_HASHES_LEN"], st.conds)
    i = args[1]
    v = load(st.mem, add(k.c["SEGMENT_TXN_BLOB_VERSIONED_HASHES"], i), st.conds)
    return sys_pre(k, st, args) + [("a list of hashes has less than 2^32 bytes, and zeros behind it", And(ULT(n, 1 << 32), Or(Not(ULT(i, n)), ULT(mul(33, i), n), EQ(v, 0))))]


def blockhash(s, n):
    cur = s.load(s.k.c["GLOBAL_METADATA_BLOCK_NUMBER"])
    ok = And(ULT(n, cur), ULE(cur, add(n, 256)))
    done(s, ite(ok, s.load(add(s.k.c["SEGMENT_BLOCK_HASHES"], sub(256, sub(cur, n)))), 0))


def block_pre(k, st, args):
    return sys_pre(k, st, args) + [("block numbers are below 2^64", ULT(load(st.mem, k.c["GLOBAL_METADATA_BLOCK_NUMBER"], st.conds), 1 << 64))]


def block_sample(rng, k, args, lazy, ctx):
    cur = rng.choice((0, 1, 5, 255, 256, 257, 300, 10 ** 7, rng.randrange(1 << 40)))
    lazy[k.c["GLOBAL_METADATA_BLOCK_NUMBER"]] = cur
    args[1] = rng.choice((args[1], max(cur - rng.randrange(260), 0), cur, cur + 1, max(cur - 256, 0), max(cur - 257, 0)))
    return args, lazy, ctx


def blob_sample(rng, k, args, lazy, ctx):
    n = rng.randrange(4)
    lazy[k.c["GLOBAL_METADATA_BLOB_VERSIONED_HASHES_LEN"]] = 33 * n
    args[1] = rng.choice((args[1], 0, 1, 2, 3, 40))
    return args, lazy, ctx


def sys_gas(s):
    done(s, sub(limit(s), gas_used(s.kx)))


def blobbasefee(s):
    s.case("returns", "exit", None, goals=[("the result is determined by the block", lambda st: And(len(st.stack) == 2, *[Not(EQ(st.stack[0], v)) for _, v in st.inputs]))])


def e02(k):
    G = lambda op, f: field(op, "GLOBAL_METADATA_" + f, ctxf=False)
    C = lambda op, f, **kw: field(op, "CTX_METADATA_" + f, **kw)
    F = lambda op, f: field(op, "TXN_FIELD_" + f, ctxf=False)
    both_ = lambda *ps: lambda k, st, a: [x for p in ps for x in p(k, st, a)]
    lists = ["insert_accessed_addresses", "search_account"]
    return [C("address", "ADDRESS"), C("caller", "CALLER"), C("callvalue", "CALL_VALUE"), C("calldatasize", "CALLDATA_SIZE"), C("codesize", "CODE_SIZE"),
            C("returndatasize", "RETURNDATA_SIZE"), C("msize", "MEM_WORDS", post=lambda x: mul(32, x)),
            G("coinbase", "BLOCK_BENEFICIARY"), G("timestamp", "BLOCK_TIMESTAMP"), G("number", "BLOCK_NUMBER"), G("gaslimit", "BLOCK_GAS_LIMIT"),
            G("chainid", "BLOCK_CHAIN_ID"), G("basefee", "BLOCK_BASE_FEE"), G("prevrandao", "BLOCK_RANDOM"),
            F("origin", "ORIGIN"), F("gasprice", "COMPUTED_FEE_PER_GAS"),
            syscall("gas", [], sys_gas, cost=2),
            syscall("blobhash", ["index"], blobhash, cost=3, pre=blob_pre, sample=blob_sample),
            syscall("blockhash", ["number"], blockhash, cost=20, pre=block_pre, sample=block_sample),
            syscall("blobbasefee", [], blobbasefee, cost=2),
            syscall("balance", ["address"], sys_balance, use=lists),
            syscall("selfbalance", [], selfbalance, cost=5, use=lists),
            syscall("extcodehash", ["address"], extcodehash, use=lists),
            syscall("extcodesize", ["address"], extcodesize, pre=both_(sys_pre, ctx_pre), use=lists + ["prune_context"], may_panic=True),
            Routine("prune_context", ["stale", "retdest"], prune_spec, pre=prune_pre, use=[])]


class EnvSpec:
    def __init__(self, dump):
        self.k = Kernel(dump)
        kopaque.lists(self.k)
        prune_contract(self.k)
        self.groups = {"E02": e02(self.k)}

    def tasks(self):
        return [(p, "routine", (p, i)) for p, rs in self.groups.items() for i in range(len(rs))]

    def routine(self, prop, i):
        Verifier(self.k, self.r, prop).verify(self.groups[prop][i])
