"""Contracts of kernel routines that another property proves, in the form their callers need: the results are a function of the
arguments and of the memory the routine reads; the routine changes nothing outside the regions it owns."""
import z3
from . import kvc
from .kvc import *


def seg(k, name, ctx=0):
    a = add(k.c[name], ctx)
    return (a, add(a, 1 << 32))


def word(k, name, ctx=0):
    a = add(k.c[name], ctx)
    return (a, add(a, 1))


def within(a, regions):
    """the condition that an address lies in one of the regions"""
    out = []
    for lo, hi in regions:
        if both(a, lo) and isinstance(hi, int):
            if lo <= a < hi:
                return True
            continue
        if isinstance(lo, int) and isinstance(hi, int):
            c = inside(a, lo, hi)
            if c is False:
                continue
            out.append(T(c))
        else:
            out.append(z3.ULT(bv(sub(a, lo)), bv(sub(hi, lo))))
    return z3.Or(*out) if out else False


def overlap(m, regions, conds):
    if m.kind == "st":
        c = within(m.a, regions)
        if c is False:
            return False
        if c is True:
            return True
        return check(list(conds) + [T(c)], 1000)[0] != z3.unsat
    if m.kind == "bulk" and m._h is not None:
        name, own = m._h
        for lo, hi in own:
            for a, b in regions:
                c = And(ULT(lo, b), ULT(a, hi)) if not all(isinstance(x, int) for x in (lo, hi, a, b)) else lo < b and a < hi
                if c is True or (c is not False and check(list(conds) + [T(c)], 1000)[0] != z3.unsat):
                    return True
        return False
    return True


def token(m, regions, conds):
    """identifies the contents of the regions"""
    LOADCONDS[0] = conds
    while m.prev is not None:
        if overlap(m, regions, conds):
            break
        m = m.prev
    if m.kind == "bulk" and m._h is not None:
        return ("after", m._h[0])
    return ("mem", id(m), m)


def havoc(mem, name, regions):
    """the memory with the regions replaced by the named function"""
    f = z3.Function(name, BV, BV)

    def upd(a):
        return within(a, regions), lambda: norm(f(bv(a)))
    out = mem.bulk(upd)
    out._h = (name, regions)
    return out


class Opaque:
    """results: list of 'bit' / 'word' / f(fresh word) -> facts; the last result is on top of the stack"""

    def __init__(self, k, name, nargs, results, reads, writes=(), facts=None, pre=None):
        self.k, self.name, self.nargs, self.results, self.reads, self.writes, self.facts, self.pre = k, name, nargs, results, reads, list(writes), facts, pre
        self.memo = []
        k.contracts[k.label(name)] = self.apply
        k.opaque = getattr(k, "opaque", {})
        k.opaque[name] = self

    def lookup(self, mem, args, conds):
        t = token(mem, self.reads, conds)
        for t2, a2, res, nm in self.memo:
            if t[:2] == t2[:2] and all(relation(x, y, conds) == "eq" for x, y in zip(args, a2)):
                return res, nm
        nm = f"{self.name}#{len(self.memo)}"
        res = []
        for i, r in enumerate(self.results):
            if r == "bit":
                res.append(B(z3.Bool(f"{nm}.{i}")))
            else:
                res.append(z3.BitVec(f"{nm}.{i}", W))
        self.memo.append((t, args, res, nm))
        return res, nm

    def use(self, mem, args, conds):
        """(results, memory, facts)"""
        res, nm = self.lookup(mem, args, conds)
        if self.writes:
            mem = havoc(mem, nm, self.writes)
        return res, mem, (self.facts(args, res) if self.facts else [])

    def apply(self, ex, st):
        ex.need(st, self.nargs + 1)
        args = [st.stack.pop() for _ in range(self.nargs)]
        ret = st.stack.pop()
        if self.pre:
            for what, g in self.pre(args):
                ex.require(st, f"the precondition of {self.name} holds at the call: {what}", g)
        res, st.mem, facts = self.use(st.mem, args, st.conds)
        st.assume(*facts)
        st.stack += reversed(res)
        return ex.jump(st, ret)


def call(s, name, *args):
    """in a specification: the results of the routine in the present memory (top of the stack first)"""
    o = s.k.opaque[name]
    res, s.mem, facts = o.use(s.mem, list(args), s.path)
    for f in facts:
        s.conds.append(T(f))
    return res if len(res) != 1 else res[0]


def lists(k):
    """the list routines (E07)"""
    g = lambda n: word(k, "GLOBAL_METADATA_" + n)
    journal = [seg(k, "SEGMENT_JOURNAL"), seg(k, "SEGMENT_JOURNAL_DATA"), g("JOURNAL_LEN"), g("JOURNAL_DATA_LEN")]
    addrs = [seg(k, "SEGMENT_ACCESSED_ADDRESSES"), g("ACCESSED_ADDRESSES_LEN")]
    keys = [seg(k, "SEGMENT_ACCESSED_STORAGE_KEYS"), g("ACCESSED_STORAGE_KEYS_LEN")]
    accts = [seg(k, "SEGMENT_ACCOUNTS_LINKED_LIST"), g("ACCOUNTS_LINKED_LIST_NEXT_AVAILABLE")]
    slots = [seg(k, "SEGMENT_STORAGE_LINKED_LIST"), g("STORAGE_LINKED_LIST_NEXT_AVAILABLE")]
    data = [seg(k, "SEGMENT_TRIE_DATA"), g("TRIE_DATA_SIZE")]
    S = k.c["SEGMENT_ACCESSED_STORAGE_KEYS"]
    Opaque(k, "insert_accessed_addresses", 1, ["bit"], addrs, addrs + journal)
    Opaque(k, "insert_accessed_storage_keys", 2, ["bit", "word"], keys, keys + journal, facts=lambda a, r: [ULE(S + 4, r[1]), ULT(r[1], S + (1 << 32))])
    T0 = k.c["SEGMENT_TRIE_DATA"]
    Opaque(k, "search_account", 1, ["word"], accts, facts=lambda a, r: [ULT(r[0], 1 << 31)])
    Opaque(k, "search_slot", 3, ["word"], slots)
    return dict(journal=journal, addrs=addrs, keys=keys, accts=accts, slots=slots, data=data)


def scratch(k, n=64):
    """the words the kernel uses to hash"""
    a = k.c["SEGMENT_KERNEL_GENERAL"]
    return (a, a + n)
