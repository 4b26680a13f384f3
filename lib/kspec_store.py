"""E06: storage, transient storage, refunds and logs."""
import z3
from . import kvc, kbase, kopaque
from .kvc import *
from .kbase import Routine, Spec, Verifier, Kernel, prove, mul_facts
from .kloop import Loop
from .kspec_ops import sys_pre, charge, syscall, gas_used, limit, expand, T1
from .kspec_env import hashed, free_scratch, finish
from .kopaque import Opaque, call

STIPEND, WARM, COLD, SSET, SRESET, SCLEAR = 2300, 100, 2100, 20000, 2900, 4800      # EIP-2200, 2929, 3529
BOUND = 1 << 31


# ---------------------------------------------------------------- the journal
def journal(s, kind, *words):
    """an entry: its kind and its fields, and a pointer to it"""
    c = s.k.c
    n, d = s.load(c["GLOBAL_METADATA_JOURNAL_LEN"]), s.load(c["GLOBAL_METADATA_JOURNAL_DATA_LEN"])
    for i, w in enumerate((c["JOURNAL_ENTRY_" + kind],) + words):
        s.store(add(c["SEGMENT_JOURNAL_DATA"], add(d, i)), w)
    s.store(add(c["SEGMENT_JOURNAL"], n), d)
    s.store(c["GLOBAL_METADATA_JOURNAL_DATA_LEN"], add(d, 1 + len(words)))
    s.store(c["GLOBAL_METADATA_JOURNAL_LEN"], add(n, 1))


def sizes(k, mem, conds):
    return [ULT(load(mem, k.c["GLOBAL_METADATA_" + n], conds), BOUND) for n in ("JOURNAL_LEN", "JOURNAL_DATA_LEN")]


def jpre(k, st, args):
    return sys_pre(k, st, args) + [("the journal has fewer than 2^31 words", And(*sizes(k, st.mem, st.conds)))]


class Journaled(Opaque):
    """a routine that may add to the journal, whose length stays below 2^31"""

    def use(self, mem, args, conds):
        res, mem, facts = super().use(mem, args, conds)
        return res, mem, facts + sizes(self.k, mem, conds)


# ---------------------------------------------------------------- storage
def me(s):
    return s.load(s.k.field("CTX_METADATA_ADDRESS", s.ctx))


def keys(s, slot):
    """the keys of a slot of the current account: hashes of the address and of the slot"""
    return hashed(s, me(s), 20), hashed(s, slot, 32)


def current(s, slot):
    a, b = keys(s, slot)
    return call(s, "search_slot", a, b, 0)


def sload(s, slot):
    cold, ptr = call(s, "insert_accessed_storage_keys", me(s), slot)
    charge(s, add(WARM, mul(cold, COLD - WARM)))
    v = current(s, slot)

    def first(b):
        b.store(ptr, v)          # the value before the transaction, for the gas of later writes
        finish(b, v)
    s.branch(T(isz(cold)), lambda b: finish(b, v), first)


def notstatic(s):
    s.fault_if(Not(isz(s.load(s.k.field("CTX_METADATA_STATIC", s.ctx)))), "write in a static call")


def refund(s, x):
    f = s.k.c["GLOBAL_METADATA_REFUND_COUNTER"]
    journal(s, "REFUND", x)
    s.store(f, add(s.load(f), x))


def sstore(s, slot, value):
    notstatic(s)
    s.fault_if(ULE(sub(limit(s), gas_used(s.kx)), STIPEND), "out of gas: the stipend is left")
    cur = current(s, slot)
    cold, ptr = call(s, "insert_accessed_storage_keys", me(s), slot)

    def first(b):
        b.store(ptr, cur)
        pay(b, COLD, cur)

    def pay(b, base, orig):
        noop, clean = EQ(value, cur), EQ(cur, orig)
        charge(b, add(base, ite(Or(noop, Not(clean)), WARM, ite(T(isz(orig)), SSET, SRESET))))
        b.branch(T(noop), finish, lambda d: write(d, orig))

    def write(b, orig):
        def clean(d):
            d.branch(T(isz(value)), lambda e: (refund(e, SCLEAR), commit(e)), commit)

        def dirty(d):
            d.branch(T(isz(orig)), restore, lambda e: e.branch(T(isz(cur)), lambda f: (refund(f, (1 << 256) - SCLEAR), restore(f)),
                     lambda f: f.branch(T(isz(value)), lambda g: (refund(g, SCLEAR), restore(g)), restore)))

        def restore(d):
            d.branch(T(EQ(value, orig)), lambda e: e.branch(T(isz(orig)), lambda f: (refund(f, SSET - WARM), commit(f)), lambda f: (refund(f, SRESET - WARM), commit(f))), commit)
        b.branch(T(EQ(cur, orig)), clean, dirty)

    def commit(b):
        journal(b, "STORAGE_CHANGE", me(b), slot, cur)

        def delete(d):
            a, x = keys(d, slot)
            call(d, "remove_slot", a, x)
            finish(d)

        def put(d):
            a, x = keys(d, slot)
            call(d, "insert_slot_with_value", a, x, value)
            finish(d)
        b.branch(T(isz(value)), delete, put)
    s.branch(T(isz(cold)), lambda b: pay(b, 0, b.load(ptr)), first)


# ---------------------------------------------------------------- transient storage
def entry(mem, S, q, conds):
    a = add(S, mul(3, q))
    return [load(mem, add(a, j), conds) for j in range(3)]


def is_entry(mem, S, q, addr, key, conds):
    a, b, _ = entry(mem, S, q, conds)
    return And(EQ(a, addr), EQ(b, key))


class Search(Opaque):
    """search_transient_storage: (found, position, address, value, key)"""

    def __init__(self, k):
        self.S, self.len = k.c["SEGMENT_TRANSIENT_STORAGE"], k.c["GLOBAL_METADATA_TRANSIENT_STORAGE_LEN"]
        super().__init__(k, "search_transient_storage", 2, ["bit", "word"], [kopaque.seg(k, "SEGMENT_TRANSIENT_STORAGE"), kopaque.word(k, "GLOBAL_METADATA_TRANSIENT_STORAGE_LEN")])

    def use(self, mem, args, conds):
        (found, i), mem, _ = super().use(mem, args, conds)
        pos, L = add(self.S, mul(3, i)), load(mem, self.len, conds)
        hit = Not(isz(found))
        facts = [ULT(i, 1 << 29), ite_(hit, And(ULT(pos, L), is_entry(mem, self.S, i, args[0], args[1], conds)), EQ(pos, L))]
        return [found, pos, args[0], ite(T(hit), load(mem, add(pos, 2), conds), 0), args[1]], mem, facts


def ite_(c, a, b):
    return z3.If(T(c), T(a), T(b))


ENTRIES = z3.ZeroExt(W - 29, z3.BitVec("entries", 29))


def tpre(k, st, args):
    L = load(st.mem, k.c["GLOBAL_METADATA_TRANSIENT_STORAGE_LEN"], st.conds)
    n = ENTRIES if z3.is_bv(L) else (L - k.c["SEGMENT_TRANSIENT_STORAGE"]) // 3
    return jpre(k, st, args) + [("the transient storage is a list of entries", And(EQ(L, add(k.c["SEGMENT_TRANSIENT_STORAGE"], mul(3, n))), ULT(n, (1 << 29) - 1)))]


def tsample(rng, k, args, lazy, ctx):
    """a short list whose words are few different ones, so that keys, values and addresses coincide"""
    few = [0, 1, 2, 0x1234]
    n, S = rng.randrange(4), k.c["SEGMENT_TRANSIENT_STORAGE"]
    lazy[k.c["GLOBAL_METADATA_TRANSIENT_STORAGE_LEN"]] = S + 3 * n
    seen = set()
    for q in range(n):
        a, b = rng.choice(few), rng.choice(few)
        while (a, b) in seen:
            a, b = rng.choice(few), rng.getrandbits(200)
        seen.add((a, b))
        lazy[S + 3 * q], lazy[S + 3 * q + 1], lazy[S + 3 * q + 2] = a, b, rng.choice(few)
    for q in range(3 * n, 3 * n + 3):
        lazy[S + q] = 0
    lazy[k.field("CTX_METADATA_ADDRESS", ctx)] = rng.choice(few)
    for f in ("JOURNAL_LEN", "JOURNAL_DATA_LEN"):
        lazy[k.c["GLOBAL_METADATA_" + f]] = rng.randrange(100)
    for i in range(1, len(args)):
        args[i] = rng.choice(few)
    return args, lazy, ctx


def find(s, addr, key):
    """the entry of the key: (found, position, value)"""
    if not z3.is_bv(s.load(s.k.c["GLOBAL_METADATA_TRANSIENT_STORAGE_LEN"])):       # concrete: by definition
        S = s.k.c["SEGMENT_TRANSIENT_STORAGE"]
        n = (s.load(s.k.c["GLOBAL_METADATA_TRANSIENT_STORAGE_LEN"]) - S) // 3
        for q in range(n):
            a, b, v = entry(s.mem, S, q, s.path)
            if (a, b) == (addr, key):
                return 1, S + 3 * q, v
        return 0, S + 3 * n, 0
    found, pos, _, v, _ = call(s, "search_transient_storage", addr, key)
    return found, pos, v


def tload(s, slot):
    charge(s, WARM)
    finish(s, find(s, me(s), slot)[2])


def tstore(s, slot, value):
    notstatic(s)
    charge(s, WARM)
    found, pos, old = find(s, me(s), slot)
    for j, w in enumerate((me(s), slot, value)):
        s.store(add(pos, j), w)
    f = s.k.c["GLOBAL_METADATA_TRANSIENT_STORAGE_LEN"]
    s.store(f, ite(T(isz(found)), add(pos, 3), s.load(f)))

    def changed(b):
        journal(b, "TRANSIENT_STORAGE_CHANGE", me(b), slot, old)
        finish(b)
    s.branch(T(EQ(value, old)), finish, changed)


class BackLoop(Loop):
    TRACK = "back"


class Proof:
    """obligations of a loop or lemma"""

    def __init__(self, k, note):
        self.k, self.note = k, note

    def goal(self, what, conds, goal):
        goal = T(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        s, m = prove(conds, goal)
        self.note(what, s == "ok", "" if s == "ok" else "not proved (the solver gave no answer)" if s == "unknown" else "not valid; counterexample: " + ", ".join(
            f"{d.name()}={m[d]}" for d in m.decls() if d.arity() == 0)[:400])

    def search(self):
        k, S = self.k, self.k.c["SEGMENT_TRANSIENT_STORAGE"]
        addr, key, ret, ctx = (z3.BitVec(x, W) for x in ("addr", "key", "retdest", "ctx"))
        zx = lambda x: z3.ZeroExt(W - 29, z3.BitVec(x, 29))
        n, q, i = ENTRIES, zx("q"), z3.ZeroExt(W - 32, z3.BitVec("i", 32))
        mem = Mem.fresh("mem0").store(k.c["GLOBAL_METADATA_TRANSIENT_STORAGE_LEN"], add(S, mul(3, n)))
        st = k.state([addr, key, ret], mem, ctx)
        st.assume(z3.ULT(ctx, 1 << 96), ctx & ((1 << 64) - 1) == 0, z3.ULT(n, (1 << 29) - 1))
        lp = BackLoop(k, st, k.label("search_transient_storage"), list(k.ends) + [("ret", ret)], self.note, self.goal)
        step = [d for d in lp.steps if d]
        if len(step) != 1:
            raise Stuck("one word on the stack at the loop head, the position, changes")
        step = step[0]
        hit = lambda p: is_entry(mem, S, p, addr, key, st.conds)
        inv = lambda j: {"the position is in the list": ULE(mul(step, j), mul(3, n)), "no earlier entry has the key": Or(Not(ULT(mul(3, q), mul(step, j))), Not(hit(q)))}
        g = z3.BitVec("any_address", W)
        kinds = set()
        for kd, o in lp.direct + lp.induct(i, [], lambda j: mem, inv):
            cs = o.conds
            self.goal("ends by returning", cs, kd == "ret")
            if kd != "ret":
                continue
            self.goal("five results", [], len(o.stack) == 5)
            val, a, pos, found = o.stack[1], o.stack[2], o.stack[3], o.stack[4]
            self.goal("the address and the key are returned", cs, And(EQ(a, addr), EQ(o.stack[0], key)))
            self.goal("memory is unchanged", cs, EQ(load(o.mem, g, cs), load(mem, g, cs)))
            self.goal("found or not", cs, Or(EQ(found, 0), EQ(found, 1)))
            p = i if step == 3 else None
            if self.possible(cs + [T(EQ(found, 1))]):
                kinds.add("found")
                hs = cs + [T(EQ(found, 1))]
                self.goal("found: the position is that of an entry of the list", hs, p is not None and And(EQ(pos, add(S, mul(3, p))), ULT(p, n)))
                self.goal("found: the entry has the address and the key", hs, And(EQ(load(mem, pos, hs), addr), EQ(load(mem, add(pos, 1), hs), key)))
                self.goal("found: the value is that of the entry", hs, EQ(val, load(mem, add(pos, 2), hs)))
            if self.possible(cs + [T(EQ(found, 0))]):
                kinds.add("absent")
                hs = cs + [T(EQ(found, 0))]
                self.goal("absent: the position is the end of the list", hs, EQ(pos, add(S, mul(3, n))))
                self.goal("absent: no entry has the key", hs, Or(Not(ULT(q, n)), Not(hit(q))))
                self.goal("absent: the value is 0", hs, EQ(val, 0))
        for w in {"found", "absent"} - kinds:
            self.note(f"the outcome '{w}' is possible", False, "no execution of the code ends this way")
        self.lemma(mem, S, n, addr, key)

    def lemma(self, mem, S, n, addr, key):
        """a write keeps the keys of the entries distinct"""
        zx = lambda x: z3.ZeroExt(W - 29, z3.BitVec(x, 29))
        p, q, i, v = zx("p"), zx("q"), zx("i2"), z3.BitVec("value", W)
        found = z3.Bool("found")
        new = mem
        for j, w in enumerate((addr, key, v)):
            new = new.store(add(add(S, mul(3, i)), j), w)
        n2 = ite(found, n, add(n, 1))

        def distinct(m, n, p, q, cs):
            a, b = entry(m, S, p, cs), entry(m, S, q, cs)
            return z3.Implies(And(ULT(p, n), ULT(q, n), EQ(a[0], b[0]), EQ(a[1], b[1])), T(EQ(p, q)))
        cs = [T(ULT(n, (1 << 29) - 1)), ite_(found, And(ULT(i, n), is_entry(mem, S, i, addr, key, [])), EQ(i, n))]
        for x in (p, q):
            cs.append(z3.Implies(z3.Not(found), T(Or(Not(ULT(x, n)), Not(is_entry(mem, S, x, addr, key, []))))))
            cs += [distinct(mem, n, x, y, []) for y in (p, q, i)]
        self.goal("lemma: a write keeps the keys of the entries distinct", cs, distinct(new, n2, p, q, cs))

    def possible(self, conds):
        return check(conds, 5000)[0] != z3.unsat


class StoreSpec:
    def __init__(self, dump):
        k = self.k = Kernel(dump)
        L = kopaque.lists(k)
        keysr, jr, slots = L["keys"], L["journal"], L["slots"]
        S = k.c["SEGMENT_ACCESSED_STORAGE_KEYS"]
        Journaled(k, "insert_accessed_storage_keys", 2, ["bit", "word"], keysr, keysr + jr, facts=lambda a, r: [ULE(S + 4, r[1]), ULT(r[1], S + (1 << 32))])
        Opaque(k, "insert_slot_with_value", 3, [], slots, slots)
        Opaque(k, "remove_slot", 2, [], slots, slots)
        use = ["insert_accessed_storage_keys", "search_slot", "insert_slot_with_value", "remove_slot"]
        Search(k)
        ts = ["search_transient_storage"]
        self.groups = {"E06": [syscall("tload", ["slot"], tload, pre=tpre, use=ts, sample=tsample), syscall("tstore", ["slot", "value"], tstore, pre=tpre, use=ts, sample=tsample),
                               syscall("sload", ["slot"], sload, pre=jpre, use=use), syscall("sstore", ["slot", "value"], sstore, pre=jpre, use=use)]}

    def tasks(self):
        return [(p, "routine", (p, i)) for p, rs in self.groups.items() for i in reversed(range(len(rs)))] + [("E06", "loop", ("search",))]

    def loop(self, name):
        items = {}

        def note(what, ok, detail=""):
            a = items.setdefault(what, [True, ""])
            if not ok and a[0]:
                a[0], a[1] = False, detail
        try:
            getattr(Proof(self.k, note), name)()
        except Stuck as e:
            note("the code stays within the form that its contract describes", False, str(e))
        bad = [w for w, (ok, d) in items.items() if not ok]
        if bad and name == "search":
            from . import kreplay
            txt = next((t for r in self.groups["E06"] if r.name in ("sys_tload", "sys_tstore") for t in [kreplay.search(self.k, r, n=2000)] if t), None)
            if txt:
                items[bad[0]][1] += "\nFAILING INPUT\n" + txt
        for what, (ok, d) in items.items():
            self.r.add("E06", {"search": "search_transient_storage"}[name], what, ok, d)

    def routine(self, prop, i):
        Verifier(self.k, self.r, prop).verify(self.groups[prop][i])
