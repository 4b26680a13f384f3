"""E07: the sorted linked lists the kernel keeps in memory, for any hint the prover may give.

A list lives in one segment: node i (size words) at SEG + size*i, i < N; its last word is the address of the next node, or
2^256-1 when the node was deleted.  The ghost function J gives the index of the successor.  The list invariant (instances of):
  I1  a node that is not deleted points to a node that is not deleted
  I2  the head (node 0) is not deleted and has key 2^256-1
  I3  two nodes (other than the head) that are not deleted have different keys
  I4  no node that is not deleted lies between a node and its successor (the head counts as -infinity on the left and +infinity
      on the right): the chain from the head passes through all of them in order
  I5  the successor function is injective on nodes that are not deleted
"""
import z3
from . import kvc, kbase
from .kvc import *
from .kbase import prove, mul_facts

MAX = MASK
DEBUG = False
STAT = {}
NMAX = 1 << 27


class List:
    def __init__(self, k, name, seg, size, keys, lenfield, hint):
        self.k, self.name, self.size, self.nkeys = k, name, size, keys
        self.seg = k.c[seg]
        self.lenaddr, self.lenaddr_name = k.c[lenfield], lenfield
        self.hint = hint               # the hint is an index ("index") or an address divided by the size ("address")

    def addr(self, i):
        return add(self.seg, mul(self.size, i))

    def word(self, m, i, j, conds):
        return load(m, add(self.addr(i), j), conds)

    def key(self, m, i, conds):
        return [self.word(m, i, j, conds) for j in range(self.nkeys)]

    def nxt(self, m, i, conds):
        return self.word(m, i, self.size - 1, conds)

    def live(self, m, i, conds):
        return Not(EQ(self.nxt(m, i, conds), MAX))

    def index(self, hint):
        return hint if self.hint == "index" else sub(hint, self.seg // self.size)


def klt(a, b):
    """lexicographic order on keys"""
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(T(ULT(x, y)), z3.And(T(EQ(x, y)), r))
    return r


def keq(a, b):
    return And(*[EQ(x, y) for x, y in zip(a, b)])


class View:
    """a memory together with the ghost state of one list: node count and successor index"""

    def __init__(self, L, mem, n, J, conds):
        self.L, self.m, self.n, self.J, self.conds = L, mem, n, J, conds
        self._c = {}

    def live(self, i):
        return self.memo("live", i, lambda: self.L.live(self.m, i, self.conds))

    def key(self, i):
        return self.memo("key", i, lambda: self.L.key(self.m, i, self.conds))

    def nxt(self, i):
        return self.memo("nxt", i, lambda: self.L.nxt(self.m, i, self.conds))

    def memo(self, what, i, f):
        k = (what, i if isinstance(i, int) else ("z", i.get_id()))
        if k not in self._c:
            self._c[k] = (f(), i)
        return self._c[k][0]

    def inn(self, i):
        return ULT(i, self.n)

    def one(self, i):
        """invariants about one index"""
        j = self.J(i)
        return {"the successor of a node is a node of the list": z3.Implies(And(self.inn(i), self.live(i)), And(EQ(self.nxt(i), self.L.addr(j)), ULT(j, self.n), self.live(j)))}

    def head(self):
        return {"the head stays in place": And(self.live(0), EQ(self.key(0)[0], MAX), ULT(0, self.n))}

    def two(self, p, q):
        j = self.J(p)
        both_ = And(self.inn(p), self.inn(q), self.live(p), self.live(q))
        zp, zq = EQ(p, 0), EQ(q, 0)
        return {
            "keys are distinct": z3.Implies(And(both_, Not(zp), Not(zq), keq(self.key(p), self.key(q))), T(EQ(p, q))),
            "the chain is sorted and complete": z3.Implies(And(both_, Not(zq)), Not(And(Or(zp, klt(self.key(p), self.key(q))), Or(EQ(j, 0), klt(self.key(q), self.key(j)))))),
            "the chain ascends": z3.Implies(And(self.inn(p), self.live(p), Not(EQ(j, 0)), Not(zp)), klt(self.key(p), self.key(j))),
            "no two nodes share a successor": z3.Implies(And(both_, EQ(j, self.J(q))), T(EQ(p, q)))}

    def facts(self, idx):
        out = list(self.head().values())
        for p in idx:
            out += self.one(p).values()
            for q in idx:
                out += self.two(p, q).values()
        return out


IX = 27


def index(name):
    """an arbitrary node index"""
    return z3.ZeroExt(W - IX, z3.BitVec(name, IX))


def ghost(name):
    f = z3.Function(name, z3.BitVecSort(IX), z3.BitVecSort(IX))
    return lambda i: norm(z3.ZeroExt(W - IX, f(z3.simplify(z3.Extract(IX - 1, 0, bv(i))))))


class ListOps:
    def __init__(self, k, report, prop):
        self.k, self.r, self.prop = k, report, prop
        c = k.c
        self.lists = {
            "accessed addresses": List(k, "accessed addresses", "SEGMENT_ACCESSED_ADDRESSES", 2, 1, "GLOBAL_METADATA_ACCESSED_ADDRESSES_LEN", "address"),
            "accessed storage keys": List(k, "accessed storage keys", "SEGMENT_ACCESSED_STORAGE_KEYS", 4, 2, "GLOBAL_METADATA_ACCESSED_STORAGE_KEYS_LEN", "address"),
            "accounts": List(k, "accounts", "SEGMENT_ACCOUNTS_LINKED_LIST", 4, 1, "GLOBAL_METADATA_ACCOUNTS_LINKED_LIST_NEXT_AVAILABLE", "address"),
            "slots": List(k, "slots", "SEGMENT_STORAGE_LINKED_LIST", 5, 2, "GLOBAL_METADATA_STORAGE_LINKED_LIST_NEXT_AVAILABLE", "index")}

    # (routine, list, kind, number of further arguments, word offset of the value or None, journals?)
    OPS = [("insert_accessed_addresses", "accessed addresses", "insert", 0), ("remove_accessed_addresses", "accessed addresses", "remove", 0),
           ("insert_accessed_storage_keys", "accessed storage keys", "insert", 0), ("remove_accessed_storage_keys", "accessed storage keys", "remove", 0),
           ("insert_account_with_overwrite", "accounts", "put", 1), ("search_account", "accounts", "search", 0), ("remove_account", "accounts", "remove", 0),
           ("insert_slot_with_value", "slots", "put", 1), ("insert_slot", "slots", "put", 1), ("search_slot", "slots", "search", 1), ("remove_slot", "slots", "remove", 0)]

    def run(self, name):
        kvc.REALMUL = False
        if name in SPECIAL:
            return self.special(name)
        op = [o for o in self.OPS if o[0] == name][0]
        L = self.lists[op[1]]
        items = {}

        def note(what, ok, detail=""):
            a = items.setdefault(what, [True, ""])
            if not ok and a[0]:
                a[0], a[1] = False, detail
        try:
            self.verify(L, op, note)
        except Stuck as e:
            note("the code stays within the form that its contract describes", False, str(e))
        bad = [w for w, (ok, d) in items.items() if not ok]
        if bad:
            txt = concrete_lists(self.k, L, op)
            if txt:
                items[bad[0]][1] += "\nFAILING INPUT\n" + txt
        for what, (ok, d) in items.items():
            self.r.add(self.prop, name, what, ok, d)
        return items

    def special(self, name):
        items = {}

        def note(what, ok, detail=""):
            a = items.setdefault(what, [True, ""])
            if not ok and a[0]:
                a[0], a[1] = False, detail
        try:
            SPECIAL[name](self, note)
        except Stuck as e:
            note("the code stays within the form that its contract describes", False, str(e))
        for what, (ok, d) in items.items():
            self.r.add(self.prop, name, what, ok, d)
        return items

    def verify(self, L, op, note):
        name, _, kind, extra = op
        k, c = self.k, self.k.c
        key = [z3.BitVec(n, W) for n in ("key", "key2")[:L.nkeys]]
        more = [z3.BitVec("value", W)] * extra
        ret = z3.BitVec("retdest", W)
        ctx, n = z3.BitVec("ctx", W), index("nodes")
        mem = Mem.fresh("mem0").store(L.lenaddr, L.addr(n))
        st = k.state(key + more + [ret], mem, ctx)
        st.assume(z3.ULT(ctx, 1 << 96), ctx & ((1 << 64) - 1) == 0, z3.ULT(n, NMAX - 1), z3.UGE(n, 1), z3.ULT(key[0], MAX))
        sizes = {}
        for f in ("GLOBAL_METADATA_JOURNAL_LEN", "GLOBAL_METADATA_JOURNAL_DATA_LEN", "GLOBAL_METADATA_TRIE_DATA_SIZE"):
            sizes[f] = load(mem, c[f], [])
            st.assume(ULT(sizes[f], 1 << 31))
        J = ghost("succ")
        base = list(st.conds)
        ends = [("panic", k.p.labels["panic"]), ("fault", k.label("fault_exception")), ("ret", ret)]
        P, Q, g, h = index("p"), index("q"), z3.BitVec("any_address", W), index("h")
        seen = set()
        # 1. whatever the hint is, it is only accepted when it denotes a node
        for kd, o in Exec(k.p, {}, ends).run(st, k.label(name)):
            if kd == "panic":
                continue
            self.goal(note, "ends by returning", [], kd == "ret")
            if len(o.inputs) != 1:
                note("one hint is used", False, f"{len(o.inputs)} hints")
                return
            i = L.index(o.inputs[0][1])
            if not self.goal(note, "a hint is only accepted when it points to a node of the list", o.conds + mul_facts(o.conds), ULT(i, n)):
                return
        # 2. the hint denotes node h
        v = View(L, mem, n, J, base)
        st.assume(z3.ULT(h, n), *v.one(h).values(), *v.one(J(h)).values(), *v.head().values())
        hv = h if L.hint == "index" else norm(h + L.seg // L.size)
        for kd, o in Exec(k.p, {}, ends, hint=lambda ex, s, pc: hv).run(st, k.label(name)):
            if kd != "ret":
                continue
            cs = o.conds
            v0 = View(L, mem, n, J, cs)
            lenf = load(o.mem, L.lenaddr, cs)
            grown = norm(bv(lenf) - bv(L.addr(n)))
            if not isinstance(grown, int):
                note("the list grows by at most one node", False, "the new length is not determined")
                continue
            idx = [h, J(h), 0]
            pre = v0.facts(idx)
            hyp = cs + pre
            ishead = EQ(h, 0)
            kh = v0.key(h)
            stack = o.stack
            if kind == "remove":
                seen.add("removed")
                j = J(h)
                self.goal(note, "removes a node with the key", hyp, keq(v0.key(j), key))
                self.goal(note, "no result", hyp, len(stack) == 0)
                self.goal(note, "list length", hyp, grown == 0)
                self.removed(note, L, o, mem, v0, n, h, hyp, P, cs)
                self.frame(note, L, o, mem, n, g, hyp, grown, False, name)
                continue
            found = grown == 0 and self.possible(hyp + [T(And(v0.live(h), Not(ishead), keq(kh, key)))])
            if kind == "search":
                hit = And(v0.live(h), Not(ishead), keq(kh, key))
                self.goal(note, "one result", hyp, len(stack) == 1)
                self.goal(note, "list length", hyp, grown == 0)
                val = L.word(mem, h, 1 if L.nkeys == 1 else 2, cs)
                dflt = more[0] if extra else 0
                if self.possible(hyp + [T(hit)]):
                    seen.add("found")
                    self.goal(note, "found: the value of the node with the key", hyp + [T(hit)], EQ(stack[-1], val))
                if self.possible(hyp + [z3.Not(T(hit))]):
                    seen.add("absent")
                    nh = hyp + [z3.Not(T(hit))]
                    self.goal(note, "absent: the key lies between the keys of a node and its successor", nh,
                              And(v0.live(h), Or(ishead, klt(kh, key)), Or(EQ(J(h), 0), klt(key, v0.key(J(h))))))
                    self.goal(note, "absent: the default value", nh, EQ(stack[-1], dflt))
                x, y = load(o.mem, g, cs), load(mem, g, cs)
                self.goal(note, "memory is unchanged", hyp, EQ(x, y))
                continue
            if grown == 0:
                seen.add("found")
                self.goal(note, "found: a node has the key", hyp, And(v0.live(h), Not(ishead), keq(kh, key)))
                if kind == "put":
                    vo = 1 if L.nkeys == 1 else 2
                    self.goal(note, "found: the value is replaced", hyp, EQ(L.word(o.mem, h, vo, cs), more[0]))
                    at = add(L.addr(h), vo)
                    hg = hyp + [g != bv(at)]
                    self.goal(note, "found: nothing else changes", hg, EQ(load(o.mem, g, hg), load(mem, g, hg)))
                    if name == "insert_slot":
                        self.goal(note, "found: returns the old value", hyp, And(len(stack) == 1, EQ(stack[-1], L.word(mem, h, vo, cs))) if stack else False)
                else:
                    self.goal(note, "found: reports a warm access", hyp, len(stack) >= 1 and EQ(stack[-1], 0))
                    if L.nkeys == 2:
                        self.goal(note, "found: the pointer is the value of the node with the key", hyp, len(stack) == 2 and EQ(stack[0], add(L.addr(h), 2)))
                    self.goal(note, "found: memory is unchanged", hyp, EQ(load(o.mem, g, cs), load(mem, g, cs)))
                continue
            seen.add("new")
            self.goal(note, "the list grows by at most one node", hyp, grown == L.size)
            self.inserted(note, L, o, mem, v0, n, h, key, hyp, P, cs)
            if kind == "put":
                vo = 1 if L.nkeys == 1 else 2
                self.goal(note, "new: the value is stored", hyp, EQ(L.word(o.mem, n, vo, cs), more[0]))
                if name == "insert_slot":
                    self.goal(note, "new: returns the value", hyp, len(stack) == 1 and EQ(stack[-1], more[0]))
            else:
                self.goal(note, "new: reports a cold access", hyp, len(stack) >= 1 and EQ(stack[-1], 1))
                if L.nkeys == 2:
                    self.goal(note, "new: the pointer is the value of the new node", hyp, len(stack) == 2 and EQ(stack[0], add(L.addr(n), 2)))
                self.journal(note, L, o, mem, hyp, key, sizes, name)
            self.frame(note, L, o, mem, n, g, hyp, grown, kind == "insert", name)
        self.lemmas(note, kind)
        want = {"remove": {"removed"}, "search": {"found", "absent"}}.get(kind, {"found", "new"})
        for w in want - seen:
            note(f"the outcome '{w}' is possible", False, "no execution of the code ends this way")

    def lemmas(self, note, kind):
        """the invariant of the list follows from the effect of the operation.  Keys are integers here: the lexicographic order on
        tuples of words embeds into the integers, and the lemmas use nothing but the order."""
        I = z3.IntSort()
        key, live, J = z3.Function("key", I, I), z3.Function("live", I, z3.BoolSort()), z3.Function("succ", I, I)
        h, n, x, p, q = z3.Ints("h n x p q")

        def rules(key, live, J, n, p, q):
            both_ = z3.And(0 <= p, p < n, 0 <= q, q < n, live(p), live(q))
            return {
                "the successor of a node is a node of the list": z3.Implies(z3.And(0 <= p, p < n, live(p)), z3.And(0 <= J(p), J(p) < n, live(J(p)))),
                "the head stays in place": z3.And(live(z3.IntVal(0)), 0 < n),
                "keys are distinct": z3.Implies(z3.And(both_, p != 0, q != 0, key(p) == key(q)), p == q),
                "the chain is sorted and complete": z3.Implies(z3.And(both_, q != 0), z3.Not(z3.And(z3.Or(p == 0, key(p) < key(q)), z3.Or(J(p) == 0, key(q) < key(J(p)))))),
                "the chain ascends": z3.Implies(z3.And(0 <= p, p < n, live(p), J(p) != 0, p != 0), key(p) < key(J(p))),
                "no two nodes share a successor": z3.Implies(z3.And(both_, J(p) == J(q)), p == q)}
        idx = [z3.IntVal(0), h, J(h), J(J(h)), p, q, J(p), J(q)]
        hyp = [f for a in idx for b in idx for f in rules(key, live, J, n, a, b).values()] + [0 <= h, h < n, live(h)]
        bracket = [z3.Or(h == 0, key(h) < x), z3.Or(J(h) == 0, x < key(J(h)))]
        inn = [0 <= p, p < n, live(p), p != 0]
        if kind != "remove":
            self.plain(note, "lemma: a key between the keys of a node and its successor is absent", hyp + bracket + inn, key(p) != x)
        if kind in ("insert", "put"):
            K2 = lambda i: z3.If(i == n, x, key(i))
            L2 = lambda i: z3.Or(i == n, live(i))
            J2 = lambda i: z3.If(i == h, n, z3.If(i == n, J(h), J(i)))
            for what, f in rules(K2, L2, J2, n + 1, p, q).items():
                self.plain(note, "invariant after the insertion: " + what, hyp + bracket, f)
        if kind == "remove":
            g = J(h)
            L2 = lambda i: z3.And(i != g, live(i))
            J2 = lambda i: z3.If(i == h, J(g), J(i))
            for what, f in rules(key, L2, J2, n, p, q).items():
                self.plain(note, "invariant after the removal: " + what, hyp + [g != 0], f)
            self.plain(note, "lemma: afterwards the key is absent", hyp + inn + [g != 0, L2(p)], key(p) != key(g))
            self.plain(note, "lemma: the removed node is not its own predecessor", hyp + [g != 0], g != h)

    def plain(self, note, what, conds, goal):
        s = z3.Solver()
        s.set("timeout", LONG)
        s.add(*conds, z3.Not(goal))
        note(what, s.check() == z3.unsat, "not proved")

    def inserted(self, note, L, o, mem, v0, n, h, key, hyp, P, cs):
        """the effect of an insertion after node h"""
        J = v0.J
        new = View(L, o.mem, add(n, 1), J, cs)
        self.goal(note, "new: the key lies between the keys of the hinted node and its successor", hyp,
                  And(v0.live(h), Or(EQ(h, 0), klt(v0.key(h), key)), Or(EQ(J(h), 0), klt(key, v0.key(J(h))))))
        self.goal(note, "new: the new node has the key", hyp, keq(new.key(n), key))
        self.goal(note, "new: the new node follows the hinted one", hyp, And(EQ(new.nxt(h), L.addr(n)), EQ(new.nxt(n), v0.nxt(h))))
        hp = hyp + [z3.ULT(P, n)]
        self.goal(note, "other nodes stay", hp, And(z3.Implies(Not(EQ(P, h)), T(EQ(new.nxt(P), v0.nxt(P)))), *[EQ(L.word(o.mem, P, w, cs), L.word(mem, P, w, cs)) for w in range(L.size - 1)]))

    def removed(self, note, L, o, mem, v0, n, h, hyp, P, cs):
        """the effect of the removal of the successor of node h"""
        j = v0.J(h)
        new = View(L, o.mem, n, v0.J, cs)
        self.goal(note, "removes the successor of a node of the list", hyp, And(v0.live(h), v0.live(j), Not(EQ(j, 0))))
        self.goal(note, "the removed node leaves the chain", hyp, And(EQ(new.nxt(j), MAX), EQ(new.nxt(h), v0.nxt(j))))
        hp = hyp + [z3.ULT(P, n)]
        self.goal(note, "other nodes stay", hp, And(z3.Implies(And(Not(EQ(P, h)), Not(EQ(P, j))), T(EQ(new.nxt(P), v0.nxt(P)))), *[EQ(L.word(o.mem, P, w, cs), L.word(mem, P, w, cs)) for w in range(L.size - 1)]))

    def possible(self, cs):
        return check(cs + mul_facts(cs), SHORT)[0] != z3.unsat

    def frame(self, note, L, o, mem, n, g, hyp, grown, journal, name):
        c = self.k.c
        lo, hi = self.k.c, 0
        outside = [z3.Or(z3.ULT(g, L.seg), z3.UGE(g, L.seg + (1 << 32))), g != L.lenaddr]
        for seg, fld in (("SEGMENT_JOURNAL", "GLOBAL_METADATA_JOURNAL_LEN"), ("SEGMENT_JOURNAL_DATA", "GLOBAL_METADATA_JOURNAL_DATA_LEN")):
            if journal:
                outside += [z3.Or(z3.ULT(g, bv(add(c[seg], load(mem, c[fld], [])))), z3.UGE(g, c[seg] + (1 << 32))), g != c[fld]]
        if name == "insert_account_with_overwrite" or name == "insert_slot":
            f = "GLOBAL_METADATA_TRIE_DATA_SIZE"
            outside += [z3.Or(z3.ULT(g, bv(add(c["SEGMENT_TRIE_DATA"], load(mem, c[f], [])))), z3.UGE(g, c["SEGMENT_TRIE_DATA"] + (1 << 32))), g != c[f]]
        hg = hyp + outside
        self.goal(note, "frame: nothing outside the list changes" + (" except the journal's end" if journal else ""), hg, EQ(load(o.mem, g, hg), load(mem, g, hg)))

    def journal(self, note, L, o, mem, hyp, key, sizes, name):
        c = self.k.c
        jl, dl = sizes["GLOBAL_METADATA_JOURNAL_LEN"], sizes["GLOBAL_METADATA_JOURNAL_DATA_LEN"]
        typ = c["JOURNAL_ENTRY_ACCOUNT_LOADED" if L.nkeys == 1 else "JOURNAL_ENTRY_STORAGE_LOADED"]
        want = [(add(c["SEGMENT_JOURNAL"], jl), dl), (add(c["SEGMENT_JOURNAL_DATA"], dl), typ), (c["GLOBAL_METADATA_JOURNAL_LEN"], add(jl, 1)),
                (c["GLOBAL_METADATA_JOURNAL_DATA_LEN"], add(dl, 1 + len(key)))]
        want += [(add(c["SEGMENT_JOURNAL_DATA"], add(dl, 1 + i)), x) for i, x in enumerate(key)]
        self.goal(note, "new: the journal records the insertion", hyp, And(*[EQ(load(o.mem, a, hyp), v) for a, v in want]))

    def goal(self, note, what, conds, goal):
        goal = T(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        import time; t0 = time.time()
        s, m = prove(conds, goal, LONG)
        if DEBUG and time.time() - t0 > 1: print('     ', what, s, round(time.time() - t0, 1))
        if s == "ok":
            note(what, True)
            return True
        note(what, False, "not proved (the solver gave no answer)" if s == "unknown" else "not valid; counterexample: " + ", ".join(
            f"{d.name()}={m[d]}" for d in m.decls() if d.arity() == 0)[:600])
        return False


class ListSpec:
    def __init__(self, dump):
        self.k = kbase.Kernel(dump)

    def tasks(self):
        return [("E07", "op", (o[0],)) for o in sorted(ListOps.OPS, key=lambda o: "insert" not in o[0])] + [("E07", "op", (n,)) for n in SPECIAL]

    def op(self, name):
        ListOps(self.k, self.r, "E07").run(name)


# ---------------------------------------------------------------- concrete runs
def concrete_lists(k, L, op, n=400, seed=3, budget=60):
    """runs the routine on concrete lists with every kind of hint; returns the description of a run that contradicts the contract"""
    import random, time
    name, _, kind, extra = op
    rng, t0, c = random.Random(seed), time.time(), k.c
    vo = {("accounts", "put"): 1, ("slots", "put"): 2, ("accounts", "search"): 1, ("slots", "search"): 2}.get((L.name, kind))
    pool = [0, 1, 2, 5, 1 << 32, 1 << 160, (1 << 255) + 3, MASK - 1]
    for _ in range(n):
        if time.time() - t0 > budget:
            return None
        keys = sorted({tuple(rng.choice(pool) for _ in range(L.nkeys)) for _ in range(rng.randrange(0, 6))})
        gone = [tuple(rng.choice(pool) for _ in range(L.nkeys)) for _ in range(rng.randrange(0, 3))]
        nodes = [((MASK,) * L.nkeys, True)] + rng.sample([(x, True) for x in keys] + [(x, False) for x in gone], len(keys) + len(gone))
        N = len(nodes)
        at = lambda i: L.seg + L.size * i
        order = [0] + sorted((i for i in range(1, N) if nodes[i][1]), key=lambda i: nodes[i][0])
        d = {L.lenaddr: at(N), c["GLOBAL_METADATA_JOURNAL_LEN"]: rng.randrange(9), c["GLOBAL_METADATA_JOURNAL_DATA_LEN"]: rng.randrange(9),
             c["GLOBAL_METADATA_TRIE_DATA_SIZE"]: rng.randrange(1, 99)}
        for i, (key, live) in enumerate(nodes):
            for j in range(L.size):
                d[at(i) + j] = key[j] if j < L.nkeys else rng.randrange(1, 1000)
            d[at(i) + L.size - 1] = at(order[(order.index(i) + 1) % len(order)]) if live else MASK
        key = rng.choice([x for x, _ in nodes[1:]] + [tuple(rng.choice(pool) for _ in range(L.nkeys))])
        val, ret = rng.randrange(1 << 40), 0xdead0000
        cur = {nodes[i][0]: tuple(d[at(i) + j] for j in range(L.nkeys, L.size - 1)) for i in order[1:]}
        base = L.seg // L.size
        hints = [i if L.hint == "index" else base + i for i in range(-1, N + 2)] + [0, 1, (1 << 256) // L.size + base + 1, MASK, rng.getrandbits(256)]
        for h in hints:
            mem = Mem.concrete(dict(d))
            st = k.state(list(key) + [val] * extra + [ret], mem, 3 << 64)
            try:
                (kd, o), = Exec(k.p, {}, [("panic", k.p.labels["panic"]), ("ret", ret)], hint=lambda *a: h & MASK).run(st, k.label(name))
            except Stuck as e:
                if DEBUG: print(e)
                continue
            STAT[kd] = STAT.get(kd, 0) + 1
            if kd == "panic":
                continue
            rd = lambda a: norm(bv(load(o.mem, a, [])))
            why, seq, i, M = None, [], rd(L.seg + L.size - 1), (rd(L.lenaddr) - L.seg) // L.size
            while i != L.seg and len(seq) <= N + 2:
                if i == MASK or i < L.seg or (i - L.seg) % L.size or i >= at(M):
                    why = f"the chain of the list reaches {i:#x}, which is not a node"
                    break
                seq.append((tuple(rd(i + j) for j in range(L.nkeys)), tuple(rd(i + j) for j in range(L.nkeys, L.size - 1))))
                i = rd(i + L.size - 1)
            new = dict(cur)
            out = [norm(bv(x)) for x in o.stack]
            want = None
            if kind == "remove":
                if key not in cur:
                    why = why or "the key is absent, but its removal succeeds"
                new.pop(key, None)
                want = []
            elif kind == "search":
                want = [cur[key][vo - L.nkeys] if key in cur else val if extra else 0]
            elif kind == "insert":
                if key not in cur:
                    new[key] = None
                want = out if not out or out[-1] == int(key not in cur) else [int(key not in cur)]
            else:
                new[key] = None
                if name == "insert_slot":
                    want = [cur[key][0] if key in cur else val]
            if not why and [x for x, _ in seq] != sorted(new):
                why = f"the list then holds the keys {[tuple(map(hex, x)) for x, _ in seq]}, expected {[tuple(map(hex, x)) for x in sorted(new)]}"
            if not why:
                for x, vs in seq:
                    if kind == "put" and x == key:
                        if vs[0] != val:
                            why = f"the value stored under {x[0]:#x} is {vs[0]:#x}"
                    elif x in cur and vs != cur[x]:
                        why = f"the data of another key {tuple(map(hex, x))} changed"
            if not why and want is not None and out != want:
                why = f"the routine returns {list(map(hex, out))}, expected {list(map(hex, want))}"
            if why:
                return (f"routine {name} of the assembled kernel, run on the list '{L.name}' with the nodes (key, in the list) "
                        f"{[(tuple(map(hex, x)), l) for x, l in nodes]}, key {tuple(map(hex, key))}{f', value {val:#x}' if extra else ''}, prover's hint {h & MASK:#x}:\n{why}")
    return None


# ---------------------------------------------------------------- the initial lists
def store_initial(self, L, note):
    """the lists as the prover supplies them: the routine accepts them only in order, computes their length and copies the initial values"""
    from .kloop import Loop
    k, c = self.k, self.k.c
    accounts = L.nkeys == 1
    name = "store_initial_accounts" if accounts else "store_initial_slots"
    S5 = L.size
    ret, ctx = z3.BitVec("retdest", W), z3.BitVec("ctx", W)
    mem0 = Mem.fresh("mem0")
    st = k.state([ret], mem0, ctx)
    st.assume(z3.ULT(ctx, 1 << 96), ctx & ((1 << 64) - 1) == 0)
    tf = c["GLOBAL_METADATA_TRIE_DATA_SIZE"]
    T0 = load(mem0, tf, [])
    st.assume(ULT(T0, 1 << 31))        # established by hash_initial_tries (see below)
    ends = [("panic", k.p.labels["panic"]), ("ret", ret)]
    i, P, g = index("i"), index("p"), z3.BitVec("any_address", W)
    raw = mem0
    w0 = lambda p, j: load(raw, add(L.addr(p), j), st.conds)
    TD = c["SEGMENT_TRIE_DATA"]

    vo = 2 if accounts else 3
    gs = [(add(L.addr(index("q")), w), []) for w in range(S5)] + [(g, [z3.Or(z3.ULT(g, L.seg), z3.UGE(g, L.seg + S5 * NMAX))])]
    if accounts:
        at = add(TD, T0)
        gs[-1][1].append(z3.Or(z3.ULT(g, bv(at)), z3.UGE(g, bv(add(at, 4 * NMAX)))))
        copies = [(add(add(at, mul(4, index("q"))), w), []) for w in range(4)]

    def run(disjoint):
        nonlocal mem0
        base = []
        garbage = z3.Function("copied", BV, BV)
        n = index("accounts")
        S0 = w0(1, 1) if accounts else 0
        if disjoint:
            base += [z3.ULT(n, NMAX - 2), ULE(add(S0, mul(4, n)), T0), ULT(S0, T0)]
            # established by the first pass
            def pay(a):
                x = split(a, L)
                if x is None:
                    return inside(a, L.seg, L.seg + S5 * NMAX), lambda: fresh("any")
                if x[1] != 1:
                    return False, None
                return And(ULT(0, x[0]), ULE(x[0], n)), lambda: add(S0, mul(4, sub(x[0], 1)))
            mem0 = mem0.bulk(pay)
            st.mem = mem0

        def mem(j):
            def f(a):
                x = split(a, L)
                if x is None:
                    return inside(a, L.seg, L.seg + S5 * NMAX), lambda: fresh("any")
                p, w = x
                if w != vo:
                    return False, None
                return And(ULT(0, p), ULE(p, j)), lambda: (add(T0, mul(4, sub(p, 1))) if accounts else load(mem0, sub(a, 1), LOADCONDS[0]))
            m = mem0.bulk(f)
            if accounts:
                def h(a):
                    cs = list(LOADCONDS[0])
                    at = add(TD, T0)
                    x = split(sub(a, at), None)
                    if x:
                        return And(ULT(x[0], j)), lambda: (load(mem0, add(TD + x[1], add(S0, mul(4, x[0]))), cs) if disjoint else garbage(bv(a)))
                    return And(Not(ULT(a, at)), ULT(a, add(at, mul(4, j)))), lambda: (load(mem0, add(sub(a, T0), S0), cs) if disjoint else garbage(bv(a)))
                m = m.bulk(h).store(tf, add(T0, mul(4, j)))
            return m

        def inv(j):
            j1 = add(j, 1)
            d = {"the key of the head": EQ(w0(0, 0), MAX), "the head points to the first node": EQ(w0(0, S5 - 1), L.addr(1))}
            inr = And(ULT(0, P), ULE(P, j))
            p1 = add(P, 1)
            d["nodes passed are consecutive"] = z3.Implies(inr, T(EQ(w0(P, S5 - 1), L.addr(p1))))
            d["keys of nodes passed increase"] = z3.Implies(inr, klt([w0(P, x) for x in range(L.nkeys)], [w0(p1, x) for x in range(L.nkeys)]))
            if accounts and not disjoint:
                d["payloads are consecutive"] = EQ(w0(j1, 1), add(S0, mul(4, j)))
            return d
        lp = Loop(k, st, k.label(name), ends, note, lambda w, cs, gl: self.goal(note, w, cs, gl))
        conds = base + [z3.ULT(i, NMAX - 2)]
        if disjoint:
            conds.append(z3.ULT(i, n))
        extra = conds
        if not disjoint:
            # the list is empty
            for kd, o in lp.direct:
                if kd == "panic":
                    continue
                cs = o.conds
                self.goal(note, "ends by returning", [], kd == "ret")
                self.goal(note, "empty: the head is alone", cs, And(EQ(w0(0, 0), MAX), EQ(w0(0, S5 - 1), L.seg)))
                want = mem0
                for f in lens:
                    want = want.store(c[f], L.addr(1))
                self.goal(note, "empty: memory", cs, EQ(load(o.mem, g, cs), load(want, g, cs)))
        exits = lp.induct(i, conds, mem, inv, extra, havoc=not disjoint, gs=gs + ([(x, [] if disjoint else [z3.UGT(index("q"), i)]) for x, _ in copies] if accounts else []))
        for kd, o in exits:
            if kd == "panic":
                continue
            cs = o.conds
            self.goal(note, "ends by returning", [], kd == "ret")
            N = add(i, 2)
            last = add(i, 1)
            if not disjoint:
                self.goal(note, "the last node points to the head", cs, EQ(w0(last, S5 - 1), L.seg))
                if accounts:
                    self.goal(note, "payloads and copies do not overlap: the copies start after the last payload", cs, And(ULE(add(S0, mul(4, last)), T0), ULT(S0, T0)))
                    continue
            elif accounts:
                cs = cs + [T(EQ(n, last))]
            want = mem(last)
            for f in lens:
                want = want.store(c[f], L.addr(N))
            for h, hc in gs + (copies if accounts else []):
                hs = cs + hc
                self.goal(note, "memory: lengths, initial values, copies; nothing else changes", hs, EQ(load(o.mem, h, hs), load(want, h, hs)))
            self.goal(note, "nothing is left on the stack", cs, len(o.stack) == 0)
    pre = "GLOBAL_METADATA_INITIAL_" + ("ACCOUNTS" if accounts else "STORAGE") + "_LINKED_LIST_LEN"
    lens = [L.lenaddr_name, pre]
    run(False)
    if accounts:
        run(True)
    # a strictly increasing sequence: what the invariant of the lists follows from
    f = [z3.Function(f"key{x}", z3.BitVecSort(IX), BV) for x in range(L.nkeys)]
    K = lambda p: [h(z3.Extract(IX - 1, 0, bv(p))) for h in f]
    Q, R, N = index("q"), index("r"), index("nodes")
    lt3 = [klt(K(P), K(Q)), klt(K(Q), K(add(Q, 1)))]
    self.goal(note, "lemma: increasing neighbours give an increasing sequence (induction step)", lt3, klt(K(P), K(add(Q, 1))))
    up = lambda p, q: z3.Implies(z3.And(bv(p) != 0, z3.ULT(bv(p), bv(q)), z3.ULT(bv(q), N)), klt(K(p), K(q)))
    J = lambda p: ite(T(EQ(add(p, 1), N)), 0, add(p, 1))
    inn = [z3.ULT(P, N), z3.ULT(Q, N), z3.ULT(N, NMAX)]
    facts = [up(a, b) for a in (P, Q, J(P), J(Q)) for b in (P, Q, J(P), J(Q))]
    self.goal(note, "lemma: keys are distinct", inn + facts + [P != 0, Q != 0, *[x == y for x, y in zip(K(P), K(Q))]], EQ(P, Q))
    self.goal(note, "lemma: the chain is sorted and complete", inn + facts + [Q != 0], Not(And(Or(EQ(P, 0), klt(K(P), K(Q))), Or(EQ(J(P), 0), klt(K(Q), K(J(P)))))))
    self.goal(note, "lemma: no two nodes share a successor", inn + [T(EQ(J(P), J(Q)))], EQ(P, Q))


def split(a, L):
    """an address of the form L.addr(p) + w -> (p, w); p is far from an overflow"""
    c, d = linear(norm(bv(a) - (L.seg if L else 0)))
    size = L.size if L else 4
    if c >= 1 << 255:
        c -= 1 << 256
    x = c // size
    if not -(1 << 20) < x < 1 << 40:
        return None
    for k, t in d.values():
        if k % size or k > 100:
            return None
        if interval(t, {})[1] >= 1 << 32:
            return None
        x = add(x, mul(k // size, t))
    return x, c % size


def init_lists(self, note):
    """both access lists start with their head alone"""
    k, c = self.k, self.k.c
    ret, ctx, g = z3.BitVec("retdest", W), z3.BitVec("ctx", W), z3.BitVec("any_address", W)
    mem0 = Mem.fresh("mem0")
    st = k.state([ret], mem0, ctx)
    want = mem0.store(c["GLOBAL_METADATA_ACCESS_LIST_DATA_COST"], 0)
    for ln in ("accessed addresses", "accessed storage keys"):
        L = self.lists[ln]
        want = want.store(L.seg, MAX).store(add(L.seg, L.size - 1), L.seg).store(L.lenaddr, L.addr(1))
    for kd, o in Exec(k.p, {}, [("panic", k.p.labels["panic"]), ("ret", ret)]).run(st, k.label("init_access_lists")):
        self.goal(note, "ends by returning", o.conds, kd == "ret")
        self.goal(note, "memory: both lists consist of their head", o.conds, EQ(load(o.mem, g, o.conds), load(want, g, o.conds)))
        self.goal(note, "nothing is left on the stack", [], len(o.stack) == 0)



def remove_all(self, note):
    """remove_all_account_slots leaves no slot of the account in the list, and every other slot as it was"""
    from .kloop import Loop
    k, c, L = self.k, self.k.c, self.lists["slots"]
    name = "remove_all_account_slots"
    addr, ret, ctx, n = z3.BitVec("addr_key", W), z3.BitVec("retdest", W), z3.BitVec("ctx", W), index("nodes")
    mem0 = Mem.fresh("mem0").store(L.lenaddr, L.addr(n))
    P, Q, g, h = index("p"), index("q"), z3.BitVec("any_address", W), index("h")
    goal = lambda w, cs, gl: self.goal(note, w, cs, gl)
    ends = [("panic", k.p.labels["panic"]), ("fault", k.label("fault_exception")), ("ret", ret)]

    def start():
        st = k.state([addr, ret], mem0, ctx)
        return st.assume(z3.ULT(ctx, 1 << 96), ctx & ((1 << 64) - 1) == 0, z3.ULT(n, NMAX - 1), z3.UGE(n, 1), z3.ULT(addr, MAX))
    lp = Loop(k, start(), k.label(name), ends, note, goal)
    for s in lp.first:
        if len(s.inputs) != 1:
            return note("one hint is used", False, f"{len(s.inputs)} hints")
        goal("a hint is only accepted when it points to a node of the list", s.conds + mul_facts(s.conds), ULT(L.index(s.inputs[0][1]), n))
    for kd, s in lp.direct:
        goal("every execution passes the loop", s.conds, kd == "panic")
    hv = h if L.hint == "index" else norm(h + L.seg // L.size)
    st = start().assume(z3.ULT(h, n))
    lp = Loop(k, st, k.label(name), ends, note, goal, hint=lambda ex, s, pc: hv)
    outside = [z3.Or(z3.ULT(g, L.seg), z3.UGE(g, L.seg + (1 << 32)))]

    def rel(m, p, cs):
        """the list compared with the one at the start, at node p"""
        k0 = L.word(mem0, p, 0, cs)
        a, b = L.live(m, p, cs), L.live(mem0, p, cs)
        return And(*[EQ(L.word(m, p, w, cs), L.word(mem0, p, w, cs)) for w in range(L.size - 1)], z3.Implies(a, b), z3.Implies(Not(EQ(k0, addr)), a == b))
    below = Or(EQ(h, 0), ULT(L.word(mem0, h, 0, st.conds), addr))
    for s in lp.first:
        hyp = s.conds + outside
        goal("the predecessor lies before the account's slots", s.conds, below)
        goal("nothing changes before the loop", hyp, EQ(load(s.mem, g, hyp), load(mem0, g, hyp)))
        for w in range(L.size):
            goal("nothing changes before the loop", s.conds + [z3.ULT(P, n)], EQ(L.word(s.mem, P, w, s.conds), L.word(mem0, P, w, s.conds)))
    m, J = Mem.fresh("mem1"), ghost("succ")
    cs0 = st.conds + [T(below)]
    idx = [h, J(h), J(J(h)), 0, P, Q, J(P), J(Q)]
    t = st.copy()
    t.stack, t.mem = lp.at(z3.BitVec("iteration", W)), m
    v = View(L, m, n, J, cs0)
    t.assume(below, EQ(load(m, L.lenaddr, cs0), L.addr(n)), z3.Implies(outside[0], load(m, g, cs0) == load(mem0, g, cs0)))
    t.assume(*v.one(h).values(), *v.one(J(h)).values(), *v.head().values(), *[rel(m, i, cs0) for i in (h, J(h), J(J(h)), 0)])
    seen = set()
    for kd, o in lp.exec(loops=lp.stop).run(t, lp.head):
        if kd == "panic":
            continue
        cs = o.conds
        v0 = View(L, m, n, J, cs)
        hyp = cs + v0.facts(idx) + [rel(m, i, cs) for i in idx]
        seen.add(kd)
        if kd == "head":
            for x, y in zip(o.stack, t.stack):
                goal("loop: the stack at the head", cs, EQ(x, y))
            goal("the removed slot belongs to the account", hyp, And(Not(EQ(J(h), 0)), v0.live(J(h)), EQ(v0.key(J(h))[0], addr)))
            self.removed(note, L, o, m, v0, n, h, hyp, P, cs)
            goal("all other slots stay", hyp + [z3.ULT(P, n)], rel(o.mem, P, cs))
            fo = hyp + outside
            goal("frame: nothing outside the list changes", fo, EQ(load(o.mem, g, fo), load(m, g, fo)))
            goal("loop: the length stays", hyp, EQ(load(o.mem, L.lenaddr, cs), L.addr(n)))
        else:
            goal("ends by returning", [], kd == "ret")
            goal("afterwards the account has no slot", hyp + [T(And(v0.inn(P), v0.live(P), Not(EQ(P, 0))))], Not(EQ(v0.key(P)[0], addr)))
            goal("no result", [], len(o.stack) == 0)
            goal("the last round changes nothing", hyp, EQ(load(o.mem, g, cs), load(m, g, cs)))
    self.lemmas(note, "remove")
    for w in {"head", "ret"} - seen:
        note("a slot can be removed, and the routine can end", False, f"no execution gives '{w}'")


SPECIAL = {
    "store_initial_accounts": lambda o, note: store_initial(o, o.lists["accounts"], note),
    "store_initial_slots": lambda o, note: store_initial(o, o.lists["slots"], note),
    "remove_all_account_slots": remove_all, "init_access_lists": init_lists}
