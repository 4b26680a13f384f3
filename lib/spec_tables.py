"""Contracts of the logic, byte packing, memory and memory continuation tables."""
from .air import *
from .lift import *
from .spec_cpu import one_hot
from .spec_arith import counter_max, forced_bit

ROOT_BUDGET = 20000


def shift(p, k):
    return {tuple(v + k for v in m): c for m, c in p.items()}


def shift_cons(cs, k):
    return [[shift(f, k) for f in c] for c in cs]


def refute(state, near=(), budget=None):
    """True when every case of the state is contradictory (case splits on the pending disjunctions,
    nearest to the variables of interest first)."""
    budget = budget if budget is not None else [ROOT_BUDGET]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    near = set(near)
    best = None
    for fs in state.pending:
        if len(fs) < 2:
            continue
        vs = set().union(*[pvars(f) for f in fs])
        k = (len(fs) > 2, not (vs & near), sum(map(len, fs)))
        if best is None or k < best[0]:
            best = (k, fs, vs)
    if best is None:
        return False
    _, pick, vs = best
    rest = [f for f in state.pending if f is not pick]
    done = []
    for f in pick:
        t = state.copy()
        t.pending = []
        try:
            for d in done:
                t.assume_nonzero(d)
            t.add(rest + [[f]])
            t.again()
        except Contradiction:
            done.append(f)
            continue
        if not refute(t, near | vs, budget):
            return False
        done.append(f)
    return True


def impossible(cons, zero=(), nonzero=()):
    """The constraints, with the given polynomials zero and nonzero, have no solution."""
    try:
        s = State()
        for z in nonzero:
            s.assume_nonzero(z)
        s.add([[z] for z in zero])
        s.add(cons)
        s.again()
        near = set()
        for z in list(zero) + list(nonzero):
            near |= pvars(z)
        return refute(s, near)
    except Contradiction:
        return True


class Base:
    def __init__(self, model, report):
        self.m, self.r = model, report

    def looked(self, table):
        ls = [(l, s) for l, s in self.m.ctls if s.table == table]
        if len(ls) != 1:
            raise Unsupported(f"{table} is looked up by {len(ls)} lookups")
        return ls[0]

    def lookup_ranges(self, T):
        """Columns (of this row) whose value is looked up in a counter: {var: max}; unfiltered."""
        out = {}
        for lk in T.lookups:
            hi = counter_max(T, column_poly(lk["table_column"], T.n))
            if hi is None:
                continue
            for c, f in zip(lk["columns"], lk["filter_columns"]):
                p = column_poly(c, T.n)
                if filter_poly(f, T.n) == const(1) and len(p) == 1 and degree(p) == 1 and list(p.values()) == [1]:
                    out[next(iter(p))[0]] = hi
        return out


class LogicSpec(Base):
    """AND, OR, XOR: the message of a row is (opcode, a, b, result) in 32-bit limbs."""
    OPS = {0x16: lambda a, b: pmul(a, b), 0x17: lambda a, b: padd(padd(a, b), pmul(a, b), -1), 0x18: lambda a, b: padd(padd(a, b), pmul(a, b), -2)}
    NAME = {0x16: "AND", 0x17: "OR", 0x18: "XOR"}

    def tasks(self):
        return [("L01", "check", ())]

    def check(self):
        T = self.m.tables["Logic"]
        _, side = self.looked("Logic")
        add = lambda s, w, ok, d="": self.r.add("L01", s, w, ok, d)
        allc = T.constraints({}, ("all", "trans", "first", "last"))
        bits = {v for v in range(T.n) if forced_bit(allc, v)}
        fl = sorted(pvars(side.filter))
        add("selector columns", "are bits", set(fl) <= bits, str([T.nm(v) for v in fl if v not in bits]))
        small = [c for c in allc if all(pvars(f) <= set(fl) for f in c)]
        pair = [(a, b) for a in fl for b in fl if a < b and sat_flags_(small, {v: int(v in (a, b)) for v in fl})]
        add("selector columns", "at most one is set", not pair and one_hot(small, fl), str(pair))
        seen = set()
        for on in fl:
            e = {v: int(v == on) for v in fl}
            sub = lambda p: substitute(p, {v: const(x) for v, x in e.items()})
            f, op = sub(side.filter), sub(side.cols[0])
            who = f"opcode {show(op)}"
            add(T.nm(on), "sends one message of one of the three opcodes", f == const(1) and is_const(op) and cval(op) in self.OPS, who)
            if not (is_const(op) and cval(op) in self.OPS):
                continue
            op = cval(op)
            seen.add(op)
            name = self.NAME[op]
            st = State(T.constraints(e))
            a, b, r = side.cols[1:9], side.cols[9:17], side.cols[17:25]
            for i in range(8):
                ba, bb = self.bits_of(sub(a[i]), bits), self.bits_of(sub(b[i]), bits)
                add(name, f"limb {i} of the operands is 32 bits", ba is not None and bb is not None, T.show(a[i])[:200])
                if ba is None or bb is None:
                    continue
                want = psum(pscale(self.OPS[op](var(x), var(y)), 1 << k) for k, (x, y) in enumerate(zip(ba, bb)))
                got = st.red(sub(r[i]))
                d = padd(got, st.red(want), -1)
                # multilinear in bits: the difference must vanish identically
                add(name, f"limb {i} of the result is the bitwise {name} of the operands'", not d, T.show(d)[:300])
        add("logic table", "answers AND, OR and XOR", seen == set(self.OPS), str(seen))

    def bits_of(self, p, bits):
        """[32 bit columns] such that p = sum 2^k * bit_k"""
        inv = {}
        for m, c in p.items():
            if len(m) != 1 or m[0] not in bits:
                return None
            inv[c] = m[0]
        ks = [inv.get(1 << k) for k in range(32)]
        return ks if None not in ks and len(p) == 32 and len(set(ks)) == 32 else None


def sat_flags_(cs, e):
    return all(any(peval(f, e) == 0 for f in c) for c in cs)


class PackSpec(Base):
    """Byte packing: the message (direction, address, length, time, value) of a row is answered by
    exactly `length` byte operations, most significant byte first."""

    def tasks(self):
        return [("B01", "check_static", ())] + [("B01", "check_len", (n,)) for n in range(0, 33)]

    def setup(self):
        T = self.T = self.m.tables["BytePacking"]
        _, self.side = self.looked("BytePacking")
        _, mem = self.looked("Memory")
        self.msgs = [s for l, s in self.m.ctls for s in l if s.table == "BytePacking"]
        self.bus = [s for l, s0 in self.m.ctls if s0.table == "Memory" for s in l if s.table == "BytePacking"]
        self.allc = T.constraints({}, ("all", "trans", "first", "last"))
        self.bits = {v for v in range(T.n) if forced_bit(self.allc, v)}
        self.sel = sorted(pvars(self.side.filter))

    def check_static(self):
        self.setup()
        T, add = self.T, lambda s, w, ok, d="": self.r.add("B01", s, w, ok, d)
        add("length selectors", "are bits", set(self.sel) <= self.bits, str([T.nm(v) for v in self.sel if v not in self.bits]))
        small = [c for c in self.allc if all(pvars(f) <= set(self.sel) for f in c)]
        pair = [(T.nm(a), T.nm(b)) for a in self.sel for b in self.sel if a < b and sat_flags_(small, {v: int(v in (a, b)) for v in self.sel})]
        tot = {(v,): 1 for v in self.sel}
        hot = any(all({m: x for m, x in normalize(g).items() if m} == tot for f in c for g in split_linear(f)) and
                  {(-cval(padd(normalize(g), tot, -1))) % P for f in c for g in split_linear(f)} <= {0, 1} for c in small)
        add("length selectors", "at most one is set", not pair and hot, str(pair[:4]))
        add("byte packing table", "sends nothing but its byte operations", len(self.msgs) == len(self.bus), "")
        lens = set()
        for on in self.sel:
            e = {v: const(int(v == on)) for v in self.sel}
            ln = substitute(self.side.cols[4], e)
            if is_const(ln):
                lens.add(cval(ln))
        add("lengths", "are 1 to 32", lens == set(range(1, 33)), str(sorted(lens)))
        rng = self.lookup_ranges(T)
        vb = set()
        for s in self.bus:
            vb |= pvars(s.cols[4])
        bad = [T.nm(v) for v in vb if not (v in rng and rng[v] <= 255)]
        add("bytes", "are range-checked to 8 bits", not bad, str(bad))
        d = self.side.cols[0]
        v = sorted(pvars(d))
        ok = len(v) == 1 and (v[0] in self.bits)
        add("direction", "is a bit", ok, T.show(d))

    def check_len(self, n):
        self.setup()
        T, side, add = self.T, self.side, lambda s, w, ok, d="": self.r.add("B01", s, w, ok, d)
        hits = []
        for on in [None] + self.sel:
            e = {v: int(v == on) for v in self.sel}
            ln = substitute(side.cols[4], {k: const(x) for k, x in e.items()})
            if (n == 0 and on is None) or (on is not None and ln == const(n)):
                hits.append(e)
        who = f"length {n}"
        add(who, "has its rows", len(hits) >= 1, "")
        for e in hits:
            try:
                st = State(T.constraints(e))
            except Contradiction:
                add(who, "some row exists", False, "")
                continue
            sub = lambda p: st.red(substitute(p, {k: const(x) for k, x in e.items()}))
            fs = [sub(s.filter) for s in self.bus]
            bad = [show(f, T.nm) for f in fs if f not in ({}, const(1))]
            add(who, "byte operations are sent once or not at all", not bad, str(bad[:3]))
            sent = [[sub(c) for c in s.cols] for s, f in zip(self.bus, fs) if f]
            add(who, f"{n} bytes are accessed", len(sent) == n, str(len(sent)))
            add(who, "the row is looked up once" if n else "the row is not looked up", sub(side.filter) == const(int(n > 0)), "")
            if n == 0 or len(sent) != n:
                continue
            isr, cx, sg, vt, _, ts = [sub(c) for c in side.cols[:6]]
            # the byte at virt + j has weight 256^(n-1-j)
            vals = {}
            bad = []
            for c in sent:
                if c[0] != isr or c[1] != cx or c[2] != sg or c[12] != ts or any(c[5:12]):
                    bad.append("direction, context, segment, time or upper limbs differ")
                    continue
                j = padd(c[3], vt, -1)
                if not is_const(j) or not 0 <= cval(j) < n or cval(j) in vals:
                    bad.append(f"offset {T.show(j)}")
                    continue
                vals[cval(j)] = c[4]
            add(who, "the addresses are virt .. virt+length-1", not bad and len(vals) == n, str(bad[:3]))
            if len(vals) == n:
                le = [vals[n - 1 - i] for i in range(n)] + [{}] * (32 - n)
                bad = [i for i in range(8) if sub(side.cols[6 + i]) != psum(pscale(le[4 * i + k], 1 << (8 * k)) for k in range(4))]
                add(who, "the value is the big-endian number made of the bytes", not bad, f"limbs {bad}")


class MemSpec(Base):
    """Memory: time-ordered reads return the last value; values cross segments through MemBefore and
    MemAfter."""

    def setup(self):
        m = self.m
        T = self.T = m.tables["Memory"]
        n = self.n = T.n
        _, self.side = self.looked("Memory")
        s = self.side
        self.isr, (self.cx, self.sg, self.vt), self.val, self.ts = s.cols[0], s.cols[1:4], s.cols[4:12], s.cols[12]
        self.real = s.filter
        self.addr = [self.cx, self.sg, self.vt]
        self.all_ = T.constraints({}, ("all",))
        self.tr = T.constraints({}, ("trans",))
        self.pair = self.all_ + shift_cons(self.all_, n) + self.tr
        self.nx = lambda p: shift(p, n)
        self.after = [x for l, d in m.ctls if d.table == "MemAfter" for x in l]
        self.before = [x for l, d in m.ctls if d.table == "MemBefore" for x in l]
        self.pre = [m.seg["Code"], m.seg["TrieData"], m.seg["AccountsLinkedList"], m.seg["StorageLinkedList"]]
        # lookups: [(column, filter, table column)]
        self.lk = []
        for lk in T.lookups:
            for c, f in zip(lk["columns"], lk["filter_columns"]):
                self.lk.append((column_poly(c, n), filter_poly(f, n), column_poly(lk["table_column"], n)))

    def imp(self, cons, zero=(), nonzero=()):
        """impossible, given also that range-checked columns are row numbers (hence not -1)"""
        one = const(1)
        facts = [padd(shift(c, k), one) for c, f, t in self.lk if f == one and self.counter(t) for k in (0, self.n)]
        return impossible(cons, zero, list(nonzero) + facts)

    def diff(self, a, k=0):
        return shift(padd(self.nx(a), a, -1), k)

    def tasks(self):
        return [("M01", "check_order", ()), ("M01", "check_values", ()), ("M02", "check_cont", ()), ("M02", "check_final", ()), ("M02", "check_stale", ())]

    def counter(self, t):
        """t counts the rows: 0 first, one more in each row"""
        cs0 = self.T.constraints({}, ("first",))
        first = any(len(c) == 1 and normalize(c[0]) == normalize(t) for c in cs0)
        want = padd(self.diff(t), const(1), -1)
        return first and any(len(c) == 1 and normalize(c[0]) == normalize(want) for c in self.tr)

    def check_order(self):
        self.setup()
        add = lambda s, w, ok, d="": self.r.add("M01", s, w, ok, d)
        dc, ds, dv, dt = self.diff(self.cx), self.diff(self.sg), self.diff(self.vt), self.diff(self.ts)
        one = const(1)
        checked = [c for c, f, t in self.lk if f == one and self.counter(t)]
        add("range-check column", "is looked up in the row counter", len(checked) >= 1, "")
        add("operation filter", "is a bit", forced_bit(self.all_, next(iter(pvars(self.real)))) and len(pvars(self.real)) == 1, "")
        # the four ways to move on: same address and time difference checked, or first changed
        # component's difference minus one checked
        def covered(zero, nonzero, d):
            """whenever (zero, nonzero) hold, some unfiltered range-checked column equals d"""
            return any(self.imp(self.pair, zero, nonzero + [padd(c, d, -1)]) for c in checked)
        m1 = lambda p: padd(p, one, -1)
        add("same address", "time does not decrease", covered([dc, ds, dv], [], dt), "")
        add("same context and segment, other cell", "the cell number increases", covered([dc, ds], [dv], m1(dv)), "")
        add("same context, other segment", "the segment number increases", covered([dc], [ds], m1(ds)), "")
        add("other context", "the context number increases", covered([], [dc], m1(dc)), "")
        # entering a segment: its first cell is range-checked
        vn = self.nx(self.vt)
        fs = [f for c, f, t in self.lk if c == vn and self.counter(t)]
        for nm, z, nz in (("other context", [], [dc]), ("same context, other segment", [dc], [ds])):
            ok = any(self.imp(self.pair, z, nz + [padd(f, one, -1)]) for f in fs)
            add(nm, "the first cell's number is range-checked", ok, "")
        for f in fs:
            add("first-cell range check", "is filtered by a bit", self.imp(self.pair, [], [f, padd(f, one, -1)]), "")

    def check_values(self):
        self.setup()
        add = lambda s, w, ok, d="": self.r.add("M01", s, w, ok, d)
        dc, ds, dv = self.diff(self.cx), self.diff(self.sg), self.diff(self.vt)
        rd = padd(self.nx(self.isr), const(1), -1)
        for i, v in enumerate(self.val):
            add("read of the address of the previous operation", f"returns limb {i} of its value",
                self.imp(self.pair, [dc, ds, dv, rd], [self.diff(v)]), "")
        pre = [padd(self.nx(self.sg), const(s), -1) for s in self.pre]
        for nm, z, nz in (("other context", [], [dc]), ("other segment", [dc], [ds]), ("other cell", [dc, ds], [dv])):
            for i, v in enumerate(self.val):
                add(f"first operation of an address ({nm})", f"limb {i} of a read is 0 outside the pre-initialised segments",
                    self.imp(self.pair, z + [rd], nz + pre + [self.nx(v)]), "")
        add("dummy operation", "is a read", self.imp(self.all_, [self.real], [padd(self.isr, const(1), -1)]), "")
        # some rows do exist
        add("memory table", "admits a write followed by a read", not self.imp(self.pair, [dc, ds, dv, rd, self.isr, padd(self.real, const(1), -1)], []), "")

    def check_cont(self):
        self.setup()
        m, one = self.m, const(1)
        add = lambda s, w, ok, d="": self.r.add("M02", s, w, ok, d)
        want = self.addr + self.val
        for nm, xs, tb in (("MemAfter", self.after, "MemAfter"), ("MemBefore", self.before, "MemBefore")):
            add(f"{nm} lookup", "sends address and value", len(xs) == 1 and xs[0].cols == want, "")
        _, la = self.looked("MemAfter")
        _, lb = self.looked("MemBefore")
        add("MemAfter and MemBefore", "have the same layout", la.cols == lb.cols and la.filter == lb.filter, "")
        for nm, s in (("MemAfter", la), ("MemBefore", lb)):
            T = m.tables[nm]
            vs = [next(iter(pvars(c))) for c in s.cols if len(c) == 1 and degree(c) == 1]
            add(nm, "has one column per component", len(set(vs)) == 11 and all(c == var(v) for c, v in zip(s.cols, vs)), "")
            fv = list(pvars(s.filter))
            add(nm, "its filter is a bit", len(fv) == 1 and s.filter == var(fv[0]) and forced_bit(T.constraints({}, ("all",)), fv[0]), "")
        wr = [x for l, d in m.ctls if d.table == "Memory" for x in l if x.table == "MemBefore"]
        ok = len(wr) == 1 and wr[0].filter == lb.filter and wr[0].cols == [const(0)] + lb.cols + [const(0)]
        add("MemBefore", "every entry is written at time 0", ok, "")
        add("MemAfter", "performs no memory operation", not [x for l, d in m.ctls for x in l if x.table == "MemAfter"], "")
        f = self.before[0].filter
        add("MemBefore lookup", "covers every operation at time 0", self.imp(self.all_, [self.ts], [padd(f, one, -1)]), "")
        add("MemBefore lookup", "covers no later operation", self.imp(self.all_, [], [self.ts, f]), "")

    def check_final(self):
        """An address whose last operation is row 1 (rows 0, 1, 2 consecutive)."""
        self.setup()
        one, n = const(1), self.n
        add = lambda s, w, ok, d="": self.r.add("M02", s, w, ok, d)
        f = self.after[0].filter
        # stale: the row's context is looked up in the list of stale contexts
        stale = [fl for c, fl, t in self.lk if padd(c, self.cx, -1) in (const(1), {}) and not self.counter(t)]
        moves = [("other context next", [], [self.diff(self.cx)]), ("other segment next", [self.diff(self.cx)], [self.diff(self.sg)]),
                 ("other cell next", [self.diff(self.cx), self.diff(self.sg)], [self.diff(self.vt)])]
        isreal = padd(self.real, one, -1)
        g = stale[0] if len(stale) == 1 else {}
        notstale = padd(g, one, -1)
        last = self.T.constraints({}, ("all", "last"))
        first = self.T.constraints({}, ("all", "first")) + self.tr + shift_cons(self.all_, n)
        triple = self.all_ + shift_cons(self.all_, n) + shift_cons(self.all_, 2 * n) + self.tr + shift_cons(self.tr, n)
        for nm, z, nz in moves:
            for i, v in enumerate(self.val):
                add(f"last operation of an address, {nm}", f"a value with nonzero limb {i} reaches MemAfter",
                    self.imp(self.pair, z + [isreal], nz + [v, padd(f, one, -1), notstale]), "")
            z1, nz1 = [shift(p, n) for p in z], [shift(p, n) for p in nz]
            for s in self.pre:
                at = padd(self.sg, const(s), -1)
                add(f"last operation of an address of pre-initialised segment {s}, {nm}", "reaches MemAfter",
                    self.imp(triple, z1 + [shift(isreal, n), shift(at, n)], nz1 + [shift(padd(f, one, -1), n), shift(notstale, n)]), "")
                add(f"first row, last operation of an address of pre-initialised segment {s}, {nm}", "reaches MemAfter",
                    self.imp(first, z + [isreal, at], nz + [padd(f, one, -1), notstale]), "")
            same = [self.diff(a) for a in self.addr]
            add(f"dummy operation at the address of the previous operation, {nm}", "cannot occur",
                self.imp(triple, same + z1 + [shift(self.real, n)], nz1), "")
        end = self.all_ + self.tr + shift_cons(last, n)
        add("last row", "is a dummy operation", self.imp(last, [], [self.real]), "")
        add("last row", "has an address of its own", self.imp(end, [self.diff(a) for a in self.addr], []), "")
        add("MemAfter lookup", "is filtered by a bit", self.imp(self.all_, [], [f, padd(f, one, -1)]), "")
        add("MemAfter lookup", "sends no dummy operation", self.imp(self.all_, [self.real], [f]), "")
        add("MemAfter lookup", "sends an operation only if the next one is elsewhere", self.imp(self.pair, [self.diff(a) for a in self.addr], [f]), "")
        add("MemAfter lookup", "sends something", not self.imp(self.pair, [padd(f, one, -1)], []), "")

    def check_stale(self):
        self.setup()
        one = const(1)
        add = lambda s, w, ok, d="": self.r.add("M02", s, w, ok, d)
        hits = [(c, fl, t) for c, fl, t in self.lk if padd(c, self.cx, -1) in (const(1), {}) and not self.counter(t)]
        add("stale contexts", "are looked up by context", len(hits) == 1, "")
        if len(hits) != 1:
            return
        c, g, t = hits[0]
        add("stale rows", "are marked by a bit", self.imp(self.all_, [], [g, padd(g, one, -1)]), "")
        pr = [s for l, d in self.m.ctls if d.table == "Cpu" for s in l if s.table == "Memory"]
        add("stale contexts", "are sent to the CPU table", len(pr) == 1, "")
        if len(pr) != 1:
            return
        h = pr[0].filter
        add("stale contexts", "are sent at most once per entry", self.imp(self.all_, [], [h, padd(h, one, -1)]), "")
        # an entry t that a row can match (t = context + offset) is sent as context
        k = padd(c, self.cx, -1)
        add("stale contexts", "the entry and the message denote the same context", not padd(padd(t, k, -1), pr[0].cols[0], -1), "")
        if k:
            add("stale contexts", "every entry other than the default is sent", self.imp(self.all_, [], [t, padd(h, one, -1)]), "")
        else:
            add("stale contexts", "every entry is sent", self.imp(self.all_, [], [padd(h, one, -1)]), "")


class CtlSpec(Base):
    """X01: the wiring of the cross-table lookups: who sends to whom, and that every message is sent
    a whole number 0 or 1 of times."""
    # looked table -> senders
    WIRES = {"Arithmetic": {"Cpu"}, "BytePacking": {"Cpu"}, "KeccakSponge": {"Cpu"}, "Keccak": {"KeccakSponge"},
             "Logic": {"Cpu", "KeccakSponge"}, "Memory": {"Cpu", "KeccakSponge", "BytePacking", "MemBefore"},
             "MemBefore": {"Memory"}, "MemAfter": {"Memory"}, "Cpu": {"Memory"}}

    def tasks(self):
        return [("X01", "check_wires", ())] + [("X01", "check_filter", (i, t)) for i, (l, s) in enumerate(self.m.ctls) for t in sorted({x.table for x in l}) + ["="]
                                                   if (s.table if t == "=" else t) != "KeccakSponge"]      # K02, row by row

    def check_wires(self):
        add = lambda s, w, ok, d="": self.r.add("X01", s, w, ok, d)
        got = {}
        for l, s in self.m.ctls:
            got.setdefault(s.table, set()).update(x.table for x in l)
            bad = [x.table for x in l if len(x.cols) != len(s.cols)]
            add(f"lookup into {s.table}", "all messages have the length of the looked-up rows", not bad, str(bad))
        for t, w in self.WIRES.items():
            add(f"lookup into {t}", "is fed by exactly the tables that use it", got.get(t) == w, str(got.get(t)))
        add("lookups", "no others", set(got) == set(self.WIRES), str(set(got)))
        add("lookups", "one per looked-up table, two for Keccak", sorted(s.table for _, s in self.m.ctls) == sorted(list(self.WIRES) + ["Keccak"]), "")
        # the rows of the continuation tables are all sent
        for l, s in self.m.ctls:
            if s.table == "MemBefore":
                sent = [x for l2, s2 in self.m.ctls if s2.table == "Memory" for x in l2 if x.table == "MemBefore"]
                add("MemBefore", "its rows are written to memory exactly when they are looked up", len(sent) == 1 and sent[0].filter == s.filter, "")

    def check_filter(self, i, t):
        l, s = self.m.ctls[i]
        sides = [s] if t == "=" else [x for x in l if x.table == t]
        T = self.m.tables[sides[0].table]
        who = f"{'answers of ' + s.table if t == '=' else t + ' to ' + s.table}"
        kinds = ("all",)
        for x in sides:
            f = x.filter
            vs = pvars(f)
            cs = T.constraints({}, kinds)
            # grow by the constraints over the same flags
            near = [c for c in cs if set().union(*map(pvars, c)) <= vs]
            ok = False
            bits = {v for v in vs if forced_bit(near, v)}
            if bits == vs and degree(f) == 1 and one_hot_sum(near, cs, f, vs):
                ok = True
            if not ok:
                ok = self.bool_by_cases(T, cs, f, vs)
            self.r.add("X01", who, f"message sent 0 or 1 times ({self.m.tables[x.table].show(f)[:60]})" if len(sides) < 20 else
                       f"message {sides.index(x)} sent 0 or 1 times", ok, T.show(f)[:200])

    def bool_by_cases(self, T, cs, f, vs):
        hot = max((h for h in one_hot_sets(cs) if h & vs), key=lambda h: len(h & vs), default=frozenset())
        for on in [None] + sorted(hot & vs):
            # flags outside the filter may be on when none of these is
            e = {v: int(v == on) for v in (hot if on is not None else hot & vs)}
            g = substitute(f, {v: const(x) for v, x in e.items()})
            if g in ({}, const(1)):
                continue
            vg = pvars(g)
            sub = [[substitute(h, {v: const(x) for v, x in e.items()}) for h in c] for c in cs if len(set().union(*map(pvars, c))) <= 60]
            sub = [[h for h in c if not is_const(h) or not h] for c in sub if {} not in c]
            lone = [c for c in sub if len(c) == 1 and degree(c[0]) == 1 and pvars(c[0]) & vg]
            vg = vg.union(*[pvars(c[0]) for c in lone])
            near = [c for c in sub if set().union(*map(pvars, c)) & vg]
            if not impossible(near, (), [g, padd(g, const(1), -1)]):
                return False
        return True


def one_hot_sum(near, cs, f, vs):
    """f is a sum of distinct bits of which at most one is set, or a difference a - b + c of them"""
    if set(f.values()) != {1} or () in f:
        return False
    return len(vs) == 1 or any(h >= set(vs) for h in one_hot_sets(cs))


def one_hot_sets(cs):
    """sets of bit columns of which the constraints allow at most one to be set"""
    out = []
    for c in cs:
        rs = [normalize(g) for h in c for g in split_linear(h)]
        if not rs or any(degree(g) != 1 for g in rs):
            continue
        lead = [{m: x for m, x in g.items() if m} for g in rs]
        if all(x == lead[0] for x in lead) and set(lead[0].values()) == {1} and {(-g.get((), 0)) % P for g in rs} <= {0, 1}:
            if len(lead[0]) > 1 and all(forced_bit(cs, m[0]) for m in lead[0]):
                out.append(frozenset(m[0] for m in lead[0]))
    return out
