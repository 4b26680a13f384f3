"""Contract of the arithmetic table: what the rows of each operation prove, over the integers."""
from .air import *
from .lift import *
from .spec_cpu import one_hot

W = 1 << 256
BN = 21888242871839275222246405745257275088696311157297823662689037894645226208583


class ArithSpec:
    def __init__(self, model, report):
        self.m, self.r = model, report
        self.T = model.tables["Arithmetic"]
        a = self.a = model.cols["arithmetic"]
        self.flags = {k[3:]: v for k, v in a.items() if k.startswith("IS_")}
        self.x, self.y, self.z, self.out = a["IN0"], a["IN1"], a["IN2"], a["OUT"]
        self.X, self.Y, self.Z, self.O = map(big, (self.x, self.y, self.z, self.out))
        self.ranges = self.range_checks()

    def add(self, prop, subject, what, ok, detail=""):
        self.r.add(prop, subject, what, ok, detail)

    # ------------------------------------------------ range checks
    def range_checks(self):
        """Columns looked up, in every row, in a column that is 0 in the first row, 65535 in the last
        and grows by at most one: their values are in [0, 2^16)."""
        T = self.T
        out = {}
        for lk in T.lookups:
            t = column_poly(lk["table_column"], T.n)
            hi = counter_max(T, t)
            if hi is None:
                continue
            for c, f in zip(lk["columns"], lk["filter_columns"]):
                p = column_poly(c, T.n)
                if filter_poly(f, T.n) == const(1) and len(p) == 1 and degree(p) == 1 and list(p.values()) == [1]:
                    v = next(iter(p))[0]
                    out[v] = (0, hi)
                    out[v + T.n] = (0, hi)
        return out

    def check_ranges(self):
        for nm, reg in (("first operand", self.x), ("second operand", self.y), ("third operand", self.z), ("result", self.out)):
            bad = [self.T.nm(v) for v in reg if self.ranges.get(v) != (0, 65535)]
            self.add("A01", f"{nm} limbs", "are range-checked to 16 bits", not bad, f"{bad}")

    def check_flags(self):
        T = self.T
        fl = list(self.flags.values())
        cs = [c for c in T.constraints({}) if all(pvars(f) <= set(fl) for f in c)]
        bad = []
        for k, v in self.flags.items():
            if not forced_bit(cs, v):
                bad.append(k)
        self.add("A01", "operation flags", "are bits", not bad, f"{bad}")
        bad = []
        for i in range(len(fl)):
            for j in range(i):
                e = {v: 0 for v in fl}
                e[fl[i]] = e[fl[j]] = 1
                if sat_flags(cs, e):
                    bad.append((T.nm(fl[j]), T.nm(fl[i])))
        if not one_hot(cs, fl):
            bad.append("three or more")
        self.add("A01", "operation flags", "at most one is set", not bad, f"{bad[:6]}")

    # ------------------------------------------------ operations
    def sys(self, op):
        e = {v: 0 for v in self.flags.values()}
        e[self.flags[op]] = 1
        return Sys(self.T.constraints(e), self.ranges, 2 * self.T.n + 10)

    def not_last(self, op):
        """The operation uses the next row: its row is not the last one."""
        e = {v: 0 for v in self.flags.values()}
        e[self.flags[op]] = 1
        try:
            State(self.T.constraints(e, ("all", "last")))
        except Contradiction:
            return True
        return False

    def uses_transition(self, op):
        e = {v: 0 for v in self.flags.values()}
        e[self.flags[op]] = 1
        z = {v: 0 for v in self.flags.values()}
        return len(self.T.constraints(e, ("trans",))) > len(self.T.constraints(z, ("trans",)))

    def cases(self, s, goal, depth=4):
        """goal(s) is None or a failure; splits on bits while it fails."""
        d = goal(s)
        if d is None:
            return None
        if depth == 0:
            return d
        # only user columns with a bit constraint
        cand = [(v, r) for v, r in s.disj if v < 2 * self.T.n and v not in s.vals]
        for v, roots in cand:
            ok = True
            for x in roots:
                try:
                    t = s.copy_with([[lin({v: 1}, -x)]])
                except Contradiction:
                    continue
                dd = self.cases(t, goal, depth - 1)
                if dd is not None:
                    ok, d = False, dd
                    break
            if ok:
                return None
        return d

    def prove(self, prop, op, what, goal):
        try:
            s = self.sys(op)
        except Contradiction:
            self.add(prop, op, "some row exists", False, "the constraints admit no such row")
            return
        d = self.cases(s, goal)
        self.add(prop, op, what, d is None, d or "")

    def goals(self):
        X, Y, Z, O = self.X, self.Y, self.Z, self.O
        N = {(): BN}
        eqmod = lambda g: (lambda s: None if s.prove_zero(g, divisor=W) else "not implied by the constraints")
        return [
            ("A01", "ADD", "result = a + b mod 2^256", eqmod(ipad(ipad(X, Y), O, -1))),
            ("A01", "SUB", "result = a - b mod 2^256", eqmod(ipad(ipad(X, Y, -1), O, -1))),
            ("A01", "LT", "result is 1 if a < b, else 0", self.less(X, Y)),
            ("A01", "GT", "result is 1 if a > b, else 0", self.less(Y, X)),
            ("A02", "MUL", "result = a * b mod 2^256", eqmod(ipad(imul(X, Y), O, -1))),
            ("A02", "SHL", "result = value * factor mod 2^256", eqmod(ipad(imul(Y, Z), O, -1))),
            ("A03", "DIV", "result = a div b (0 when b is 0)", self.division(X, Y, quotient=True)),
            ("A03", "SHR", "result = value div factor (0 when the factor is 0)", self.division(Y, Z, quotient=True)),
            ("A03", "MOD", "result = a mod b (0 when b is 0)", self.division(X, Y, quotient=False)),
            ("A03", "ADDMOD", "result = (a + b) mod m (0 when m is 0)", self.modular(ipad(X, Y), Z)),
            ("A03", "SUBMOD", "result = (a - b) mod m (0 when m is 0)", self.modular(ipad(X, Y, -1), Z)),
            ("A03", "MULMOD", "result = (a * b) mod m (0 when m is 0)", self.modular(imul(X, Y), Z)),
            ("A03", "ADDFP254", "result = (a + b) mod the BN254 base prime", self.modular(ipad(X, Y), N)),
            ("A03", "SUBFP254", "result = (a - b) mod the BN254 base prime", self.modular(ipad(X, Y, -1), N)),
            ("A03", "MULFP254", "result = (a * b) mod the BN254 base prime", self.modular(imul(X, Y), N)),
        ]

    def check_goal(self, i):
        self.prove(*self.goals()[i])

    def check_last(self):
        fam = {"ADD": "A01", "SUB": "A01", "LT": "A01", "GT": "A01", "MUL": "A02", "SHL": "A02", "BYTE": "A04"}
        for op in self.flags:
            if self.uses_transition(op):
                self.add(fam.get(op, "A03"), op, "is not in the last row", self.not_last(op),
                         "its constraints on the next row do not apply to the last row")

    def tasks(self):
        return [("A01", "check_ranges", ()), ("A01", "check_flags", ()), ("A0", "check_last", ()), ("A04", "check_byte", ())] + \
            [(g[0], "check_goal", (i,)) for i, g in enumerate(self.goals())]

    # BYTE: byte number i of the value, counted from the most significant one
    def bits_leaves(self, s):
        st = [s]
        while st:
            s = st.pop()
            cand = [(v, r) for v, r in s.disj if v < 2 * self.T.n and v not in s.vals]
            if not cand:
                yield s
                continue
            v, roots = cand[0]
            for x in roots:
                try:
                    st.append(s.copy_with([[lin({v: 1}, -x)]]))
                except Contradiction:
                    pass

    def check_byte(self):
        e = {v: 0 for v in self.flags.values()}
        e[self.flags["BYTE"]] = 1
        cons = [c for c in self.T.constraints(e) if not any(pvars(f) & {self.a["RANGE_COUNTER"]} for f in c)]
        bad = []
        for i in range(32):
            fix = [[lin({self.x[0]: 1}, -i)]] + [[var(v)] for v in self.x[1:]]
            n = 0
            for lf in self.bits_leaves(Sys(cons + fix, self.ranges, 2 * self.T.n + 10)):
                n += 1
                limb = {(self.y[(31 - i) // 2],): 1}
                out = {(self.out[0],): 1}
                b = self.bound(lf, out)
                ok = b is not None and 0 <= b[0] and b[1] < 256 and all(lf.vals.get(v) == 0 for v in self.out[1:])
                if (31 - i) % 2:
                    # high byte: 0 <= limb - 256*out < 256
                    b = self.bound(lf, ipad(limb, out, -256))
                    ok = ok and b is not None and 0 <= b[0] and b[1] < 256
                else:
                    # low byte: limb - out is 256 times an integer
                    d = lf.reduce_rows(lf.substv(ipad(limb, out, -1)), lf.echelon())
                    ok = ok and any(not ipad(d, lf.reduce_rows({(v,): 256}, lf.echelon()), -1) for v in range(self.T.n) if v in self.ranges)
                if not ok:
                    bad.append(f"index {i}")
                    break
            if n == 0:
                bad.append(f"no row with index {i}")
        self.add("A04", "BYTE", "result is the indexed byte when the index is below 32", not bad, "; ".join(bad[:4]))
        bad = []
        n = 0
        for lf in self.bits_leaves(Sys(cons, self.ranges, 2 * self.T.n + 10)):
            n += 1
            if all(lf.vals.get(v) == 0 for v in self.out):
                continue
            b = self.bound(lf, {(self.x[0],): 1})
            if not (all(lf.vals.get(v) == 0 for v in self.x[1:]) and b and b[1] < 32):
                bad.append("a nonzero result with an index of 32 or more")
                break
        self.add("A04", "BYTE", "result is 0 when the index is 32 or more", n > 0 and not bad, "; ".join(bad))

    def less(self, a, b):
        def goal(s):
            for v in self.out[1:]:
                if s.vals.get(v) != 0:
                    return f"{self.T.nm(v)} is not forced to 0"
            o = self.out[0]
            if o not in s.vals:
                return f"{self.T.nm(o)} is not forced to a bit"
            # a - b = D - 2^256*o with 0 <= D < 2^256
            bd = self.bound(s, ipad(a, b, -1))
            if bd is None:
                return "no bound"
            if s.vals[o] == 1 and bd[1] < 0 or s.vals[o] == 0 and bd[0] >= 0:
                return None
            return f"with result {s.vals[o]} the difference is in [{bd[0]:#x}, {bd[1]:#x}]"
        return goal

    def reduced(self, s, rem, mod):
        bd = self.bound(s, ipad(rem, mod, -1))
        return bd is not None and bd[1] < 0

    def zero(self, s, form):
        """the nonnegative form is zero"""
        f = s.substv(form)
        if not f:
            return True
        if s.prove_zero(f):
            return True
        bd = self.bound(s, form)
        if bd is not None and bd[1] <= 0:
            return True
        return False

    def modular(self, A, M):
        def goal(s):
            if len(s.substv(M)) and self.reduced(s, self.O, M):
                if not s.prove_zero(ipad(A, self.O, -1), factor=M):
                    return "the result is not forced to be congruent"
                return None
            if self.zero(s, M) and self.zero(s, self.O):
                return None
            return "the result is not forced below the modulus (or to zero when the modulus is zero)"
        return goal

    def division(self, A, M, quotient):
        """Some R, 0 <= R < M, with A = Q*M + R: for DIV the result is Q, for MOD it is R."""
        def goal(s):
            if not quotient:
                return self.modular(A, M)(s)
            if self.zero(s, M):
                return None if self.zero(s, self.O) else "division by zero does not give zero"
            R = ipad(A, imul(self.O, M), -1)
            bd = self.bound(s, R)
            if bd is None or bd[0] < 0:
                return f"a - result*b is not forced to be nonnegative ({bd})"
            bd = self.bound(s, ipad(R, M, -1))
            if bd is None or bd[1] >= 0:
                return f"a - result*b is not forced below b ({bd})"
            return None
        return goal

    def bound(self, s, form):
        vs = sorted({v for r in s.rows for m in r for v in m} | {v for m in form for v in m})
        return s.bound_of(form, self.registers(vs))

    def registers(self, vs):
        """runs of 16 consecutive range-checked columns (of either row)"""
        S = set(vs)
        out = []
        for v in vs:
            if all(v + i in S and self.ranges.get(v + i) == (0, 65535) for i in range(16)):
                out.append([v + i for i in range(16)])
        # only those that start at register boundaries occur; try all
        return out


def counter_max(T, p):
    """The column p is 0 in the first row, its increments are 0 or 1 and its last value is the
    returned maximum (so that it takes no value outside [0, max])."""
    if len(p) != 1 or degree(p) != 1 or list(p.values()) != [1]:
        return None
    v = next(iter(p))[0]
    first = last = step = None
    for c in T.constraints({}, ("first",)):
        if len(c) == 1 and normalize(c[0]) == var(v):
            first = 0
    for c in T.constraints({}, ("last",)):
        if len(c) == 1 and pvars(c[0]) == {v} and degree(c[0]) == 1:
            last = (-normalize(c[0]).get((), 0)) % P
    want = {freeze(normalize(lin({v + T.n: 1, v: -1}))), freeze(normalize(lin({v + T.n: 1, v: -1}, -1)))}
    for c in T.constraints({}, ("trans", "all")):
        fs = [g for f in c for g in split_linear(f)]
        if {freeze(normalize(f)) for f in fs} <= want:
            step = 1
    if first is None or last is None or step is None or last > 1 << 32:
        return None
    return last


def forced_bit(cs, v):
    for c in cs:
        if all(pvars(f) <= {v} for f in c):
            rs = [g for f in c for g in split_linear(f)]
            if all(degree(g) == 1 for g in rs) and {(-cval(normalize(g))) % P for g in rs} <= {0, 1}:
                return True
    return False


def sat_flags(cs, e):
    return all(any(peval(f, e) == 0 for f in c) for c in cs)
