"""From field equations to integer equations.

Variables carry integer ranges (established by the table's range-check lookups or by a bit
constraint).  A polynomial equation over the field whose value, computed over the integers with small
signed coefficients, stays strictly between -p and p holds over the integers (its value is a multiple
of p).  Disjunctions f*(f - K) = 0 with f affine introduce a ghost bit g with f = K*g.
Goals are integer statements; their certificates are integer combinations of the lifted equations,
checked exactly.
"""
import math
from fractions import Fraction
from .air import *


def ipad(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + k * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def imul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            x = r.get(m, 0) + c1 * c2
            r[m] = x
    return {m: c for m, c in r.items() if c}


def isum(ps):
    r = {}
    for p in ps:
        r = ipad(r, p)
    return r


def big(vars_, base=16):
    """sum 2^(base*i) * v_i as an integer polynomial"""
    return {(v,): 1 << (base * i) for i, v in enumerate(vars_)}


def isubst(p, sub):
    """integer substitution {var: int polynomial}"""
    r = {}
    for m, c in p.items():
        t = {(): c}
        for v in m:
            t = imul(t, sub[v] if v in sub else {(v,): 1})
        r = ipad(r, t)
    return r


class Sys:
    """Integer equations, variable ranges and remaining disjunctions of one case."""

    def __init__(self, cons, ranges, nvars):
        self.rng = dict(ranges)           # var -> (lo, hi)
        self.next = nvars
        self.rows = []                    # integer polynomials equal to 0
        self.unlifted = []
        self.vals = {}                    # var -> int constant
        self.disj = []
        self.cons = [list(f) for f in cons]
        self.solve()

    def copy_with(self, extra):
        return Sys(self.cons + extra, self.rng0, self.next0)

    def bounds(self, p, rng=None):
        rng = rng or self.rng
        lo = hi = 0
        for m, c in p.items():
            a, b = 1, 1
            for v in m:
                if v not in rng:
                    return None
                l, h = rng[v]
                xs = (a * l, a * h, b * l, b * h)
                a, b = min(xs), max(xs)
            if len(m) == 2 and m[0] == m[1]:
                a = max(a, 0) if rng[m[0]][0] >= 0 else a
            lo += min(c * a, c * b)
            hi += max(c * a, c * b)
        return lo, hi

    def to_int(self, p):
        """An integer polynomial with small coefficients that is zero whenever p is (mod P), and
        vice versa; None when its integer value may reach P."""
        best = None
        for m in sorted(p, key=lambda t: (-len(t), t)):
            q = pscale(p, pow(p[m], P - 2, P))
            q = {k: signed(c) for k, c in q.items()}
            b = self.bounds(q)
            if b is None:
                return None
            if -P < b[0] and b[1] < P:
                s = max(abs(c) for c in q.values())
                if best is None or s < best[0]:
                    best = (s, q)
                    if s <= 1 << 17:
                        break
        return best[1] if best else None

    def fieldsub(self, p):
        return substitute(p, {v: const(x) for v, x in self.vals.items()})

    def solve(self):
        """Lifts; a sum of nonnegative terms that is zero makes each of them zero (and restarts)."""
        self.rng0, self.next0, cons0 = dict(self.rng), self.next, list(self.cons)
        while True:
            self.solve1()
            zero = set()
            for r in self.rows:
                if () not in r and all(len(m) == 1 and self.rng[m[0]][0] >= 0 for m in r) and len({c > 0 for c in r.values()}) == 1:
                    zero |= {m[0] for m in r}
            zero = {v for v in zero if v < self.next0}
            if not zero:
                return
            self.cons = self.cons + [[var(v)] for v in sorted(zero)]
            self.rng, self.next = dict(self.rng0), self.next0
            self.rows, self.unlifted, self.vals, self.disj = [], [], {}, []

    def solve1(self):
        # 1. constants, bits
        work = [list(f) for f in self.cons]
        changed = True
        while changed:
            changed = False
            nxt = []
            for fs in work:
                fs2 = []
                for f in fs:
                    f = self.fieldsub(f)
                    if not f:
                        break
                    if is_const(f):
                        continue
                    fs2 += [g for g in split_linear(f) if not is_const(g)] if len(f) <= 12 else [f]
                else:
                    if not fs2:
                        raise Contradiction
                    uniq = []
                    for g in fs2:
                        if not any(normalize(g) == normalize(h) for h in uniq):
                            uniq.append(g)
                    fs2 = uniq
                    if len(fs2) == 1 and degree(fs2[0]) == 1 and len(pvars(fs2[0])) == 1:
                        g = normalize(fs2[0])
                        v = next(iter(pvars(g)))
                        self.vals[v] = (-g.get((), 0)) % P
                        if v in self.rng:
                            lo, hi = self.rng[v]
                            x = self.vals[v]
                            if not (lo <= x <= hi or lo <= x - P <= hi):
                                raise Contradiction
                        changed = True
                        continue
                    if len(fs2) > 1 and all(degree(g) == 1 and len(pvars(g)) == 1 for g in fs2) and len({v for g in fs2 for v in pvars(g)}) == 1:
                        v = next(iter(pvars(fs2[0])))
                        roots = sorted((-normalize(g).get((), 0)) % P for g in fs2)
                        if v in self.rng:
                            roots = [x for x in roots if self.rng[v][0] <= x <= self.rng[v][1]]
                            if not roots:
                                raise Contradiction
                        new = (roots[0], roots[-1])
                        if self.rng.get(v) != new:
                            self.rng[v] = new
                            changed = True
                        if (v, tuple(roots)) not in self.disj:
                            self.disj.append((v, tuple(roots)))
                        continue
                    nxt.append(fs2)
            work = nxt
        # 2. single equations, 3. ghost bits for products of two parallel affine forms
        eqs = [fs[0] for fs in work if len(fs) == 1]
        pairs = [fs for fs in work if len(fs) > 1]
        basis_ = []           # (pivot, field row)

        def reduce(p):
            for v, row in basis_:
                c = p.get((v,), 0)
                if c:
                    p = padd(p, row, -c)
            return p

        pend = []
        for fs in pairs:
            if len(fs) == 2 and degree(fs[0]) == 1 and degree(fs[1]) == 1:
                a, b = normalize(fs[0]), normalize(fs[1])
                d = padd(a, b, -1)
                if is_const(d) and d:
                    pend.append((a, cval(d)))
                    continue
            p = const(1)
            for f in fs:
                p = pmul(p, f)
            eqs.append(p)
        pend.sort(key=lambda t: len(t[0]))
        for a, d in pend:
            # a = 0 or a = d (as a - b = d and b = 0):  a = d*g
            g = self.next
            self.next += 1
            self.rng[g] = (0, 1)
            self.disj.append((g, (0, 1)))
            row = padd(a, var(g), -d)
            row = reduce(row)
            self._lift(row, g, basis_)
        for p in eqs:
            q = self.to_int(p) if degree(p) <= 3 else None
            if q is None and degree(p) == 1:
                p = reduce(p)
                q = self.to_int(p) if p else None
                if not p:
                    continue
            if q is None:
                self.unlifted.append([p])
            else:
                self.rows.append(q)

    def _lift(self, row, g, basis_):
        q = self.to_int(row)
        if q is None:
            self.unlifted.append([row])
            return
        self.rows.append(q)
        # pivot: a variable with coefficient +-1 other than the ghost
        for m in sorted(q, reverse=True):
            if len(m) == 1 and m[0] != g and abs(q[m]) == 1:
                f = {k: c % P for k, c in q.items()}
                basis_.append((m[0], pscale(f, q[m])))
                return

    # ---------------------------------------------------------------- goals
    def substv(self, p):
        """integer substitution of the known constants"""
        s = {}
        for v, x in self.vals.items():
            s[v] = {(): x if x <= P // 2 else x - P} if x else {}
        return isubst(p, s)

    def echelon(self, modulus=None):
        """Triangularised rows [(pivot monomial, row with pivot coefficient 1)]: each row is free of
        the pivots before it.  Over the rationals, or with unit pivots modulo a power of two."""
        key = "_ech%s" % modulus
        if hasattr(self, key):
            return getattr(self, key)
        out = []
        for r in sorted(self.rows, key=len):
            r = self.reduce_rows(r, out, modulus)
            if not r:
                continue
            cand = [m for m in r if m and (r[m] in (1, -1, (modulus or 0) - 1))] or \
                [m for m in r if m and (not modulus or math.gcd(int(r[m]), modulus) == 1)]
            if not cand:
                if not modulus:
                    raise Contradiction
                continue
            m = min(cand, key=lambda t: (len(t), -max(t)))
            if modulus:
                inv = pow(int(r[m]), -1, modulus)
                out.append((m, {k: c * inv % modulus for k, c in r.items()}))
            else:
                out.append((m, {k: Fraction(c) / r[m] for k, c in r.items()}))
        setattr(self, key, out)
        return out

    @staticmethod
    def reduce_rows(p, piv, modulus=None):
        p = dict(p)
        for m, r in piv:
            c = p.get(m)
            if c:
                p = ipad(p, r, -c)
                if modulus:
                    p = {a: b % modulus for a, b in p.items() if b % modulus}
        if modulus:
            p = {m: c % modulus for m, c in p.items() if c % modulus}
        return p

    def combine(self, goal, unknown=(), prime=(1 << 2203) - 1):
        """Solves goal = sum(lambda_i * row_i) + sum(mu_j * unknown_j) for integers lambda, mu (exact).
        unknown: integer polynomials.  Returns (lambdas, mus) or None."""
        cols = [dict(r) for r in self.rows] + [dict(u) for u in unknown]
        n = len(cols)
        # sparse elimination modulo a large prime on the transposed system
        mons = {}
        for j, c in enumerate(cols):
            for m, x in c.items():
                mons.setdefault(m, {})[j] = x % prime
        for m in goal:
            mons.setdefault(m, {})
        eqs = [(row, goal.get(m, 0) % prime) for m, row in mons.items()]
        eqs.sort(key=lambda t: len(t[0]))
        piv = {}          # column -> (row without that column, rhs)
        for row, rhs in eqs:
            row = dict(row)
            # eliminate known pivots
            while True:
                hit = next((j for j in row if j in piv), None)
                if hit is None:
                    break
                k = row.pop(hit)
                r2, b2 = piv[hit]
                for j, x in r2.items():
                    y = (row.get(j, 0) - k * x) % prime
                    if y:
                        row[j] = y
                    else:
                        row.pop(j, None)
                rhs = (rhs - k * b2) % prime
            if not row:
                if rhs:
                    return None
                continue
            j = max(row)
            inv = pow(row.pop(j), -1, prime)
            piv[j] = ({a: x * inv % prime for a, x in row.items()}, rhs * inv % prime)
        sol = {}

        def value(j):
            st = [j]
            while st:
                k = st[-1]
                if k in sol:
                    st.pop()
                    continue
                if k not in piv:
                    sol[k] = 0
                    st.pop()
                    continue
                miss = [a for a in piv[k][0] if a not in sol]
                if miss:
                    st += miss
                    continue
                x = (piv[k][1] - sum(c * sol[a] for a, c in piv[k][0].items())) % prime
                sol[k] = x
                st.pop()
            return sol[j]

        xs = [value(j) for j in range(n)]
        xs = [x if x <= prime // 2 else x - prime for x in xs]
        total = {}
        for x, c in zip(xs, cols):
            if x:
                total = ipad(total, c, x)
        if ipad(goal, total, -1):
            return None
        return xs[:len(self.rows)], xs[len(self.rows):]

    def prove_zero(self, goal, divisor=None, factor=None):
        """goal (integer polynomial) = 0; or divisible by the integer `divisor`; or an integer
        multiple of the integer polynomial `factor` (affine multiplier)."""
        goal = self.substv(goal)
        if divisor:
            return not self.reduce_rows(goal, self.echelon(divisor), divisor)
        if not self.reduce_rows(goal, self.echelon()):
            return True
        if factor is not None:
            factor = self.substv(factor)
            if set(factor) == {()}:
                return not self.reduce_rows(goal, self.echelon(factor[()]), factor[()])
            vs = {v for r in self.rows for m in r for v in m} | {v for m in goal for v in m}
            unk = [factor] + [imul(factor, {(v,): 1}) for v in sorted(vs)]
            return self.combine(goal, unk) is not None
        return False

    def tight(self, rounds=3):
        """Ranges tightened by interval propagation through the linear rows."""
        if hasattr(self, "_tight"):
            return self._tight
        rng = dict(self.rng)
        rows = [r for r in (self.substv(r) for r in self.rows) if len(r) <= 4 and all(len(m) <= 1 for m in r)]
        for _ in range(rounds):
            for r in rows:
                for m, c in r.items():
                    if not m:
                        continue
                    rest = {k: x for k, x in r.items() if k != m}
                    b = self.bounds(rest, rng)
                    if b is None:
                        continue
                    # c*v = -rest
                    lo, hi = sorted((Fraction(-b[0], c), Fraction(-b[1], c)))
                    l, h = rng[m[0]]
                    l, h = max(l, math.ceil(lo)), min(h, math.floor(hi))
                    if l > h:
                        raise Contradiction
                    rng[m[0]] = (l, h)
        self._tight = rng
        return rng

    def bound_of(self, form, registers=()):
        """Integer bounds of a form: its own, after reduction by the rows, or as +-(a register of
        range-checked limbs) + constant."""
        form = self.substv(form)
        best = self.bounds(form)
        ech = self.echelon()
        r = self.reduce_rows(form, ech)

        def meet(b):
            nonlocal best
            if b:
                best = b if best is None else (max(best[0], b[0]), min(best[1], b[1]))

        meet(self.bounds(r))
        meet(self.bounds(form, self.tight()))
        if not r:
            return best
        for reg in list(registers) + [[v] for v in self.rng0 if v < self.next0]:
            f = self.substv(big(reg))
            q = self.reduce_rows(f, ech)
            # r = k*q + c
            m = next((m for m in q if m), None)
            if m is None or m not in r or len(q.keys() ^ r.keys()) > 1:
                continue
            k = Fraction(r[m]) / q[m]
            d = ipad(r, q, -k)
            if not d or set(d) == {()}:
                c = d.get((), 0)
                b = self.bounds(f)
                lo, hi = sorted((b[0] * k + c, b[1] * k + c))
                meet((math.ceil(lo), math.floor(hi)))
        return best
