"""Polynomials over the Goldilocks field, the dumped constraint DAGs, and the entailment prover.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of variable ids (with
repetition).  Column c of the current row is variable c, of the next row n + c.
"""
import json, re, sys, random
sys.setrecursionlimit(100000)
P = (1 << 64) - (1 << 32) + 1


# ---------------------------------------------------------------- polynomials
def const(c):
    c %= P
    return {(): c} if c else {}


def var(v):
    return {(v,): 1}


def padd(a, b, k=1):
    """a + k*b"""
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        x = (r.get(m, 0) + k * c) % P
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    k %= P
    if k == 0:
        return {}
    return {m: c * k % P for m, c in a.items()}


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        if not m1:
            for m2, c2 in b.items():
                x = r.get(m2, 0) + c1 * c2
                r[m2] = x
            continue
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2)) if m2 else m1
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c % P for m, c in r.items() if c % P}


def psum(ps):
    r = {}
    for p in ps:
        r = padd(r, p)
    return r


def lin(coeffs, c=0):
    """linear polynomial from {var: coeff} or [(var, coeff)]"""
    it = coeffs.items() if isinstance(coeffs, dict) else coeffs
    r = const(c)
    for v, k in it:
        r = padd(r, {(v,): 1}, k)
    return r


def pvars(p):
    s = set()
    for m in p:
        s.update(m)
    return s


def degree(p):
    return max((len(m) for m in p), default=0)


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), 0) if p else 0


def normalize(p):
    """scaled so that the leading (largest) monomial has coefficient 1"""
    if not p:
        return p
    m = max(p, key=lambda t: (len(t), t))
    k = p[m]
    if k == 1:
        return p
    return pscale(p, pow(k, P - 2, P))


def freeze(p):
    return frozenset(p.items())


def peval(p, env):
    t = 0
    for m, c in p.items():
        for v in m:
            c = c * env[v] % P
        t += c
    return t % P


def signed(c):
    return c if c <= P // 2 else c - P


def show(p, name=lambda v: f"x{v}"):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda t: (-len(t[0]), t[0])):
        c = signed(c)
        s = "*".join(name(v) for v in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append(f"{c}*{s}")
    return " + ".join(out).replace("+ -", "- ")


def substitute(p, sub):
    """p with every v in sub replaced by the polynomial sub[v]"""
    if not any(v in sub for m in p for v in m):
        return p
    r = {}
    for m, c in p.items():
        hit = [v for v in m if v in sub]
        if not hit:
            x = (r.get(m, 0) + c) % P
            if x:
                r[m] = x
            else:
                r.pop(m, None)
            continue
        t = {tuple(v for v in m if v not in sub): c}
        for v in hit:
            t = pmul(t, sub[v])
            if not t:
                break
        for mm, cc in t.items():
            x = (r.get(mm, 0) + cc) % P
            if x:
                r[mm] = x
            else:
                r.pop(mm, None)
    return r


# ---------------------------------------------------------------- dumped tables
class Unsupported(Exception):
    """The code has left what the verifier handles: no verdict."""


class Table:
    def __init__(self, path):
        d = json.load(open(path))
        self.name, self.n, self.degree = d["name"], d["ncols"], d["degree"]
        self.nodes, self.cons = d["nodes"], d["constraints"]
        self.lookups = parse_debug(d["lookups"])
        self.ZL, self.LF, self.LL = 2 * self.n, 2 * self.n + 1, 2 * self.n + 2
        self.kind = self._kinds()
        self.names = {}

    def nx(self, c):
        return c + self.n

    def nm(self, v):
        if v in self.names:
            return self.names[v]
        if v < self.n:
            return self.names.get(v, f"l{v}")
        if v < 2 * self.n:
            return self.names.get(v - self.n, f"c{v - self.n}") + "'"
        return {self.ZL: "z_last", self.LF: "first", self.LL: "last"}.get(v, f"v{v}")

    def show(self, p):
        return show(p, self.nm)

    def _kinds(self):
        """For every constraint: 'all', 'trans' (times z_last), 'first' or 'last'; the constraint
        consumer multiplies by the filter, so a constraint is homogeneous in it."""
        deg = []          # per node: set of subsets of special variables occurring per monomial (approx)
        for nd in self.nodes:
            t = nd[0]
            if t == "c":
                deg.append(frozenset([()]) if nd[1] else frozenset())
            elif t == "v":
                deg.append(frozenset([(nd[1],)]) if nd[1] >= 2 * self.n else frozenset([()]))
            elif t in "+-":
                deg.append(deg[nd[1]] | deg[nd[2]])
            elif t == "*":
                deg.append(frozenset(tuple(sorted(a + b)) for a in deg[nd[1]] for b in deg[nd[2]]))
            else:
                deg.append(frozenset())
        out = []
        names = {(): "all", (self.ZL,): "trans", (self.LF,): "first", (self.LL,): "last"}
        for c in self.cons:
            ds = deg[c]
            if len(ds) > 1 or not all(d in names for d in ds):
                raise Unsupported(f"{self.name}: constraint mixes row filters {ds}")
            out.append(names[next(iter(ds))] if ds else "all")
        return out

    def evaluator(self, env):
        """Partial evaluation under env {var: int or polynomial}; returns factors(node)."""
        return Evaluator(self, env)

    def constraints(self, env, kinds=("all", "trans"), only=None):
        """List of constraints that are not trivially satisfied, each a list of factor polynomials
        whose product is zero.  env fixes columns; row filters of active kinds are set to 1."""
        e = dict(env)
        e.setdefault(self.ZL, 1)
        e.setdefault(self.LF, 1)
        e.setdefault(self.LL, 1)
        ev = Evaluator(self, e)
        out = []
        seen = set()
        for i, c in enumerate(self.cons):
            if self.kind[i] not in kinds:
                continue
            if only is not None and not only(i):
                continue
            fs = ev.factors(c)
            if fs is None:
                continue
            key = frozenset(freeze(normalize(f)) for f in fs)
            if key in seen:
                continue
            seen.add(key)
            out.append(fs)
        return out


class Evaluator:
    def __init__(self, table, env):
        self.t = table
        self.env = {v: (const(x) if isinstance(x, int) else x) for v, x in env.items()}
        self.memo = {}

    def poly(self, i):
        r = self.memo.get(i)
        if r is not None:
            return r
        # iterative evaluation (the DAG may be deep)
        nodes, memo = self.t.nodes, self.memo
        stack = [i]
        while stack:
            j = stack[-1]
            if j in memo:
                stack.pop()
                continue
            nd = nodes[j]
            t = nd[0]
            if t == "c":
                memo[j] = const(nd[1])
            elif t == "v":
                memo[j] = self.env.get(nd[1]) if nd[1] in self.env else var(nd[1])
            else:
                a, b = nd[1], nd[2]
                pa = memo.get(a)
                if pa is None:
                    stack.append(a)
                    continue
                if t == "*" and not pa:
                    memo[j] = {}
                    stack.pop()
                    continue
                pb = memo.get(b)
                if pb is None:
                    stack.append(b)
                    continue
                memo[j] = padd(pa, pb) if t == "+" else padd(pa, pb, -1) if t == "-" else pmul(pa, pb)
            stack.pop()
        return memo[i]

    def factors(self, i):
        """None if zero; otherwise the non-constant factors ([] when a nonzero constant)."""
        nd = self.t.nodes[i]
        out, st = [], [i]
        while st:
            j = st.pop()
            nd = self.t.nodes[j]
            if nd[0] == "*":
                st += [nd[1], nd[2]]
            else:
                p = self.poly(j)
                if not p:
                    return None
                if not is_const(p):
                    out.append(p)
        return out


# ---------------------------------------------------------------- Rust Debug output
_tok = re.compile(r'\s*(?:([A-Za-z_][A-Za-z_0-9]*)|(-?\d+)|("(?:[^"\\]|\\.)*")|(.))')


def parse_debug(s):
    """Parses derive(Debug) output into dicts/lists/tuples/ints/strings."""
    toks = [(m.group(1), m.group(2), m.group(3), m.group(4)) for m in _tok.finditer(s) if m.group().strip()]
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else (None,) * 4

    def val():
        nonlocal pos
        w, n, st, c = toks[pos]
        pos += 1
        if n is not None:
            return int(n)
        if st is not None:
            return st[1:-1]
        if c in ("[", "("):
            end = "]" if c == "[" else ")"
            out = []
            while peek()[3] != end:
                out.append(val())
                if peek()[3] == ",":
                    pos += 1
            pos += 1
            return out if c == "[" else tuple(out)
        if w is not None:
            if peek()[3] == "{":
                pos += 1
                d = {"_": w}
                while peek()[3] != "}":
                    k = toks[pos][0]
                    pos += 2
                    d[k] = val()
                    if peek()[3] == ",":
                        pos += 1
                pos += 1
                return d
            if peek()[3] == "(":
                v = val()
                return v[0] if w == "Some" else (w,) + v
            return None if w == "None" else w
        raise ValueError(f"debug parse at {toks[pos-1:pos+5]}")

    v = val()
    if pos != len(toks):
        raise ValueError("trailing tokens")
    return v


def column_poly(col, n):
    """A starky Column as a linear polynomial in this row's and the next row's variables."""
    p = const(col["constant"])
    for c, k in col["linear_combination"]:
        p = padd(p, {(c,): 1}, k)
    for c, k in col["next_row_linear_combination"]:
        p = padd(p, {(c + n,): 1}, k)
    return p


def filter_poly(f, n):
    if f is None:
        return const(1)
    p = {}
    for a, b in f["products"]:
        p = padd(p, pmul(column_poly(a, n), column_poly(b, n)))
    for c in f["constants"]:
        p = padd(p, column_poly(c, n))
    return p


# ---------------------------------------------------------------- factorisation helpers
_split_memo = {}


def split_linear(p):
    """Memoised split_linear1."""
    if degree(p) < 2:
        return [p]
    k = freeze(p)
    r = _split_memo.get(k)
    if r is None:
        if len(_split_memo) > 200000:
            _split_memo.clear()
        r = _split_memo[k] = split_linear1(p)
    return r


def split_linear1(p):
    """Tries to write p as a product; returns a list of factors (possibly [p])."""
    if degree(p) < 2:
        return [p]
    # common variables
    common = None
    for m in p:
        common = set(m) if common is None else common & set(m)
        if not common:
            break
    if common:
        v = min(common)
        q = {}
        for m, c in p.items():
            i = m.index(v)
            q[m[:i] + m[i + 1:]] = c
        return [var(v)] + split_linear(q)
    vs = pvars(p)
    if len(vs) == 1:
        return univariate(p, next(iter(vs)))
    if degree(p) == 2:
        r = quadratic(p)
        if r:
            return r
    # linear in v: p = v*q + r with r = k*q  =>  (v + k)*q ; more generally r = q*s for linear s
    for v in sorted(vs):
        q, r, ok = {}, {}, True
        for m, c in p.items():
            k = m.count(v)
            if k == 0:
                r[m] = c
            elif k == 1:
                i = m.index(v)
                q[m[:i] + m[i + 1:]] = c
            else:
                ok = False
                break
        if not ok or is_const(q):
            continue
        if not r:
            return [var(v)] + split_linear(q)
        s = divide(r, q)
        if s is not None:
            return [padd(var(v), s)] + split_linear(q)
    return [p]


def sqrt(a):
    """Square root in the field, or None."""
    if a == 0:
        return 0
    if pow(a, (P - 1) // 2, P) != 1:
        return None
    q, s = (P - 1) >> 32, 32
    z = pow(7, q, P)
    m, c, t, r = s, z, pow(a, q, P), pow(a, (q + 1) // 2, P)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % P
            i += 1
        b = pow(c, 1 << (m - i - 1), P)
        m, c = i, b * b % P
        t, r = t * c % P, r * b % P
    return r


def quadratic(p):
    """a*L^2 + b*L + c for an affine form L, as two affine factors; None when p is not of that form
    or does not split."""
    sq = next((m for m in p if len(m) == 2 and m[0] == m[1]), None)
    if sq is None:
        return None
    v, a = sq[0], p[sq]
    inv2a = pow(2 * a, P - 2, P)
    L = {(v,): 1}
    for m, c in p.items():
        if len(m) == 2 and v in m and m != sq:
            w = m[0] if m[1] == v else m[1]
            L[(w,)] = c * inv2a % P
    r = padd(p, pmul(L, L), -a)
    if degree(r) > 1:
        return None
    b = r.get((v,), 0)
    r = padd(r, L, -b)
    if not is_const(r):
        return None
    c = cval(r)
    d = sqrt((b * b - 4 * a * c) % P)
    if d is None:
        return None
    out = []
    for x in ((-b + d) * inv2a % P, (-b - d) * inv2a % P):
        f = padd(L, const(x), -1)
        if f not in out:
            out.append(f)
    return out


def divide(r, q):
    """r / q when q divides r exactly (multivariate division by leading terms), else None."""
    key = lambda t: (len(t), t)
    lm = max(q, key=key)
    inv = pow(q[lm], P - 2, P)
    r = dict(r)
    s = {}
    n = 0
    while r:
        n += 1
        if n > 200:
            return None
        m = max(r, key=key)
        mm = list(m)
        try:
            for v in lm:
                mm.remove(v)
        except ValueError:
            return None
        t = tuple(mm)
        c = r[m] * inv % P
        s[t] = (s.get(t, 0) + c) % P
        r = padd(r, pmul({t: c}, q), -1)
    return {k: v for k, v in s.items() if v}


def univariate(p, v):
    """Factors of a univariate polynomial, roots among small/large candidate values."""
    d = degree(p)
    co = [0] * (d + 1)
    for m, c in p.items():
        co[len(m)] = c
    roots = []
    for cand in list(range(0, 300)) + [P - 1, P - 2]:
        while len(co) > 1:
            # Horner / synthetic division
            q, acc = [], 0
            for c in reversed(co):
                acc = (acc * cand + c) % P
                q.append(acc)
            if acc:
                break
            co = list(reversed(q[:-1]))
            roots.append(cand)
    out = [lin({v: 1}, -r) for r in dict.fromkeys(roots)]
    if len(co) > 1:
        out.append({(v,) * i: c for i, c in enumerate(co) if c})
    return out


# ---------------------------------------------------------------- the prover
class Contradiction(Exception):
    pass


class State:
    """A conjunction of disjunctions of polynomial equations, with linear eliminations applied."""

    def __init__(self, cons=(), nonzero=(), prefer=()):
        self.sub = {}             # var -> reduced polynomial
        self.pending = []         # list of factor lists (len >= 1)
        self.nonzero = [normalize(p) for p in nonzero]
        self.keep = set(prefer)   # variables not to eliminate if another choice exists
        self.add(cons)

    def copy(self):
        s = State.__new__(State)
        s.sub = dict(self.sub)
        s.pending = list(self.pending)
        s.nonzero = list(self.nonzero)
        s.keep = self.keep
        return s

    def red(self, p):
        return substitute(p, self.sub)

    def known_nonzero(self, p):
        if is_const(p):
            return bool(p)
        q = normalize(p)
        return any(q == z for z in self.nonzero)

    def assume_nonzero(self, p):
        p = self.red(p)
        if not p:
            raise Contradiction
        if not is_const(p):
            self.nonzero.append(normalize(p))
        self._again = True

    def again(self):
        """re-simplify everything (after assume_nonzero)"""
        p, self.pending = self.pending, []
        self.add(p)

    def add(self, cons):
        queue = [list(fs) for fs in cons]
        while True:
            changed = False
            new = []
            for fs in queue:
                r = self._simplify(fs)
                if r is None:
                    continue
                if len(r) == 1 and self._eliminate(r[0]):
                    changed = True
                    continue
                new.append(r)
            if not changed:
                # drop duplicates
                seen, out = set(), []
                for fs in self.pending + new if queue is not self.pending else new:
                    k = frozenset(freeze(normalize(f)) for f in fs)
                    if k not in seen:
                        seen.add(k)
                        out.append(fs)
                self.pending = out
                return
            queue = (self.pending + new) if queue is not self.pending else new
            self.pending = queue

    def _simplify(self, fs):
        out = []
        for f in fs:
            f = self.red(f)
            if not f:
                return None
            if is_const(f) or self.known_nonzero(f):
                continue
            for g in (split_linear(f) if len(f) <= 40 else [f]):
                if is_const(g) or self.known_nonzero(g):
                    continue
                if g not in out:
                    out.append(g)
        if not out:
            raise Contradiction
        return out

    def _eliminate(self, p):
        best = None
        for m, c in p.items():
            if len(m) != 1:
                continue
            v = m[0]
            if any(v in mm for mm in p if mm != m):
                continue
            rank = (v in self.keep, -v)
            if best is None or rank < best[0]:
                best = (rank, v, c)
        if best is None:
            return False
        v, c = best[1], best[2]
        rest = {m: x for m, x in p.items() if m != (v,)}
        e = pscale(rest, -pow(c, P - 2, P))
        one = {v: e}
        for k in list(self.sub):
            self.sub[k] = substitute(self.sub[k], one)
        self.sub[v] = e
        nz = []
        for z in self.nonzero:
            z = self.red(z)
            if not z:
                raise Contradiction
            if not is_const(z):
                nz.append(normalize(z))
        self.nonzero = nz
        return True

    def equal(self, p):
        """p = 0 follows (without further case splits)"""
        p = self.red(p)
        if not p:
            return True
        fs = [self.red(f) for f in split_linear(p)] if len(p) <= 40 else [p]
        if any(not f for f in fs):
            return True
        return self.spanned(p)

    def spanned(self, p):
        key = (len(self.sub), tuple(map(id, self.pending)))
        if getattr(self, "_bkey", None) != key:
            self._bkey, self._basis = key, basis(self.products())
        return reduces(p, self._basis)

    def products(self):
        out = []
        for fs in self.pending:
            t = const(1)
            for f in fs:
                t = pmul(t, f)
            out.append(t)
        return out


def basis(gens):
    rows = {}
    for g in gens:
        g = dict(g)
        while g:
            lm = max(g, key=lambda t: (len(t), t))
            if lm in rows:
                g = padd(g, rows[lm], -g[lm])
            else:
                rows[lm] = normalize(g)
                break
    return rows


def reduces(p, rows):
    p = dict(p)
    while p:
        lm = max(p, key=lambda t: (len(t), t))
        if lm not in rows:
            return False
        p = padd(p, rows[lm], -p[lm])
    return True


def in_span(p, gens):
    """p is a linear combination (constants) of gens."""
    return reduces(p, basis(gens)) if gens else not p


class Stats:
    obligations = 0
    discharged = 0
    leaves = 0
    splits = 0


def split_on(s, vs=()):
    """Case split on one pending disjunction, by preference one that mentions vs; None when there
    is nothing to split on."""
    pick = None
    for fs in s.pending:
        if len(fs) > 1:
            k = (not any(pvars(f) & vs for f in fs) if vs else False, sum(map(len, fs)))
            if pick is None or k < pick[0]:
                pick = (k, fs)
    if pick is None:
        return None
    fs = pick[1]
    rest = [f for f in s.pending if f is not fs]
    kids, done = [], []
    for f in fs:
        t = s.copy()
        t.pending = []
        try:
            for d in done:
                t.assume_nonzero(d)
            t.add(rest + [[f]])
            kids.append(t)
        except Contradiction:
            pass
        done.append(f)
    return kids


def leaves(state, max_splits=4000, vars_of_interest=None, counter=None):
    """Case splits on the pending disjunctions until none of them is splittable; yields the leaf
    states that were not closed by a contradiction."""
    counter = counter if counter is not None else [0]
    stack = [state]
    while stack:
        s = stack.pop()
        pick = None
        for fs in s.pending:
            if len(fs) > 1 and (pick is None or sum(map(len, fs)) < sum(map(len, pick))):
                pick = fs
        if pick is None:
            yield s
            continue
        counter[0] += 1
        if counter[0] > max_splits:
            raise Unsupported("too many case splits")
        rest = [f for f in s.pending if f is not pick]
        done = []
        for f in pick:
            t = s.copy()
            t.pending = []
            try:
                for d in done:
                    t.assume_nonzero(d)
                t.add(rest + [[f]])
                stack.append(t)
            except Contradiction:
                pass
            done.append(f)


def make(cons, nonzero=(), prefer=()):
    try:
        return State(cons, nonzero, prefer)
    except Contradiction:
        return None


def entails(state, goal, max_splits=4000):
    """goal (polynomial = 0, or list of alternatives) follows from the state. Returns None or the
    open leaf."""
    if state is None:
        return None
    alts = goal if isinstance(goal, list) else [goal]
    for a in alts:
        if state.equal(a):
            return None
    for leaf in leaves(state, max_splits):
        if not any(leaf.equal(a) for a in alts):
            return leaf
    return None
