"""Concrete failing inputs for circuit properties: a pair of rows that the constraints accept and
that breaks the obligation.  Used only on obligations that already failed; every witness is
confirmed by running the crate's own eval_packed_generic on it (harness/airdump replay)."""
import json, multiprocessing, os, random, subprocess, tempfile, time
from .air import *
from . import build as B

# at most this many witnesses and this much time are spent per check (shared by its processes)
_found, _spent = multiprocessing.Value("i", 0), multiprocessing.Value("d", 0.0)
MAX_FOUND, MAX_SPENT = 12, 240.0


def accepted(T, env, filters):
    """The real constraint code accepts the rows."""
    n = T.n
    f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    with f:
        json.dump(dict(table=T.name, filters=filters, rows=[[env[v] for v in range(n)], [env[v] for v in range(n, 2 * n)]]), f)
    try:
        r = subprocess.run([B.TARGET + "/debug/airdump", "replay", f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return r.stdout.strip() == "accepted"
    finally:
        os.unlink(f.name)


def value(rng):
    return rng.choice([0, 1, rng.randrange(256), rng.randrange(1 << 16), rng.randrange(1 << 32), rng.randrange(1 << 32)])


def solve(T, state, env, rng, limit=400):
    """Values of all columns of both rows that satisfy the state and env, or None."""
    stack = [state.copy()]
    while stack and limit > 0:
        limit -= 1
        s = stack.pop()
        kids = split_on(s)
        if kids is not None:
            rng.shuffle(kids)
            stack += kids
            continue
        if s.pending:
            # only equations without a linear variable are left: fix one of the variables
            f = min((fs[0] for fs in s.pending), key=len)
            vs = sorted(pvars(f))
            tries = []
            for k in range(3):
                v = rng.choice(vs)
                t = s.copy()
                try:
                    t.add([[padd(var(v), const(value(rng)), -1)]])
                    tries.append(t)
                except Contradiction:
                    pass
            stack += tries
            continue
        e = {v: x for v, x in env.items()}
        free = set(range(2 * T.n)) - set(s.sub) - set(e)
        for v in sorted(free):
            e[v] = value(rng)
        bad = False
        for v, p in s.sub.items():
            if v in e and v in env:
                bad |= peval(p, e) % P != e[v]
                continue
            e[v] = peval(p, e) % P
        if bad or any(peval(z, e) % P == 0 for z in s.nonzero):
            continue
        return e
    return None


def full(e):
    s = State()
    s.sub = {v: const(x) for v, x in e.items()}
    return s


def show(T, e, filters):
    n = T.n
    row = lambda k: ", ".join(f"{T.nm(v)}={e[v + k]}" for v in range(n) if e[v + k])
    return f"rows of table {T.name} (columns not listed are 0)\n  row:  {row(0)}\n  next: {row(n)}\n  filters (not last, first, last) = {filters}; the real eval_packed_generic accepts this pair"


def search(T, state, env, test, filters=(1, 0, 0), tries=40, seconds=20, seed=1):
    """test(full state, env) -> {obligation: detail} still violated by the concrete rows.
    Returns (text, violated) or None."""
    if _found.value >= MAX_FOUND or _spent.value > MAX_SPENT:
        return None
    t0 = time.time()
    try:
        r = _search(T, state, env, test, filters, tries, seconds, seed)
    finally:
        with _spent.get_lock():
            _spent.value += time.time() - t0
    if r:
        with _found.get_lock():
            _found.value += 1
    return r


def _search(T, state, env, test, filters, tries, seconds, seed):
    rng = random.Random(seed)
    env = {v: x for v, x in env.items() if v < 2 * T.n}
    t0 = time.time()
    for _ in range(tries):
        if time.time() - t0 > seconds:
            return None
        e = solve(T, state, env, rng)
        if e is None:
            continue
        try:
            bad = test(full(e), e)
        except Contradiction:
            continue
        if bad and accepted(T, e, list(filters)):
            return show(T, e, list(filters)), bad
    return None
