"""Concrete replay: runs the assembled kernel bytecode and the executable specification on the same concrete input."""
import random
import z3
from .kvc import *
from . import kvc, kbase

EDGE = [0, 1, 2, 3, 5, 7, 16, 31, 32, 33, 63, 64, 255, 256, 257, 0xffff, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 64, (1 << 127) + 5, 1 << 128, 1 << 160,
        (1 << 255) - 1, 1 << 255, (1 << 255) + 1, MASK - 31, MASK - 1, MASK]


def word(rng):
    r = rng.random()
    if r < .45:
        return rng.choice(EDGE)
    if r < .6:
        return rng.randrange(1 << rng.choice((8, 16, 32, 64, 160)))
    return rng.getrandbits(256)


class Lazy(dict):
    """a concrete memory whose content is chosen when it is first read"""

    def __init__(self, pick, init=()):
        super().__init__(init)
        self.pick = pick

    def get(self, a, default=None):
        if a not in self:
            self[a] = self.pick(a)
        return self[a]


def truth(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(T(c))
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    raise Stuck("not concrete")


def writes(m):
    out = set()
    while m is not None:
        if m.kind == "st":
            out.add(m.a)
        elif m.kind == "bulk":
            out |= set(getattr(m, "b") or ())
        m = m.prev
    return out


def image(f, dflt):
    """(function interpretation of a z3 model) -> dict, else value"""
    d, e = {}, dflt
    if f is None:
        return d, e
    for i in range(f.num_entries()):
        x = f.entry(i)
        d[x.arg_value(0).as_long()] = x.value().as_long()
    try:
        e = f.else_value().as_long()
    except Exception:
        pass
    return d, e


def once(kern, rt, args, ctx, lazy, hints):
    """None when the run agrees with the specification (or the precondition does not hold); otherwise a description"""
    mem = Mem(None, "dict", lazy, None)
    st = kern.state(args, mem, ctx)
    if rt.setup:
        rt.setup(kern, st, args)
    for what, g in (rt.pre(kern, st, args) if rt.pre else ()):
        if not truth(g):
            return None
    s = kbase.Spec(kern, st, args)
    rt.spec(s)
    want = [c for c in s.cases if truth(c.cond)]
    ends = list(kern.ends) + [(kd, kern.label(l) if isinstance(l, str) else l) for kd, l in rt.ends]
    if rt.kind == "call":
        ends.append(("ret", args[rt.ret]))
    it = iter(hints)

    def hint(ex, s_, pc):
        try:
            return next(it)
        except StopIteration:
            raise Stuck("no hint")
    ex = Exec(kern.p, {}, ends, hint=hint, max_steps=200000)
    entry = kern.entry(rt)
    st0 = kern.state(args, mem, ctx)
    if rt.setup:
        rt.setup(kern, st0, args)
    (kind, o), = ex.run(st0, entry)
    if kind == "panic" and rt.may_panic:
        return None
    show = lambda x: hex(x) if isinstance(x, int) else str(x)
    if not want:
        return f"the code ends with '{kind}'; the specification has no outcome for this input"
    c = want[0]
    if c.kind != kind:
        return f"the code ends with '{kind}'; specified: {c.name} ('{c.kind}')"
    if c.stack is not None:
        a, b = [norm(bv(x)) for x in o.stack], [norm(bv(x)) for x in c.stack]
        if a != b:
            return f"{c.name}: the code leaves the stack (top last) {[show(x) for x in a]}; specified {[show(x) for x in b]}"
    if c.mem is not None and c.kind != "fault":
        for a in sorted(writes(o.mem) | writes(c.mem)):
            if c.free and truth(c.free(kern, a)):
                continue
            x, y = norm(bv(load(o.mem, a, []))), norm(bv(load(c.mem, a, [])))
            if x != y:
                return f"{c.name}: the code leaves {show(x)} at address {a:#x}; specified {show(y)}"
    if c.ctx is not None and norm(bv(o.ctx)) != norm(bv(c.ctx)):
        return f"{c.name}: the code ends in context {show(o.ctx)}; specified {show(c.ctx)}"
    for what, f in c.goals:
        if not truth(f(o)):
            return f"{c.name}: not so: {what}"
    return None


def describe(rt, args, ctx, lazy, hints, text):
    out = [f"routine {rt.tag or rt.name} of the assembled kernel, run on", "  " + ", ".join(f"{n}={a:#x}" for n, a in zip(rt.argnames, args)), f"  context {ctx:#x}"]
    if hints:
        out.append("  prover inputs " + ", ".join(hex(h) for h in hints))
    out.append("  memory read: " + ", ".join(f"[{a:#x}]={v:#x}" for a, v in sorted(lazy.items())[:60]))
    return "\n".join(out + [text])


def from_model(kern, rt, m, inputs=()):
    try:
        ev = lambda x: m.eval(bv(x), model_completion=True).as_long()
        d, e = image(m[z3.Function("mem0", BV, BV)] if True else None, 0)
        lazy = Lazy(lambda a: e, d)
        args = [ev(z3.BitVec(n, W)) for n in rt.argnames]
        ctx = ev(z3.BitVec("ctx", W))
        hints = [ev(x) for _, x in inputs]
        t = once(kern, rt, args, ctx, lazy, hints)
        return describe(rt, args, ctx, lazy, hints, t) if t else None
    except (Stuck, ValueError, RecursionError, z3.Z3Exception):
        return None


def search(kern, rt, n=300, seed=1, budget=40):
    import time
    rng = random.Random(seed)
    t0 = time.time()
    small = lambda: rng.choice((0, 0, 1, 2, 3, 5, 30, 100, rng.randrange(1 << 12), rng.randrange(1 << 31)))
    for i in range(n):
        if time.time() - t0 > budget:
            return None
        lim = rng.choice((small(), (1 << 32) - 1, 10_000_000, 5000))
        lazy = Lazy(lambda a: lim if a & 0xffffffff == LIMOFF(kern) else rng.choice((small(), small(), word(rng))))
        args = [word(rng) for _ in rt.argnames]
        if rng.random() < .5:
            args = [rng.choice((x, small())) for x in args]
        for j, nm in enumerate(rt.argnames):
            if nm == "kexit_info":
                args[j] = (rng.choice((0, lim, max(lim - 3, 0), rng.randrange(lim + 1))) << 192) + rng.getrandbits(40)
            if nm == "retdest":
                args[j] = 0xdead0000
        ctx = rng.choice((0, 1, 2, 7, 1 << 20)) << 64
        if rt.sample:
            args, lazy, ctx = rt.sample(rng, kern, args, lazy, ctx)
        hints = [rng.choice((word(rng), small())) for _ in range(20)]
        try:
            t = once(kern, rt, args, ctx, lazy, hints)
        except (Stuck, ValueError, RecursionError, z3.Z3Exception):
            continue
        if t:
            return describe(rt, args, ctx, lazy, hints[:0], t)
    return None


def LIMOFF(kern):
    return kern.c["CTX_METADATA_GAS_LIMIT"] & 0xffffffff
