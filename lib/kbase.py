"""Contracts over kernel routines: executable specifications, their use at call sites, and the obligations they give."""
import random, time
import z3
from . import kvc
from .kvc import (B, And, EQ, Exec, Mem, Not, Or, Prog, State, Stuck, T, ULE, ULT, add, and_, bv, check, div, eq, fresh, ite, load, lt, mod, mul,
                  norm, or_, relation, shl, shr, store_bytes, sub, W, MASK, LONG)


class Case:
    """one specified outcome: under `cond` the routine ends with `kind`, this stack (last = top) and this memory"""

    def __init__(self, name, kind, cond, stack=None, mem=None, ctx=None, free=None, goals=()):
        self.name, self.kind, self.cond, self.stack, self.mem, self.ctx = name, kind, cond, stack, mem, ctx
        self.free = free                 # addresses whose content is not specified: f(g) -> truth value
        self.goals = list(goals)         # further conditions on the final state: (name, f(state) -> truth value)


class Spec:
    """builds the exclusive, exhaustive list of outcomes of a routine"""

    def __init__(self, k, st, args):
        self.k, self.st, self.args = k, st, args
        self.mem, self.ctx, self.conds = st.mem, st.ctx, []
        self.cases = []

    @property
    def path(self):
        return self.st.conds + [T(c) for c in self.conds]

    def load(self, a):
        return load(self.mem, a, self.path)

    def store(self, a, v):
        self.mem = self.mem.store(a, v)

    def split(self, name, kind, c, **kw):
        """one outcome when c holds; continue with not c"""
        if c is True or c is False:
            if c:
                self.case(name, kind, **kw)
                self.conds.append(z3.BoolVal(False))
            return
        c = T(c)
        self.cases.append(Case(name, kind, z3.And(*([T(x) for x in self.conds] + [c])), kw.pop("stack", None), kw.pop("mem", None), **kw))
        self.conds.append(z3.Not(c))

    def fault_if(self, c, name="faults"):
        self.split(name, "fault", c)

    def case(self, name, kind, stack=None, mem=None, **kw):
        self.cases.append(Case(name, kind, z3.And(*[T(x) for x in self.conds]) if self.conds else z3.BoolVal(True), stack,
                               self.mem if mem is None else mem, **kw))

    def branch(self, c, yes, no):
        """yes/no: functions of a copy of the specification"""
        a, b = self.fork(c), self.fork(Not(c))
        yes(a)
        no(b)
        self.cases += a.cases + b.cases

    def fork(self, c):
        s = Spec(self.k, self.st, self.args)
        s.mem, s.ctx, s.conds = self.mem, self.ctx, self.conds + [T(c)]
        for k, v in self.__dict__.items():
            if k not in ("mem", "ctx", "conds", "cases", "k", "st", "args"):
                s.__dict__[k] = v
        return s


_ops = {}


def products(e):
    """the products, quotients and remainders of two unknown words in e"""
    r = _ops.get(e.get_id())
    if r is None:
        seen, out, todo = set(), [], [e]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            c = x.children()
            if len(c) == 2 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in ("mul", "udiv", "umod"):
                out.append(x)
            todo.extend(c)
        if len(_ops) > 20000:
            _ops.clear()
        r = _ops[e.get_id()] = (e, out)
    return r[1]


def mul_facts(es):
    """instances of the arithmetic lemmas about the uninterpreted product, quotient and remainder"""
    muls, divs, out = {}, {}, []
    for e in es:
        for x in products(e):
            (muls if x.decl().name() == "mul" else divs)[x.get_id()] = x
    ms = list(muls.values())
    for m in ms:
        a, b = m.children()
        for x, y in ((21, 21), (32, 32), (64, 64), (128, 128), (32, 64), (64, 32)):
            out.append(z3.Implies(z3.And(z3.ULT(a, 1 << x), z3.ULT(b, 1 << y)), z3.ULT(m, 1 << (x + y)) if x + y < 256 else z3.BoolVal(True)))
        out.append(z3.Implies(a == 0, m == 0))
        out.append(z3.Implies(b == 0, m == 0))
        out.append(z3.Implies(a == 1, m == b))
        out.append(z3.Implies(b == 1, m == a))
        small = z3.And(z3.ULT(a, 1 << 128), z3.ULT(b, 1 << 128))
        out.append(z3.Implies(z3.And(small, z3.UGE(a, 1562500), z3.UGE(b, 1562500)), z3.UGE(m, 1562500 ** 2)))
        out.append(z3.Implies(z3.And(small, a != 0), z3.UGE(m, b)))
        out.append(z3.Implies(z3.And(small, b != 0), z3.UGE(m, a)))
    for i, m in enumerate(ms):
        for n in ms[i + 1:]:
            (a, b), (c, d) = m.children(), n.children()
            sm = z3.And(*[z3.ULT(t, 1 << 128) for t in (a, b, c, d)])
            out.append(z3.Implies(z3.And(sm, z3.ULE(a, c), z3.ULE(b, d)), z3.ULE(m, n)))
            out.append(z3.Implies(z3.And(sm, z3.UGE(a, c), z3.UGE(b, d)), z3.UGE(m, n)))
            out.append(z3.Implies(z3.Or(z3.And(a == c, b == d), z3.And(a == d, b == c)), m == n))
    for m in divs.values():
        a, b = m.children()
        if m.decl().name() == "udiv":
            out += [z3.ULE(m, a), z3.Implies(z3.ULT(a, b), m == 0)]
            out.append(z3.Implies(b == 1, m == a))
            if z3.is_bv_value(b) and b.as_long():
                c = b.as_long()
                out += [z3.ULE(m, MASK // c), z3.ULE(m * c, a), z3.ULT(a - m * c, c)]
        else:
            out += [z3.ULE(m, a), z3.Implies(b != 0, z3.ULT(m, b)), z3.Implies(z3.ULT(a, b), m == a)]
    return out


def choices(es):
    """the conditions of the conditional terms in es that have no such term inside"""
    out, seen, todo = {}, set(), list(es)
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = x.children()
        if len(c) == 3 and z3.is_app_of(x, z3.Z3_OP_ITE):
            out[c[0].get_id()] = c[0]
        todo.extend(c)
    return out.values()


def decide(conds, goal, budget):
    """rewrites a query: conditional terms whose condition the hypotheses decide are replaced by the branch taken"""
    conds, t0, tried = list(conds), time.time(), set()
    while time.time() - t0 < budget:
        for c in choices(conds + [goal]):
            if c.get_id() in tried or choices([c]):
                continue
            tried.add(c.get_id())
            keep.append(c)
            v = next((v for v, q in ((True, z3.Not(c)), (False, c)) if check(conds + [q] + mul_facts(conds + [q]), 1500)[0] == z3.unsat), None)
            if v is not None:
                p = (c, z3.BoolVal(v))
                conds = [x for x in (z3.simplify(z3.substitute(x, p)) for x in conds) if not z3.is_true(x)]
                conds.append(c if v else z3.Not(c))
                goal = z3.simplify(z3.substitute(goal, p))
                break
        else:
            break
    return conds, goal


keep = []


def prove(conds, goal, timeout=LONG):
    """(status, model): 'ok', 'model', 'unknown'"""
    goal = T(goal)
    if z3.is_true(z3.simplify(goal)):
        return "ok", None
    es = list(conds) + [z3.Not(goal)]
    r, s = check(es + mul_facts(es), min(timeout, 2000))
    if r == z3.unknown:
        hs, g = decide(conds, goal, 20)
        if z3.is_true(g):
            return "ok", None
        fs = hs + [z3.Not(g)]
        if not products(g) and check([f for f in fs if not products(f)], 6000)[0] == z3.unsat:
            return "ok", None
        r, s = check(fs + mul_facts(fs), timeout)
        if r == z3.unknown and timeout > 2000:
            r, s = check(es + mul_facts(es), timeout)
    if r == z3.unsat:
        return "ok", None
    if r == z3.sat:
        return "model", s.model()
    return "unknown", None


class Kernel:
    """the program with its contract table"""

    def __init__(self, dump):
        self.p = Prog(dump + "/kernel.json")
        self.c = self.p.const
        self.contracts = {}        # pc -> apply(ex, st)
        self.ends = []
        for n in ("fault_exception",):
            self.ends.append(("fault", self.p.labels[n]))
        self.ends.append(("panic", self.p.labels["panic"]))

    def label(self, n):
        if n not in self.p.labels:
            raise Stuck(f"the kernel has no routine {n}")
        return self.p.labels[n]

    def entry(self, rt):
        e = rt.entry or rt.name
        return self.label(e) if isinstance(e, str) else e(self) if callable(e) else e

    def jumptable(self, name, i):
        """the code address in entry i of a table of 3-byte words"""
        a = self.label(name) + 3 * i
        return int.from_bytes(self.p.code[a:a + 3], "big")

    def field(self, name, ctx):
        """address of a context metadata field"""
        return add(self.c[name], ctx)

    def state(self, args, mem, ctx):
        st = State()
        st.pc, st.stack, st.base, st.mem, st.ctx = None, [a for a in reversed(args)], None, mem, ctx
        st.conds, st.ghost, st.trail, st.inputs = [], {}, [], []
        return st

    def call_contract(self, name, nargs, spec, pre=None):
        """makes a contract usable at call sites: spec(Spec) lists cases of kind 'ret' whose stack replaces the
        arguments (the last argument is the return address); other kinds end the caller's path."""
        pc = self.label(name)

        def apply(ex, st):
            ex.need(st, nargs)
            args = [st.stack.pop() for _ in range(nargs)]
            if pre:
                for what, g in pre(self, st, args):
                    ex.require(st, f"the precondition of {name} holds at the call: {what}", g)
            s = Spec(self, st, args)
            spec(s)
            out = []
            for c in s.cases:
                if not ex.feasible(st, c.cond):
                    continue
                t = st.copy()
                t.assume(c.cond)
                if c.kind == "ret":
                    t.mem = c.mem
                    if c.ctx is not None:
                        t.ctx = c.ctx
                    t.stack += c.stack
                    out += ex.jump(t, args[-1])
                else:
                    out.append((c.kind, t))
            return out
        self.contracts[pc] = apply


class Routine:
    def __init__(self, name, argnames, spec, pre=None, kind="call", may_panic=False, contract=True, loops=None, inline=(), ends=(), hint=None, setup=None,
                 stack_base=False, realmul=False, timeout=LONG, sample=None, entry=None, tag=None, maxpaths=4000, use=None, ret=-1, live=None):
        # live: f(spec) -> the condition under which the routine must not panic
        self.__dict__.update(locals())


class Verifier:
    """runs the obligations of one routine"""

    def __init__(self, kern, report, prop):
        self.k, self.r, self.prop = kern, report, prop

    def ctx0(self):
        """an arbitrary context id"""
        ctx = z3.BitVec("ctx", W)
        return ctx, [z3.ULT(ctx, 1 << 96), ctx & ((1 << 64) - 1) == 0]

    def verify(self, rt):
        t0 = time.time()
        k = self.k
        kvc.REALMUL = rt.realmul
        items = {}
        self.models = []

        def note(what, ok, detail=""):
            a = items.setdefault(what, [True, ""])
            if not ok and a[0]:
                a[0], a[1] = False, detail
        try:
            self._verify(rt, note)
        except Stuck as e:
            note("the code stays within the form that its contract describes", False, f"{e}")
        kvc.REALMUL = False
        bad = [w for w, (ok, d) in items.items() if not ok]
        if bad and rt.sample is not False and (rt.kind in ("call", "syscall") or rt.sample):
            from . import kreplay
            txt = next((t for t in (kreplay.from_model(k, rt, m, i) for m, i in self.models[:6]) if t), None) or kreplay.search(k, rt)
            if txt:
                for w in bad[:1]:
                    items[w][1] += "\nFAILING INPUT\n" + txt
        for what, (ok, d) in items.items():
            self.r.add(self.prop, rt.tag or rt.name, what, ok, d)
        return items

    def start(self, rt):
        k = self.k
        args = [z3.BitVec(n, W) for n in rt.argnames]
        mem = Mem.fresh("mem0")
        ctx, cs = self.ctx0()
        st = k.state(args, mem, ctx)
        st.assume(*cs)
        if rt.setup:
            rt.setup(k, st, args)
        if rt.pre:
            for what, g in rt.pre(k, st, args):
                st.assume(g)
        return st, args

    def _verify(self, rt, note):
        k = self.k
        st, args = self.start(rt)
        start = st
        if rt.sample is not False and check(st.conds, 20000)[0] == z3.unsat:
            note("the precondition is satisfiable", False, "contradictory")
            return
        note("the precondition is satisfiable", True)
        contracts = {pc: f for pc, f in k.contracts.items() if rt.use is None or pc in {k.label(n) for n in rt.use}}
        for n in rt.inline:
            contracts.pop(k.label(n), None)
        ends = list(k.ends) + [(kd, k.label(l) if isinstance(l, str) else l) for kd, l in rt.ends]
        if rt.kind == "call":
            ends.append(("ret", args[rt.ret]))
        loops = {}
        ex = Exec(k.p, contracts, ends, loops=loops, hint=rt.hint, max_paths=rt.maxpaths)
        entry = k.entry(rt)
        outs = ex.run(st, entry)
        for what, conds, goal in ex.obl:
            self.goal(rt, note, what, conds, goal, args, st)
        s = Spec(k, st, args)
        rt.spec(s)
        allc = z3.Or(*[c.cond for c in s.cases])
        g = z3.BitVec("any_address", W)
        hit = set()
        for kind, o in outs:
            if kind == "panic":
                if not rt.may_panic:
                    self.goal(rt, note, "the kernel never panics", o.conds, z3.BoolVal(False), args, st)
                elif rt.live:
                    self.goal(rt, note, "no panic where the outcome is specified", o.conds, Not(rt.live(Spec(k, start, args))), args, st)
                continue
            st = o
            self.goal(rt, note, "every execution is one of the specified outcomes", o.conds, allc, args, st)
            for i, c in enumerate(s.cases):
                cs = o.conds + [c.cond]
                if check(cs, 3000)[0] == z3.unsat:
                    continue
                hit.add(i)
                if c.kind != kind:
                    self.goal(rt, note, f"{c.name}: ends with {c.kind}, never with {kind}", cs, z3.BoolVal(False), args, st)
                    continue
                if c.stack is not None:
                    if len(c.stack) != len(o.stack):
                        self.goal(rt, note, f"{c.name}: leaves {len(c.stack)} words on the stack", cs, z3.BoolVal(False), args, st)
                        continue
                    for j, (x, y) in enumerate(zip(reversed(o.stack), reversed(c.stack))):
                        self.goal(rt, note, f"{c.name}: stack[{j}]", cs, EQ(x, y), args, st)
                if c.mem is not None and c.kind != "fault":
                    fr = [Not(c.free(k, g))] if c.free else []
                    x, y = load(o.mem, g, cs + fr), load(c.mem, g, cs + fr)
                    self.goal(rt, note, f"{c.name}: memory", cs + fr, EQ(x, y), args, st)
                if c.ctx is not None:
                    self.goal(rt, note, f"{c.name}: context", cs, EQ(o.ctx, c.ctx), args, st)
                for what, f in c.goals:
                    self.goal(rt, note, f"{c.name}: {what}", cs, f(o), args, st)
        for i, c in enumerate(s.cases):
            if i not in hit and c.kind != "fault" and check(start.conds + [c.cond], 5000)[0] == z3.sat:
                note(f"{c.name}: is reached", False, "no execution of the code ends in this outcome")

    def goal(self, rt, note, what, conds, goal, args, st, inputs=None):
        goal = T(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        s, m = prove(conds, goal, rt.timeout)
        if s == "ok":
            note(what, True)
            return
        if m is not None:
            self.models.append((m, st.inputs if inputs is None else inputs))
        if s == "unknown":
            note(what, False, "not proved (the solver gave no answer)")
            return
        d = ", ".join(f"{n}={m.eval(a, model_completion=True).as_long():#x}" for n, a in zip(rt.argnames, args) if z3.is_bv(a))
        note(what, False, "not valid; the solver's counterexample: " + d)
