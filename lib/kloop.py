"""Loops: a loop is cut at its head.  The words on the stack at the head are affine in the number of iterations (inferred from
two symbolic iterations, then proved by induction); the memory and further facts at iteration i are given by the contract."""
import z3
from .kvc import *
from . import kvc
from .kbase import prove, mul_facts


class Loop:
    TRACK = True
    def __init__(self, k, st, entry, ends, note, goal, contracts=None, hint=None):
        """note(what, ok, detail); goal(what, conds, goal)"""
        self.k, self.st, self.entry, self.ends, self.note, self.goal, self.hint = k, st, entry, ends, note, goal, hint
        self.contracts = contracts or {}
        self.find()

    def exec(self, loops=None, track=False, havoc=False):
        e = Exec(self.k.p, self.contracts, self.ends, loops=loops, hint=self.hint)
        e.track, e.havoc = track, havoc
        return e

    def find(self):
        heads = {s.pc for kd, s in self.exec(track=self.TRACK, havoc=True).run(self.st, self.entry) if kd == "head"}
        if len(heads) != 1:
            raise Stuck(f"{len(heads)} loops where one is expected")
        self.head = heads.pop()
        stop = {self.head: lambda ex, s: [("head", s)]}
        outs = self.exec(loops=stop).run(self.st, self.entry)
        self.first = [s for kd, s in outs if kd == "head"]
        self.direct = [(kd, s) for kd, s in outs if kd != "head"]
        self.stop = stop
        s0 = self.first[0]
        outs = self.exec(loops=stop, havoc=True).run(s0, self.head)
        back = [s for kd, s in outs if kd == "head"]
        if not back:
            raise Stuck("the loop body does not return to its head")
        self.slots, self.steps = s0.stack, []
        for a, b in zip(s0.stack, back[0].stack):
            d = sub(b, a)
            if not isinstance(d, int):
                raise Stuck("a word on the stack at the loop head is not affine in the iteration number")
            self.steps.append(d)
        if any(len(s.stack) != len(s0.stack) for s in back + self.first):
            raise Stuck("the stack height at the loop head varies")

    def at(self, i):
        """the stack at iteration i"""
        return [add(a, mul(d, i)) if d else a for a, d in zip(self.slots, self.steps)]

    def induct(self, i, conds, mem, inv, extra=(), havoc=False, gs=None, lazy=False):
        """i: symbolic iteration number; mem(i): memory; inv(i): {name: fact}.  Proves the invariant and yields the exits
        (kind, state) of iteration i."""
        gs = gs or [(z3.BitVec("any_address", W), [])]

        def arrive(s, j, when):
            cs = s.conds
            for n, (x, y) in enumerate(zip(s.stack, self.at(j))):
                self.goal("loop: the stack at the head", cs, EQ(x, y))
            for what, f in inv(j).items():
                self.goal(f"loop {when}: {what}", cs + list(extra), f)
            m = mem(j)
            if m is not None:
                for g, gc in gs:
                    hs = cs + list(extra) + gc
                    self.goal(f"loop {when}: memory", hs, EQ(load(s.mem, g, hs, lazy), load(m, g, hs, lazy)))
        for s in self.first:
            t = s.copy()
            arrive(t, 0, "entry")
        st = self.st.copy()
        st.stack = self.at(i)
        st.mem = mem(i) if mem(i) is not None else st.mem
        st.assume(*conds)
        st.assume(*inv(i).values())
        st.assume(*extra)
        outs = self.exec(loops=self.stop, havoc=havoc).run(st, self.head)
        res = []
        for kd, s in outs:
            if kd == "head":
                arrive(s, add(i, 1), "step")
            else:
                res.append((kd, s))
        return res
