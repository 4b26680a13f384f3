"""Contracts of the Keccak-f permutation table and of the sponge table."""
import itertools
from .air import *
from .lift import *
from .spec_arith import forced_bit
from .spec_tables import Base, sat_flags_


def mreduce(p, bits):
    """b^2 = b for the bit columns"""
    out = {}
    for m, c in p.items():
        k, last = [], None
        for v in m:
            if v == last and v in bits:
                continue
            k.append(v)
            last = v
        k = tuple(k)
        out[k] = (out.get(k, 0) + c) % P
    return {m: c for m, c in out.items() if c}


def xor2(a, b):
    return padd(padd(a, b), pmul(a, b), -2)


def weighted(ps):
    return psum(pscale(p, 1 << i) for i, p in enumerate(ps))


# ------------------------------------------------------------------ the permutation, from FIPS 202
def rotations():
    """rho: the offset of lane (x, y)"""
    r = {(0, 0): 0}
    x, y = 1, 0
    for t in range(24):
        r[x, y] = (t + 1) * (t + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    return r


def round_constants():
    def rc(t):
        r = [1, 0, 0, 0, 0, 0, 0, 0]
        for _ in range(t % 255):
            r = [0] + r
            for i in (0, 4, 5, 6):
                r[i] ^= r[8]
            r = r[:8]
        return r[0]
    return [sum(rc(j + 7 * i) << ((1 << j) - 1) for j in range(7)) for i in range(24)]


class KeccakSpec(Base):
    """K01: a permutation asked with a link value is answered by Keccak-f[1600] of its input."""

    def tasks(self):
        return [("K01", f, ()) for f in ("check_bits", "check_theta", "check_chi", "check_io")] + \
               [("K01", "check_round", (r,)) for r in range(24)] + [("K01", "check_flags", (r,)) for r in range(-1, 24)]

    def setup(self):
        m = self.m
        T = self.T = m.tables["Keccak"]
        k = self.k = m.cols["keccak"]
        self.steps = k["step"]
        self.cs = T.constraints({}, ("all",))
        self.A, self.C, self.CP, self.AP, self.APP, self.APPP, self.B00 = (k[x] for x in ("A", "C", "CP", "AP", "APP", "APPP", "APP00"))
        cand = {v for c in self.cs for f in c for v in pvars(f) if len(c) <= 2 and all(pvars(g) <= {v} for g in c)}
        self.bits = {v for v in cand if forced_bit(self.cs, v)}
        self.proved = set(self.bits)

    def add(self, s, w, ok, d=""):
        self.r.add("K01", s, w, ok, d)

    def index(self, cs, bits):
        self.idx = {}
        for c in cs:
            if len(c) == 1:
                q = mreduce(c[0], bits)
                if q:
                    self.idx.setdefault(freeze(normalize(q)), []).append(c[0])

    def holds(self, p, bits):
        p = mreduce(p, bits)
        return not p or freeze(normalize(p)) in self.idx

    def all_bits(self):
        """the bit columns, C' included (it is the xor of bits: check_bits)"""
        return self.bits | {v for r in self.CP for v in r}

    def check_bits(self):
        self.setup()
        need = dict(step=self.steps, C=[v for r in self.C for v in r], AP=[v for r in self.AP for s in r for v in s], APP00=self.B00)
        for n, vs in need.items():
            bad = [self.T.nm(v) for v in vs if v not in self.bits]
            self.add({"step": "round flags", "C": "column parities", "AP": "state after theta", "APP00": "bits of lane 0 before iota"}[n],
                     "are bits", not bad, f"{len(bad)} columns are not constrained to 0 or 1: {bad[:6]}")
        self.index(self.cs, self.bits)
        for x in range(5):
            bad = []
            for z in range(64):
                c = xor2(var(self.C[x][z]), xor2(var(self.C[(x - 1) % 5][z]), var(self.C[(x + 1) % 5][(z - 1) % 64])))
                if not self.holds(padd(var(self.CP[x][z]), c, -1), self.bits):
                    bad.append(z)
            self.add(f"column {x}", "C'[z] is C[x,z] ^ C[x-1,z] ^ C[x+1,z-1]", not bad, f"bits {bad}")

    def check_theta(self):
        self.setup()
        bits = self.all_bits()
        self.index(self.cs, bits)
        for x in range(5):
            for y in range(5):
                for h in range(2):
                    w = weighted([xor2(var(self.AP[x][y][z]), xor2(var(self.C[x][z]), var(self.CP[x][z]))) for z in range(32 * h, 32 * h + 32)])
                    self.add(f"lane ({x},{y}) limb {h}", "the bits of the input limb are A'^C^C'", self.holds(padd(w, var(self.A[x][y] + h), -1), bits), "")
        # parity: for every column of the state, the constraints leave exactly the xor
        byvar = {}
        for c in self.cs:
            vs = frozenset().union(*[pvars(f) for f in c])
            if len(vs) <= 12:
                byvar.setdefault(vs, []).append(c)
        for x in range(5):
            bad = []
            for z in range(64):
                ap = [self.AP[x][y][z] for y in range(5)]
                cp = self.CP[x][z]
                vs = frozenset(ap + [cp])
                cs = [c for k, l in byvar.items() if k <= vs for c in l]
                for a in itertools.product((0, 1), repeat=6):
                    e = dict(zip(ap + [cp], a))
                    if all(any(peval(f, e) == 0 for f in c) for c in cs) and sum(a) % 2:
                        bad.append(z)
                        break
            self.add(f"column {x}", "the parity of A' is C'", not bad, f"bits {bad}")
        # the lemma that makes theta of the two facts above, per bit column
        ok = True
        for ap in itertools.product((0, 1), repeat=5):
            for c, l, r in itertools.product((0, 1), repeat=3):
                cp = c ^ l ^ r
                if cp != sum(ap) % 2:
                    continue
                a = [v ^ c ^ cp for v in ap]
                ok &= c == sum(a) % 2 and all(v == w ^ l ^ r for v, w in zip(ap, a))
        self.add("theta", "A' = A ^ parity(x-1, z) ^ parity(x+1, z-1) follows (lemma, all 256 cases)", ok, "")

    def check_chi(self):
        self.setup()
        bits = self.all_bits()
        self.index(self.cs, bits)
        rot = rotations()
        # pi: B[y, 2x+3y] = rot(A'[x, y], r[x, y])
        src = {(y, (2 * x + 3 * y) % 5): (x, y) for x in range(5) for y in range(5)}

        def b(x, y, z):
            sx, sy = src[x % 5, y]
            return var(self.AP[sx][sy][(z - rot[sx, sy]) % 64])
        for x in range(5):
            for y in range(5):
                for h in range(2):
                    w = weighted([xor2(b(x, y, z), pmul(padd(const(1), b(x + 1, y, z), -1), b(x + 2, y, z))) for z in range(32 * h, 32 * h + 32)])
                    self.add(f"lane ({x},{y}) limb {h}", "is chi of the rotated, permuted state", self.holds(padd(w, var(self.APP[x][y] + h), -1), bits), "")
        for h in range(2):
            w = weighted([var(v) for v in self.B00[32 * h:32 * h + 32]])
            self.add(f"lane (0,0) limb {h}", "is made of its bits", self.holds(padd(w, var(self.APP[0][0] + h), -1), bits), "")

    def check_round(self, r):
        self.setup()
        rc = round_constants()[r]
        e = {v: int(i == r) for i, v in enumerate(self.steps)}
        T = self.T
        cs = T.constraints(e, ("all",))
        self.index(cs, self.bits)
        for h in range(2):
            w = weighted([xor2(var(self.B00[z]), const(rc >> z & 1)) for z in range(32 * h, 32 * h + 32)])
            self.add(f"round {r} limb {h}", "lane 0 of the output is xored with the round constant", self.holds(padd(w, var(self.APPP[0][0] + h), -1), self.bits), "")
        if r < 23:
            self.index(T.constraints(e, ("all", "trans")), self.bits)
            bad = [(x, y, h) for x in range(5) for y in range(5) for h in range(2)
                   if not self.holds(padd(var(self.APPP[x][y] + h), var(T.nx(self.A[x][y] + h)), -1), self.bits)]
            self.add(f"round {r}", "the output is the input of the next row", not bad, str(bad))
            t = self.link()
            self.add(f"round {r}", "the link value is kept in the next row", self.holds(padd(t, {tuple(v + T.n for v in m): c for m, c in t.items()}, -1), self.bits), "")

    def sides(self):
        _, i = [x for x in self.m.looked("Keccak")][0]
        return self.m.looked("Keccak")

    def link(self):
        for _, s in self.m.looked("Keccak"):
            return s.cols[-1]

    def check_io(self):
        self.setup()
        ls = self.m.looked("Keccak")
        self.add("lookups", "one for the inputs and one for the outputs", len(ls) == 2, "")
        if len(ls) != 2:
            return
        lim = lambda R: [var(R[x][y] + h) for y in range(5) for x in range(5) for h in range(2)]
        want = {"inputs": (0, lim(self.A)), "outputs": (23, lim(self.APPP))}
        got = {}
        for _, s in ls:
            for k, (st, _c) in want.items():
                if s.filter == var(self.steps[st]):
                    got[k] = s
        for k, (st, c) in want.items():
            s = got.get(k)
            self.add(k, f"are sent by the rows of round {st} alone", s is not None, "; ".join(self.T.show(x.filter) for _, x in ls))
            if s is not None:
                bad = [i for i in range(50) if s.cols[i] != c[i]]
                self.add(k, "are the 25 lanes of 2 limbs, x first", not bad and len(s.cols) == 51, str(bad))
        if len(got) == 2:
            self.add("link value", "is the same column on both sides", got["inputs"].cols[-1] == got["outputs"].cols[-1] and not pvars(got["inputs"].cols[-1]) & set(self.steps), "")

    def check_flags(self, r):
        """the flags of the next row, from those of this row"""
        self.setup()
        T, n = self.T, len(self.steps)
        cur = {v: int(i == r) for i, v in enumerate(self.steps)}
        nxt = [T.nx(v) for v in self.steps]
        who = f"after round {r}" if r >= 0 else "after a padding row"
        allowed = {-1: [-1], 23: [-1, 0]}.get(r, [r + 1])
        sols = self.one_hot_solutions([c for c in T.constraints(cur, ("all", "trans")) if all(pvars(f) <= set(nxt) for f in c)], nxt)
        self.add(who, "comes " + " or ".join("padding" if a < 0 else f"round {a}" for a in allowed), sols is not None and sols <= set(allowed), f"possible: {sols}")
        if r == -1:
            sols = self.one_hot_solutions([c for c in T.constraints({}, ("all", "first")) if all(pvars(f) <= set(self.steps) for f in c)], self.steps)
            self.add("first row", "is padding or round 0", sols is not None and sols <= {-1, 0}, f"possible: {sols}")

    def one_hot_solutions(self, cs, vs):
        """The assignments of bits satisfying the constraints, as positions of the only 1 (-1: none);
        None if another assignment may satisfy them."""
        out = set()
        for s in range(len(vs) + 1):
            sub = {vs[0]: padd(const(s), psum(var(v) for v in vs[1:]), -1)}
            try:
                st = State([[substitute(f, sub) for f in c] for c in cs])
            except Contradiction:
                continue
            todo = [st]
            while todo:
                st = todo.pop()
                vals = [st.red(substitute(var(v), sub)) for v in vs]
                free = [v for v, p in zip(vs, vals) if not is_const(p)]
                if any(is_const(p) and cval(p) not in (0, 1) for p in vals):
                    continue
                if len([p for p in vals if p == const(1)]) > s:
                    continue
                if not free:
                    on = [i for i, p in enumerate(vals) if p == const(1)]
                    if len(on) != s:
                        continue
                    if s > 1:
                        return None
                    out.add(on[0] if on else -1)
                    continue
                if len(todo) > 200:
                    return None
                for x in (0, 1):
                    t = st.copy()
                    try:
                        t.add([[padd(substitute(var(free[0]), sub), const(x), -1)]])
                        t.again()
                        todo.append(t)
                    except Contradiction:
                        pass
        return out


class SpongeSpec(Base):
    """K02: a row looked up by the CPU holds the Keccak-256 digest of the bytes in memory."""
    RATE, CAP, DIG = 136, 64, 32

    def tasks(self):
        return [("K02", "check_static", ())] + [("K02", "check_row", (k,)) for k in ["dummy", "full"] + list(range(136))]

    def setup(self):
        T = self.T = self.m.tables["KeccakSponge"]
        self.c = self.m.C["keccak_sponge"]
        self.full = self.c["is_full_input_block"]
        self.pad = self.c["is_padding_byte"]
        self.msgs = {}
        for l, s in self.m.ctls:
            for x in l:
                if x.table == "KeccakSponge":
                    self.msgs.setdefault(s.table if s.table != "Keccak" else self.kind(s), []).append(x)
        _, self.side = self.looked("KeccakSponge")

    def kind(self, s):
        k = self.m.cols["keccak"]
        return "Keccak in" if s.cols[0] == var(k["A"][0][0]) else "Keccak out"

    def add(self, s, w, ok, d=""):
        self.r.add("K02", s, w, ok, d)

    def check_static(self):
        self.setup()
        T = self.T
        cs = T.constraints({}, ("all",))
        fl = [self.full] + self.pad
        bits = {v for v in fl if forced_bit(cs, v)}
        self.add("row flags", "are bits", set(fl) <= bits, str([T.nm(v) for v in fl if v not in bits]))
        small = [c for c in cs if all(pvars(f) <= set(fl) for f in c) and len(set().union(*map(pvars, c))) <= 2]
        on = lambda e: all(any(peval(f, e) == 0 for f in c) for c in small if set().union(*map(pvars, c)) <= set(e))
        bad = [i for i in range(135) if on({self.pad[i]: 1, self.pad[i + 1]: 0})]
        self.add("padding bytes", "are followed by padding bytes", not bad, str(bad))
        self.add("full block", "has no padding byte", not bad and not on({self.full: 1, self.pad[135]: 1}), "")
        rng = self.lookup_ranges(T)
        bad = [T.nm(v) for v in self.c["block_bytes"] if rng.get(v, 256) > 255]
        self.add("block bytes", "are range-checked to 8 bits", not bad, f"{len(bad)} columns: {bad[:4]}")
        bad = [T.nm(v) for v in self.c["updated_digest_state_bytes"] if rng.get(v, 256) > 255]
        self.add("digest bytes", "are range-checked to 8 bits", not bad, f"{len(bad)} columns: {bad[:4]}")
        # the link value
        ls = {freeze(x.cols[-1]) for k in ("Keccak in", "Keccak out") for x in self.msgs.get(k, [])}
        self.add("link value", "is the same for the input and the output of the permutation", len(ls) == 1, "")
        if len(ls) == 1:
            l = self.msgs["Keccak in"][0].cols[-1]
            first = State(T.constraints({}, ("all", "first")))
            tr = State(T.constraints({}, ("all", "trans")))
            nx = {tuple(v + T.n for v in m): c for m, c in l.items()}
            self.add("link value", "is 0 in the first row", not first.red(l), first.red(l) and T.show(l))
            self.add("link value", "grows by 1 in each row, so that no two rows share it", not tr.red(padd(padd(nx, l, -1), const(1), -1)), T.show(l))

    def check_row(self, kind):
        self.setup()
        T, c, add = self.T, self.c, self.add
        nin = {"dummy": 0, "full": 136}.get(kind, kind)
        final = isinstance(kind, int)
        e = {self.full: int(kind == "full"), **{v: int(final and i >= nin) for i, v in enumerate(self.pad)}}
        who = f"{kind} row" if not final else f"final block of {kind} bytes"
        sub0 = {v: const(x) for v, x in e.items()}
        try:
            st = State(T.constraints(e, ("all",)))
        except Contradiction:
            add(who, "exists", False, "")
            return
        sub = lambda p: st.red(substitute(p, sub0))

        def sent(name):
            out, bad = [], []
            for s in self.msgs.get(name, []):
                f = sub(s.filter)
                if f not in ({}, const(1)):
                    bad.append(T.show(f))
                if f:
                    out.append([sub(x) for x in s.cols])
            add(who, f"messages to {name} are sent once or not at all", not bad, str(bad[:3]))
            return out
        v = lambda n: sub(var(c[n]))
        vs = lambda n: [sub(var(x)) for x in c[n]]
        active = kind != "dummy"
        blk = vs("block_bytes")
        if final:
            want = [None] * 136
            want[nin:] = [1] + [0] * (135 - nin)
            want[135] |= 0x80
            bad = [i for i in range(nin, 136) if blk[i] != const(want[i])]
            add(who, "is padded with 10*1", not bad, f"bytes {bad[:5]}")
        # memory
        reads = sent("Memory")
        ctx, seg, base = v("context"), v("segment"), padd(v("virt"), v("already_absorbed_bytes"))
        left = [[const(1), ctx, seg, padd(base, const(i)), blk[i]] + [{}] * 7 + [v("timestamp")] for i in range(nin)]
        ok = len(reads) == nin
        for w in left:
            ok &= sum(1 for x in reads if x == w) == 1
        add(who, f"reads its {nin} bytes at virt + absorbed bytes, and nothing else", ok, f"{len(reads)} reads")
        # xor of the block into the rate
        lg = sent("Logic")
        rate, xo = vs("original_rate_u32s"), vs("xored_rate_u32s")
        le = [psum(pscale(blk[4 * i + j], 1 << (8 * j)) for j in range(4)) for i in range(34)]
        z = lambda l: l + [{}] * (40 - len(l))
        want = [[const(0x18)] + z(rate)[8 * i:8 * i + 8] + z(le)[8 * i:8 * i + 8] + z(xo)[8 * i:8 * i + 8] for i in range(5)]
        add(who, "xors the block into the rate" if active else "asks nothing of the logic table",
            sorted(map(repr, lg)) == sorted(map(repr, want)) if active else not lg, f"{len(lg)} messages")
        # permutation
        cap = vs("original_capacity_u32s")
        dig = vs("updated_digest_state_bytes")
        out = [psum(pscale(dig[4 * i + j], 1 << (8 * j)) for j in range(4)) for i in range(8)] + vs("partial_updated_state_u32s")
        i, o = sent("Keccak in"), sent("Keccak out")
        if active:
            add(who, "permutes the xored rate and the capacity", [x[:-1] for x in i] == [xo + cap], "")
            add(who, "takes the permuted state", [x[:-1] for x in o] == [out], "")
        else:
            add(who, "asks no permutation", not i and not o, "")
        # answer to the CPU
        f = sub(self.side.filter)
        add(who, "answers the CPU" if final else "does not answer the CPU", f == const(int(final)), T.show(f))
        if final:
            res = [psum(pscale(dig[4 * (7 - i) + j], 1 << (24 - 8 * j)) for j in range(4)) for i in range(8)]
            want = [ctx, seg, v("virt"), padd(v("already_absorbed_bytes"), const(nin)), v("timestamp")] + res
            bad = [j for j, (a, b) in enumerate(zip(self.side.cols, want)) if sub(a) != b]
            add(who, "the answer is address, length, time and digest, big-endian", not bad and len(want) == len(self.side.cols), f"columns {bad}")
        # chaining
        st = State(T.constraints(e, ("all", "trans")))
        nv = lambda n: st.red(var(T.nx(c[n])))
        nvs = lambda n: [st.red(var(T.nx(x))) for x in c[n]]
        if kind == "full":
            d = lambda a, b: st.red(padd(a, b, -1))
            bad = [n for n in ("context", "segment", "virt", "timestamp") if d(nv(n), v(n))]
            if d(nv("already_absorbed_bytes"), padd(v("already_absorbed_bytes"), const(136))):
                bad.append("already_absorbed_bytes")
            add(who, "the next block continues the same input", not bad, str(bad))
            bad = [j for j, (a, b) in enumerate(zip(nvs("original_rate_u32s") + nvs("original_capacity_u32s"), out)) if d(a, b)]
            add(who, "the next block starts from the permuted state", not bad, f"limbs {bad}")
        elif final:
            bad = [j for j, a in enumerate([nv("already_absorbed_bytes")] + nvs("original_rate_u32s") + nvs("original_capacity_u32s")) if a]
            add(who, "the next row starts a new input from the zero state", not bad, f"{bad[:4]}")
        else:
            bad = [n for n, x in (("full", nv("is_full_input_block")), ("final", st.red(var(T.nx(self.pad[135]))))) if self.possible(T, e, n)]
            add(who, "is only followed by dummy rows", not bad, str(bad))
            s0 = State(T.constraints({}, ("first",)))
            bad = [j for j, x in enumerate([c["already_absorbed_bytes"]] + c["original_rate_u32s"] + c["original_capacity_u32s"]) if s0.red(var(x))]
            add("first row", "starts from the zero state", not bad, f"{bad[:4]}")

    def possible(self, T, e, what):
        nx = T.nx(self.full) if what == "full" else T.nx(self.pad[135])
        oth = T.nx(self.pad[135]) if what == "full" else T.nx(self.full)
        try:
            st = State(T.constraints({**e, nx: 1, oth: 0}, ("all", "trans")))
            return True
        except Contradiction:
            return False
