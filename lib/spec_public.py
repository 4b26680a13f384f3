"""Public values (P01): the memory rows and the transcript that the verifiers derive from them.

The functions under contract take concrete public values of types that no verifier here accepts
(plonky2's RichField, CircuitBuilder), so this is a bounded check: the real functions are run, native
and circuit, and every row is compared at random values and challenges (identity testing)."""
import json, os, random, subprocess, tempfile
from . import build as B
from .air import P

M = "GLOBAL_METADATA_"
# kernel cell -> public value (path, limbs that a circuit target represents)
META = [("BLOCK_BENEFICIARY", "block_metadata.block_beneficiary", 5), ("BLOCK_TIMESTAMP", "block_metadata.block_timestamp", 1),
        ("BLOCK_NUMBER", "block_metadata.block_number", 1), ("BLOCK_RANDOM", "block_metadata.block_random", 8),
        ("BLOCK_DIFFICULTY", "block_metadata.block_difficulty", 1), ("BLOCK_GAS_LIMIT", "block_metadata.block_gaslimit", 1),
        ("BLOCK_CHAIN_ID", "block_metadata.block_chain_id", 1), ("BLOCK_BASE_FEE", "block_metadata.block_base_fee", 2),
        ("PARENT_BEACON_BLOCK_ROOT", "block_metadata.parent_beacon_block_root", 8), ("BLOCK_CURRENT_HASH", "block_hashes.cur_hash", 8),
        ("BLOCK_GAS_USED", "block_metadata.block_gas_used", 1), ("BLOCK_BLOB_GAS_USED", "block_metadata.block_blob_gas_used", 2),
        ("BLOCK_EXCESS_BLOB_GAS", "block_metadata.block_excess_blob_gas", 2), ("TXN_NUMBER_BEFORE", "extra_block_data.txn_number_before", 1),
        ("TXN_NUMBER_AFTER", "extra_block_data.txn_number_after", 1), ("BLOCK_GAS_USED_BEFORE", "extra_block_data.gas_used_before", 1),
        ("BLOCK_GAS_USED_AFTER", "extra_block_data.gas_used_after", 1)]
for w, k in (("BEFORE", "before"), ("AFTER", "after")):
    META += [(f"STATE_TRIE_DIGEST_{w}", f"trie_roots_{k}.state_root", 8), (f"TXN_TRIE_DIGEST_{w}", f"trie_roots_{k}.transactions_root", 8),
             (f"RECEIPT_TRIE_DIGEST_{w}", f"trie_roots_{k}.receipts_root", 8)]
REGS = [("program_counter", 1), ("is_kernel", 1), ("stack_len", 1), ("stack_top", 8), ("context", 1), ("gas_used", 1)]


def get(pv, path):
    for k in path.split("."):
        pv = pv[int(k) if isinstance(pv, list) else k]
    return pv


def put(pv, path, x):
    ks = path.split(".")
    for k in ks[:-1]:
        pv = pv[int(k) if isinstance(pv, list) else k]
    k = ks[-1]
    pv[int(k) if isinstance(pv, list) else k] = x


def run(arg):
    f = None
    if arg:
        f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
        with f:
            json.dump(arg, f)
    try:
        r = subprocess.run([B.TARGET + "/debug/pubdump", "public"] + ([f.name] if f else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            return r.stderr[-1500:]
        return json.loads(r.stdout)
    finally:
        if f:
            os.unlink(f.name)


class PublicSpec:
    def __init__(self, model, report):
        self.m, self.r = model, report
        self.kernel = json.load(open(model.dump + "/kernel.json"))
        self.seg = model.seg
        c = self.kernel["constants"]
        self.idx = {n: int(c[M + n], 16) & 0xffffffff for n in [x[0] for x in META] + ["KERNEL_HASH", "KERNEL_LEN"]}
        # every public value: path -> limbs
        self.limbs = {p: n for _, p, n in META}
        for k in ("before", "after"):
            self.limbs.update({f"registers_{k}.{r}": n for r, n in REGS})
        self.limbs.update({f"block_hashes.prev_hashes.{i}": 8 for i in range(256)})
        self.limbs.update({f"block_metadata.block_bloom.{i}": 8 for i in range(8)})
        self.limbs["extra_block_data.checkpoint_state_trie_root"] = 8
        # rows: (name, segment, cell, path)
        S = self.seg
        self.rows = [(n, S["GlobalMetadata"], self.idx[n], p) for n, p, _ in META]
        self.rows += [(f"block bloom {i}", S["GlobalBlockBloom"], i, f"block_metadata.block_bloom.{i}") for i in range(8)]
        self.rows += [(f"block hash {i}", S["BlockHashes"], i, f"block_hashes.prev_hashes.{i}") for i in range(256)]
        for j, k in enumerate(("before", "after")):
            self.rows += [(f"register {r} {k}", S["RegistersStates"], 6 * j + i, f"registers_{k}.{r}") for i, (r, _) in enumerate(REGS)]

    def tasks(self):
        n = 24 if os.environ.get("VERIF_TIER") == "thorough" else 4
        return [("P01", "check", (k,)) for k in range(n)]

    # ------------------------------------------------------- values
    def text(self, old, x):
        """x in the notation of the template's value (fixed-width hash or number)"""
        return "0x" + (f"{x:0{len(old) - 2}x}" if len(old) > 4 and old != "0x0" else f"{x:x}")

    def random_pv(self, rng):
        pv = json.loads(json.dumps(self.template))
        for p, n in self.limbs.items():
            self.set(pv, p, sum(rng.randrange(1, 1 << 32) << (32 * i) for i in range(n)))
        pv["extra_block_data"]["checkpoint_consolidated_hash"] = [rng.randrange(P) for _ in range(4)]
        for k in ("mem_before", "mem_after"):
            pv[k]["mem_cap"] = [["0x%x" % rng.randrange(P) for _ in range(4)] for _ in range(16)]
        return pv

    def set(self, pv, p, x):
        put(pv, p, self.text(get(self.template, p), x))

    def num(self, pv, p):
        return int(get(pv, p), 16)

    def term(self, seg, cell, val, c):
        row = [0, 0, seg, cell] + [(val >> (32 * i)) & 0xffffffff for i in range(8)] + [2]
        s = c[1]
        for i, x in enumerate(row):
            s = (s + x * pow(c[0], i, P)) % P
        return pow(s, P - 2, P)

    def expected(self, pv, c):
        k = self.kernel
        s = self.term(self.seg["GlobalMetadata"], self.idx["KERNEL_HASH"], int(k["code_hash"], 16), c) + \
            self.term(self.seg["GlobalMetadata"], self.idx["KERNEL_LEN"], len(k["code"]) // 2, c)
        return (s + sum(self.term(sg, i, self.num(pv, p), c) for _, sg, i, p in self.rows)) % P

    # ------------------------------------------------------- the check
    def check(self, k):
        add = lambda s, w, ok, d="": self.r.add("P01", s, w, ok, d)
        rng = random.Random(1000 * int(os.environ.get("VERIF_SEED", "1") or 1) + k)
        self.template = run(None)
        which = (("native verifier", "native_sums"), ("recursive verifier", "circuit_sums"))
        pv = self.random_pv(rng)
        ch = lambda: [rng.randrange(P), rng.randrange(P)]
        c = ch()
        jobs = [dict(pv=pv, challenges=[c, ch()])]
        # one job per row, its public value changed
        new = []
        for nm, sg, i, p in self.rows:
            q = json.loads(json.dumps(pv))
            x = sum(rng.randrange(1, 1 << 32) << (32 * j) for j in range(self.limbs[p]))
            self.set(q, p, x)
            new.append(x)
            jobs.append(dict(pv=q, challenges=[c]))
        # one job per 32-bit limb (and per field element), for the transcript
        limbs = []
        for p, l in self.limbs.items():
            for j in range(l):
                q = json.loads(json.dumps(pv))
                x = self.num(pv, p)
                b = rng.randrange(32)
                y = x ^ (1 << (32 * j + b))
                self.set(q, p, y)
                limbs.append((p, j, x, y))
                jobs.append(dict(pv=q))
        for j in range(4):
            q = json.loads(json.dumps(pv))
            a = q["extra_block_data"]["checkpoint_consolidated_hash"]
            x, a[j] = a[j], (a[j] + 1) % P
            limbs.append(("extra_block_data.checkpoint_consolidated_hash", j, x, a[j]))
            jobs.append(dict(pv=q))
        out = run(jobs)
        if isinstance(out, str):
            add("public values", "are accepted by both verifiers", False, out)
            return
        base = out[0]
        for who, key in which:
            for cc, got in zip(jobs[0]["challenges"], base[key]):
                want = self.expected(pv, cc)
                d = ""
                if got != want:
                    miss = [nm for nm, sg, i, p in self.rows if (want - got) % P == self.term(sg, i, self.num(pv, p), cc)]
                    d = f"missing: {miss}" if miss else "the sum over the rows differs"
                    d += f"\nFAILING INPUT\npublic values {json.dumps(pv)}\nchallenge (beta, gamma) = {cc}\n{who}: sum {got}, the prescribed rows give {want}; {d}"
                add(who, "adds the prescribed rows to memory and no others", not d, d)
            for (nm, sg, i, p), x, o in zip(self.rows, new, out[1:]):
                want = (self.term(sg, i, x, c) - self.term(sg, i, self.num(pv, p), c)) % P
                got = (o[key][0] - base[key][0]) % P
                d = "" if got == want else f"{p} is not the value of its cell\nFAILING INPUT\n{p} = {get(pv, p)}, changed to {x:#x}; challenge (beta, gamma) = {c}: the sum changes by {got}, not by {want} (segment {sg}, cell {i}); other public values: {json.dumps(pv)}"
                add(who, f"ties the cell of {nm} to its public value", not d, d)
        d = "" if base["transcript"] == base["circuit_transcript"] else \
            f"\nFAILING INPUT\npublic values {json.dumps(pv)}: challenges {base['transcript']} (native), {base['circuit_transcript']} (circuit)"
        distinct = len({json.dumps([o.get("native_sums"), o["transcript"]]) for o in out})
        add("challenges", "of the native and the recursive verifier agree", not d, d or f"{len(jobs)} {distinct}")
        for (p, j, x, y), o in zip(limbs, out[1 + len(new):]):
            d = "" if o["transcript"] != base["transcript"] else \
                f"limb {j} of {p} is not in the transcript\nFAILING INPUT\n{p} = {x:#x} and {y:#x} give the same challenges {o['transcript']}; other public values: {json.dumps(pv)}"
            add("challenges", f"depend on {'.'.join(t for t in p.split('.') if not t.isdigit())}", not d, d)
        d = self.differs(base["back"], pv)
        add("public inputs of the recursive proof", "decode to the public values", not d, d and f"{d}\nFAILING INPUT\npublic values {json.dumps(pv)} come back as {json.dumps(base['back'])}")

    def differs(self, a, b):
        """first path at which two public values differ"""
        def norm(x):
            return int(x, 16) if isinstance(x, str) else x
        def go(x, y, pre):
            if isinstance(x, dict) or isinstance(y, dict):
                if not (isinstance(x, dict) and isinstance(y, dict) and set(x) == set(y)):
                    return pre
                return next((d for k in x for d in [go(x[k], y[k], f"{pre}.{k}")] if d), "")
            if isinstance(x, list):
                if len(x) != len(y):
                    return pre
                return next((d for i in range(len(x)) for d in [go(x[i], y[i], f"{pre}.{i}")] if d), "")
            return "" if norm(x) == norm(y) else pre
        return go(a, b, "public_values")
