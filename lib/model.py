"""Loads the dumps of the current tree: tables, column names, cross-table lookups, kernel."""
import json, re
from .air import *

FILES = dict(Arithmetic="arithmetic", BytePacking="byte_packing", Cpu="cpu", Keccak="keccak", KeccakSponge="keccak_sponge",
             Logic="logic", Memory="memory", MemBefore="mem_before", MemAfter="mem_after")


class Side:
    """One side of a cross-table lookup: table, value columns and filter as polynomials."""

    def __init__(self, d, model):
        self.table = model.table_name[d["table"]]
        n = model.tables[self.table].n
        self.cols = [column_poly(c, n) for c in d["columns"]]
        self.filter = filter_poly(d["filter"], n)

    def __repr__(self):
        return f"<{self.table} {len(self.cols)} columns>"


class Model:
    def __init__(self, dump):
        self.dump = dump
        c = json.load(open(f"{dump}/ctl.json"))
        self.table_index = c["tables"]
        self.table_name = {v: k for k, v in c["tables"].items()}
        self.optional = [self.table_name[i] for i in c["optional"]]
        self.tables = {t: Table(f"{dump}/{FILES[t]}.json") for t in FILES}
        self.ctls = []
        for s in c["ctls"]:
            d = parse_debug(s)
            self.ctls.append(([Side(x, self) for x in d["looking_tables"]], Side(d["looked_table"], self)))
        self.cols = json.load(open(f"{dump}/cols.json"))
        k = json.load(open(f"{dump}/kernel.json"))
        self.code = bytes.fromhex(k["code"])
        self.labels = k["labels"]
        self.code_hash = k["code_hash"]
        self.seg = self.cols["segments"]
        self.C = {k: self._view(k) for k in ("cpu", "logic", "memory", "byte_packing", "keccak_sponge")}
        for t, k in (("Cpu", "cpu"), ("Logic", "logic"), ("Memory", "memory"), ("BytePacking", "byte_packing"),
                     ("KeccakSponge", "keccak_sponge")):
            self.tables[t].names = self._names(self.C[k])
        a = self.cols["arithmetic"]
        nm = {}
        for k, v in a.items():
            if isinstance(v, list) and k in ("IN0", "IN1", "IN2", "OUT"):
                for i, c in enumerate(v):
                    nm[c] = f"{k}[{i}]"
            elif isinstance(v, int) and (k.startswith("IS_") or k in ("OPCODE_COL", "RANGE_COUNTER", "RC_FREQUENCIES")):
                nm[v] = k
        self.tables["Arithmetic"].names = nm

    def _view(self, k):
        return parse_debug(self.cols[k])

    def _names(self, d, pre=""):
        out = {}
        if isinstance(d, int):
            out[d] = pre
        elif isinstance(d, dict):
            for k, v in d.items():
                if k != "_":
                    out.update(self._names(v, f"{pre}.{k}" if pre else k))
        elif isinstance(d, list):
            for i, v in enumerate(d):
                out.update(self._names(v, f"{pre}[{i}]"))
        return out

    def looked(self, table):
        """The lookups looked up in `table` (list of (lookings, looked))."""
        return [(l, s) for l, s in self.ctls if s.table == table]

    def jumptable(self, start, i):
        return int.from_bytes(self.code[start + 3 * i:start + 3 * i + 3], "big")
