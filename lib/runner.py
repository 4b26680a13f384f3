"""Runs the obligations of one property against /repo's working tree."""
import json, multiprocessing, os, sys, time, traceback
from . import build as B

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = ROOT + "/known_findings.txt"


class Failure(Exception):
    """The check cannot be run (no answer)."""


class Outcome:
    """items: (property, subject, what, ok, detail).  The name of an obligation is "subject: what"."""

    def __init__(self, prop):
        self.prop = prop
        self.items = []
        self.info = {}
        self.input = None          # text describing a concrete failing input, when there is one

    def name(self, it):
        return f"{it[1]}: {it[2]}"


_spec = None


def _work(t):
    method, args = t
    _spec.r.items = []
    try:
        getattr(_spec, method)(*args)
    except Exception:
        _spec.r.add("*", f"{method}{args}", "could not be decided", False, traceback.format_exc()[-1500:])
    return _spec.r.items


def run_spec(spec, prop, pool=None):
    """Runs the tasks of a specification object that may produce obligations of `prop`."""
    global _spec
    _spec = spec
    spec.only, spec.listed = prop, {o for os_ in known(prop).values() for o in os_}     # for the search of failing inputs
    todo = [(m, a) for tag, m, a in spec.tasks() if prop.startswith(tag)]
    n = pool or min(8, os.cpu_count() or 1)
    if n == 1 or len(todo) == 1:
        res = [_work(t) for t in todo]
    else:
        with multiprocessing.get_context("fork").Pool(n) as p:
            res = p.map(_work, todo, chunksize=max(1, min(8, len(todo) // (4 * n))))
    items = [(prop if x[0] == "*" else x[0],) + tuple(x[1:]) for r in res for x in r]
    return [x for x in items if x[0] == prop]


def known(prop):
    """{finding text: set of obligations} for the property"""
    out, cur = {}, None
    if not os.path.exists(KNOWN):
        return out
    for l in open(KNOWN):
        l = l.rstrip("\n")
        if l.startswith("known: property="):
            p, txt = l[len("known: property="):].split(" ", 1)
            cur = out.setdefault(txt, set()) if p == prop else None
        elif l.startswith("  ") and cur is not None:
            cur.add(l.strip())
        elif not l.startswith("  "):
            cur = None
    return out


def finish(prop, level, items, meta, t0, inputs=None):
    """Prints the verdict, writes evidence and replay; returns the exit code.
    inputs: {obligation name: text} for failures with a concrete failing input."""
    inputs = inputs or {}
    names = [f"{x[1]}: {x[2]}" for x in items]
    bad = [(n, x[4]) for n, x in zip(names, items) if not x[3]]
    fnd = known(prop)
    listed = {o: f for f, os_ in fnd.items() for o in os_}
    hit = sorted({listed[n] for n, _ in bad if n in listed})
    new = [(n, d) for n, d in bad if n not in listed]
    if not items:
        print(f"error: property={prop}: no obligation was generated")
        return 2
    old = len(bad) - len(new)      # obligations of listed findings are reported apart
    cov = dict(obligations=len(items) - old, discharged=len(items) - len(bad)) if level == "proof" else {}
    if old:
        cov["known_finding_obligations"] = old
    cov.update(meta.get("coverage", {}))
    ev = dict(property=prop, tier=os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
              seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
              assumptions=meta.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{ROOT}/evidence/{prop}.json", "w"), indent=1)
    for f in hit:
        print(f"KNOWN-FINDING: property={prop} {f}")
    print(f"property={prop} obligations={len(items)} discharged={len(items) - len(bad)} wall_s={ev['wall_s']}")
    if new:
        os.makedirs(ROOT + "/evidence/replay", exist_ok=True)
        path = f"{ROOT}/evidence/replay/{prop}.txt"
        concrete = [n for n, _ in new if n in inputs]
        with open(path, "w") as fo:
            fo.write(f"property {prop}: {len(new)} of {len(items)} obligations not discharged\n\n")
            for n in concrete:
                fo.write(f"FAILING INPUT for [{n}]\n{inputs[n]}\n\n")
            for n, d in new[:200]:
                fo.write(f"OBLIGATION {n}\n  {d}\n")
        for n, d in new[:5]:
            print(f"  failed obligation: {n} -- {str(d)[:300]}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if concrete else " no-failing-input-found"))
        return 1
    return 0
