#!/usr/bin/env python3
"""mkseed.py ID: (re)makes /verif/seeded/ID from tools/seed/bugs/ID.py (edits, description) and ID.rs."""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
def make(i):
    g = {}
    exec(open(f"{H}/seed/bugs/{i}.py").read(), g)
    d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    tmp = f"/tmp/mkseed.{i}"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {tmp}", shell=True)
    subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=tmp)
    for f, old, new, *cnt in g["EDITS"]:
        p = f"{tmp}/{f}"; s = open(p).read(); c = cnt[0] if cnt else 1
        assert s.count(old) == c, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    out = subprocess.check_output(["git", "diff"], cwd=tmp, text=True)
    open(d + "/patch.diff", "w").write(out)
    shutil.rmtree(tmp)
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.rs", "w").write(open(f"{H}/seed/common.rs").read() + "\n" + open(f"{H}/seed/bugs/{i}.rs").read())
    shutil.copy(f"{H}/seed/mk.py", d + "/mk.py"); shutil.copy(f"{H}/seed/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
for i in sys.argv[1:]: make(i)
