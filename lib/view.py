"""Builds /verif/build/ws: a view of the cargo workspace in /repo's working tree, from which the
harness crates of /verif are built.

Every run copies the members' files byte for byte from /repo (a file is rewritten only when its
content differs, so cargo rebuilds exactly what changed).  What the view changes, and nothing else:
  * the member `zero` is dropped (it needs a git dependency that cannot be fetched here), together
    with what names it in trace_decoder's manifest;
  * dev-dependencies, tests/ and benches/ are left out, [[bin]]/[[bench]]/[[test]] targets too;
  * the harness crates of /verif/harness are added as members;
  * to the lib.rs of a crate with a file /verif/hooks/<crate>.rs, one line is appended that declares
    this file as a public module `zkevm_verif`, so that a harness reaches pub(crate) items; likewise
    for each file <crate>.<name>.rs, behind a feature zkevm_verif_<name> added to the manifest.
"""
import os, re, shutil, sys, tomllib, filecmp

REPO = os.environ.get("ZKEVM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT_MEMBER = "zero"


def put(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True


def sync(src, dst, skip=()):
    """dst := src, file by file, rewriting only what differs."""
    keep = set()
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        dirs[:] = [d for d in dirs if os.path.normpath(os.path.join(rel, d)) not in skip
                   and d not in ("target", ".git", "node_modules")]
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r in skip:
                continue
            keep.add(r)
            with open(os.path.join(root, f), "rb") as fh:
                put(os.path.join(dst, r), fh.read())
    for root, dirs, files in os.walk(dst):
        rel = os.path.relpath(root, dst)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r not in keep and r not in skip:
                os.remove(os.path.join(root, f))


def strip_sections(text, drop):
    parts = re.split(r"(?m)^(?=\[)", text)
    return "".join(p for p in parts if not any(p.startswith(d) for d in drop))


def extra(m):
    """hooks that are compiled only with a feature of their own: <crate>.<name>.rs"""
    return sorted(f[len(m) + 1:-3] for f in os.listdir(f"{VERIF}/hooks") if f.startswith(m + ".") and f != m + ".rs")


def build_view(ws, harnesses, edition=None):
    root = open(f"{REPO}/Cargo.toml").read()
    members = [m for m in tomllib.loads(root)["workspace"]["members"] if m != OUT_MEMBER]
    members = [m for m in members if m != "scripts"]
    r = root
    r = re.sub(r'(?ms)^members\s*=\s*\[.*?\]',
               "members = [" + ", ".join(f'"{m}"' for m in members + [f"harness/{h}" for h in harnesses]) + "]",
               r, count=1)
    r = re.sub(r"(?m)^(paladin-core|zero)\s*=.*\n", "", r)
    os.makedirs(ws, exist_ok=True)
    put(f"{ws}/Cargo.toml", r)
    for m in members:
        skip = {"Cargo.toml", "tests", "benches"}
        hook = f"{VERIF}/hooks/{m}.rs"
        if os.path.exists(hook):
            skip.add("src/lib.rs")
        sync(f"{REPO}/{m}", f"{ws}/{m}", skip)
        man = open(f"{REPO}/{m}/Cargo.toml").read()
        man = re.sub(r"(?m)^zero(\.workspace)?\s*=.*\n", "", man)
        man = re.sub(r',\s*"zero/[^"]*"', "", man)
        man = strip_sections(man, ("[dev-dependencies", "[[bin]]", "[[bench]]", "[[test]]", "[[example]]"))
        man = man.replace("[package]\n", "[package]\nautobins = false\nautotests = false\nautobenches = false\nautoexamples = false\n", 1)
        if edition and m in edition:
            man = re.sub(r'(?m)^edition(\.workspace)?\s*=.*$', f'edition = "{edition[m]}"', man)
        for f in extra(m):
            man = re.sub(r"(?m)^\[features\]\n", f"[features]\nzkevm_verif_{f} = []\n", man, count=1)
        tomllib.loads(man)
        put(f"{ws}/{m}/Cargo.toml", man)
        if os.path.exists(hook):
            lib = open(f"{REPO}/{m}/src/lib.rs").read()
            lib += f'\n#[path = "{hook}"]\npub mod zkevm_verif;\n'
            for f in extra(m):
                lib += f'#[cfg(feature = "zkevm_verif_{f}")]\n#[path = "{VERIF}/hooks/{m}.{f}.rs"]\npub mod zkevm_verif_{f};\n'
            put(f"{ws}/{m}/src/lib.rs", lib)
    for h in harnesses:
        sync(f"{VERIF}/harness/{h}", f"{ws}/harness/{h}")
    # The lock file: start again from the repository's whenever that has changed.
    lock = open(f"{REPO}/Cargo.lock").read()
    if put(f"{ws}/Cargo.lock.repo", lock) or not os.path.exists(f"{ws}/Cargo.lock"):
        put(f"{ws}/Cargo.lock", lock)


if __name__ == "__main__":
    build_view(sys.argv[1], sys.argv[2:])
