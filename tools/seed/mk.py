#!/usr/bin/env python3
"""Builds a demonstration in a scratch folder (removed afterwards) from the current directory's
source tree (/repo) and runs it.  The workspace members (all but `zero`) are copied there, the file
demo.rs beside this script is added to evm_arithmetization as a module, and a small binary calls it."""
import os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.getcwd()
S = tempfile.mkdtemp(prefix="zkdemo.")
WS, TARGET = S + "/ws", S + "/target"


def strip(text, drop):
    return "".join(p for p in re.split(r"(?m)^(?=\[)", text) if not p.startswith(drop))


def main():
    root = open(SRC + "/Cargo.toml").read()
    members = [m for m in re.findall(r'"([\w/-]+)"', re.search(r"(?ms)^members\s*=\s*\[(.*?)\]", root).group(1))
               if m not in ("zero", "scripts")]
    root = re.sub(r"(?ms)^members\s*=\s*\[.*?\]", "members = [" + ", ".join(f'"{m}"' for m in members + ["demo"]) + "]", root, count=1)
    root = re.sub(r"(?m)^(paladin-core|zero)\s*=.*\n", "", root)
    os.makedirs(WS + "/.cargo")
    open(WS + "/Cargo.toml", "w").write(root)
    for m in members:
        shutil.copytree(f"{SRC}/{m}", f"{WS}/{m}", ignore=shutil.ignore_patterns("target", "tests", "benches", ".git"))
        man = open(f"{SRC}/{m}/Cargo.toml").read()
        man = re.sub(r"(?m)^zero(\.workspace)?\s*=.*\n", "", man)
        man = re.sub(r',\s*"zero/[^"]*"', "", man)
        man = strip(man, ("[dev-dependencies", "[[bin]]", "[[bench]]", "[[test]]", "[[example]]"))
        man = man.replace("[package]\n", "[package]\nautobins = false\nautotests = false\nautobenches = false\nautoexamples = false\n", 1)
        open(f"{WS}/{m}/Cargo.toml", "w").write(man)
    shutil.copy(SRC + "/Cargo.lock", WS + "/Cargo.lock")
    try:
        shutil.copy(SRC + "/.cargo/config.toml", WS + "/.cargo/config.toml")
    except OSError:
        pass
    with open(WS + "/evm_arithmetization/src/lib.rs", "a") as f:
        f.write(f'\n#[path = "{HERE}/demo.rs"]\npub mod zk_demo;\n')
    os.makedirs(WS + "/demo/src")
    open(WS + "/demo/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nevm_arithmetization = { path = "../evm_arithmetization" }\n')
    open(WS + "/demo/src/main.rs", "w").write("fn main() { std::process::exit(if evm_arithmetization::zk_demo::demo() { 0 } else { 1 }) }\n")
    src, dst = "/opt/vp/target/debug", TARGET + "/debug"
    if os.path.isdir(src):
        own = ("evm_arithmetization", "mpt_trie", "smt_trie", "trace_decoder", "zk_evm", "xtask", "common", "lsp")
        for sub in ("deps", ".fingerprint", "build"):
            os.makedirs(f"{dst}/{sub}")
            for n in os.listdir(f"{src}/{sub}"):
                if n.replace("-", "_").startswith(own + tuple("lib" + o for o in own)):
                    continue
                a, b = f"{src}/{sub}/{n}", f"{dst}/{sub}/{n}"
                if os.path.isdir(a):
                    shutil.copytree(a, b, symlinks=True)
                elif n.endswith((".rlib", ".rmeta", ".so", ".d", ".a")):
                    shutil.copy2(a, b)
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="nightly-2024-09-24", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET, CARGO_PROFILE_DEV_OPT_LEVEL="3",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_LOG="off",
             PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ["PATH"])
    e["CARGO_PROFILE_DEV_PACKAGE_EVM_ARITHMETIZATION_OPT_LEVEL"] = "1"
    r = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "demo"] +
                       ["--config", 'profile.dev.package.evm_arithmetization.opt-level=1'],
                       cwd=WS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        return 3
    return subprocess.run([TARGET + "/debug/demo"], env=e, timeout=200).returncode


try:
    rc = main()
finally:
    shutil.rmtree(S, ignore_errors=True)
sys.exit(rc)
