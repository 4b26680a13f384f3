"""Builds a harness binary from /repo's working tree (see view.py) and returns its path."""
import fcntl, os, re, shutil, subprocess, sys, time
from . import view

BUILD = os.environ.get("VERIF_BUILD", view.VERIF + "/build")
WS = BUILD + "/ws"
TARGET = BUILD + "/target"
HARNESSES = sorted(os.listdir(view.VERIF + "/harness"))


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None); e.pop("CARGO_BUILD_TARGET", None); e.pop("RUSTC_WRAPPER", None)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="nightly-2024-09-24", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET,
             CARGO_PROFILE_DEV_OPT_LEVEL="3", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_LOG="off",
             RUST_BACKTRACE="1", PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ["PATH"])
    return e


def seed_target():
    """Compiled third-party crates are taken from the repository's own build folder when it is there
    (same profile, so cargo recognises them); nothing of the workspace's crates is taken."""
    src, dst = "/opt/vp/target/debug", TARGET + "/debug"
    if os.path.exists(dst) or not os.path.isdir(src):
        return
    own = ("evm_arithmetization", "mpt_trie", "smt_trie", "trace_decoder", "zk_evm", "xtask", "common", "lsp")
    isown = lambda n: n.startswith(own) or n.startswith(tuple("lib" + o for o in own)) or n.replace("-", "_").startswith(own)
    tmp = dst + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    for sub in ("deps", ".fingerprint", "build"):
        os.makedirs(f"{tmp}/{sub}")
        for n in os.listdir(f"{src}/{sub}"):
            if isown(n):
                continue
            s, d = f"{src}/{sub}/{n}", f"{tmp}/{sub}/{n}"
            if os.path.isdir(s):
                shutil.copytree(s, d, symlinks=True)
            elif n.endswith((".rlib", ".rmeta", ".so", ".d", ".a")):
                shutil.copy2(s, d)
    os.rename(tmp, dst)


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(BUILD + "/.lock", "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build(pkgs):
    """cargo build of the given harness packages; returns {pkg: binary}."""
    with lock():
        seed_target()
        view.build_view(WS, HARNESSES)
        d = WS + "/.cargo"
        os.makedirs(d, exist_ok=True)
        try:
            view.put(d + "/config.toml", open(view.REPO + "/.cargo/config.toml").read())
        except OSError:
            pass
        args = ["cargo", "build", "--offline", "-q"]
        for p in pkgs:
            args += ["-p", p]
        r = subprocess.run(args, cwd=WS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-6000:])
    return {p: f"{TARGET}/debug/{p}" for p in pkgs}


if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1:]), time.time() - t)
