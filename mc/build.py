"""Builds the circom binary under test from /repo's working tree (incrementally, in /verif/.build)."""
import fcntl, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VP_BUILD") or os.path.join(ROOT, ".build")
REPO = os.environ.get("VP_REPO", "/repo")


class BuildError(Exception):
    pass


def cargo_env(extra=None):
    env = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.setdefault("HOME", "/root")
    env.update(
        RUSTUP_TOOLCHAIN="stable",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_OPT_LEVEL="1",
        CARGO_PROFILE_DEV_DEBUG="0",
        CARGO_TERM_COLOR="never",
        RUSTFLAGS="--cfg vp_mc",
    )
    env.update(extra or {})
    return env


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def circom():
    """Path of an up-to-date circom binary (cfg vp_mc on)."""
    target = os.path.join(BUILD, "cli")
    with lock("cli"):
        r = subprocess.run(
            ["cargo", "build", "--offline", "-p", "circom", "--manifest-path", REPO + "/Cargo.toml", "--target-dir", target],
            env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=REPO,
        )
    if r.returncode != 0:
        raise BuildError("cargo build failed:\n" + r.stdout.decode("utf-8", "replace")[-4000:])
    return os.path.join(target, "debug", "circom")


def sched_circom():
    """circom's own main.rs built in a generated workspace, where `threadpool` is replaced by a scheduler that the check
    controls; and the library that fixes the hash seeds."""
    target = os.path.join(BUILD, "sched")
    ws = os.path.join(BUILD, "sched_ws")
    src = open(REPO + "/circom/Cargo.toml").read().replace('path = "../', 'path = "%s/' % REPO).replace('path="../', 'path="%s/' % REPO)
    src += """
[[bin]]
name = "circom"
path = "%s/circom/src/main.rs"

[patch.crates-io]
threadpool = { path = "%s/sched/threadpool" }

[workspace]
""" % (REPO, ROOT)
    with lock("sched"):
        os.makedirs(ws, exist_ok=True)
        f = ws + "/Cargo.toml"
        if not os.path.exists(f) or open(f).read() != src:
            open(f, "w").write(src)
        lk = open(REPO + "/Cargo.lock").read()
        if not os.path.exists(ws + "/Cargo.lock.repo") or open(ws + "/Cargo.lock.repo").read() != lk:
            open(ws + "/Cargo.lock.repo", "w").write(lk)
            open(ws + "/Cargo.lock", "w").write(lk)
        r = subprocess.run(
            ["cargo", "build", "--offline", "--manifest-path", ws + "/Cargo.toml", "--target-dir", target],
            env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ws,
        )
        if r.returncode != 0:
            raise BuildError("cargo build (sched) failed:\n" + r.stdout.decode("utf-8", "replace")[-4000:])
        so = os.path.join(target, "hashseed.so")
        h = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so + ".tmp%d" % os.getpid(), ROOT + "/sched/hashseed.c"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if h.returncode:
            raise BuildError(h.stdout.decode())
        os.rename(so + ".tmp%d" % os.getpid(), so)
    return os.path.join(target, "debug", "circom"), so
