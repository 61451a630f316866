#!/usr/bin/env python3
"""plant.py mk ID PROP 'needs' 'what it breaks' : takes the diff of /tmp/seed/repo as the patch of seeded/ID
plant.py test ID [CHECK...] : confirms the planted bug in /tmp/seed/repo and runs the checks on it (default: its property's)"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seed/repo"
B = "/tmp/seed/build"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")


def sh(cmd, cwd=W, env=None, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def sync():
    sh(["git", "checkout", "-q", "--", "."])
    h = sh(["git", "rev-parse", "HEAD"], "/repo").stdout.strip()
    if h != sh(["git", "rev-parse", "HEAD"]).stdout.strip():
        print(sh(["git", "pull", "-q", "/repo", "HEAD"]).stdout)


def mk(id, prop, needs, what):
    d = ROOT + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    diff = sh(["git", "diff"]).stdout
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        open(d + "/vp.py", "w").write(open(ROOT + "/tools/demo/vp.py").read())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)


def test(id, checks):
    d = ROOT + "/seeded/" + id
    meta = json.load(open(d + "/meta.json"))
    sync()
    r0 = sh(["bash", d + "/demo.sh"], "/repo", timeout=300)
    a = sh(["git", "apply", d + "/patch.diff"])
    if a.returncode:
        print(id, "PATCH DOES NOT APPLY", a.stdout)
        return
    try:
        b = sh(["cargo", "build", "--workspace", "--offline"])
        if b.returncode:
            print(id, "BUILD FAILS", b.stdout[-2000:])
            return
        sh(["rm", "-rf", W + "/target/code_generator_test"])
        t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 1", shell=True).stdout
        passed = t.count("... ok\n")
        r1 = sh(["bash", d + "/demo.sh"], timeout=300)
        ok = r0.returncode == 0 and r1.returncode != 0 and passed >= 11
        print(id, "clean demo", r0.returncode, "patched demo", r1.returncode, "tests passed", passed, "=> counts" if ok else "=> DOES NOT COUNT")
        if r0.returncode:
            print(r0.stdout[-1500:])
        if not ok:
            print(r1.stdout[-800:])
        env = dict(os.environ, VP_REPO=W, VP_BUILD=B, VERIF_SEED="1", VERIF_TIER="quick")
        for c in checks or [meta["property"]]:
            t0 = time.time()
            r = sh([ROOT + "/check.sh", c], ROOT, env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + c)]
            print("   ", c, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "missed", "%.0fs" % (time.time() - t0))
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
            elif v:
                print("      ", "\n       ".join(l for l in r.stdout.splitlines() if l.startswith("  key"))[:400])
    finally:
        sync()
        sh(["git", "-C", ROOT, "checkout", "-q", "--", "evidence"])


if sys.argv[1] == "mk":
    mk(*sys.argv[2:6])
elif sys.argv[1] == "sync":
    sync()
else:
    test(sys.argv[2], sys.argv[3:])
