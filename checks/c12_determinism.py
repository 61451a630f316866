"""C12: the files written are a function of the program and the options: every order in which the simplification jobs can
end and every hash seed of a bounded set give the same bytes."""
import hashlib, itertools, os, shutil
from mc import build, circom, circuits, progs, systems
from mc.par import pmap
from mc.report import Check

BIN = SO = None


def clusters(ne, nl, nr):
    """ne clusters of equalities, nl clusters of linear constraints, nr constraints that become linear in a later round;
    each leaves constraints between outputs behind, so that the order in which they are collected shows"""
    L = ["pragma circom 2.0.0;", "template M() {"]
    for i in range(ne):
        L.append("signal input ea%d; signal output eo%d; signal output ep%d; signal ex%d; ex%d <== ea%d; eo%d <== ex%d; ep%d <== eo%d;" % ((i,) * 10))
    for i in range(nl):
        L.append("signal input la%d; signal input lb%d; signal output lo%d; signal output lp%d; signal lx%d; signal ly%d; lx%d <== la%d + 2*lb%d; ly%d <== lx%d - lb%d + %d; lo%d <== ly%d + lx%d; lp%d <== 3*lx%d + la%d;" % ((i,) * 12 + (i + 1,) + (i,) * 6))
    for i in range(nr):
        L.append("signal input ra%d; signal output ro%d; signal output rp%d; signal rx%d; signal ry%d; signal rk%d; rk%d <== 2 + 0*ra%d; rx%d <== rk%d*ra%d; ry%d <== rx%d + %d*ra%d; ro%d <== ry%d + rx%d; rp%d <== rk%d*ry%d + 1;" % ((i,) * 13 + (i + 2,) + (i,) * 7))
    L += ["}", "component main = M();"]
    return "\n".join(L) + "\n"


def digest(d):
    h = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            h[os.path.relpath(p, d)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    h.pop("m.circom", None)
    h.pop("log", None)
    return h


def one(src, args, sched, seed):
    d = circom.scratch()
    try:
        log = d + "/log"
        env = dict(os.environ, VP_SCHED=",".join(map(str, sched)), VP_SCHED_LOG=log, VP_HASH=str(seed), LD_PRELOAD=SO)
        r = circom.run(BIN, src, args, d, env=env, timeout=200)
        alts = [int(x) for x in open(log).read().split()] if os.path.exists(log) else []
        h = digest(d)
        h["exit code"] = r.rc
        h["output"] = hashlib.sha256(r.out.encode()).hexdigest()
        return h, alts
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sched_job(a):
    """all schedules, depth first"""
    name, src, args, bound = a
    base, alts = one(src, args, [], 0)
    runs, choices, bad = 1, len(alts), []
    if base["exit code"] != 0:
        return name, 1, choices, [("rejected " + name, {"source": src})]
    stack = [[0] * i + [c] for i, n in enumerate(alts) for c in range(1, n)]
    while stack:
        pre = stack.pop()
        h, alts = one(src, args, pre, 0)
        runs += 1
        choices += len(alts)
        if h != base and not bad:
            bad.append(("schedule %s" % name, {"schedule": pre, "args": args, "files": [k for k in h if h[k] != base.get(k)], "source": src}))
        stack += [pre + [0] * (i - len(pre)) + [c] for i, n in enumerate(alts) if i >= len(pre) for c in range(1, n)]
        if runs >= bound:
            raise RuntimeError("more schedules than the bound: " + name)
    return name, runs, choices, bad


def hash_job(a):
    name, src, args, seeds = a
    base, alts = one(src, args, [], 0)
    bad = []
    if base["exit code"] != 0:
        return name, 1, 0, [("rejected " + name, {"source": src})]
    for s in seeds:
        h, _ = one(src, args, [], s)
        if h != base:
            bad.append(("hash seed %s" % name, {"seed": s, "args": args, "files": [k for k in set(h) | set(base) if h.get(k) != base.get(k)], "source": src}))
            break
    return name, 1 + len(seeds), len(alts), bad


def run_job(a):
    return (sched_job if a[0] == "sched" else hash_job)(a[1])


def main():
    global BIN, SO
    ck = Check("C12")
    BIN, SO = build.sched_circom()
    files = ["--r1cs", "--sym", "--json", "--simplification_substitution"]
    jobs = []
    hi = (4, 4, 3) if ck.thorough else (3, 3, 2)
    fam = [c for c in itertools.product(*[range(h + 1) for h in hi]) if 0 < sum(c) <= (9 if ck.thorough else 6)]
    for c in fam:
        for lv in (["--O1"], ["--O2"]) + ((["--O2", "--use_old_simplification_heuristics"],) if ck.thorough else ()):
            if ck.thorough and c == (4, 4, 3) or not (c[0] or lv != ["--O1"]):
                continue
            jobs.append(("sched", ("clusters%s %s" % (c, " ".join(lv)), clusters(*c), files + lv, 20000)))
    seeds = range(1, 33 if ck.thorough else 9)
    cs = [circuits.body(c) for c in circuits.cover(2)]
    cs = cs if ck.thorough else cs[::2]
    bs = 12
    for i in range(0, len(cs), bs):
        src = circuits.source(cs[i:i + bs])
        for lv in (["--O0"], ["--O1"], ["--O2"]) if ck.thorough else (["--O0"], ["--O2"]):
            emit = ["--wasm", "--wat", "--c", "--inspect"] if ck.thorough or lv == ["--O0"] else []
            jobs.append(("hash", ("circuits %d %s" % (i, " ".join(lv)), src, files + emit + lv, seeds)))
    # every way of defining a signal once more, in pairs of neighbours
    for i in range(0, len(circuits.X), 2):
        src = circuits.source([x + " o <== x; w <== v;" for x in circuits.X[i:i + 2]])
        jobs.append(("hash", ("definitions %d" % i, src, files + ["--wasm", "--c"], seeds)))
    for c in fam:
        jobs.append(("hash", ("clusters%s" % (c,), clusters(*c), files + ["--O2"], seeds)))
    l = list(systems.sets(3))
    for i in range(0, len(l), 120):
        for lv in (["--O1"], ["--O2"]):
            jobs.append(("hash", ("systems %d %s" % (i, " ".join(lv)), systems.flat_source(l[i:i + 120]), files + lv, seeds)))
    l = list(systems.big_systems(2))
    for i in range(0, len(l), 24):
        jobs.append(("hash", ("big systems %d" % i, systems.big_source(l[i:i + 24]), files, seeds)))
    for name, runs, choices, bad in pmap(run_job, jobs[::-1]):
        ck.add(traces_validated_against_impl=runs, transitions=choices)
        ck.add(**({"hash_runs": runs} if choices == 0 else {"schedules": runs}))
        for k, d in bad:
            ck.violation(k, d)
    ck.cov["states"] = len(jobs)
    ck.cov["seeds"] = len(seeds)
    ck.cov["rule"] = "a state is (program, options); a trace is one compilation under a chosen schedule (order in which the jobs of each thread pool end; every order is explored) or hash seed (a fixed set); transitions counts the scheduling choices taken"
    ck.assumptions.append("the jobs of a pool share only immutable data and the channel on which each sends its result, so the orders in which they end are all the interleavings that can be told apart")
    ck.sample({"program": clusters(1, 2, 1)})
    ck.finish()
