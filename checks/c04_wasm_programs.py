"""C04: what a function or template computes in the WASM witness generator is what the language defines."""
from mc import build, circom, indexes, progcheck, progs
from mc.par import pmap
from mc.report import Check


def plan(ck, backend):
    deep = ck.thorough
    fams = {
        "wasm": [("scalar", 3 if not deep else 4), ("early", 2 if not deep else 3), ("arrays", 2 if not deep else 3), ("lens", 2 if not deep else 3), ("cubes", 2 if not deep else 3), ("nested", 3), ("nested_ret", 3), ("exprs", 0), ("conds", 2 if not deep else 3), ("known", 2 if not deep else 3), ("calls", 2)],
        "cxx": [("scalar", 2 if not deep else 3), ("early", 2), ("arrays", 2 if not deep else 3), ("lens", 2 if not deep else 3), ("cubes", 2 if not deep else 3), ("nested", 2 if not deep else 3), ("nested_ret", 2 if not deep else 3), ("exprs", 0), ("conds", 1 if not deep else 2), ("known", 1 if not deep else 2), ("calls", 2)],
        "const": [("scalar", 3 if not deep else 4), ("early", 3), ("arrays", 2 if not deep else 3), ("lens", 2 if not deep else 3), ("cubes", 2 if not deep else 3), ("nested", 3), ("nested_ret", 3), ("exprs", 0), ("conds", 1 if not deep else 2), ("known", 1 if not deep else 2), ("recursion", 2)],
    }[backend]
    p = circom.prime_of("bn128")
    v = progs.values(p)
    pts = [(x, y) for x in v for y in v]
    jobs, sizes = [], {}
    for name, d in fams:
        l = list(progs.family(name, d))
        sizes[name + "/" + str(d)] = len(l)
        bs = 200 if backend == "wasm" else 100 if backend == "cxx" else 40
        for b in progcheck.batches(l, bs):
            jobs.append((b, backend, "const" if backend == "const" else "run", "bn128", pts, []))
            if backend != "const" and b[0][0] == "f":
                jobs.append((b, backend, "tmpl", "bn128", pts, []))
    return jobs, sizes, pts


def run(pid, backend):
    ck = Check(pid)
    progcheck.BIN = build.circom()
    jobs, sizes, pts = plan(ck, backend)
    outcomes = set()
    for n, bad, o, steps in pmap(progcheck.job, jobs):
        ck.add(transitions=steps, traces_validated_against_impl=n * len(pts))
        outcomes |= o
        for k, d in bad:
            ck.violation(k, d)
    if backend != "const":
        indexes.BIN = progcheck.BIN
        for n, bad in pmap(indexes.job, [(f, backend, q) for f in indexes.FORMS for q in (circom.PRIMES if ck.thorough else ("bn128", "goldilocks"))]):
            ck.add(transitions=n, traces_validated_against_impl=n, array_positions=n)
            for k, d in bad:
                ck.violation(k, d)
    ck.add(programs=sum(sizes.values()), states=sum(sizes.values()) * len(pts))
    ck.cov["families"] = sizes
    ck.cov["distinct_outcomes"] = len(outcomes)
    ck.cov["rule"] = "every program of each family up to the depth after the slash, on every pair of arguments; a state is (program, arguments), a transition one statement executed by the reference, a trace one execution of the compiled program compared with it"
    ck.sample({"program": progs.function_text("f", jobs[0][0][-1]), "points": [list(map(str, q)) for q in pts[:4]]})
    ck.sample({"program": progs.function_text("f", jobs[-1][0][-1])})
    ck.finish()


def main():
    run("C04", "wasm")
