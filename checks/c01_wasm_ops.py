"""C01: operators evaluated by the emitted WASM witness generator have their documented value."""
import os, shutil
from mc import build, circom, field, opcirc, wasmrun
from mc.par import pmap
from mc.report import Check

BIN = None


def job(prime):
    p = circom.prime_of(prime)
    al = field.alphabet(p)
    runs = opcirc.inputs(al)
    d = circom.scratch()
    try:
        r = circom.run(BIN, opcirc.source(len(al), len(al)), ["--wasm", "--O0", "--prime", prime], d, timeout=300)
        if not r.ok:
            return prime, 0, [("rejected " + prime, {"stderr": r.err[-1500:]})], 0, 0, 0
        res = wasmrun.witnesses(d, "m", [i for _, i in runs], timeout=300)
        bad, n, dist, st = [], 0, set(), set()
        for (ps, inp), w in zip(runs, res):
            if "err" in w:
                bad.append(("error " + prime, {"error": w["err"], "input": inp}))
                continue
            exp = opcirc.expected(p, ps, al)
            n += len(exp)
            for (name, v), g in zip(exp, w["w"][1:1 + len(exp)]):
                dist.add((name[1], v))
                st.add(name[1:])
                if v != g:
                    form, o, x, y = name
                    bad.append(("%s form%d %s %s %s" % (prime, form, x, o, y), {"prime": prime, "form": form, "op": o, "x": x, "y": y, "expected": v, "observed": g}))
        return prime, n, bad, len(dist), len(st), len(runs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN
    ck = Check("C01")
    BIN = build.circom()
    for prime, n, bad, dist, st, nr in pmap(job, list(circom.PRIMES)):
        ck.add(states=st, transitions=n, traces_validated_against_impl=nr, distinct_outcomes=dist)
        for k, d in bad:
            ck.violation(k, d)
        ck.sample({"prime": prime, "cases": n})
    ck.cov["rule"] = "a state is (prime, operator, x, y) over the boundary alphabet of the prime; a transition applies the operator to one of the representations a run-time value can have; a trace is one run of the generated program"
    ck.assumptions = ["values outside the boundary alphabets are not visited"]
    ck.finish()
