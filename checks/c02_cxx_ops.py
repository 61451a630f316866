"""C02: operators evaluated by the emitted C++ witness generator (assembly and portable) have their documented value."""
import json, os, shutil
from mc import build, circom, cxxrun, field, opcirc
from mc.par import pmap
from mc.report import Check

BIN = None


def job(a):
    prime, noasm, reduced = a
    p = circom.prime_of(prime)
    al = field.alphabet(p)
    if reduced:
        al = al[::2]
    runs = opcirc.inputs(al)
    tag = prime + (" no_asm" if noasm else " asm")
    d = circom.scratch()
    try:
        r = circom.run(BIN, opcirc.source(len(al), len(al)), ["--c", "--O0", "--prime", prime] + (["--no_asm"] if noasm else []), d, timeout=300)
        if not r.ok:
            return tag, 0, [("rejected " + tag, {"stderr": r.err[-1500:]})], 0, 0, 0
        try:
            exe = cxxrun.build(d, "m")
        except cxxrun.CxxError as e:
            return tag, 0, [("does not compile " + tag, {"error": str(e)})], 0, 0, 0
        bad, n, dist, st = [], 0, set(), set()
        for ps, inp in runs:
            with open(os.path.join(d, "in.json"), "w") as f:
                json.dump(inp, f)
            out = os.path.join(d, "w.wtns")
            rc, so, se = cxxrun.run(exe, os.path.join(d, "in.json"), out)
            if rc != 0:
                bad.append(("error " + tag + " x=" + inp["x"][0], {"rc": rc, "error": se[-800:], "input": inp}))
                continue
            pr, w = circom.read_wtns(out)
            if pr != p:
                bad.append(("prime " + tag, {"observed": pr}))
            os.unlink(out)
            exp = opcirc.expected(p, ps, al)
            n += len(exp)
            for (name, v), g in zip(exp, w[1:1 + len(exp)]):
                dist.add((name[1], v))
                st.add(name[1:])
                if v != g:
                    form, o, x, y = name
                    bad.append(("%s form%d %s %s %s" % (tag, form, x, o, y), {"prime": prime, "no_asm": noasm, "form": form, "op": o, "x": x, "y": y, "expected": v, "observed": g}))
        return tag, n, bad, len(dist), len(st), len(runs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN
    ck = Check("C02")
    BIN = build.circom()
    jobs = [(pr, na, False) for pr in circom.PRIMES for na in (False, True)]
    for tag, n, bad, dist, st, nr in pmap(job, jobs):
        ck.add(states=st, transitions=n, traces_validated_against_impl=nr, distinct_outcomes=dist)
        for k, d in bad:
            ck.violation(k, d)
        ck.sample({"backend": tag, "cases": n}, 20)
    ck.cov["rule"] = "a state is (prime, arithmetic variant, operator, x, y) over the boundary alphabet of the prime; a transition applies the operator to one of the representations a run-time value can have; a trace is one run of the generated program"
    ck.assumptions = ["values outside the boundary alphabets are not visited"]
    ck.finish()
