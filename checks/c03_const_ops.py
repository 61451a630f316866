"""C03: operators evaluated at compile time have their documented value."""
import os, shutil
from mc import build, circom, field
from mc.par import pmap
from mc.report import Check

BIN = None



def job(a):
    prime, ops, xs, ys, form = a
    p = circom.prime_of(prime)
    f = field.F(p)
    W = min(40, p - 1)  # statements per template; array indices are field elements too
    cases, lines = [], []
    for o in ops:
        for i, x in enumerate(xs):
            for j, y in enumerate(ys):
                try:
                    cases.append((o, x, y, f.op(o, x, y)))
                except field.Undefined:
                    pass
    uno = [(o, x, None, f.un(o, x)) for o in field.UNOPS for x in xs] if "+" in ops else []
    allc = cases + uno
    src = ["pragma circom 2.0.0;"]
    n = len(allc)
    fn = {o: "f%d" % i for i, o in enumerate(field.BINOPS)}
    if form == "fun":
        for o, nm in fn.items():
            if o in field.REL + field.BOOL:
                src.append("function %s(a,b) { return a %s b; }" % (nm, o))
            else:
                src.append("function %s(a,b) { var c = a; c %s= b; return c; }" % (nm, o))
    body = []
    for k, (o, x, y, _) in enumerate(allc):
        k %= W
        if form == "var":
            body.append("x = %d; r = %sx; o[%d] <== r;" % (x, o, k) if y is None else "x = %d; y = %d; r = x %s y; o[%d] <== r;" % (x, y, o, k))
        elif y is None:
            body.append("o[%d] <== %s(%d);" % (k, o, x))
        elif form == "lit":
            body.append("o[%d] <== %d %s %d;" % (k, x, o, y))
        else:
            body.append("o[%d] <== %s(%d,%d);" % (k, fn[o], x, y))
    nt = (n + W - 1) // W
    for t in range(nt):
        m = min(W, n - t * W)
        src.append("template T%d() { signal output o[%d]; %s" % (t, m, "var x; var y; var r;" if form == "var" else ""))
        src += body[t * W:t * W + m] + ["}"]
    src.append("template M() {")
    src += ["component c%d = T%d();" % (t, t) for t in range(nt)]
    src += ["}", "component main = M();"]
    src = "\n".join(src) + "\n"
    d = circom.scratch()
    bad = []
    try:
        r = circom.run(BIN, src, ["--r1cs", "--sym", "--O0", "--prime", prime], d, timeout=200)
        if not r.ok:
            # narrow down by halves to name the failing operation
            if n > 1 and (len(xs) > 1 or len(ops) > 1):
                sub = []
                if len(ops) > 1:
                    for o in ops:
                        sub += job((prime, [o], xs, ys, form))[1]
                else:
                    for x in xs:
                        sub += job((prime, ops, [x], ys, form))[1]
                if sub:
                    return n, sub, set()
            bad.append(("rejected", "%s/%s/%s x=%s" % (prime, form, ops, xs), {"source": src, "rc": r.rc, "stderr": r.err[-800:]}))
            return n, bad, set()
        c = circom.read_r1cs(os.path.join(d, "m.r1cs"))
        got = {}
        for A, B, C in c.constraints:
            if A and B:
                bad.append(("nonlinear", "constraint", {"c": [A, B, C]}))
                continue
            ws = [w for w in C if w]
            if len(ws) == 1:
                w = ws[0]
                got[w] = -C.get(0, 0) * pow(C[w], -1, p) % p
        wire = {nm: w for _, w, _, nm in circom.read_sym(os.path.join(d, "m.sym"))}
        for k, (o, x, y, exp) in enumerate(allc):
            g = got.get(wire["main.c%d.o[%d]" % (k // W, k % W)])
            if g != exp:
                bad.append(("value", "%s %s %s %s %s" % (prime, form, x, o, y), {"prime": prime, "form": form, "x": x, "op": o, "y": y, "expected": exp, "observed": g, "source": body[k]}))
        return n, bad, {(o, e) for o, _, _, e in allc}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN
    ck = Check("C03")
    BIN = build.circom()
    jobs = []
    small = ["vp7", "vp11", "vp13", "vp17"] + (["vp31", "vp61"] if ck.thorough else [])
    for pr in small:
        p = circom.prime_of(pr)
        for form in ("var", "lit", "fun"):
            for o in field.BINOPS:
                jobs.append((pr, [o], list(range(p)), list(range(p)), form))
    for pr, p in circom.PRIMES.items():
        al = field.alphabet(p)
        for form in ("var", "lit", "fun") if (pr == "bn128" or ck.thorough) else ("var",):
            for o in field.BINOPS:
                jobs.append((pr, [o], al, al, form))
    jobs.sort(key=lambda j: -len(j[2]))
    distinct = set()
    for n, bad, dist in pmap(job, jobs):
        ck.add(transitions=n, traces_validated_against_impl=1)
        distinct |= dist
        for kind, key, d in bad:
            ck.violation(kind + " " + key, d)
    ck.add(states=sum(len({(j[0], o, x, y) for o in j[1] for x in j[2] for y in j[3]}) for j in {(j[0], tuple(j[1])): j for j in jobs}.values()))
    ck.cov["distinct_outcomes"] = len(distinct)
    ck.cov["rule"] = "a state is (prime, operator, x, y), a transition its evaluation in one of the ways of writing it (variables, literals, inside a function), a trace one compilation; all pairs of whole small fields and of the boundary alphabet of each supported prime"
    ck.sample({"small_fields": small, "alphabet_bn128": [str(v) for v in field.alphabet(circom.PRIMES["bn128"])[:12]]})
    ck.assumptions = ["values outside the boundary alphabet of the large primes are not visited"]
    ck.finish()
