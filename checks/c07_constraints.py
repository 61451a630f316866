"""C07: without simplification, the R1CS accepts exactly the assignments that satisfy the constraints as written."""
import os, shutil
import numpy as np
from mc import build, cexprs, circheck, circom, circuits, deviate, solve, wasmrun
from mc.cexprs import N, L, Q, X
from mc.par import pmap
from mc.report import Check

BIN = None
FORMS = {
    # form: (statements, the left-hand side is a new signal x)
    "zero": ("%s === 0;", False),
    "zero_l": ("0 === %s;", False),
    "eq_prod": ("a*b === %s;", None),     # handled with the class of the difference
    "assign": ("x <== %s;", True),
    "assign_r": ("%s ==> x;", True),
    "check": ("x <-- 0; x === %s;", True),
    "var": ("var v = %s; v === 2*b;", None),
    "sq": ("x <-- 0; x*x === %s;", None),
}


def ren(t, i):
    return "".join(ch + str(i) if ch in "abx" else "v" + str(i) if ch == "v" else ch for ch in t.replace("var ", "VAR ").replace("VAR", "\0")).replace("\0", "var")


def residual(form, e, p):
    """class of the constraint and boolean array over (a, b, x)"""
    a = np.arange(p).reshape(p, 1, 1)
    b = np.arange(p).reshape(1, p, 1)
    x = np.arange(p).reshape(1, 1, p)
    v = e.v.reshape(p, p, 1) if e.v is not None else None
    c = e.c
    if form in ("zero", "zero_l"):
        s = v % p if c != X else None
    elif form == "eq_prod":
        c = X if c in (Q, X) else Q
        s = (a * b - v) % p if c != X else None
    elif form in ("assign", "assign_r", "check"):
        s = (x - v) % p if c != X else None
    elif form == "var":
        s = (v - 2 * b) % p if c != X else None
    elif form == "sq":
        c = X if c in (Q, X) else Q
        s = (x * x - v) % p if c != X else None
    return c, (np.broadcast_to(s == 0, (p, p, p)) if s is not None else None)


def source(items):
    Ls = ["pragma circom 2.0.0;", "template M() {"]
    for i, _ in enumerate(items):
        Ls.append("signal input a%d; signal input b%d; signal x%d;" % (i, i, i))
    for i, (form, e) in enumerate(items):
        Ls.append(ren(FORMS[form][0] % e.t, i))
    Ls += ["}", "component main = M();"]
    return "\n".join(Ls) + "\n"


def job(args):
    items, prime = args
    p = circom.prime_of(prime)
    src = source(items)
    d = circom.scratch()
    bad = []
    try:
        r = circom.run(BIN, src, ["--r1cs", "--sym", "--O0", "--prime", prime], d, timeout=120)
        if not r.ok:
            if len(items) == 1:
                return 1, 1, [("rejected %s %s" % (prime, FORMS[items[0][0]][0] % items[0][1].t), {"stderr": r.err[-600:], "source": src})]
            h = len(items) // 2
            x, y = job((items[:h], prime)), job((items[h:], prime))
            return x[0] + y[0], x[1] + y[1] + 1, x[2] + y[2]
        c = circom.read_r1cs(d + "/m.r1cs")
        sym = circom.read_sym(d + "/m.sym")
        wire = {nm: w for _, w, _, nm in sym}
        own = {w: int(nm[6:]) for _, w, _, nm in sym if w > 0}
        cons = {}
        for k in c.constraints:
            os_ = {own[w] for lc in k for w in lc if w}
            if len(os_) > 1:
                return len(items), 1, [("mixed " + prime, {"constraint": k, "source": src})]
            cons.setdefault(os_.pop() if os_ else None, []).append(k)
        glob = cons.pop(None, [])
        never = 0
        for i, (form, e) in enumerate(items):
            _, exp = residual(form, e, p)
            if e.c == N and form in ("zero", "zero_l"):
                # no signals at all: either nothing or a contradiction
                never += 0 if exp.all() else 1
                continue
            ws = [wire["main.%s%d" % (v, i)] for v in "abx"]
            m = solve.solutions(cons.get(i, []), ws, p)
            if not (m == exp).all():
                if not exp.any() and not cons.get(i):
                    never += 1      # its constraint lost all its signals: counted below
                    continue
                q = np.argwhere(m != exp)[0]
                bad.append(("%s %s" % (prime, FORMS[form][0] % e.t), {"statement": FORMS[form][0] % e.t, "prime": prime, "a,b,x": q.tolist(), "source_accepts": bool(exp[tuple(q)]), "r1cs_accepts": bool(m[tuple(q)]), "constraints": cons.get(i, [])}))
        gn = sum(1 for g in glob if not solve.solutions([g], [], p).all())
        if gn != never and len(items) > 1:
            h = len(items) // 2
            x, y = job((items[:h], prime)), job((items[h:], prime))
            return x[0] + y[0], x[1] + y[1] + 1, x[2] + y[2]
        if gn != never:
            bad.append(("contradiction %s %s" % (prime, FORMS[items[0][0]][0] % items[0][1].t), {"source": src, "constraints": glob}))
        return len(items), 1, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reject_job(args):
    form, e, prime = args
    d = circom.scratch()
    try:
        r = circom.run(BIN, source([(form, e)]), ["--r1cs", "--O0", "--prime", prime], d, timeout=60)
        t = FORMS[form][0] % e.t
        if r.ok:
            return ("accepted %s %s" % (prime, t), {"statement": t, "prime": prime})
        if "T3001" not in r.err or r.panicked:
            return ("wrong failure %s %s" % (prime, t), {"statement": t, "rc": r.rc, "stderr": r.err[-600:]})
        if os.path.exists(d + "/m.r1cs"):
            return ("wrote output %s %s" % (prime, t), {"statement": t})
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


OW = " o <== a; w <== v;"
# other ways of writing constraints between signals, arrays, buses and components
CIRCUITS = [x + OW for x in [
    "signal t[2]; t <-- v; t === v;", "signal t[2][2]; t <-- [v, [a, b]]; t[0] === v; t[1] === [a, b];", "signal t[2]; t <-- [a, b]; [a, b] === t;",
    "signal t[2][3]; t <-- [[a, b, 1], [2, 3, 4]]; for (var i = 0; i < 2; i++) { for (var j = 0; j < 3; j++) { t[i][j] === [[a, b, 1], [2, 3, 4]][0][0] + 0; } }".replace("[[a, b, 1], [2, 3, 4]][0][0] + 0", "i + j*2"),
    "v[0] === v[1];", "v === [2, 7];", "a === b; b === 3;", "0 === a*b - 15;", "var q[2] = v; q[0] = a; v === q;", "var q[2][2]; q[1] = v; q[1][0] += 3; q[1] === v;",
    "P() p; p.x <-- a; p.y <-- b; P() q; q <== p;", "P() p; P() q; p.x <-- a; p.y <-- b; q.x <-- 1; q.y <-- 2; p === q;", "P() p[2]; P() q[2]; for (var i = 0; i < 2; i++) { p[i].x <-- a; p[i].y <-- b; q[i].x <-- a; q[i].y <-- b; } p === q;",
    "P() p[2]; P() q; for (var i = 0; i < 2; i++) { p[i].x <-- a; p[i].y <-- b; } q <== p[1]; p[0] === q;",
    "PQ(2) g; PQ(2) h; for (var i = 0; i < 2; i++) { g.u[i].x <-- v[i]; g.u[i].y <-- a; } g.z <-- b; h <== g; h.u[0] === g.u[1];", "PQ(2) g; for (var i = 0; i < 2; i++) { g.u[i].x <== v[i]; g.u[i].y <-- a; } g.z <-- b; PQ(2) h; h.u <== g.u; h.z <-- 3; h === g;",
    "component m = Mul(); m.p <-- a; m.q <-- b; m.r === a*b;", "component m = Mul(); m.p <-- a; m.q <== b; m.p === a + 0;", "component m[2]; for (var i = 0; i < 2; i++) { m[i] = Mul(); m[i].p <-- a; m[i].q <-- b; } m[0].r === m[1].r; m[0].p === m[1].q - 2;",
    "component c = Cube(); c.v <-- [[v, v], [[a, b], [1, 2]]]; c.r[0] === v; c.v[1][0] === [a, b];", "component c = Sum(2); c.v <-- v; c.v === v;", "component bt = BusT(); bt.i.x <-- a; bt.i.y <-- b; P() q; q.x <-- 1; q.y <-- 1; bt.o === q; bt.i === q;",
    "signal t, u; (t, u) <-- (a, b); (t, u) === (b, a);".replace("(t, u) === (b, a);", "t === b;"),
    "_ <== a*b;", "_ <-- a*b;", "component n = NoOut(); n.p <-- a;", "NoOut()(a);",
    "if (K == 1) { a === 3; } else { b === 3; }", "if (K != 1) { a === 3; } else { if (K == 1) { b === 4; } }", "for (var i = 0; i < 3; i++) { if (i == 1) { v[i] === a; } }", "var i = 0; while (i < 2) { v[i] === v[1-i]*a; i++; }", "var q = a; for (var i = 0; i < 3; i++) { q = q + b; if (i != 1) { q === v[0]; } }",
    "signal t[3]; for (var i = 0; i < 3; i++) { t[i] <-- a; } for (var i = 0; i < 2; i++) { t[i+1] === t[i]*b; }", "signal t[2][2]; for (var i = 0; i < 4; i++) { t[i\\2][i%2] <-- a + i; } t[0] === t[1];", "signal t; t <-- 3; (t + a)*(t - b) === v[0]*2 + v[1] - 5;", "signal t; t <-- 3; t*(a + b) + t === 0; -t === t*a - 3;",
    "signal t; t <== (a + 1)*(b + 2) + v[0];", "signal t; t <== -(a*b) - (-3);", "signal t; t <== 2*(a*b)*3 + 4*a;", "signal t; t <== a*(1/2) + b/3;", "signal t; var q = a*b; q = q*2 + 1; q += v[0]; t <== q;", "signal t <== v[0] - v[0];", "a*0 === 0;", "a*0 === 1 - K;", "a - a === K - 1;",
    "component h; if (K == 1) { h = Mul(); h.p <== a; h.q <-- b; } else { h = Mul(); h.p <-- a; h.q <== b; } h.r === 15;", "component ks[2]; ks[1] = Const(4); ks[1].r === b - 1;", "component c[2]; for (var i = 0; i < 2; i++) { c[i] = MixBus(i+1); c[i].k <== a; c[i].i.z <== b; for (var j = 0; j <= i; j++) { c[i].i.u[j].x <-- a; c[i].i.u[j].y <== b; } } c[0].o.u[0] === c[1].o.u[1]; c[1].o.u[2] === c[0].o.u[1];",
    "signal input extra[2]; extra === v;".replace("signal input extra[2];", "signal extra[2]; extra <-- v;"), "var q = 1; { var q = a; q === v[0]; } q === b - 4;", "component m = parallel Mul(); m.p <== a; m.q <-- b; m.r === v[0];", "component e = Empty(); a === b*e1;".replace("b*e1", "b*2"),
]]


def wits(d, ins):
    out = wasmrun.witnesses(d, "m", [circheck.json_inputs(i) for i in ins])
    return [w.get("w") for w in out]


INS = [{"a": 3, "b": 5, "v[0]": 2, "v[1]": 7}, {"a": 9, "b": 4, "v[0]": 11, "v[1]": 1}]


def circuit_job(a):
    body, full = a
    src = circuits.source([body])
    anon = ")(" in body
    if not anon and full:
        alts, prime = lambda v, p: [x for x in range(p) if x != v], "vp13"
    else:
        alts, prime = lambda v, p: sorted({(v + 1) % p, (v + p - 1) % p, 0, 1} - {v}), "bn128" if anon else "vp61"
    n, k, bad, amb = deviate.explore(BIN, src, INS[:1] if full else INS, prime, alts, wits, ["--wasm"] if anon else [])
    if amb:
        return n, k, None, 1
    return n, k, (("circuit %s %s %s" % (prime, bad[0], body), bad[1]) if bad else None), 0


def items(prime, deep):
    p = circom.prime_of(prime)
    l1, l2, l3, other = cexprs.family(p, deep)
    acc, rej = [], []
    for form in FORMS:
        for e in l1 + l2 + other + (l3 if form in ("assign", "zero") else []):
            if form != "assign" and form != "zero" and e not in l1 and e not in other and not deep and form not in ("check", "eq_prod"):
                continue
            c, _ = residual(form, e, p)
            (rej if c == X else acc).append((form, e))
    return acc, rej


def main():
    global BIN
    ck = Check("C07")
    BIN = build.circom()
    jobs = []
    fams = {}
    for prime in ["vp5"] + (["vp7", "vp11"] if ck.thorough else []):
        acc, _ = items(prime, ck.thorough)
        fams[prime] = len(acc)
        jobs += [(acc[i:i + 80], prime) for i in range(0, len(acc), 80)]
    for n, runs, bad in pmap(job, jobs):
        ck.add(transitions=n, traces_validated_against_impl=runs)
        for k, d in bad:
            ck.violation(k, d)
    bodies = CIRCUITS + [circuits.body(c) for c in (circuits.rotate(3) if not ck.thorough else circuits.cover(3))]
    cj = [(b, f) for i, b in enumerate(bodies) for f in (False, True) if not f or i < len(CIRCUITS) or ck.thorough]
    for n, k, bad, amb in pmap(circuit_job, cj, chunksize=4):
        ck.add(deviations=n, circuit_constraints=k, ambiguous_circuits=amb, traces_validated_against_impl=1)
        if bad:
            ck.violation(*bad)
    ck.cov["circuits"] = len(bodies)
    ck.cov["transitions"] += ck.cov["circuit_constraints"]
    ck.cov["states"] = ck.cov["deviations"] + sum(n * circom.prime_of(pr) ** 3 for pr, n in fams.items())
    ck.cov["constraints"] = fams
    ck.cov["exhaustive"] = True
    ck.cov["rule"] = "a state is an assignment of the three signals of a constraint over the whole field, or a deviation (one signal changed, alone or followed by those computed from it) from an honest assignment of a circuit; a transition is the comparison of one constraint as written with its R1CS; a trace one compilation"
    ck.sample({"statement": FORMS[jobs[3][0][5][0]][0] % jobs[3][0][5][1].t})
    ck.finish()
