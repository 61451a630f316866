"""C26: custom templates: r1cs sections 4 and 5, their signals survive, no constraints of their own."""
import itertools, os, shutil, struct
from collections import Counter
from mc import build, circheck, circom, ref, solve, wasmrun
from mc.par import pmap
from mc.report import Check

BIN = None
LIB = """
bus P { signal u; signal w[2]; }
function sq(x) { return x*x; }
template custom G(j, k) { signal input x; signal input y[2]; signal output o; signal output q[2]; o <-- x*y[0]+k; q[0] <-- sq(y[1]); q[1] <-- x-j; }
template custom H(k, v, w) { signal output z; signal input a[k][2]; signal output c; var s = 0; for (var i = 0; i < k; i++) { s += a[i][1] * k; } z <-- s; c <-- a[0][0] > 3 ? k : 1; }
template custom N() { signal output z; signal input a; z <-- a*a; }
template custom I(k) { signal input a; signal mid[2]; signal output z; mid[1] <-- a + k; mid[0] <-- a; z <-- mid[1]*mid[0]; }
template custom B(k) { output P r; P input p; r.u <-- p.w[1]; r.w[0] <-- p.u + k; r.w[1] <-- 3; }
template custom T() { signal input {binary} t; signal output {binary} s; s <-- 1 - t; }
template custom E() { signal input a; }
template custom K(k) { signal output z; z <-- k; }
template W(k) { signal input x; signal output o; component g = G(k, 1); g.x <== x; g.y <== [x, x]; component n = N(); n.a <== g.q[0]; o <== n.z; }
template Z() { signal input x; signal output o; component w[3]; for (var i = 0; i < 3; i++) { w[i] = W(i % 2); w[i].x <== i == 0 ? x : w[0].o; } o <== w[1].o + w[2].o; }
""".replace("P input p", "input P p").replace("output P r", "output P r")
# uses of custom templates; @ is a fresh number, X and Y linear expressions, each leaves a value in v@
USES = {
    "one": "component c@ = G(3, 70); c@.x <== X; c@.y <== [Y, X]; signal v@ <== c@.o + c@.q[1];",
    "array": "component c@[2]; for (var i = 0; i < 2; i++) { c@[i] = G(1, i); c@[i].x <== X + i; c@[i].y <== [Y, 2]; } signal v@ <== c@[1].q[0];",
    "equal": "component c@[2]; for (var i = 0; i < 2; i++) { c@[i] = N(); c@[i].a <== X; } c@[0].z === c@[1].z; signal v@ <== c@[1].z;",
    "sizes": "component c@[2]; for (var i = 0; i < 2; i++) { c@[i] = H(i + 1, [5, i], 9); for (var j = 0; j <= i; j++) { c@[i].a[j] <== [X, Y + j]; } } signal v@ <== c@[0].z - c@[1].c;",
    "params": "component c@ = H(1, [6, 7], 1); c@.a <== [[X, Y]]; component d@ = H(1, [6], 7); d@.a <== [[X, 1]]; signal v@ <== c@.z + d@.z;",
    "anonymous": "signal v@ <== N()(X);",
    "sub": "component c@ = W(2); c@.x <== X; signal v@ <== c@.o;",
    "deep": "component c@ = Z(); c@.x <== X; signal v@ <== c@.o;",
    "inter": "component c@ = I(4); c@.a <== X + Y; signal v@ <== c@.z;",
    "bus": "P p@; p@.u <== X; p@.w <== [1, Y]; component c@ = B(2); c@.p <== p@; signal v@ <== c@.r.w[0];",
    "tag": "signal {binary} t@; t@ <== X - X + 1; component c@ = T(); c@.t <== t@; component d@ = T(); d@.t <== c@.s; signal v@ <== d@.s;",
    "constant": "component c@ = N(); c@.a <== 5; component d@ = N(); d@.a <== c@.z; signal v@ <== c@.z + d@.z;",
    "free": "component c@ = N(); c@.a <-- X * Y; signal v@ <== 1;",
    "sink": "component c@ = E(); c@.a <== X; signal v@ <== Y;",
    "source": "component c@ = K(8); signal v@ <== c@.z;",
    "known_if": "component c@; if (1 == 2) { c@ = I(5); } else { c@ = I(6); } c@.a <== X; signal v@ <== c@.z;",
    "untaken": "if (1 == 2) { component c@ = I(5); c@.a <== X; } signal v@ <== X;",
    "chain": "component c@[3]; for (var i = 0; i < 3; i++) { c@[i] = I(i \\ 2); c@[i].a <== i == 0 ? X : c@[i - 1].z; } signal v@ <== c@[2].z;",
}
INPUTS = [{"a": 3, "b": 5}, {"a": 0, "b": 1}, {"a": 10, "b": 2**70}]


def source(uses, out):
    body = "".join("  " + USES[u].replace("@", str(i)).replace("X", ["a", "v%d + b" % (i - 1)][i > 0]).replace("Y", ["b", "a - 2*b", "v0"][i]) + "\n" for i, u in enumerate(uses))
    n = len(uses) - 1
    last = {"sum": "o <== " + " + ".join("v%d" % i for i in range(n + 1)) + ";", "prod": "o <== v%d * v0;" % n, "none": "o <-- 1;"}[out]
    return "pragma circom 2.2.0;\npragma custom_templates;\n" + LIB + "template M() { signal input a; signal input b; signal output o;\n" + body + "  " + last + "\n}\ncomponent main = M();\n"


def sections(c):
    """(gates [(name, params)], applications [(gate, wires)]) of sections 4 and 5"""
    b, fs = c.raw[4], c.field_size
    n, = struct.unpack_from("<I", b)
    pos, gates, apps = 4, [], []
    for _ in range(n):
        e = b.index(0, pos)
        name = b[pos:e].decode()
        k, = struct.unpack_from("<I", b, e + 1)
        pos = e + 5
        gates.append((name, tuple(int.from_bytes(b[pos + i * fs:pos + (i + 1) * fs], "little") for i in range(k))))
        pos += k * fs
    if pos != len(b):
        raise circom.FormatError("section 4: size")
    b = c.raw[5]
    n, = struct.unpack_from("<I", b)
    pos = 4
    for _ in range(n):
        g, k = struct.unpack_from("<II", b, pos)
        ws = struct.unpack_from("<%dQ" % k, b, pos + 8)
        pos += 8 + 8 * k
        apps.append((g, ws))
    if pos != len(b):
        raise circom.FormatError("section 5: size")
    return gates, apps


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, list) else [v]


def expected(m):
    """multiset of (template, params, signals), and the distinct instances"""
    apps, kinds = Counter(), set()
    for i in m.insts:
        if "custom" in m.pr.templates[i.template][2]:
            names = [n for _, s in i.decls for n in m.leaves(s.full, s.shape, s.bus)]
            apps[(i.template, tuple(flat(i.params)), tuple(circheck.canon(n, m.pr.templates) or n for n in names))] += 1
            kinds.add((i.template, repr(i.params)))
    return apps, kinds


def judge(c, sym, m, problems, det):
    if sorted(c.sections) != [1, 2, 3, 4, 5]:
        problems.append(("sections", {**det, "sections": c.sections}))
        return 0
    gates, apps = sections(c)
    exp, kinds = expected(m)
    by = {}
    for _, w, _, nm in sym:
        by.setdefault(w, []).append(circheck.canon(nm, m.pr.templates) or nm)
    got = Counter()
    for g, ws in apps:
        if g >= len(gates):
            problems.append(("gate index", det))
            return 0
        got[(gates[g][0], gates[g][1], tuple(by.get(w, ["?"])[0] if len(by.get(w, [])) == 1 else str(by.get(w)) for w in ws))] += 1
    if got != exp:
        problems.append(("applications", {**det, "missing": [list(x) for x in (exp - got)][:3], "unexpected": [list(x) for x in (got - exp)][:3]}))
    if len(gates) != len(kinds) or Counter(gates) != Counter((t, tuple(flat(eval(r)))) for t, r in kinds):
        problems.append(("gates", {**det, "expected": sorted(map(str, kinds)), "observed": gates}))
    return len(apps)


def job(a):
    uses, out, prime, levels = a
    p = circom.prime_of(prime)
    src = source(uses, out)
    prog = ref.parse(src)
    ms = [ref.witness(prog, p, {k: v % p for k, v in i.items()}) for i in INPUTS]
    d = circom.scratch()
    bad, apps, n = [], 0, 0
    try:
        base = None
        for lv in levels:
            dd = os.path.join(d, "_".join(lv).replace("-", ""))
            os.makedirs(dd)
            r = circom.run(BIN, src, ["--r1cs", "--sym", "--wasm", "--prime", prime] + lv, dd)
            tag = " ".join(uses) + " " + out + " " + prime + " " + " ".join(lv) + ": "
            pr = []
            if not r.ok:
                bad.append((tag + "rejected", {"source": src, "stderr": r.err[-500:]}))
                continue
            c, sym = circom.read_r1cs(dd + "/m.r1cs"), circom.read_sym(dd + "/m.sym")
            apps += judge(c, sym, ms[0], pr, {})
            for i, m, w in zip(INPUTS, ms, wasmrun.witnesses(dd, "m", [{k: str(v) for k, v in i.items()} for i in INPUTS])):
                n += 1
                if "err" in w:
                    pr.append(("witness", {"input": i, "error": w["err"]}))
                    break
                if len(w["w"]) != c.n_wires or circom.satisfied(c, w["w"]) is not None:
                    pr.append(("witness not satisfied", {"input": i}))
                    break
                _, df = circheck.differences(m.values, sym, w["w"], prog.templates)
                if df:
                    pr.append((df[0], {**df[1], "input": i}))
                    break
            if lv == ["--O0"]:
                # the same circuit with ordinary templates has the same constraints and no sections 4 and 5
                d2 = dd + "/plain"
                os.makedirs(d2)
                r = circom.run(BIN, src.replace("template custom", "template").replace("pragma custom_templates;", ""), ["--r1cs", "--sym", "--prime", prime] + lv, d2)
                if not r.ok:
                    pr.append(("plain rejected", {"stderr": r.err[-400:]}))
                else:
                    c2 = circom.read_r1cs(d2 + "/m.r1cs")
                    if sorted(c2.sections) != [1, 2, 3]:
                        pr.append(("plain sections", {"sections": c2.sections}))
                    if sorted(map(repr, c2.constraints)) != sorted(map(repr, c.constraints)):
                        pr.append(("constraints differ from those of ordinary templates", {}))
            bad += [(tag + k, {"source": src, **dt}) for k, dt in pr]
        return apps, n, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


# small systems: every combination of definitions and constraints around two applications
DEF = {
    "n1": ["n1.a <== a;", "n1.a <== 2;", "n1.a <-- a;", "n1.a <== a + 1;"],
    "n2": ["n2.a <== n1.z;", "n2.a <== a;", "n2.a <== 3;", "n2.a <== n1.z + 1;", "n2.a <-- n1.z;"],
    "s": ["s <== n1.z;", "s <== n1.z + n2.z;", "s <== 4;", "s <-- 1;"],
    "o": ["o <== n2.z;", "o <== s;", "o <== s*n1.z;"],
    "e": ["", "n1.z === n2.z;", "n1.z === 1;", "n1.a + n2.z === 2;", "n1.z === n1.a;", "n1.z === s; n2.a === s;"],
}
FLAGS = [["--O1"], ["--O2"], ["--O2round", "1"], ["--O2", "--use_old_simplification_heuristics"]]


def small_job(a):
    combos, prime, flags = a
    p = circom.prime_of(prime)
    bad, states, tr = [], 0, 0
    d = circom.scratch()
    try:
        for ci, c in enumerate(combos):
            src = "pragma circom 2.2.0; pragma custom_templates;\ntemplate custom N() { signal input a; signal output z; z <-- a*a; }\ntemplate M() { signal input a; signal output o; signal s; component n1 = N(); component n2 = N(); %s }\ncomponent main = M();\n" % " ".join(c)

            def one(fl, k):
                dd = d + "/%d_%d" % (ci, k)
                os.makedirs(dd)
                r = circom.run(BIN, src, ["--r1cs", "--sym", "--prime", prime] + fl, dd)
                if not r.ok:
                    bad.append(("small %s %s: rejected" % (" ".join(c), " ".join(fl)), {"source": src, "stderr": r.err[-400:]}))
                    return None, None
                out = circom.read_r1cs(dd + "/m.r1cs"), circom.read_sym(dd + "/m.sym")
                shutil.rmtree(dd)
                return out

            r0, s0 = one(["--O0"], 0)
            if r0 is None:
                continue
            names = [(nm, w) for _, w, _, nm in s0]
            base = solve.solutions(r0.constraints, [w for _, w in names], p)
            states += base.size
            for k, fl in enumerate(flags):
                rc, sy = one(fl, k + 1)
                if rc is None:
                    continue
                tr += 1
                wire = {nm: w for _, w, _, nm in sy}
                keep = [j for j, (nm, _) in enumerate(names) if wire[nm] >= 0]
                lost = [nm for nm, _ in names if wire[nm] < 0 and (".n1." in nm or ".n2." in nm)]
                tag = "small %s %s %s: " % (prime, " ".join(c), " ".join(fl))
                if lost:
                    bad.append((tag + "signals of a custom template removed", {"source": src, "signals": lost}))
                elif not (solve.solutions(rc.constraints, [wire[names[j][0]] for j in keep], p) == solve.project(base, keep)).all():
                    bad.append((tag + "solutions differ", {"source": src}))
                gates, apps = sections(rc)
                exp = Counter([(0, (wire["main.%s.a" % x], wire["main.%s.z" % x])) for x in ("n1", "n2")])
                if gates != [("N", ())] or Counter(apps) != exp:
                    bad.append((tag + "sections", {"source": src, "gates": gates, "applications": apps, "expected": list(exp)}))
        return states, tr, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


REJ = ["o <== a;", "o <-- a; o === a;", "a ==> o;", "a --> o; a*a === o;", "if (k == 1) { o <== a; } else { o <-- a; }", "if (k == 1) { o <-- a; } else { o <== a; }", "o <-- a; if (k > 3) { a === 2; }",
       "o <-- a; for (var i = 0; i < 2; i++) { o === a; }", "o <-- a; var i = 0; while (i < 1) { if (i == 0) { { a === o; } } i += 1; }", "component c = A(); c.x <== a; o <-- c.y;", "component c = A(); c.x <-- a; o <-- c.y;",
       "component c[2]; for (var i = 0; i < 2; i++) { c[i] = A(); c[i].x <-- a; } o <-- a;", "if (k == 7) { component c = A(); c.x <-- a; } o <-- a;", "o <-- A()(a);", "o <== A()(a);", "_ <== a; o <-- 1;", "(o, _) <== (a, a);", "{ { o <== a; } }",
       "signal m[2]; m <== [a, a]; o <-- 1;", "signal m <== a; o <-- m;", "o <-- a; 0 === 0;", "o <-- a; for (var i = 5; i < 2; i++) { o === a; }"]
ACC = ["o <-- a;", "a --> o;", "var v[2] = [a, k]; o <-- v[1] + v[0];", "signal m <-- a; o <-- m;", "if (k == 1) { o <-- a; } else { o <-- 2; }", "for (var i = 0; i < 1; i++) { o <-- a; } assert(k == 1); log(a);",
       "var s = 0; if (a > 1) { s = 3; } o <-- s;", "(o, _) <-- (a, k);", "o <-- f(a);"]


def static_job(a):
    body, ok = a
    src = "pragma circom 2.2.0; pragma custom_templates;\nfunction f(x) { return x*x; }\ntemplate A() { signal input x; signal output y; y <== x; }\ntemplate custom C(k) { signal input a; signal output o; %s }\ntemplate M() { signal input a; signal output o; component c = C(1); c.a <== a; o <== c.o; }\ncomponent main = M();\n" % body
    d = circom.scratch()
    try:
        r = circom.run(BIN, src, ["--r1cs", "--O0"], d)
        if ok and not r.ok:
            return [("custom template rejected: " + body, {"source": src, "stderr": r.err[-400:]})]
        if not ok and (r.rc != 1 or "error[" not in r.err or os.path.exists(d + "/m.r1cs")):
            return [("custom template not rejected: " + body, {"source": src, "rc": r.rc, "stderr": r.err[-400:]})]
        return []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def include_job(batch):
    """files m, x, y that include each other, each with or without the pragma and a custom template"""
    bad, n = [], 0
    d = circom.scratch()
    names = "mxy"
    pairs = [(i, j) for i in range(3) for j in range(3) if i != j]
    try:
        for e, pragma, custom, ver in batch:
            edges = [q for k, q in enumerate(pairs) if e >> k & 1]
            reach = {0}
            reaches = [{i} for i in range(3)]
            for _ in range(3):
                for i, j in edges:
                    for s in reaches:
                        if i in s:
                            s.add(j)
            reach = reaches[0]
            ok = all(pragma >> i & 1 or not any(custom >> j & 1 for j in reaches[i]) for i in reach)
            if ver == "2.0.5" and any(pragma >> i & 1 for i in reach):
                ok = False
            files = {}
            for i in range(3):
                t = "pragma circom %s;\n" % ver + ("pragma custom_templates;\n" if pragma >> i & 1 else "") + "".join('include "%s.circom";\n' % names[j] for q, j in edges if q == i)
                if custom >> i & 1:
                    t += "template custom C%d() { signal input a; signal output o; o <-- a; }\n" % i
                t += "function f%d() { return %d; }\n" % (i, i)
                if i == 0:
                    t += "template M() { signal input a; signal output o; o <== a * f0(); }\ncomponent main = M();\n"
                files[names[i] + ".circom"] = t
            dd = d + "/%d" % n
            os.makedirs(dd)
            n += 1
            r = circom.run(BIN, files.pop("m.circom"), ["--r1cs"], dd, files=files)
            key = "includes %s pragmas %s customs %s %s" % ([(names[i], names[j]) for i, j in edges], bin(pragma)[2:], bin(custom)[2:], ver)
            if ok != r.ok or (not ok and (r.rc != 1 or os.path.exists(dd + "/m.r1cs") or "error[" not in r.err)):
                bad.append((key, {"expected": "accepted" if ok else "rejected", "rc": r.rc, "stderr": r.err[-400:]}))
            elif ok:
                secs = sorted(circom.read_r1cs(dd + "/m.r1cs").sections)
                if secs != ([1, 2, 3, 4, 5] if pragma & 1 else [1, 2, 3]):
                    bad.append((key + ": sections", {"sections": secs}))
            shutil.rmtree(dd)
        return n, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def call(a):
    f, x = a
    return f, globals()[f](x)


def main():
    global BIN
    ck = Check("C26")
    BIN = build.circom()
    levels = [["--O0"], ["--O1"], ["--O2"]] + ([["--O2round", "1"], ["--O1", "--use_old_simplification_heuristics"]] if ck.thorough else [])
    us = list(USES)
    jobs = [("job", (s, o, "bn128", levels)) for n in (1, 2) + ((3,) if ck.thorough else ()) for s in itertools.product(us, repeat=n) for o in (("sum", "prod", "none") if n == 1 or ck.thorough and n == 2 else ("sum",) if n == 2 else ("prod",))]
    jobs += [("job", ((u,), "sum", q, levels[:2])) for u in us for q in circom.PRIMES if q != "bn128"]
    combos = list(itertools.product(*DEF.values()))
    primes = ["vp5"] if not ck.thorough else ["vp3", "vp5", "vp7"]
    jobs += [("small_job", (combos[i:i + 20], q, FLAGS if ck.thorough else FLAGS[:2])) for q in primes for i in range(0, len(combos), 20)]
    jobs += [("static_job", (b, ok)) for l, ok in ((REJ, False), (ACC, True)) for b in l]
    graphs = [(e, pr, cu, "2.1.5") for e in range(64) for pr in range(8) for cu in range(8)]
    graphs += [(e, pr, cu, "2.0.5") for e in (0, 1, 3, 5, 9) for pr in range(8) for cu in range(8)]
    jobs += [("include_job", graphs[i:i + 64]) for i in range(0, len(graphs), 64)]
    for f, r in pmap(call, jobs):
        bad = r if f == "static_job" else r[-1]
        if f == "job":
            ck.add(applications=r[0], traces_validated_against_impl=r[1], circuits=1)
        elif f == "small_job":
            ck.add(assignments=r[0], simplified_systems=r[1])
        elif f == "include_job":
            ck.add(include_graphs=r[0])
        else:
            ck.add(bodies=1)
        for k, d in bad:
            ck.violation(k, d)
    ck.cov["states"] = ck.cov["assignments"] + ck.cov["circuits"] * len(INPUTS) + ck.cov["include_graphs"]
    ck.cov["transitions"] = ck.cov["simplified_systems"] + ck.cov["applications"] + ck.cov["include_graphs"]
    ck.cov["rule"] = "a state is an assignment of the signals of a small system, or (circuit, input), or an include graph; a transition a simplified system, an application of section 5 or an include graph; a trace one generated witness"
    ck.sample({"circuit": source(("deep", "bus"), "sum")})
    ck.finish()
