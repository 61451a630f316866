"""C28: the options select the outputs and nothing else; a failure to write them is reported."""
import itertools, os, shutil, subprocess
from mc import build, circom, wasmrun
from mc.par import pmap
from mc.report import Check

BIN = SO = None
CIRCUITS = {
    "plain": """pragma circom 2.1.6;
bus P { signal u; signal {binary} w[2]; }
function f(x) { var r = 1; for (var i = 0; i < 3; i++) { r = r * x + i; } return r; }
template W(k) { signal input x; signal output o; signal m <== x + k; o <== m * x; }
template M() { signal input a[2]; signal input b; signal output o; signal s; signal t <-- f(b); P p; p.u <== b; p.w <-- [1, 0];
 component w[3]; for (var i = 0; i < 3; i++) { w[i] = W(i \\ 2); w[i].x <== i == 0 ? a[1] : w[i - 1].o; }
 s <== w[2].o + p.u; s - b === w[2].o; log("s", s); assert(b != 77); o <== s + 3 * t; }
component main {public [b]} = M();
""",
    "custom": """pragma circom 2.2.0;
pragma custom_templates;
template custom G(k, j) { signal input x[2]; signal output o; o <-- x[0]*x[1]+k; }
template custom H() { signal input x; signal output o; o <-- x; }
template M() { signal input a; signal output o; component g = G(1, 2); g.x <== [a, 3]; component h = H(); h.x <== g.o; signal z <== h.o; o <== z * z; }
component main = M();
""",
    "parallel": """pragma circom 2.0.8;
template parallel W(k) { signal input x; signal output o; o <== x * x + k; }
template M() { signal input a; signal output o; component w[2]; for (var i = 0; i < 2; i++) { w[i] = W(i); w[i].x <== a + i; } o <== w[0].o * w[1].o; }
component main = M();
""",
    "tiny": "template M() { signal output o; o <== 1; } component main = M();",
}
OUTPUTS = ["--r1cs", "--sym", "--json", "--simplification_substitution", "--wasm", "--wat", "--c"]


def expected(flags, name="m", prime="bn128"):
    """the files that must be written"""
    s = set()
    if "--r1cs" in flags:
        s.add(name + ".r1cs")
    if "--sym" in flags:
        s.add(name + ".sym")
    if "--json" in flags:
        s.add(name + "_constraints.json")
    if "--simplification_substitution" in flags:
        s.add(name + "_substitutions.json")
    if "--wasm" in flags:
        s.add(name + "_js/%s.wasm" % name)
    if "--wat" in flags:
        s.add(name + "_js/%s.wat" % name)
    if "--wasm" in flags or "--wat" in flags:
        s |= {name + "_js/witness_calculator.js", name + "_js/generate_witness.js"}
    if "--c" in flags:
        fr = ["fr.hpp"] if prime == "goldilocks" else ["fr.hpp", "fr.cpp"] + ([] if "--no_asm" in flags else ["fr.asm"])
        s |= {name + "_cpp/" + x for x in [name + ".cpp", name + ".dat", "main.cpp", "circom.hpp", "calcwit.hpp", "calcwit.cpp", "Makefile"] + fr}
        if prime == "goldilocks":
            s.add("?")
    return s


def tree(d):
    r = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            r[os.path.relpath(os.path.join(p, f), d)] = open(os.path.join(p, f), "rb").read()
        if not ds and not fs and p != d:
            r[os.path.relpath(p, d) + "/"] = b""
    return r


def go(d, args, name="m.circom", env=None, out="out"):
    r = circom.run(BIN, None, list(args) + ["-o", out], d, name=name, env=env)
    return r, (tree(os.path.join(d, out)) if os.path.isdir(os.path.join(d, out)) else {})


def differ(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))[:4]


def fresh(d, src, name="m.circom"):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/out")
    os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
    open(os.path.join(d, name), "w").write(src)
    return d


def expect_set(t, flags, **kw):
    e = expected(flags, **kw)
    if "?" in e:
        e.discard("?")
        return e - set(t) == set() and all("_cpp/" in x for x in set(t) - e)
    return set(t) == e


def subset_job(a):
    """every subset of the outputs gives exactly its files, with the contents of the run with all of them"""
    ci, level, prime, extra, parts = a
    d = circom.scratch()
    bad, n = [], 0
    try:
        base = ["--prime", prime] + level
        r, full = go(fresh(d + "/w", CIRCUITS[ci]), OUTPUTS + extra + base)
        tag = "%s %s %s %s" % (ci, prime, " ".join(level), " ".join(extra))
        if not r.ok or not expect_set(full, OUTPUTS + extra, prime=prime):
            return 1, [(tag + " all outputs: files", {"rc": r.rc, "files": sorted(full), "stderr": r.err[-300:]})]
        for k in parts:
            fl = [o for i, o in enumerate(OUTPUTS) if k >> i & 1]
            args = fl + extra + base
            if k % 3 == 1:
                args = args[::-1] if not level or "round" not in level[0] else args
                args = base + extra + fl[::-1]
            r, t = go(fresh(d + "/w", CIRCUITS[ci]), args)
            n += 1
            key = "%s outputs %s" % (tag, " ".join(fl) or "none")
            if not r.ok:
                bad.append((key + ": failed", {"rc": r.rc, "stderr": r.err[-300:]}))
            elif not expect_set(t, fl + extra, prime=prime):
                bad.append((key + ": files", {"files": sorted(t), "expected": sorted(expected(fl + extra, prime=prime))}))
            elif differ(t, {x: full[x] for x in t if x in full}):
                bad.append((key + ": contents depend on the other outputs", {"files": differ(t, {x: full.get(x) for x in t})}))
            others = [x for x in os.listdir(d + "/w") if x not in ("m.circom", "out")]
            if others:
                bad.append((key + ": files out of the output directory", {"files": others}))
        return n, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


ALL = ["--r1cs", "--sym", "--json", "--simplification_substitution", "--wasm", "--wat", "--c"]
# options that mean the same
SAME = [
    ([], ["--O1"]), ([], ["--prime", "bn128"]), ([], ["-p", "bn128"]), ([], ["--sanity_check", "2"]), (["--c"], ["-c"]), (["--O1"], ["--O2round", "0"]), (["--O2"], ["--O2round", "1000"]),
    ([], ["--verbose"]), ([], ["--inspect"]), (["--O2"], ["--O2", "--verbose", "--inspect"]), (["--O0"], ["--O0", "--inspect"]), (["--O0"], ["--O0", "--use_old_simplification_heuristics"]),
    (["--O0"], ["--O0", "--verbose"]), (["--no_asm"], ["--no_asm", "--verbose"]), (["--sanity_check", "0"], ["--sanity_check", "0", "--inspect"]), ([], ["-l", "."]), ([], ["-l", "/nowhere"]),
    (["--prime", "vesta"], ["-p", "vesta", "--O1"]), (["--prime", "goldilocks"], ["--prime=goldilocks"]), (["--O2", "--use_old_simplification_heuristics"], ["--use_old_simplification_heuristics", "--O2", "--verbose"]),
]
# options with their effect confined to some files: (options, options, files that may differ)
ONLY = [
    ([], ["--no_asm"], "_cpp/"), ([], ["--sanity_check", "0"], "_cpp/ _js/"), ([], ["--sanity_check", "1"], "_cpp/ _js/"), ([], ["--sanity_check", "3"], "_cpp/ _js/"), ([], ["--no_init"], "_cpp/ _js/"),
    (["--O0"], ["--O0", "--no_asm", "--sanity_check", "0"], "_cpp/ _js/"), (["--O2"], ["--O2", "--no_init", "--sanity_check", "1"], "_cpp/ _js/"),
]


def same_job(a):
    ci, x, y, may = a
    d = circom.scratch()
    try:
        outs = [[], []]
        for i, o in enumerate((x, y)):
            r, t = go(fresh(d + "/w", CIRCUITS[ci]), [z for z in ALL if z != "--c" or not {"-c", "--c"} & set(o)] + o)
            if not r.ok:
                return [("%s with %s: failed" % (ci, " ".join(o)), {"rc": r.rc, "stderr": r.err[-300:]})]
            outs[i] = t
        df = [k for k in differ(*outs) if not any(m in k for m in may.split())]
        return [("%s: %s and %s differ" % (ci, " ".join(x) or "default", " ".join(y)), {"files": df})] if df else []
    finally:
        shutil.rmtree(d, ignore_errors=True)


NAMES = ["m.circom", "main.circom", "fr.circom", "calcwit.circom", "a.b.circom", "x-1.circom", "sub/d.circom", "noext", "q.txt", "with space.circom", "circom.circom", "Main.circom"]


def name_job(a):
    name, fl, out = a
    d = circom.scratch()
    try:
        fresh(d + "/w", CIRCUITS["tiny"], name)
        os.makedirs(d + "/w/o2/deep")
        r, t = go(d + "/w", fl, name, out={"abs": d + "/w/o2/deep"}.get(out, out))
        stem = os.path.basename(name).rsplit(".", 1)[0]
        if "--c" in fl and stem in ("main", "fr", "calcwit"):
            stem += "_c"
        key = "file %s, outputs %s in %s" % (name, " ".join(fl), out)
        if not r.ok:
            return [(key + ": failed", {"rc": r.rc, "stderr": r.err[-300:]})]
        if out == ".":
            t = {k: v for k, v in t.items() if not k.startswith(("out/", "o2/", "sub/")) and k != name}
        if set(t) != expected(fl, stem):
            return [(key + ": files", {"files": sorted(t), "expected": sorted(expected(fl, stem))})]
        bad = []
        if "--wasm" in fl:
            # the generator and its script work under this name
            w = subprocess.run(["node", os.path.join(d, "w", {"abs": "o2/deep"}.get(out, out), stem + "_js", "generate_witness.js"), os.path.join(d, "w", {"abs": "o2/deep"}.get(out, out), stem + "_js", stem + ".wasm"), "in.json", "w.wtns"],
                               cwd=d, input=None, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) if not open(d + "/in.json", "w").write("{}") == 0 else None
            if w.returncode or circom.read_wtns(d + "/w.wtns")[1] != [1, 1]:
                bad.append((key + ": generate_witness.js", {"output": w.stdout.decode()[-300:]}))
        return bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


INVALID = [["--prime", "bn254"], ["--prime", "BN128"], ["--prime", ""], ["--prime", "bn12"], ["--O2round", "x"], ["--O2round", "-1"], ["--O2round"], ["--sanity_check", "4"], ["--sanity_check", "x"], ["--sanity_check", "00"],
           ["--unknown"], ["--r1cs", "--r1cs=3"], ["-o", "nowhere"], ["-o", "m.circom"], ["second.circom"]]
WRONG = {
    "syntax": "template M() { signal output o; o <== ; } component main = M();",
    "no main": "template M() { signal output o; o <== 1; }",
    "type": "template M() { signal output o; o <== x; } component main = M();",
    "twice": "template M() { signal output o; o <== 1; o <== 2; } component main = M();",
    "quadratic": "template M() { signal input a; signal output o; o <== a*a*a; } component main = M();",
    "include": "include \"nowhere.circom\"; template M() { signal output o; o <== 1; } component main = M();",
    "version": "pragma circom 9.0.0; template M() { signal output o; o <== 1; } component main = M();",
    "assert": "template M() { signal output o; assert(1 == 2); o <== 1; } component main = M();",
    "public": "template M() { signal output o; signal input a; o <== a; } component main {public [b]} = M();",
    "divide": "template M(n) { signal output o; o <== 1 / n; } component main = M(0);",
    "empty": "",
    "bounds": "template M() { signal output o; var v[2]; o <== v[2]; } component main = M();",
    "inputs": "template A() { signal input x; } template M() { signal output o; component a = A(); o <== 1; } component main = M();",
}


def reject_job(a):
    src, args, name = a
    d = circom.scratch()
    try:
        r, t = go(fresh(d + "/w", src), args, name)
        if r.rc == 0 or "Everything went okay" in r.out or t or r.rc not in (1, 2):
            return [("%s %s: %s" % (src[:50], " ".join(args), "not rejected" if r.rc == 0 else "exit code %s" % r.rc if not t else "files written"), {"source": src, "rc": r.rc, "files": sorted(t), "stderr": r.err[-300:]})]
        return []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bad_option_job(a):
    src, args, name = a
    d = circom.scratch()
    try:
        fresh(d + "/w", src)
        full = ALL + args + (["-o", "out"] if "-o" not in args else [])
        r = circom.run(BIN, None, full, d + "/w", name=name)
        t = tree(d + "/w")
        t.pop("m.circom", None)
        t.pop("out/", None)
        if r.rc == 0 or "Everything went okay" in r.out or t or r.rc not in (1, 2):
            return [("options %s of %s: %s" % (" ".join(args), name, "accepted" if r.rc == 0 else "exit code %s" % r.rc), {"rc": r.rc, "files": sorted(t), "stderr": r.err[-300:]})]
        return []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stale_job(a):
    """the outputs of a previous compilation are replaced, or an obstacle makes it fail"""
    ci, what, target = a
    d = circom.scratch()
    try:
        r, ref = go(fresh(d + "/r", CIRCUITS[ci]), ALL)
        w = fresh(d + "/w", CIRCUITS[ci])
        p = os.path.join(w, "out", target)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if what == "longer":
            open(p, "wb").write(b"\x01" + ref[target] * 3 + b"}}")
        elif what == "directory":
            os.makedirs(p + "/keep")
        elif what == "file":
            open(p, "w").write("keep")
        elif what == "previous":
            go(fresh(d + "/z", CIRCUITS[target]), ALL)
            shutil.rmtree(w + "/out")
            shutil.copytree(d + "/z/out", w + "/out")
        r, t = go(w, ALL)
        key = "%s: %s %s" % (ci, what, target)
        if what in ("longer", "previous"):
            if not r.ok or differ(t, ref):
                return [(key + ": outputs differ", {"rc": r.rc, "files": differ(t, ref), "stderr": r.err[-300:]})]
        elif r.rc == 0 or "Everything went okay" in r.out:
            return [(key + ": failure not reported", {"files": sorted(t)})]
        return []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def faulty(d, ci, args, at, mode):
    w = fresh(d + "/w", CIRCUITS[ci])
    out = os.path.join(w, "out")
    env = dict(os.environ, LD_PRELOAD=SO, VP_FAULT_DIR=out, VP_FAULT_AT=str(at), VP_FAULT_MODE=mode, VP_FAULT_LOG=d + "/log")
    r, t = go(w, args, env=env, out=out)
    return r, t, open(d + "/log").read().split("\n")[:-1]


def fault_job(a):
    """every operation on the files written fails, or writes only half: reported, or the files are complete"""
    ci, args, mode, points = a
    d = circom.scratch()
    bad = []
    try:
        r0, ref, ops = faulty(d, ci, args, -1, "n")
        if not r0.ok:
            return 0, [("%s %s: failed" % (ci, " ".join(args)), {"rc": r0.rc, "stderr": r0.err[-300:]})]
        for k in range(*points):
            if k >= len(ops):
                break
            r, t, log = faulty(d, ci, args, k, mode)
            ok = r.rc == 0 or "Everything went okay" in r.out
            if ok and (t != ref or mode[0] != "p" or "write" not in ops[k]):
                bad.append(("%s %s: operation %s %s: not reported" % (ci, " ".join(args), ops[k], {"n": "no space", "e": "error", "p": "written by half"}[mode[0]] + (", also after it" if mode[1:] else "")),
                            {"rc": r.rc, "incomplete": differ(t, ref), "stderr": r.err[-300:]}))
            elif r.rc is None or r.rc < 0:
                bad.append(("%s %s: operation %s: killed" % (ci, " ".join(args), ops[k]), {"rc": r.rc}))
        return max(0, min(points[1], len(ops)) - points[0]), bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def init_job(a):
    """--no_init: variables that the program initialises need no zeroes"""
    decl, body, n = a
    src = "function f(x) { var r[2] = [x, x]; if (x > 3) { r[0] = 1; } return r[0] + r[1]; }\ntemplate M() { signal input a; signal output o; %s %s o <-- v; }\ncomponent main = M();\n" % (decl, body)
    d = circom.scratch()
    try:
        got = []
        for fl in ([], ["--no_init"]):
            r = circom.run(BIN, src, ["--r1cs", "--wasm"] + fl, fresh(d + "/w", src))
            if not r.ok:
                return [("%s %s %s: failed" % (decl, body, fl), {"stderr": r.err[-300:]})]
            got.append(([x.get("w", "fails") for x in wasmrun.witnesses(d + "/w", "m", [{"a": str(v)} for v in (0, 1, 3, 5, -1)])], open(d + "/w/m.r1cs", "rb").read()))
        if got[0] != got[1]:
            return [("--no_init %s %s" % (decl, body), {"source": src, "with": str(got[0][0]), "without": str(got[1][0])})]
        return []
    finally:
        shutil.rmtree(d, ignore_errors=True)


INIT_D = ["var v = 0; var w[2] = [0, 0];", "var v = 0; var w[2]; w[0] = a; w[1] = 2;", "var (v, u) = (1, 2); var w[2] = [u, v];", "var v; v = 3; var w[2] = [a, 1];", "var v; if (a > 1) { v = 4; } else { v = a; } var w[2] = [v, 1];"]
INIT_B = ["", "for (var i = 0; i < 3; i++) { var z = i; v += z * w[i % 2]; }", "var k = 0; while (k < a && k < 4) { var z[2] = [k, v]; v = z[0] + z[1] + f(k); k++; }", "v = f(a) + f(w[0]); w = [v, v]; v += w[1];", "var x[2][2] = [w, [1, a]]; w = x[1]; v = w[0] * 5 + w[1];"]


def call(a):
    return a[0], globals()[a[0]](a[1])


def shim():
    so = os.path.join(build.BUILD, "faults.so")
    with build.lock("faults"):
        h = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so + ".tmp", build.ROOT + "/faults/shim.c", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if h.returncode:
            raise build.BuildError(h.stdout.decode())
        os.rename(so + ".tmp", so)
    return so


def main():
    global BIN, SO
    ck = Check("C28")
    BIN, SO = build.circom(), shim()
    levels = [[], ["--O0"], ["--O2"]]
    jobs = []
    for ci in CIRCUITS:
        for lv in levels if ck.thorough or ci == "plain" else levels[:1] if ci != "custom" else levels[2:]:
            jobs += [("subset_job", (ci, lv, "bn128", [], list(range(k, 128, 4)))) for k in range(4)]
        jobs += [("subset_job", (ci, lv, q, ex, list(range(128)) if ck.thorough else [2**i for i in range(7)] + [127 - 2**i for i in range(7)])) for lv, q, ex in
                 [([], "goldilocks", []), (["--O2"], "vesta", ["--no_asm"]), (["--O0"], "bls12381", ["--inspect"]), (["--O2round", "2"], "secq256r1", ["--verbose"]), ([], "goldilocks", ["--no_asm"])]]
    for ci in CIRCUITS:
        jobs += [("same_job", (ci, x, y, "")) for x, y in SAME] + [("same_job", (ci, x, y, m)) for x, y, m in ONLY]
    for n in NAMES:
        jobs += [("name_job", (n, fl, o)) for fl in (["--r1cs", "--sym"], ["--c"], ["--wasm", "--json"], ["--c", "--r1cs", "--sym", "--json", "--wasm", "--wat", "--simplification_substitution"]) for o in ("out", "abs", ".", "out/")]
    jobs += [("bad_option_job", (CIRCUITS["tiny"], a, "m.circom")) for a in INVALID] + [("bad_option_job", (CIRCUITS["tiny"], [], n)) for n in ("absent.circom", "out", "out/m.circom")]
    for src in WRONG.values():
        jobs += [("reject_job", (src, fl, "m.circom")) for fl in ([], ["--r1cs"], ["--c"], ["--wasm"], ALL, ALL + ["--O0"], ALL + ["--O2", "--inspect"])]
    full = sorted(expected(ALL))
    for ci in ("plain", "custom"):
        jobs += [("stale_job", (ci, "longer", t)) for t in full] + [("stale_job", (ci, "directory", t)) for t in ("m.r1cs", "m.sym", "m_constraints.json", "m_substitutions.json")]
        jobs += [("stale_job", (ci, "file", t)) for t in ("m_js", "m_cpp")] + [("stale_job", (ci, "previous", t)) for t in CIRCUITS]
    jobs += [("init_job", (x, y, 0)) for x in INIT_D for y in INIT_B]
    sets = [(ci, ALL + lv) for ci in CIRCUITS for lv in (levels if ck.thorough else [["--O2"]])] + [("plain", ["--r1cs"]), ("plain", ["--wasm"]), ("plain", ["--c", "--no_asm"]), ("custom", ["--r1cs", "--sym"])]
    for ci, args in sets:
        for mode in ("n", "e", "p", "ns", "ps"):
            if mode != "e" or ck.thorough:
                jobs += [("fault_job", (ci, args, mode, (k, k + 40))) for k in range(0, 320, 40)]
    for f, r in pmap(call, jobs):
        bad = r[1] if isinstance(r, tuple) else r
        n = r[0] if isinstance(r, tuple) else 1
        ck.add(**{f[:-4] + "_cases": n, "states": n, "transitions": n, "traces_validated_against_impl": n})
        for k, dt in bad:
            ck.violation(k, dt)
    ck.cov["rule"] = "a state is (program, options, contents of the output directory, operation on it that fails); each one is a run of the real compiler compared with the model of its outputs"
    ck.sample({"circuit": CIRCUITS["plain"], "options": OUTPUTS})
    ck.finish()
