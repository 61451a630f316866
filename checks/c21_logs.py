"""C21: the lines that log prints are those of the statements executed, in their order."""
import re
import importlib, itertools, json, os, shutil
from mc import build, circom, circuits as circuits_of, cxxrun, ref, wasmrun
from mc.par import pmap
from mc.report import Check
c14 = importlib.import_module("checks.c14_asserts")

BIN = None
STS = ['log("t", X, Y);', 'log(X == Y, "and", X*Y - 1); log(X); log(X == 2 ? Y : X, X > Y ? 1 : 2);', 'if (X == Y) { log("eq"); } else { log("ne", X); } log(Y);', 'for (var z = 0; z < 2; z++) { log(z, X + z); }']
EXTRA = {
    "order_sub": ("template A() { signal input x; signal output o; log(\"A\", x); o <== x + 1; log(\"end\", o); }",
                  "log(1); component c = A(); log(2); c.x <== x; log(3, c.o); o2 <== c.o; log(4);"),
    "order_arr": ("template A(k) { signal input x; signal output o; log(\"A\", k, x); o <== x + k; }",
                  "component c[3]; for (var i = 0; i < 3; i++) { c[i] = A(i); } for (var i = 2; i >= 0; i--) { log(\"set\", i); c[i].x <== x + i; } o2 <== c[1].o;"),
    "order_noin": ("template A(k) { signal output o; log(\"A\", k); o <== k; }",
                   "component c = A(1); component d = A(2); log(c.o, d.o); o2 <== c.o;"),
    "order_fun": ("function f(a) { log(\"f\", a); return a + 1; } function g(a) { log(\"g\", a); var r = f(a) * f(a + 1); log(\"r\", r); return r; }",
                  "var q = f(x); log(\"q\", q); q = g(q) + f(y); log(\"q\", q); o2 <-- q;"),
    "order_cond": ("function f(a) { log(\"f\", a); return a > 1; }",
                   "if (f(x) == 1) { log(\"yes\"); } else { log(\"no\"); } var n = 0; while (f(n) == 0) { log(\"it\", n); n += 1; } o2 <-- n;"),
    "order_const": ("function f(a) { log(\"f\", a); return 3; } function h(a) { var z = f(a); return 4; }",
                    "var q = f(x); log(\"q\", q); q = q + h(y) + f(2); log(\"q\", q); o2 <-- q;"),
    "fun_const": ("function g(n) { log(\"g\", n); return n; } function f(a) { var n = g(3); var m = n + n; var v[n]; var w[n + 1]; v[0] = n; v[1] = m; v[2] = a; log(n, m); if (a > n) { var n = g(2); v[0] = n; } for (var i = 0; i < n; i++) { v[i] += n; } return v[0] + v[1] * v[2]; }",
                  "var q = f(x) + f(y); log(q); o2 <-- q;"),
    "known": ("function f(a) { log(\"f\", a); return a + 1; }", "var q = f(5); log(q, K, K + 1); signal z[f(1)]; z[0] <== x; z[1] <== y; log(z[0], z[1]); o2 <== q;"),
    "nested": ("template B() { signal input x; signal output o; log(\"B\", x); o <== x*2; } template A() { signal input x; signal output o; log(\"A\"); component b = B(); b.x <== x + 1; log(\"b\", b.o); o <== b.o; }",
               "component c = A(); c.x <== x; component d = A(); d.x <== c.o; o2 <== d.o; log(\"main\", o2);"),
    "anon": ("template A() { signal input x; signal input y; signal output o; log(\"A\", x, y); o <== x*y; }", "o2 <== A()(A()(x, y), A()(y, y)); log(o2);"),
    "many": ("", "log(); log(x); log(\"a\"); log(\"a\", \"b\"); log(x, y, x, y); log(\"a\", x, \"b\", y, \"c\"); log(x, \"z\");"),
    "tern": ("", "log(x > 1 ? x : y); log(x == y ? 1 : 2, \"s\", (x > y ? x - y : (y == 2 ? 5 : y))); log(\"t\", x == 2 ? 0 : x);"),
    "vals": ("", "log(-1); log(x - 1, 1/2, 2**200); log(x > y, !x, ~x & 255, x \\ 2, -x);"),
    "after_fail": ("", "log(\"before\", x); assert(x != 2); log(\"after\", y);"),
    "bus": ("bus P { signal u; signal w[2]; }", "P p; p.u <== x; p.w[0] <== y; p.w[1] <== 2; log(p.u, p.w[0], p.w[1]);"),
    "arr": ("", "signal v[2][2]; for (var i = 0; i < 4; i++) { v[i\\2][i%2] <== x + i; log(v[i\\2][i%2]); } var t[2] = [x, y]; log(t[x & 1]);"),
}


def circuits():
    out = []
    for site, (pre, body, X, Y) in {**c14.ANY, **c14.ONLY_ASSERT}.items():
        for st in STS:
            s = st.replace("X", "@1").replace("Y", "@2").replace("@1", X).replace("@2", Y)
            out.append(("%s %s" % (site, st), c14.src(pre.format(S=s) if pre else "", body.format(S=s))))
    for k, (pre, body) in EXTRA.items():
        out.append((k, c14.src(pre, body)))
    return out


def arrays(deep):
    """components of arrays, which log when they are run (those without inputs are run in the order of the array: it is not claimed that it is that of their creation)"""
    out = []
    bodies = [b for b in circuits_of.hetero(1, logs=True, fills=[f for f in circuits_of.FILL if f != "none_back"]) if "HL(" in b or "GL(" in b]
    for i in range(0, len(bodies), 8 if not deep else 1):
        ts = ["template T%d() { signal input a; signal input b; signal input v[2]; %s }\n" % (k, b) for k, b in enumerate(bodies[i:i + (8 if not deep else 1)])]
        main = "".join("component c%d = T%d(); c%d.a <== x; c%d.b <== y; c%d.v <== [x + 1, y]; log(%d);\n" % (k, k, k, k, k, k) for k in range(len(ts)))
        out.append(("arrays %d" % i, c14.src(circuits_of.LIB + circuits_of.HETERO_LIB + "".join(ts), main)))
    return out


def zeros(deep):
    """components some of whose inputs are arrays of length zero, which log when they are run"""
    lib = re.sub(r"(template (Z\w+)\(([^)]*)\) \{)", r'\1 log("\2", \3);', circuits_of.ZLIB)
    bodies = [b for b in circuits_of.zero() if ("component" in b or "Z" in b) and "ZV(" not in b]
    k = 12 if not deep else 4
    out = []
    for i in range(0, len(bodies), k):
        ts = ["template T%d() { signal input a; signal input b; signal input v[2]; %s }\n" % (j, b) for j, b in enumerate(bodies[i:i + k])]
        main = "".join("component c%d = T%d(); c%d.a <== x; c%d.b <== y; c%d.v <== [x + 1, y]; log(%d);\n" % (j, j, j, j, j, j) for j in range(len(ts)))
        out.append(("empty inputs %d" % i, c14.src(circuits_of.LIB + lib + "".join(ts), main)))
    return out


def job(a):
    name, text, backends, prime = a
    p = circom.prime_of(prime)
    prog = ref.parse(text)
    vals = [0, 1, 2, 3, p - 1]
    pts = [{"x": x, "y": y} for x in vals for y in vals]
    bad, n, lines = [], 0, 0
    exp = []
    for i in pts:
        m = []
        try:
            w = ref.witness(prog, p, i, logs=m)
            exp.append((True, list(m)))
        except ref.Fail:
            exp.append((False, list(m)))
    d = circom.scratch()
    try:
        r = circom.run(BIN, text, ["--O0", "--prime", prime] + ["--" + {"wasm": "wasm", "cxx": "c"}[b] for b in backends], d)
        if not r.ok:
            return 0, 0, [("%s: rejected" % name, {"source": text, "stderr": r.err[-500:]})]
        ins = [{k: str(v) for k, v in i.items()} for i in pts]
        for b in backends:
            if b == "wasm":
                got = [("err" not in g, g["log"]) for g in wasmrun.witnesses(d, "m", ins)]
            else:
                exe = cxxrun.build(d, "m", flags=["-std=c++11", "-O0", "-I."])
                got = []
                for i in ins:
                    json.dump(i, open(d + "/in.json", "w"))
                    rc, so, se = cxxrun.run(exe, d + "/in.json", d + "/w")
                    # (what a program that aborts had in its buffer is not specified)
                    got.append((rc == 0, so.split("\n")[:-1] if rc == 0 else None))
            for i, e, g in zip(pts, exp, got):
                n += 1
                lines += len(e[1])
                if e[0] != g[0] or (g[1] is not None and [x.rstrip() for x in e[1]] != [x.rstrip() for x in g[1]]):
                    bad.append(("%s %s %s" % (b, prime, name), {"source": text, "input": i, "expected": e, "observed": g}))
                    break
        return n, lines, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


CHARS = ["a", "\\", "n", "'", "?", "%", "\t", "\u00e9", "/", "*", "$", "4"]


def text_of(t):
    """what a string prints: the escape sequences that C++ and WebAssembly share are kept, any other backslash is itself"""
    return re.sub(r"\\([ntr'\\])", lambda m: {"n": "\n", "t": "\t", "r": "\r"}.get(m.group(1), m.group(1)), t)


def strings(a):
    """every string of a few characters, and lengths around the size of the pieces (which are separated by spaces)"""
    part, parts, deep = a
    ts = ["".join(q) for k in range(1, 4 if not deep else 5) for q in itertools.product(CHARS, repeat=k)]
    ts += [c * n + e for c in ("x", "\u00e9", "\u20ac") for n in (*range(70, 80), *range(110, 120), *range(225, 236), *range(455, 465), 700, 1000) for e in ("", "y", "\u20ac", "z\u00e9")]
    ts = ts[part::parts]
    text = "pragma circom 2.2.0;\ntemplate M() { signal input x; signal output o; o <== x;\n%s\n}\ncomponent main = M();\n" % "\n".join('log("%s", x); log("#");' % t for t in ts)
    bad = []
    d = circom.scratch()
    try:
        r = circom.run(BIN, text, ["--O0", "--wasm", "--c"], d)
        if not r.ok:
            return 0, 0, [("strings: rejected", {"source": text, "stderr": r.err[-500:]})]
        exe = cxxrun.build(d, "m", flags=["-std=c++11", "-O0", "-I."])
        json.dump({"x": "5"}, open(d + "/in.json", "w"))
        got = {"wasm": "\n".join(wasmrun.witnesses(d, "m", [{"x": "5"}])[0]["log"]) + "\n", "cxx": cxxrun.run(exe, d + "/in.json", d + "/w")[1]}
        for b, g in got.items():
            g = g.split("#\n")
            for t, h in zip(ts, g):
                e = text_of(t) + " 5\n"
                if len(t.encode()) > 230 or t == "\\n":  # (the string "\\n" ends a line of the JavaScript buffer)
                    e, h = e.replace(" ", ""), h.replace(" ", "")
                if e != h:
                    bad.append(("%s string %s" % (b, ascii(t)[:40]), {"source": text, "expected": e, "observed": h}))
            if len(g) != len(ts) + 1:
                bad.append(("%s strings: %d lines" % (b, len(g)), {"source": text, "observed": g[-2:]}))
        return 2, 2 * len(ts), bad[:20]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def work(a):
    return strings(a[1]) if a[0] == "strings" else job(a[1])


def main():
    global BIN
    ck = Check("C21")
    BIN = build.circom()
    cs = circuits()
    jobs = []
    for i, (n, t) in enumerate(cs):
        cx = ck.thorough or n in EXTRA or i % 4 == (i // 4) % 4
        jobs.append((n, t, ["wasm", "cxx"] if cx else ["wasm"], "bn128"))
        if ck.thorough or n in EXTRA:
            jobs.append((n, t, ["wasm"] if not ck.thorough else ["wasm", "cxx"], "goldilocks"))
    ar = zeros(ck.thorough) + arrays(ck.thorough)
    jobs += [(n, t, ["wasm"] if i % 6 and n[0] == "a" and not ck.thorough else ["wasm", "cxx"], "bn128") for i, (n, t) in enumerate(ar)]
    cs += ar
    parts = 8 if not ck.thorough else 64
    jobs = [("strings", (i, parts, ck.thorough)) for i in range(parts)] + [("job", j) for j in jobs]
    for n, lines, bad in pmap(work, jobs):
        ck.add(traces_validated_against_impl=n, lines_compared=lines)
        for k, d in bad:
            ck.violation(k, d)
    ck.cov["states"] = len(cs) * 25
    ck.cov["transitions"] = ck.cov["lines_compared"]
    ck.cov["rule"] = "a state is (program, input); transitions counts the lines compared; a trace is one run of an emitted generator"
    ck.sample({"program": cs[-1][1]})
    ck.finish()
