"""C14: witness generation fails exactly when an assert, a === or (level 2) the inputs of a subcomponent fail."""
import itertools, json, os, shutil
from mc import build, circom, cxxrun, ref, wasmrun
from mc.par import pmap
from mc.report import Check

BIN = None
CONDS = ["X == Y", "X != Y", "X < Y", "X*Y == 4", "X", "!X", "X && Y", "X || Y", "X - Y", "X >= 3", "~X != Y", "(X & 1) == Y", "X > 1 ? X - Y : Y", "(X == 2 ? (Y == 2 ? 0 : 1) : 1)"]
EQS = ["X === Y;", "X*Y === 4;", "X*X - Y === 0;", "(X-1)*(X-2) === 0;", "0 === X + Y - 3;", "X*3 === X + Y + Y;"]
# how an assertion (a statement with X and Y) is reached; {S} is the statement with the names of the site
ANY = {  # asserts and constraints
    "top": ("", "{S}", "x", "y"),
    "after": ("", "signal q; q <== x*y; {S} o2 <== q;", "x", "y"),
    "inter": ("", "signal q; q <== x*y; {S} o2 <== q;", "q", "y"),
    "swap": ("", "{S}", "y", "x"),
    "var": ("", "var t = x + 1; {S}", "t", "y"),
    "loop": ("", "for (var i = 0; i < 3; i++) {{ {S} }}", "(x+i)", "y"),
    "loop2": ("", "for (var i = 0; i < 3; i++) {{ if (i == 2) {{ {S} }} }}", "x", "(y+i)"),
    "arr": ("", "signal v[2][2]; v[0][0] <== x; v[0][1] <== 1; v[1][0] <== 2; v[1][1] <== y; {S}", "v[0][0]", "v[1][1]"),
    "arrloop": ("", "signal v[3]; v[0] <== x; v[1] <== y; v[2] <== 2; for (var i = 0; i < 2; i++) {{ {S} }}", "v[i]", "v[i+1]"),
    "known_if": ("", "if (K == 3) {{ {S} }} else {{ var z = x; }}", "x", "y"),
    "known_else": ("", "if (K != 3) {{ var z = x; }} else {{ {S} }}", "x", "y"),
    "not_taken": ("", "if (K == 4) {{ {S} }}", "x", "y"),
    "sub": ("template A() {{ signal input x; signal input y; signal output o; {S} o <== x; }}", "component c = A(); c.x <== x; c.y <== y; o2 <== c.o;", "x", "y"),
    "sub_order": ("template A() {{ signal input x; signal input y; signal output o; {S} o <== x; }}", "component c = A(); c.y <== y; c.x <== x + 1; o2 <== c.o;", "x", "y"),
    "sub_array": ("template A(k) {{ signal input x; signal input y; signal output o; {S} o <== x; }}", "component c[2]; for (var i = 0; i < 2; i++) {{ c[i] = A(i); c[i].x <== x + i; c[i].y <== y; }} o2 <== c[1].o;", "(x+k)", "y"),
    "sub_mixed": ("template A(k) {{ signal input x[k]; signal input y; signal output o; {S} o <== y; }}", "component c[2]; for (var i = 0; i < 2; i++) {{ c[i] = A(i+1); for (var j = 0; j <= i; j++) {{ c[i].x[j] <== x + j; }} c[i].y <== y; }} o2 <== c[1].o;", "x[k-1]", "y"),
    "anon": ("template A() {{ signal input x; signal input y; signal output o; {S} o <== x; }}", "o2 <== A()(x, y);", "x", "y"),
    "deep": ("template A() {{ signal input x; signal input y; {S} }} template B() {{ signal input x; signal input y; component a = A(); a.x <== x; a.y <== y; }}", "component b = B(); b.x <== x; b.y <== y;", "x", "y"),
    "out": ("template A() {{ signal input x; signal input y; signal output o; o <== x*y; }}", "component c = A(); c.x <== x; c.y <== y; {S} o2 <== c.o;", "c.o", "y"),
    "in": ("template A() {{ signal input x; signal input y; signal output o; o <== x*y; }}", "component c = A(); c.x <== x + 1; c.y <== y; {S} o2 <== c.o;", "c.x", "c.y"),
    "bus": ("bus P {{ signal u; signal w[2]; }}", "P p; p.u <== x; p.w[0] <== 0; p.w[1] <== y; {S}", "p.u", "p.w[1]"),
    "paral": ("template parallel A() {{ signal input x; signal input y; signal output o; {S} o <== x; }}", "component c = A(); c.x <== x; c.y <== y; o2 <== c.o;", "x", "y"),
    "two": ("", "{S} assert(y != 3);", "x", "y"),
    "out_main": ("", "o2 <== x*y; {S}", "o2", "y"),
}
ONLY_ASSERT = {
    "run_if": ("", "if (x > 1) {{ {S} }}", "x", "y"),
    "run_else": ("", "if (x > 1) {{ o3 = 1; }} else {{ {S} }}", "x", "y"),
    "run_loop": ("", "var j = 0; while (j < x) {{ {S} j += 1; }}", "j", "y"),
    "fun": ("function f(x, y) {{ {S} return x; }}", "o2 <-- f(x, y);", "x", "y"),
    "fun_early": ("function f(x, y) {{ if (x == 2) {{ return 5; }} {S} return x; }}", "o2 <-- f(x, y);", "x", "y"),
    "fun_nested": ("function g(x, y) {{ {S} return x; }} function f(x, y) {{ var r = g(x, y) + 1; return r; }}", "o2 <-- f(x, y) + 1;", "x", "y"),
    "fun_arr": ("function f(v) {{ {S} return v; }}", "var v[2] = f([x, y]); o2 <-- v[0];", "v[0]", "v[1]"),
    "fun_sub": ("function f(x, y) {{ {S} return x; }} template A() {{ signal input x; signal output o; o <-- x; }}", "component c = A(); c.x <-- f(x, y); o2 <== c.o;", "x", "y"),
    "tern": ("function f(x, y) {{ {S} return x; }}", "o2 <-- x > 1 ? f(x, y) : 0;", "x", "y"),
    "fun_const": ("function f(x, y) {{ {S} return 7; }}", "o2 <-- f(x, y);", "x", "y"),
    "fun_const2": ("function g(x, y) {{ {S} return 7; }} function f(x, y) {{ var r = g(x, y); return 5; }}", "o2 <-- f(x, y);", "x", "y"),
    "fun_const3": ("function g(x, y) {{ {S} return 7; }}", "o2 <-- g(x, y) + 1;", "x", "y"),
    "fun_const4": ("function g(x, y) {{ {S} return 7; }} function f(x, y) {{ if (g(x, y) == 7) {{ return 1; }} return 2; }}", "var q = f(x, y); o2 <-- q;", "x", "y"),
    "fun_const5": ("function g(x, y) {{ var j = 0; while (j < x && j < 4) {{ if (j == 1) {{ {S} }} j += 1; }} return 7; }}", "o2 <-- g(x, y);", "(x-j)", "y"),
    "fun_const6": ("function g(x, y) {{ var j = 0; while (j < x && j < 4) {{ {S} j += 1; }} return 7; }}", "var q[2]; q[0] = g(x, y); o2 <-- q[1];", "j", "2"),
    "unused": ("function g(x, y) {{ {S} return 7; }}", "var q = g(x, y);", "x", "y"),
    "known_in_run": ("function g(x, y) {{ {S} return x; }}", "if (x > 1) {{ o3 = g(2, 3); }}", "x", "y"),
    "dyn": ("", "var v[4]; v[1] = y; v[x & 3] = 1; {S}", "v[x & 3]", "v[1]"),
}
HET = """component c[2]; component e[2]; signal u[2]; signal w[3]; u[0] <== 2; u[1] <== x; w[0] <== 2; w[1] <== 1; w[2] <== x;
for (var i = 0; i < 2; i++) { c[i] = H(i + 2); e[i] = H(i + 2); for (var j = 0; j < i + 2; j++) { c[i].s[j] <== y + (j == 0 ? 2 - y : 0) + (j == 1 && i == 1 ? 1 - y : 0); e[i].s[j] <== x + (j == 0 ? 2 - x : 0) + (j == 1 && i == 1 ? 1 - x : 0); } } """
ARR_EQ = {
    "a2": "signal v[2]; signal w[2]; v[0] <== x; v[1] <== 1; w[0] <== y; w[1] <== 1; v === w;",
    "a2b": "signal v[2]; signal w[2]; v[1] <== x; v[0] <== 1; w[1] <== y; w[0] <== 1; v === w;",
    "a22": "signal v[2][2]; signal w[2][2]; for (var i = 0; i < 4; i++) { v[i\\2][i%2] <== x + i; w[i\\2][i%2] <== y*1 + i; } v === w;",
    "a22row": "signal v[2][2]; signal w[2]; for (var i = 0; i < 4; i++) { v[i\\2][i%2] <== x + i; } for (var i = 0; i < 2; i++) { w[i] <== y + i; } v[1] === w;",
    "lit": "signal v[2]; v[0] <== x; v[1] <== y; v === [y, x];",
    "lit3": "signal v[3]; v[0] <== 2; v[1] <== y; v[2] <== x; v === [2, y, 3];",
    "bus": "P p; P q; p.u <== x; p.w[0] <== 1; p.w[1] <== 2; q.u <== y; q.w[0] <== 1; q.w[1] <== 2; p === q;",
    "bus2": "P p; P q; p.u <== 1; p.w[0] <== 1; p.w[1] <== x; q.u <== 1; q.w[0] <== 1; q.w[1] <== y; p === q;",
    "busarr": "P p[2]; P q[2]; for (var i = 0; i < 2; i++) { p[i].u <== 1; p[i].w[0] <== x*i; p[i].w[1] <== 3; q[i].u <== 1; q[i].w[0] <== y*i; q[i].w[1] <== 3; } p === q;",
    "subin": "component c = V(); c.v[0] <== x; c.v[1] <== y; c.v === c.r;",
    "subout": "component c = V(); c.v[0] <== x; c.v[1] <== y; signal v[2]; v[0] <== 2; v[1] <== x; v === c.r;",
    # arrays whose size depends on the component
    "hetero": HET + "for (var i = 0; i < 2; i++) { if (i == 0) { u === c[i].r; } else { w === c[i].r; } }",
    "hetero_rev": HET + "for (var i = 0; i < 2; i++) { if (i == 0) { c[i].r === u; } else { c[i].r === w; } }",
    "hetero_both": HET + "for (var i = 0; i < 2; i++) { c[i].r === e[i].r; }",
    "call": "x === sq(y);",
    "call left": "sq(x) === y;",
    "calls": "sq(x) === idf(y);",
    "call nested": "x === 1 + idf(idf(y) - 1);",
    "call array": "signal v[2]; v[0] <== x; v[1] <== 1; v === pr(y, 1);",
    "call array left": "signal v[2]; v[1] <== x; v[0] <== 1; pr(1, y) === v;",
    "calls arrays": "pr(x, 1) === pr(y, 1);",
    "call literal": "[x, 1] === pr(y, 1);",
    "call literal left": "pr(sq(y), x) === [x, sq(x)];",
    "call row": "signal m[2][2]; for (var i = 0; i < 4; i++) { m[i \\ 2][i % 2] <== i * x; } m[1] === pr(x + y, 3 * y);",
    "call matrix": "signal m[2][3]; for (var i = 0; i < 6; i++) { m[i \\ 3][i % 3] <== i == 4 ? x : i; } m === mat(y);",
    "call subcomponent": "component c = V(); c.v[0] <== x; c.v[1] <== y; c.v === pr(y, x);",
    "call subcomponent input": "component c = V(); c.v <== pr(x, y); pr(sq(y), x) === c.r; pr(y, y) === c.v;",
    "call in loop": "signal v[2]; for (var i = 0; i < 2; i++) { v[i] <== x + i; v[i] === idf(y + i); }",
    "call in if": "if (K == 3) x === sq(y); else y === sq(x);",
    "call in loop alone": "for (var i = 0; i < 2; i++) pr(i, x) === pr(i, y);",
    "call index": "signal v[2]; v[0] <== 0; v[1] <== x; v[idf(K - 2)] === idf(y);",
    "call hetero": HET + "for (var i = 0; i < 2; i++) { c[i].r[0] === idf(e[i].r[0]); }",
    "ternary": "x === (K == 3 ? y : 5);",
    "ternary left": "(K != 3 ? 7 : x) === y;",
    "ternaries": "(K != 3 ? 7 : x) === (K == 4 ? 7 : (K == 3 ? y : 8));",
    "ternary array": "signal v[2]; v[0] <== x; v[1] <== 1; signal w[2]; w[0] <== y; w[1] <== 1; v === (K == 3 ? w : v);",
    "ternary literal": "signal v[2]; v[0] <== x; v[1] <== 1; [y, 1] === (K == 3 ? v : [0, 0]);",
    "ternary literals": "(K == 3 ? [x, y] : [0, 0]) === (K == 3 ? [y, x] : [1, 1]);",
    "ternary calls": "x === (K == 3 ? sq(y) : sq(y + 1));",
    "ternary call arrays": "signal v[2]; v <== [x, 1]; (K == 3 ? pr(y, 1) : pr(x, 2)) === v;",
    "ternary bus": "P p; P q; p.u <== x; p.w[0] <== 1; p.w[1] <== 2; q.u <== y; q.w[0] <== 1; q.w[1] <== 2; p === (K == 3 ? q : p);",
    "ternary buses": "P p[2]; P q[2]; for (var i = 0; i < 2; i++) { p[i].u <== 1; p[i].w[0] <== x*i; p[i].w[1] <== 3; q[i].u <== 1; q[i].w[0] <== y*i; q[i].w[1] <== 3; } (K == 3 ? p : q) === q; (K == 3 ? p[1] : q[0]) === q[1];",
    "ternary subcomponent": "component c = V(); c.v[0] <== x; c.v[1] <== y; signal v[2]; v[0] <== 2; v[1] <== x; (K == 3 ? c.r : v) === v;",
    "ternary in loop": "for (var i = 0; i < 3; i++) { x === (i == K - 1 ? y : x); }",
    "hetero_inputs": HET + "for (var i = 0; i < 2; i++) { c[i].r === e[i].s; e[i].r === c[i].s; }",
}
MISSING = {  # level 2: the inputs of a subcomponent that depend on the run
    "cond": "component c = S(); c.a <== x; if (x > 1) { c.b <-- y; }",
    "cond_else": "component c = S(); c.a <== x; if (x > 1) { c.b <-- y; } else { c.b <-- 1; }",
    "loop": "component c[2]; c[0] = S(); c[1] = S(); for (var i = 0; i < 2; i++) { c[i].a <== x; if (x != i) { c[i].b <-- y; } }",
    "nested": "component c = D(); c.a <== x; c.b <== y;",
    "last": "component c = S(); if (x == y) { c.b <-- 1; } c.a <== x;",
    "second": "component d = S(); d.a <== x; d.b <== y; component c = S(); c.b <== x; if (y == 2) { c.a <-- 1; }",
    "all": "component d = S(); if (x == 2) { d.a <-- x; d.b <-- y; }",
}
MLIB = "template S() { signal input a; signal input b; signal output r; r <== a + b; } template D() { signal input a; signal input b; component c = S(); c.a <== a; if (b == 2) { c.b <-- b; } }"
KNOWN = ["0", "1", "K == 3", "K != 3", "K > 4", "K*2 - 6", "K && (K < 4)"]


def src(pre, body, K=3):
    return ("pragma circom 2.1.5;\n" + pre + "\ntemplate M(K) { signal input x; signal input y; signal output o1; signal output o2; var o3 = 0;\n" + body + "\n"
            + ("" if "o2 <" in body else "o2 <== x;") + " o1 <== x + y; }\ncomponent main = M(%d);\n" % K).replace("pragma circom 2.1.5", "pragma circom 2.2.0")


def circuits():
    out = []
    for site, (pre, body, X, Y) in {**ANY, **ONLY_ASSERT}.items():
        sts = [("assert(%s);" % c, "assert") for c in CONDS]
        if site in ANY:
            sts += [(e, "eq") for e in EQS]
        for st, kind in sts:
            if kind == "eq" and site == "arrloop" and "X*X" in st:
                pass
            s = st.replace("X", "@1").replace("Y", "@2").replace("@1", X).replace("@2", Y)
            out.append(("%s %s" % (site, st), src(pre.format(S=s) if pre else "", body.format(S=s))))
    for k, b in ARR_EQ.items():
        out.append(("array " + k, src("function sq(p) { return p*p; } function idf(p) { return p; } function pr(p, q) { return [p, q]; } function mat(p) { var m[2][3]; for (var i = 0; i < 6; i++) { m[i \\ 3][i % 3] = i; } m[1][1] = p; return m; } bus P { signal u; signal w[2]; } template V() { signal input v[2]; signal output r[2]; r[0] <== v[1]*v[1]; r[1] <== v[0]; } template H(n) { signal input s[n]; signal output r[n]; r <== s; }", b)))
    for k, b in MISSING.items():
        out.append(("inputs " + k, src(MLIB, b)))
    return out


def values(p):
    return [0, 1, 2, 3, p - 1]


def job(a):
    name, text, levels, backend, prime = a
    p = circom.prime_of(prime)
    prog = ref.parse(text)
    pts = [{"x": x, "y": y} for x in values(p) for y in values(p)]
    bad, n, outcomes = [], 0, set()
    d = circom.scratch()
    try:
        for lv in levels:
            exp = []
            for i in pts:
                try:
                    exp.append(ref.witness(prog, p, i, sanity=lv).values)
                except ref.Fail:
                    exp.append(None)
            dd = d + "/l%d" % lv
            os.makedirs(dd)
            args = ["--O0", "--sym", "--prime", prime, "--wasm" if backend == "wasm" else "--c"]
            if lv != 2:
                args += ["--sanity_check", str(lv)]
            r = circom.run(BIN, text, args, dd)
            if not r.ok:
                bad.append(("%s level %d: rejected" % (name, lv), {"source": text, "stderr": r.err[-500:]}))
                continue
            sym = circom.read_sym(dd + "/m.sym")
            ins = [{k: str(v) for k, v in i.items()} for i in pts]
            if backend == "wasm":
                got = wasmrun.witnesses(dd, "m", ins)
            else:
                got = []
                exe = cxxrun.build(dd, "m", flags=["-std=c++11", "-O0", "-I."])
                for i in ins:
                    json.dump(i, open(dd + "/in.json", "w"))
                    if os.path.exists(dd + "/w"):
                        os.unlink(dd + "/w")
                    rc, so, se = cxxrun.run(exe, dd + "/in.json", dd + "/w")
                    if rc == 0:
                        got.append({"w": circom.read_wtns(dd + "/w")[1]})
                    else:
                        got.append({"err": "Assert Failed" if "ssert" in se else se[-300:], "wrote": os.path.exists(dd + "/w")})
            for i, e, g in zip(pts, exp, got):
                n += 1
                outcomes.add(e is not None)
                tag = "%s %s level %d" % (backend, name, lv)
                det = {"source": text, "input": i, "level": lv}
                if e is None:
                    if "err" not in g:
                        bad.append((tag + ": not detected", det))
                    elif "Assert Failed" not in g["err"] or g.get("wrote"):
                        bad.append((tag + ": failure", {**det, "error": g["err"]}))
                elif "err" in g:
                    bad.append((tag + ": fails", {**det, "error": g["err"]}))
                else:
                    for _, w, _, nm in sym:
                        if w >= 0 and nm in e and g["w"][w] != e[nm]:
                            bad.append((tag + ": value of " + nm, {**det, "expected": e[nm], "observed": g["w"][w]}))
                            break
        return n, bad, len(outcomes)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_job(a):
    cond, where = a
    K = 3
    pre, body = {
        "top": ("", "assert(%s);"), "loop": ("", "for (var i = 0; i < 2; i++) { assert(%s || i == 0); }"),
        "sub": ("template A(K) { signal input x; assert(%s); }", "component c = A(K); c.x <== x;"),
        "fun": ("function f(K) { assert(%s); return K; }", "var z = f(K);"),
        "fun2": ("function f(K) { assert(%s); return K; }", "signal v[f(K)]; for (var i = 0; i < K; i++) { v[i] <== x; }"),
        "if": ("", "if (K == 3) { assert(%s); }"), "else": ("", "if (K == 4) { o3 = 1; } else { assert(%s); }"), "not": ("", "if (K == 4) { assert(%s); }"),
        "run_if": ("", "if (x > 1) { assert(%s); }"),
    }[where]
    text = src(pre % cond if "%s" in pre else pre, body % cond if "%s" in body else body)
    p = circom.PRIMES["bn128"]
    m = ref.Machine(ref.parse("function g(K) { return %s; }" % cond), p, "witness")
    ok = m.truth(m.call("g", [K])) or where == "not"
    d = circom.scratch()
    try:
        r = circom.run(BIN, text, ["--wasm", "--r1cs", "--O0"], d)
        key = "known assert %s %s" % (where, cond)
        if where == "run_if":
            if not r.ok:
                return [(key + ": rejected", {"source": text, "stderr": r.err[-400:]})]
            res = wasmrun.witnesses(d, "m", [{"x": "1", "y": "0"}, {"x": "2", "y": "0"}])
            if "err" in res[0] or ("err" in res[1]) == bool(ok):
                return [(key + ": run", {"source": text, "results": [x.get("err") for x in res]})]
            return []
        if ok and not r.ok:
            return [(key + ": rejected", {"source": text, "stderr": r.err[-400:]})]
        if not ok and (r.rc != 1 or "T3001" not in r.err or os.path.exists(d + "/m.r1cs")):
            return [(key + ": not rejected", {"source": text, "rc": r.rc, "stderr": r.err[-400:]})]
        return []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(pid, backend):
    global BIN
    ck = Check(pid)
    BIN = build.circom()
    cs = circuits()
    if backend == "cxx" and not ck.thorough:
        keep = {}
        for i, (n, t) in enumerate(cs):
            site = n.split(" ")[0]
            k = (site, "===" in n) if site not in ("array", "inputs") else n
            keep.setdefault(k, []).append((n, t))
        # one assert and one constraint per site, a different condition each
        cs = [v[j % len(v)] for j, v in enumerate(keep.values())]
    jobs = []
    for n, t in cs:
        lv = [0, 1, 2]
        if backend == "cxx" and not ck.thorough:
            lv = [0, 2] if "===" in n or n.split(" ")[0] in ("array", "inputs") else [2]
        if n.startswith("inputs"):
            lv = [x for x in lv if x == 2]
        jobs.append((n, t, lv, backend, "bn128"))
        if backend == "wasm" and (ck.thorough or n.split(" ")[0] in ("top", "fun", "array", "sub")):
            jobs.append((n, t, [2], backend, "goldilocks"))
    both = 0
    for n, bad, o in pmap(job, jobs):
        ck.add(traces_validated_against_impl=n)
        both += o == 2
        for k, d in bad:
            ck.violation(k, d)
    kj = [(c, w) for c in KNOWN for w in ("top", "loop", "sub", "fun", "fun2", "if", "else", "not", "run_if")] if backend == "wasm" else []
    for bad in pmap(known_job, kj):
        ck.add(compile_time_asserts=1)
        for k, d in bad:
            ck.violation(k, d)
    ck.cov["states"] = len(cs) * 25
    ck.cov["transitions"] = sum(25 * len(j[2]) for j in jobs) + len(kj)
    ck.cov["circuits"] = len(cs)
    ck.cov["circuits_with_both_outcomes"] = both
    ck.cov["exhaustive"] = True
    ck.cov["rule"] = "a state is (circuit, input); transitions counts (circuit, level, prime, input) and the compile-time asserts; a trace is one run of the emitted generator whose outcome and values are compared with the reference"
    ck.sample({"circuit": cs[0][1]})
    ck.sample({"circuit": cs[-1][1]})
    ck.finish()


def main():
    run("C14", "wasm")
