"""C35: a failing run of an emitted generator names the statements and the component of the failing check."""
import itertools, json, os, re, shutil
from mc import build, circom, cxxrun, wasmrun
from mc.par import pmap
from mc.report import Check

BIN = None
# statements that run the next frame; M is before the statement that does it, X the next template or function
TT = {  # (statements, path of the component, declarations of the inputs of the next template)
    "input": ("component c = X();\nMc.a <== a;", "c"),
    "hint": ("component c;\nc = X();\nMc.a <-- a;", "c"),
    "reverse": ("component c = X();\nMa ==> c.a;", "c"),
    "lines": ("component c =\nX();\nMc.a\n<==\na\n;", "c"),
    "loop": ("component c[2];\nfor (var i = 0; i < 2; i++) {\nc[i] = X();\nMc[i].a <== a;\n}", "c[0]"),
    "two": ("component c[2];\nc[0] = X(); c[1] = X();\nMc[1].a <== a;\nc[0].a <== a;", "c[1]"),
    "matrix": ("component c[2][2];\nfor (var i = 0; i < 4; i++) {\nc[1 - i \\ 2][i % 2] = X();\n}\nMc[1][0].a <== a; c[0][1].a <== a;\nc[0][0].a <== a; c[1][1].a <== a;", "c[1][0]"),
    "long matrix": ("component c[3][2];\nfor (var i = 0; i < 6; i++) {\nc[i \\ 2][i % 2] = X();\n}\nMc[2][1].a <== a; c[0][1].a <== a;\nc[0][0].a <== a; c[1][1].a <== a; c[1][0].a <== a; c[2][0].a <== a;", "c[2][1]"),
    "wide matrix": ("component c[2][3];\nfor (var i = 0; i < 6; i++) {\nc[i % 2][i \\ 2] = X();\n}\nMc[1][1].a <== a;\nfor (var i = 0; i < 6; i++) {\nif (i != 3) {\nc[i % 2][i \\ 2].a <== a;\n}\n}", "c[1][1]"),
    "three dimensions": ("component c[2][3][4];\nfor (var i = 0; i < 24; i++) {\nc[i % 2][i \\ 8][(i \\ 2) % 4] = X();\n}\nfor (var i = 0; i < 24; i++) {\nMc[1 - i % 2][2 - i \\ 8][2 * i \\ 4 % 4].a <== a;\n}", "c[1][2][0]"),
    "holes": ("component c[2][4];\nc[1][3] = X(); c[0][1] = X(); c[1][0] = X();\nMc[1][0].a <== a;\nc[0][1].a <== a;\nc[1][3].a <== a;", "c[1][0]"),
    "mixed": ("component c[2][3];\nc[0][0] = X(1); c[1][2] = X(2); c[0][2] = X(3); c[1][0] = X(1); c[0][1] = X(2);\nMc[1][2].a <== a;\nfor (var i = 0; i < 3; i++) {\nc[0][i].a <== a;\n}\nc[1][0].a <== a;", "c[1][2]", "signal input a;", "n_"),
    "mixed loop": ("component c[2][2];\nfor (var i = 0; i < 4; i++) {\nc[i \\ 2][i % 2] = X(i);\n}\nfor (var i = 0; i < 2; i++) {\nfor (var j = 0; j < 2; j++) {\nMc[j][1 - i].a <== a;\n}\n}", "c[0][1]", "signal input a;", "n_"),
    "mixed parallel": ("component c[5];\nc[0] = parallel X(); c[4] = X();\nc[1] = X(); c[3] = parallel X();\nMc[3].a <== a;\nc[0].a <== 5555; c[1].a <== 5555; c[4].a <== 5555;", "c[3]"),
    "parallel array": ("component c[2][2];\nfor (var i = 0; i < 4; i++) {\nc[i \\ 2][i % 2] = parallel X();\n}\nMc[0][1].a <== a;\nc[0][0].a <== 5555; c[1][0].a <== 5555; c[1][1].a <== 5555;", "c[0][1]"),
    "one": ("component c[1];\nc[0] = X();\nMc[0].a <== a;", "c[0]"),
    "ones": ("component c[1][1];\nc[0][0] = parallel X();\nMc[0][0].a <== a;", "c[0][0]"),
    "anonymous array": ("signal y[3];\nfor (var i = 0; i < 3; i++) {\nMy[2 - i] <== X()(a);\n}", "X%[0]"),
    "if": ("component c = X();\nif (1 == 1) {\nMc.a <== a;\n}", "c"),
    "else": ("component c; if (1 == 2) {\nc = X();\n} else {\nc = X();\n}\nMc.a <== a;", "c"),
    "anonymous": ("Msignal y <== X()(a);", "X%"),
    "anonymous tuple": ("signal y;\nM(y, _) <== (X()(a), 1);", "X%"),
    "parallel": ("component c = parallel X();\nMc.a <== a;", "c"),
    "second input": ("component c = X();\nc.b <== 1;\nMc.a <== a;", "c", "signal input a; signal input b;"),
    "second input first": ("component c = X();\nc.a <== a;\nMc.b <== 1;", "c", "signal input a; signal input b;"),
    "array input": ("component c = X();\nMc.v <== [1, a];", "c", "signal input v[2]; signal a; a <== v[1];"),
    "array input loop": ("component c = X();\nfor (var i = 0; i < 2; i++) {\nMc.v[1 - i] <== a;\n}", "c", "signal input v[2]; signal a; a <== v[1];"),
    "bus": ("P pp; pp.u <== a; pp.w <== [a, 1];\ncomponent c = X();\nMc.p <== pp;", "c", "input P p; signal a; a <== p.u;"),
    "bus fields": ("component c = X();\nc.p.w <== [a, 1];\nMc.p.u <== a;", "c", "input P p; signal a; a <== p.u;"),
    "output": ("component c = X(); component d = ID();\nd.a <== a;\nMc.a <== d.y;", "c"),
}
SIG = {
    "hint": "signal y;\nMy <-- X(a);", "hint in array": "signal y[2];\ny[0] <-- 1;\nMy[1] <-- 2 * X(a) + 1;", "init": "Msignal y <-- X(a);", "input hint": "component d = ID();\nMd.a <-- X(a);", "unknown if hint": "signal y;\nif (a != 12345) {\nMy <-- X(a);\n}",
}
VAR = {
    "var": "Mvar y = X(a);", "assigned": "var y;\nMy = 1 + X(a);", "plus": "var y = 0;\nMy += X(a);", "lines": "var y;\ny\n=\nMX(\na)\n+ 1;", "if": "var y = 0;\nMif (X(a) == 0) {\ny = 1;\n}", "in if": "var y = 0;\nif (a == a) {\ny = 1;\nMy = X(a);\n}",
    "in else": "var y = 0;\nif (a != a) {\ny = 1;\n} else {\ny = 2;\nMy = X(a);\n}", "loop": "var y = 0;\nfor (var i = 0; i < 2; i++) {\ny += 1;\nMy = X(a + i * 1000000);\n}", "while": "var y = 0;\nMwhile (X(a) + y < 1) {\ny += 1;\n}",
    "array": "Mvar y[2] = [1, X(a)];", "index": "var y[2] = [0, 0];\nMy[X(a)] = 1;", "assert": "var y = 1;\nMassert(X(a) == 0);", "log": "var y = 1;\nMlog(X(a));", "ternary": "var y = 2;\nMy = X(a) == 3 ? y : 4;", "argument": "var y = 2;\nMy = idf(X(a));",
    "second argument": "var y = 2;\nMy = two(y, X(a));", "argument sum": "var y = 2;\nMy = idf(3 - X(a + 0)) * 2;", "block": "{\n{\nMvar y = X(a);\n}\n}", "operand": "var y = 2;\nMy = -X(a) && 1;",
}
RET = {"return": "Mreturn X(a);", "return operation": "Mreturn 0 * X(a);", "return in if": "if (a == a) {\nMreturn X(a);\n}", "return in loop": "for (var i = 0; i < 2; i++) {\nMreturn X(a);\n}"}
LEAF_T = {
    "assert": "Massert(a != K);", "constraint": "signal z;\nz <-- a == K;\nMz === 0;", "reversed": "signal z;\nz <-- a == K;\nM0 === z;", "lines": "signal z;\nz <-- a == K;\nMz\n*z\n===\n0\n;", "product": "signal z; z <-- a == K;\nM1 === (z - 1) * (z - 1);",
    "array": "signal z[2];\nz[0] <== 1; z[1] <-- a != K;\nMz === [1, 1];", "bus": "P z; z.u <== a; z.w[0] <== a; z.w[1] <-- a == K ? a + 1 : a;\nP z2; z2.u <== a; z2.w <== [a, a];\nMz === z2;",
    "in loop": "for (var i = 0; i < 3; i++) {\nMassert(a != K || i != 1);\nassert(a + i == a + i);\n}", "in if": "if (a == K) {\nvar y = 1;\nMassert(y == 2);\n}", "in else": "if (a != K) {\nvar y = 1;\n} else {\nMassert(a == 2 * a + 1);\n}",
    "after": "component d = ID(); d.a <== a;\nassert(d.y == a);\nMassert(d.y != K);", "safe": "signal z;\nz <-- a == K ? 5 : 0;\nMz * 2 === z;",
}
LEAF_F = {
    "assert": "Massert(a != K);", "in loop": "var y = 0;\nwhile (y < 3) {\ny += 1;\nMassert(a != K || y != 2);\n}", "in if": "if (a == K) {\nMassert(a == a + 1);\n}", "lines": "var y = 3;\nMassert(\na != K &&\ny == 3\n);", "after": "var y = idf(a);\nassert(y == a);\nMassert(y != K);",
    "array": "var y[2] = [a, 1];\nassert(y[1] == 1);\nMassert(y[0] != K);",
}
LIB = "pragma circom 2.2.0;\nbus P { signal u; signal w[2]; }\nfunction idf(x) {\nvar r = x;\nreturn r;\n}\nfunction two(x, y) {\nif (x == y) {\nreturn x;\n}\nreturn y;\n}\ntemplate ID() {\nsignal input a;\nsignal output y;\ny <== a;\n}\n"


def chains(deep):
    """a chain: the kinds of its frames, from main on"""
    tt, tf, ff = [("TT", k) for k in TT], [("SIG", k) for k in SIG] + [("VAR", k) for k in VAR], [("VAR", k) for k in VAR] + [("RET", k) for k in RET]
    lt, lf = [("LEAF_T", k) for k in LEAF_T], [("LEAF_F", k) for k in LEAF_F]
    out = [[l] for l in lt]
    out += [[t, l] for t in tt for l in lt] + [[f, l] for f in tf for l in lf]
    out += [[t, f, lf[(i + j) % len(lf)]] for i, t in enumerate(tt) for j, f in enumerate(tf) ]
    out += [[f, g, lf[(i + j) % len(lf)]] for i, f in enumerate(tf) for j, g in enumerate(ff) ]
    out += [[t, u, lt[(i + j) % len(lt)]] for i, t in enumerate(tt) for j, u in enumerate(tt) ]
    if deep:
        out += [[t, u, f, lf[(i + j + k) % len(lf)]] for i, t in enumerate(tt) for j, u in enumerate(tt) for k, f in enumerate(tf) if (i + j + k) % 5 == 0]
        out += [[t, f, g, lf[(i + j + k) % len(lf)]] for i, t in enumerate(tt) for j, f in enumerate(tf) for k, g in enumerate(ff) if (i + j + k) % 5 == 0]
    return out


TABLES = {"TT": TT, "SIG": SIG, "VAR": VAR, "RET": RET, "LEAF_T": LEAF_T, "LEAF_F": LEAF_F}


LENGTHS = [0, 0, 0, 5, 0, 17, 0, 40, 90, 0, 190]     # of what is added to the names
GAPS = [0, 3, 30, 200, 400, 950, 3000, 9300, 9900, 60000, 99000, 990000]     # empty lines before the chains: numbers of up to seven digits


def program(cs, gap=0):
    """text of the program and, for every chain, its frames [(name, marker)] and the path of the component of the check"""
    text, main, exp = LIB.replace("\n", "\n" * (gap + 1), 1) if gap else LIB.replace("\n", " ", 60).replace(" template", "\ntemplate"), "", []
    for k, c in enumerate(cs):
        defs, frames, path = [], [], "main"
        header, params, is_t = "signal input a;", "", True
        for d, (tab, key) in enumerate(c):
            name = "%s%d_%dq" % ("T" if is_t else "f", k, d) + "x" * LENGTHS[(k + d) % len(LENGTHS)]
            e = TABLES[tab][key]
            code = e[0] if tab == "TT" else e
            nxt_t = tab == "TT"
            nxt = "%s%d_%dq" % ("T" if nxt_t else "f", k, d + 1) + "x" * LENGTHS[(k + d + 1) % len(LENGTHS)]
            mark = "/*%d.%d*/" % (k, d)
            code = re.sub(r"(?m)^M|(?<=; )M", mark, code, count=1)
            code = re.sub(r"\bX(?=\()", nxt, code)
            code = re.sub(r"\bK\b", str(k), code)
            if is_t:
                defs.append("template %s(%s) {\n%s\nsignal output y_out;\n%s\ny_out <== a;\n}\n" % (name, params, header, re.sub(r"\by\b(?!\()(?<!\.y)", "y_", code)))
            else:
                defs.append("function %s(a) {\n%s\nreturn 0;\n}\n" % (name, code))
            frames.append((name, mark))
            if nxt_t:
                path += "." + e[1].replace("X%", nxt + "%")
                header = e[2] if len(e) > 2 else "signal input a;"
                params = e[3] if len(e) > 3 else ""
            is_t = nxt_t
        text += "".join(reversed(defs)) if k % 2 else "".join(defs)
        main += "component c%d = %s();\n/*%d.m*/c%d.a <== a;\n" % (k, frames[0][0], k, k)
        exp.append(([("M", "/*%d.m*/" % k)] + frames, path.replace("main", "main.c%d" % k, 1)))
    text += "template M() {\nsignal input a;\nsignal output o;\no <== a;\n%s}\ncomponent main = M();\n" % main
    res = []
    for frames, path in exp:
        res.append(([(n, text[:text.index(m)].count("\n") + 1) for n, m in frames], path))
    return text, res


def job(a):
    cs, gap = a
    cxx = True
    src, exp = program(cs, gap)
    d = circom.scratch()
    bad, n = [], 0
    try:
        r = circom.run(BIN, src, ["--O1", "--wasm", "--c", "--r1cs"], d)
        if not r.ok:
            return 0, [("rejected", {"source": src, "stderr": r.err[-900:]})]
        ins = [{"a": str(k)} for k in range(len(cs))] + [{"a": "999"}]
        ws = wasmrun.witnesses(d, "m", ins)
        exe = cxxrun.build(d, "m", flags=["-std=c++11", "-O0", "-I."]) if cxx else None
        for k, i in enumerate(ins):
            name = " > ".join("%s %s" % (t, x) for t, x in cs[k]) if k < len(cs) else "no failure"
            det = {"source": re.sub(r"\n{30,}", lambda m: "\n(%d empty lines)\n" % (len(m.group()) - 1), src), "input": i}
            n += 1
            err = ws[k].get("err")
            if k == len(cs):
                if err is not None:
                    bad.append(("wasm: " + name, {**det, "error": err}))
            else:
                got = re.findall(r"(?m)^Error in (template|function) (\w+?)_\d+ line: (\d+)", err or "")
                want = [("template" if x[0] in "TM" else "function", x, str(l)) for x, l in reversed(exp[k][0])]
                if got != want or "Assert Failed" not in err:
                    bad.append(("wasm: " + name, {**det, "expected": want, "observed": got, "error": err}))
            if not cxx:
                continue
            n += 1
            json.dump(i, open(d + "/in.json", "w"))
            rc, so, se = cxxrun.run(exe, d + "/in.json", d + "/w", timeout=30)
            if k == len(cs):
                if rc != 0:
                    bad.append(("cxx: " + name, {**det, "error": se}))
                continue
            got = re.findall(r"Failed assert in template/function (\w+) line (\d+)\. Followed trace of components: (\S+)", so + se)
            got = [(x, l, re.sub(r"\.(T\d+_\d+qx*)_\d+_\d+\b", r".\1%", p)) for x, l, p in got]
            x, l = exp[k][0][-1]
            if any("parallel" in key or key == "ones" for _, key in cs[k]):
                # (the pieces of the message, as what other threads print may be among them)
                said = re.sub(r"\.(T\d+_\d+qx*)_\d+_\d+\b", r".\1%", so + se)
                if rc != 0 and x in said and str(l) in said and exp[k][1] in said:
                    continue
            if rc == 0 or len(got) != 1 or got[0] != (x, str(l), exp[k][1]):
                bad.append(("cxx: " + name, {**det, "expected": (x, l, exp[k][1]), "observed": got, "rc": rc, "error": se[-400:]}))
        return n, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN
    ck = Check("C35")
    BIN = build.circom()
    cs = chains(ck.thorough)
    step = len(cs) // 36 if not ck.thorough else 60
    # (neighbours in the list go to different programs)
    parts = (len(cs) + step - 1) // step
    jobs = [(cs[i::parts], GAPS[i % len(GAPS)]) for i in range(parts)]
    for n, bad in pmap(job, jobs):
        ck.add(traces_validated_against_impl=n)
        for k, d in bad:
            ck.violation(k, d)
    ck.cov["states"] = len(cs)
    ck.cov["transitions"] = ck.cov["traces_validated_against_impl"]
    ck.cov["rule"] = "a state is a chain of frames with a failing check; a trace is one run of an emitted generator whose message is compared with the lines of the chain"
    ck.sample({"chain": cs[-1]})
    ck.finish()
