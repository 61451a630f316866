"""C20: the source text means what the documentation says: precedence, literals, comments, strings, identifiers."""
import itertools, os, shutil
from mc import build, circom, field, ref
from mc.par import pmap
from mc.report import Check

BIN = None
P = circom.PRIMES["bn128"]
OPS = ["||", "&&", "==", "!=", "<", ">", "<=", ">=", "|", "^", "&", "<<", ">>", "+", "-", "*", "/", "\\", "%", "**"]
VALS = [(7, 3, 2, 5), (2, 5, 3, 1), (1, 0, 4, 2), (12, 10, 3, 2)]


def evaluate(expr, env):
    """value of an expression by the reference parser and semantics (None when it has none)"""
    src = "template M() { signal output o; %s o <== %s; } component main = M();" % (" ".join("var %s = %d;" % kv for kv in env.items()), expr)
    try:
        return ref.witness(ref.parse("pragma circom 2.0.0; " + src), P, {}).values["main.o"]
    except field.Undefined:
        return None


def const_job(a):
    """a: (prologue, [(statements that leave the value in r, text, env)]) -> compiled as constants"""
    tag, cases = a
    todo = []
    for pre, expr, env in cases:
        v = ref_value(pre, expr, env)
        if v is not None:
            todo.append((pre, expr, env, v))
    W = 40
    src = ["pragma circom 2.0.0;", "function id(x) { return x; }"]
    nt = (len(todo) + W - 1) // W
    for t in range(nt):
        part = todo[t * W:(t + 1) * W]
        src.append("template T%d() { signal output o[%d];" % (t, len(part)))
        for k, (pre, expr, env, _) in enumerate(part):
            src.append("{ %s %s o[%d] <== %s; }" % (" ".join("var %s = %d;" % kv for kv in env.items()), pre, k, expr))
        src.append("}")
    src.append("template M() { %s }\ncomponent main = M();" % " ".join("component c%d = T%d();" % (t, t) for t in range(nt)))
    d = circom.scratch()
    bad = []
    try:
        r = circom.run(BIN, "\n".join(src), ["--r1cs", "--sym", "--O0"], d, timeout=200)
        if not r.ok:
            if len(cases) > 1:
                h = len(cases) // 2
                x = const_job((tag, cases[:h]))
                y = const_job((tag, cases[h:]))
                if x[1] or y[1]:
                    return len(todo), x[1] + y[1]
            return len(todo), [("%s rejected: %s %s" % (tag, cases[0][0], cases[0][1]), {"source": "\n".join(src), "stderr": r.err[-600:], "rc": r.rc})]
        c = circom.read_r1cs(d + "/m.r1cs")
        got = {}
        for A, B, C in c.constraints:
            ws = [w for w in C if w]
            if len(ws) == 1 and not (A and B):
                got[ws[0]] = -C.get(0, 0) * pow(C[ws[0]], -1, P) % P
        wire = {nm: w for _, w, _, nm in circom.read_sym(d + "/m.sym")}
        for k, (pre, expr, env, v) in enumerate(todo):
            g = got.get(wire.get("main.c%d.o[%d]" % (k // W, k % W)))
            if g != v:
                bad.append(("%s: %s %s" % (tag, pre, expr), {"expression": expr, "before": pre, "values": env, "expected": v, "observed": g}))
        return len(todo), bad[:4]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ref_value(pre, expr, env):
    src = "pragma circom 2.0.0; function id(x) { return x; } template M() { signal output o; %s %s o <== %s; } component main = M();" % (
        " ".join("var %s = %d;" % kv for kv in env.items()), pre, expr)
    try:
        return ref.witness(ref.parse(src), P, {}).values["main.o"]
    except field.Undefined:
        return None


def expression_cases(thorough):
    names = "xyzt"
    for o1, o2 in itertools.product(OPS, repeat=2):
        for vals in VALS:
            yield "", "x %s y %s z" % (o1, o2), dict(zip("xyz", vals))
    for ops in itertools.product(OPS, repeat=3):
        for vals in VALS[:2] if not thorough else VALS:
            yield "", "x %s y %s z %s t" % ops, dict(zip(names, vals))
    for u in "-!~":
        for o in OPS:
            for vals in VALS:
                env = dict(zip("xyz", vals))
                yield "", "%sx %s y" % (u, o), env
                yield "", "x %s %sy %s z" % (o, u, "+"), env
                yield "", "x + y %s %sz" % (o, u), env
                yield "", "%s(x %s y)" % (u, o), env
    for o1, o2 in itertools.product(OPS, repeat=2):
        env = dict(zip("xyzt", VALS[0]))
        yield "", "x %s y ? z : t %s x" % (o1, o2), env
        yield "", "x > y ? z %s x : t %s 2" % (o1, o2), env
        yield "", "(x < y ? z : t) %s x %s y" % (o1, o2), env
        yield "", "x %s (y %s z)" % (o1, o2), env
    for o in ["+", "-", "*", "/", "\\", "%", "**", "<<", ">>", "&", "|", "^"]:
        for o2 in OPS:
            for vals in VALS:
                env = dict(zip("xyz", vals))
                yield "x %s= y %s z;" % (o, o2), "x", env
        yield "var w[2]; w[1] = x; w[1] %s= y;" % o, "w[1]*100 + w[0]", dict(x=7, y=2)
    for st in ("x++;", "x--;", "var w[2]; w[1]++; x = w[1] - w[0];", "for (var i = 3; i > 0; i--) { x++; }", "x += x; x -= 1;", "x = id(x)*id(2);", "x = -id(x);", "x = id(-x);"):
        yield st, "x", dict(x=7)
    lits = ["0", "00012", "0x10", "0xff", "0xFF", "0xaBcDeF0123456789", "0x" + "f" * 70, "1" * 90, str(P), str(P + 1), str(P - 1), "0x0", "0x00A", str(2 ** 64), str(2 ** 256)]
    for a in lits:
        yield "", a, dict(x=1)
        yield "", "x + %s" % a, dict(x=1)
        yield "var w[3] = [%s, 1, 2];" % a, "w[0]", dict(x=1)
    for n in ("a1", "_a", "__a", "$a", "_$a", "a_b", "a$", "a_", "A", "aB9_$", "signal1", "inputs", "varx", "x0xff", "template_", "forx", "ifx", "Pp", "log2", "return1", "parallel_", "custom_templatesx", "assertx", "includes", "bus1"):
        yield "var %s = 41; %s += x;" % (n, n), n, dict(x=1)


# every gap between tokens with every kind of comment or space
BASE = """pragma circom 2.1.0 ;
function f ( a , b ) { var r = 0 ; for ( var i = 0 ; i < 3 ; i ++ ) { r += a * i ; } if ( r == b ) { return r ; } else { return r + 0x1F ; } }
template T ( n , k ) { signal input a ; signal input v [ n ] ; signal output o ; signal output { t } u ; var e [ 2 ] = [ 1 , f ( 2 , k ) ] ; component s = S ( ) ; s . p <== a ; o <== s . r + v [ 0 ] * e [ 1 ] ; u <-- a > 2 ? a : - 1 ; u * u === u * 2 + e [ 0 ] ; assert ( n != 0 ) ; log ( "x" , 1 ) ; while ( e [ 0 ] < 3 ) { e [ 0 ] += 1 ; } }
template S ( ) { signal input p ; signal output r ; signal q <== p * p ; q + 1 ==> r ; }
component main { public [ a ] } = T ( 2 , 3 ) ;
"""
FILL = [" ", "\t", "\n", "\r\n", " // c\n", "// /* \n", "/**/", "/* c */", "/* // */", "/***/", "/* * / **/", "/*\n*/", "/* \" */", "// \"\n", "/* é ∀ */", "// é\n", "/*/ */", "/* a /* b */", "//\n", "//*/\n", "/* pragma */"]


def outputs(src, d):
    r = circom.run(BIN, src, ["--r1cs", "--sym", "--json", "--O0"], d, timeout=60)
    if not r.ok:
        return ("rejected", r.rc, r.err[-400:])
    c = circom.read_r1cs(d + "/m.r1cs")
    return ("ok", open(d + "/m.r1cs", "rb").read(), open(d + "/m.sym", "rb").read(), open(d + "/m_constraints.json", "rb").read())


def gap_job(a):
    lo, hi, want = a
    toks = BASE.split()
    bad, n = [], 0
    d = circom.scratch()
    try:
        for g in range(lo, hi):
            for f in FILL:
                n += 1
                src = " ".join(toks[:g]) + (" " if f[0] not in " \t\n/\r" else "") + f + " ".join(toks[g:])
                got = outputs(src, d)
                if got != want:
                    bad.append(("%r between %s" % (f, toks[max(0, g - 2):g + 2]), {"source": src, "outcome": got[:2] if got[0] != "ok" else "other output"}))
        return n, bad[:3]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tight():
    """no space at all where the tokens do not merge"""
    toks, out = BASE.split(), ""
    import re
    for t in toks:
        if out and re.match(r"[\w$]", out[-1]) and re.match(r"[\w$]", t[0]):
            out += " "
        elif t in ("-", ) or (out and out[-1] in "+-*/<>=!&|" and t[0] in "+-*/<>=!&|"):
            out += " "
        out += t
    return out


TEXTS = ["x", "a b", "//", "http://x", "/* */", "a /* b", "*/", "a // b", "%d %s", "'", "{}", "a" * 200, "(1)", ";", "/", "a/", "/b", "/ /", "a  b", "%%", "}", "signal x;", "&&"]


def text_job(t):
    """a string in a log and in the code after it"""
    d = circom.scratch()
    try:
        src = 'pragma circom 2.0.0;\ntemplate M() { signal input a; signal output o; log("%s", a, "%s"); o <== a / 2; log(1, "%s"); }\ncomponent main = M();\n' % (t, t, t)
        r = circom.run(BIN, src, ["--r1cs", "--sym", "--wasm", "--c", "--O0"], d, timeout=60)
        if not r.ok:
            return 1, [("string %r is rejected" % t[:20], {"source": src, "rc": r.rc, "stderr": r.err[-500:]})]
        import json, subprocess
        json.dump({"a": 5}, open(d + "/in.json", "w"))
        q = subprocess.run(["node", d + "/m_js/generate_witness.js", d + "/m_js/m.wasm", d + "/in.json", d + "/w"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        want = "%s 5 %s\n1 %s\n" % (t, t, t)
        got = q.stdout.decode("utf-8", "replace")
        if got != want:
            return 1, [("string %r printed by WASM" % t[:20], {"source": src, "expected": want, "observed": got, "stderr": q.stderr.decode("utf-8", "replace")[-300:]})]
        from mc import cxxrun
        try:
            exe = cxxrun.build(d, "m", flags=["-std=c++11", "-O0", "-I."])
        except cxxrun.CxxError as e:
            return 1, [("string %r: the C++ code does not compile" % t[:20], {"source": src, "error": str(e)[-600:]})]
        rc, so, se = cxxrun.run(exe, d + "/in.json", d + "/w2")
        if so != want:
            return 1, [("string %r printed by C++" % t[:20], {"source": src, "expected": want, "observed": so, "stderr": se[-300:]})]
        return 3, []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN
    ck = Check("C20")
    BIN = build.circom()
    cs = list(expression_cases(ck.thorough))
    jobs = [("expression", cs[i:i + 800]) for i in range(0, len(cs), 800)]
    for n, bad in pmap(const_job, jobs):
        ck.add(expressions=n)
        for k, d in bad:
            ck.violation(k, d)
    d = circom.scratch()
    want = outputs(BASE, d)
    if want[0] != "ok":
        ck.violation("the base program is rejected", {"source": BASE, "outcome": want})
    got = outputs(tight(), d)
    if got != want:
        ck.violation("the base program without spaces", {"source": tight(), "outcome": got[:2] if got[0] != "ok" else "other output"})
    shutil.rmtree(d, ignore_errors=True)
    n = len(BASE.split())
    step = 4
    for m, bad in pmap(gap_job, [(i, min(n + 1, i + step), want) for i in range(0, n + 1, step)]):
        ck.add(texts=m)
        for k, dd in bad:
            ck.violation(k, dd)
    for m, bad in pmap(text_job, TEXTS):
        ck.add(printed=m)
        for k, dd in bad:
            ck.violation(k, dd)
    ck.cov["states"] = len(cs) + n * len(FILL) + len(TEXTS)
    ck.cov["transitions"] = ck.cov["expressions"] + ck.cov["texts"] + ck.cov["printed"]
    ck.cov["traces_validated_against_impl"] = len(jobs) + ck.cov["texts"] + len(TEXTS)
    ck.cov["rule"] = "a state is a text (expression with values, program with a comment in one gap, string); transitions counts the compared outcomes; a trace is a compilation"
    ck.sample({"expressions": [c[1] for c in cs[:3]], "fill": FILL})
    ck.finish()
