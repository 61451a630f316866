"""C36: every program gets an answer: it is compiled to files that can be used, or rejected with an error; never a panic."""
import itertools, json, os, re, shutil, subprocess
from mc import build, circom
from mc.par import pmap
from mc.report import Check

BIN = None
LIB = """pragma circom 2.2.0;
bus B { signal u; signal k[2]; }
bus C { B x; signal y; B z[2]; }
function f(p) { return p + 1; }
function g(p) { return [p, p]; }
function h(p) { return p[0]; }
template A() { signal input x; signal output y; y <== x; }
template A2(n) { signal input x[n]; signal output y[n]; signal output z; for (var i = 0; i < n; i++) { y[i] <== x[i]; } z <== 1; }
template AB() { input B x; output B y; y <== x; }
template A0() { signal output y; y <== 1; }
template AT() { signal input {t} x; signal output {t} y; y <== x; }
template AN() { signal input x; x === 1; }
template M(n) { signal input a; signal input v[2]; input B b; signal output o; var w[2] = [1, 2]; o <== a;
"""
DECL = [
    "", "var q;", "var q = 1;", "var q = a;", "var q[2];", "var q[2] = [a, 1];", "var q[2][2];", "var q[0];", "signal q;", "signal q <== a;", "signal q <-- a;", "signal {t} q;", "signal output q;", "signal q[2];", "signal q[2] <== v;",
    "signal q[0];", "signal q[2][2];", "signal {t} q[2];", "component q;", "component q = A();", "component q = parallel A();", "component q[2];", "component q[2][1];", "component q[0];", "component q = A2(2);", "component q = AB();",
    "component q = A0();", "component q = AT();", "component q = AN();", "component q = A(); q.x <== a;", "component q = A2(0);", "component q[2]; q[1] = A();", "B q;", "B {t} q;", "B q <== b;", "B q[2];", "B q[0];", "C q;", "output B q;", "B q; q.u <== a;",
    "signal {t} q; q.t = 2; q <== a;", "component q = AT(); signal {t} q1; q1.t = 2; q1 <== a; q.x <== q1;", "component q[2]; for (var i = 0; i < 2; i++) { q[i] = A(); q[i].x <== v[i]; }", "C q; q.x <== b; q.y <== a; q.z[0] <== b; q.z[1] <== b;",
    "component q = AB(); q.x <== b;", "component q = A2(2); q.x <== v;", "B {t} q; q.t = 1; q <== b;",
]
VALUES = [
    "1", "-1", "a", "n", "v", "w", "b", "b.u", "b.k", "q", "q[0]", "q[1]", "q[2]", "q[0][0]", "q[n]", "q[a]", "q[-1]", "q[q]", "q.x", "q.y", "q.z", "q.u", "q.k", "q.k[1]", "q.t", "q.x.u", "q.x.k", "q.z[1].k", "q.x[0].u", "q.x.u[0]", "q.k[2]", "q.k[0][0]", "q.z.k", "q.x.k[a]", "q.z[a].k[1]", "q[0].k[1]", "q[1].x.u", "q.y.k[0]", "q.y[0].u", "q[0].x", "q[0].y", "q[1].y", "q[0].u", "q.x[0]", "q.y[a]",
    "[q, 1]", "[a, 1]", "[v, v]", "[]", "f(q)", "g(q)", "h(q)", "g(a)", "A()(a)", "A()(q)", "A2(2)(q)", "A2(q)(v)", "AB()(q)", "A0()()", "AT()(q)", "parallel A()(q)", "a * q", "-q", "!q", "q + q", "q / q", "q \\ 2", "q % 0", "1 / 0", "2 ** q", "q ? 1 : 2", "a ? q : 1", "n ? q : v", "q == q", "q * q * q",
    "a < q", "q && a", "~q", "q.y * q.y", "w[q]", "v[q]", "v[a]", "w[a]", "q[w[a]]", "q[w[a]].x", "q.x[w[a]]", "a ? q.t : 2", "n == 2 ? q.t : a", "a ? b : b", "w[a] ? q : q", "n == 1 ? q : b", "n == 2 ? b : 1", "n == 1 ? A() : A()", "_", "B", "A", "q()", "f", "unknown", "\"s\"", "(q, a)", "1 << q", "1 << 300", "q >> -1",
]
USES = [
    "q <== X;", "q <-- X;", "q === X;", "X ==> q;", "q = X;", "q += X;", "q[0] <== X;", "q[1] <-- X;", "q[1] = X;", "q[n] === X;", "q[a] <-- X;", "q[2] <== X;", "q[0][1] <== X;", "q[0][1] = X;", "q.x <== X;", "q.x[0] <== X;", "q.x = X;", "q.u <== X;", "q.k <== X;", "q.k[0] <-- X;", "q.x.u <== X;", "q.x <== X; q.x <== X;",
    "q.z[0] <== X;", "q.t = X;", "q[0].x <== X;", "q[1].x <== X;", "q[0].u <== X;", "X === X;", "log(X);", "assert(X);", "_ <== X;", "(q, _) <== X;", "(o2, q) <== (a, X);", "signal z[X];", "var z[X];", "component z = A2(X);", "component z[X];", "var z = X;", "var z[2] = X;", "signal z <== X;", "signal z[2] <== X;", "signal z <-- X;", "B z <== X;",
    "if (X) { q = 1; }", "if (X) { a === 1; } else { log(1); }", "for (var i = X; i < 2; i++) { log(i); }", "component z = A(); z.x <== X;", "component z = AB(); z.x <== X;", "component z = AT(); z.x <-- X;", "f(X);", "return X;", "A()(X);", "AN()(X);", "var z = f(X);", "w[X] = 1;", "w = X;", "o === X;", "q++;X;", "X;", "q[X] = 1;", "q[X] <== 1;", "q[X].x <== 1;",
    "var z = g(X)[0];", "var z = n == 1 ? X : 0;", "signal z <-- a == 1 ? X : 0;", "var z = [X, [X]];", "signal {t} z <== X;", "AT()(X) === 1;", "signal z <== A()(X) + 1;", "(signal z) <== X;", "signal (z, y) <== X;", "q = A2(X);", "q[0] = A2(X);", "q[a] = A2(X);", "z <== X; signal z;", "q[w[a]] <== X;", "q[w[a]] <-- X;", "q[w[a]].x <== X;", "q[w[a]] = A();", "q.x[w[a]] <== X;", "q.k[w[a]] <-- X;",
]
WRAP = ["@", "if (n == 1) { @ }", "if (n == 2) { @ }", "if (a == 1) { @ }", "if (a == 1) { log(1); } else { @ }", "for (var i = 0; i < 2; i++) { @ }", "for (var i = 0; i < a; i++) { @ }", "var i = 0; while (i < 1) { i++; @ }", "{ { @ } }"]


# functions: declaration, statement, value, end and call
F_DECL = [
    "", "var q;", "var q = p;", "var q = 3;", "var q[2];", "var q[2] = [p, 1];", "var q[2] = p;", "var q[p];", "var q[2][2];", "var q[0];", "var q[2][2] = [[1, p], [3, 4]];", "signal q;", "component q;", "B q;", "var (q, r);", "var q[2] = g(p);",
]
F_USES = [
    "q = X;", "q += X;", "q[0] = X;", "q[1] = X;", "q[p] = X;", "q[X] = 1;", "q[0][1] = X;", "q[0] += X;", "p = X;", "p[0] = X;", "return X;", "if (X) { return 1; }", "if (X) { q = 1; } else { return 2; }", "if (p) { return X; } else { return q; }", "for (var i = 0; i < (X) && i < 4; i++) { q = i; }",
    "while (X) { return 1; }", "while (p) { p--; q = X; }", "log(X);", "assert(X);", "X === 1;", "q <== X;", "q <-- X;", "var z[X];", "var z = X;", "var z[2] = X;", "var z[2][2] = X;", "q++;", "X;", "_ = X;", "(q, _) = (X, 1);", "component z = X;", "signal z <== X;", "f(X);", "var z = f(X);",
    "for (var i = 0; i < 2; i++) { var z = X; if (i == 1) { return z; } }",
]
F_VALUES = [
    "1", "-1", "p", "q", "p[0]", "p[1]", "p[2]", "q[0]", "q[1]", "q[p]", "q[2]", "q[0][1]", "p.u", "p.k", "q.x", "[p, 1]", "[q, q]", "[]", "f(q)", "g(q)", "h(q)", "h(p)", "r(p)", "A()(p)", "p ? q : 1", "p ? 1 : q", "q ? p : q", "1 / 0", "p \\ 0", "q % p", "1 << p", "p << 300", "p ** q", "!q", "-p",
    "p == q", "p && q", "_", "f", "A", "B", "(p, q)", "\"s\"", "p[p]", "B()", "A()",
]
F_END = [
    "return q;", "return p;", "", "return 1;", "return [1, p];", "if (p) { return 1; } else { return 2; }",
]
F_CALLS = [
    "var z = F(n);", "signal z <-- F(a);", "signal z <== F(n) * a;", "var z[2] = F(v);", "signal z[2] <-- F(v);", "var z[2] = F([n, a]);", "log(F(a));", "if (F(a) == 1) { log(1); }", "signal z[F(n)];", "var z = F(b);", "w[F(a)] = 1;", "a === F(1);", "component z = A2(F(n)); z.x <== v;", "F(a);",
    "var z = F(F(a));", "assert(F(n));",
]


# the main component: header and body of its template, arguments, public inputs, body of a bus and pragma
M_HEADS = [
    "template T(p)", "template T()", "template T(p, q)", "template parallel T(p)", "template custom T(p)", "template custom parallel T(p)", "template custom extern_c T(p)", "template T(p, p)",
]
M_BODIES = [
    "", "signal input a; signal output o; o <== a * p;", "signal input a[p]; signal output o[p]; o <== a;", "signal input a[p][p]; signal output o[p][p]; for (var i = 0; i < p; i++) { o[i] <== a[i]; }", "signal input a; signal output o; o <== p;", "signal input a; var z[p]; z[0] = 1;",
    "signal input a; var z = p; a === z;", "signal input a[2]; a === p;", "signal input a; component c = A2(p); c.x <== [a, a];", "signal input a; component c[p]; for (var i = 0; i < p; i++) { c[i] = A(); c[i].x <== a; }", "BP(p) x; x.u <== 1;", "input BP(p) x; output BP(p) y; y <== x;",
    "input B a; output B o; o <== a;", "signal input {t} a; signal output o; o <== a;", "assert(p); log(p, \"x\");", "signal input a; signal output o; if (p == 1) { o <== a; } else { o <== 1; }", "signal input a; signal output o; for (var i = 0; i < p; i++) { if (i == 1) { o <== a; } }", "return p;",
    "signal input a; a === p[0];", "signal input a; a === p[p];", "signal input a; p = 2; a === p;", "signal input a; p[0] = 2; a === p[0];", "signal p;", "component c = A2(f(p)); c.x <== [1, 2];", "signal input p; p === 1;", "signal output o <-- p; ", "signal input a; signal output o; o <== A()(p);",
    "var p = 1; var p = 2;", "{ signal s; s <== p; }", "signal input a; A() (a);", "component c = T;", "AN()(p[0]);",
]
M_ARGS = [
    "", "0", "1", "-1", "2", "1, 2", "[1, 2]", "[[1, 2], [3, 4]]", "[]", "f(1)", "g(1)", "1 / 0", "1 << 300", "x", "T(1)", "A()", "\"s\"", "[1, [2]]", "1 == 1", "1 ? 2 : 3", "parallel A()", "_", "B()", "[1, 2][0]", "0 - 1", "1 \\ 0", "f", "p",
]
M_PUBLIC = [
    "", " {public []}", " {public [a]}", " {public [a, a]}", " {public [o]}", " {public [unknown]}", " {public [x]}", " {public [x, a]}", " {public [p]}",
]
M_BUSES = [
    "signal u;", "signal u[p];", "B x[p]; signal u;", "BP(p) y; signal u;", "BP(p - 1) y; signal u;", "signal {t} u;", "var z = p; signal u[z];", "signal input u;", "if (p) { signal u; }", "signal u; signal u;", "signal u <== 1;", "f(p);", "", "signal u; B B;", "component c;", "signal u; u === 1;",
    "signal u[p[0]];",
]
M_PRAGMAS = [
    "", "pragma custom_templates;", "pragma circom 2.3.0;", "pragma circom 2.2.0;", "pragma unknown;",
]


# a program whose tokens are removed, repeated, swapped and replaced one by one
WHOLE = r"""pragma circom 2.2.0; pragma custom_templates;
bus B(n) { signal u; signal k[n]; }
bus C { B(2) x; signal {t} y; }
function f(p, q) { var z[2] = [p, q]; if (p == 1) { return z[0] + 1; } else { for (var i = 0; i < 2; i++) { z[i] += p ** 2; } } while (p > q && !(q == 3)) { q++; } return p < q ? z[1] : -q \\ 2; }
template custom G(n) { signal input x; signal output y; y <-- x * n; }
template T(n, m) { signal input a[n]; input B(2) b; signal output {t} o; signal output v[2]; var w[2][2] = [[n, 1], [m, 0x1F]];
 component c = parallel G(n); c.x <== a[0]; component d[2]; for (var i = 0; i < 2; i++) { d[i] = G(i); d[i].x <== a[i % 2] + w[i][0]; }
 signal s <== G(2)(a[1]); signal (r1, r2) <== (s, a[0] * 3); (_, v[0]) <== (r1, d[0].y); v[1] <-- f(a[0], b.k[1]) / 1;
 o.t = 2; o <== G(n)(x <== b.u); C e; e.x <== b; e.y <== ~0 & 5; assert(n != 0 || m == 1); log("x", n, a[0]); e.x.u === c.y + b.u - c.y; r2 ==> _; }
component main { public [a] } = T(2, 3);
"""
TOKENS = re.findall(r'"[^"]*"|[A-Za-z_]\w*|\d\w*|<==|==>|<--|-->|===|&&|\|\||\*\*|[<>=!]=|\+\+|\+=|\S', WHOLE)
TOKEN_QUICK = ["0x", "(a, b)", "G(1)(a[0])", ";", "_"]
TOKEN_ALL = ["n", "a", "1", "(", ")", "[", "]", "{", "}", ",", ".", "<==", "<--", "==>", "===", "=", "==", "+", "-", "*", "?", ":", "signal", "var", "component", "template", "function", "input", "output", "for", "if", "else", "return", "parallel", "bus", "main", "public", "log", "assert", "G", "f", "B", "custom", "pragma", "\"s\"", "++", "+=", "!", "a[0]", "n + 1", "b", "o.t", "c.y", "[1, 2]", "@", "'", "/*", "//", "\""]


def names(body):
    return LIB.replace("signal output o;", "signal output o; signal o2;") + body + " }\ncomponent main = M(1);"


def edited(deep):
    t = TOKENS
    for i in range(len(t)):
        yield t[:i]
        yield t[:i] + t[i + 1:]
        yield t[:i] + [t[i]] + t[i:]
        yield t[:i] + t[i + 1:i + 2] + [t[i]] + t[i + 2:]
        for r in TOKEN_QUICK + (TOKEN_ALL if deep else []):
            yield t[:i] + [r] + t[i + 1:]
            if deep:
                yield t[:i] + [r] + t[i:]


# names declared again in an inner block
N_DECL = ["var q = 1;", "var q[2] = [1,2];", "signal q; q <== a;", "signal q[2]; q <== v;", "component q = A(); q.x <== a;", "component q[2]; q[0] = A(); q[1] = A();", "B q; q <== b;", "B q[2]; q[0] <== b; q[1] <== b;", "signal {t} q; q.t = 2; q <== a;", "signal output q; q <== 1;", "component q;", "signal q;", "B q;", "var q;"]
N_USES = ["", "o2 <== q;", "q = 2;", "q[0] = 1;", "o2 <== q.y;", "o2 <== q.u;", "q[0].x <== a;", "o2 <== q[1];", "o2 <== q.t;", "o2 <-- q.k[1];", "log(q);", "q <== a;"]
N_BLOCKS = ["{ %s %s } %s", "if (n == 1) { %s %s } %s", "if (a == 1) { %s %s } %s", "for (var i = 0; i < 2; i++) { %s %s } %s"]
# in a block that is not executed
N_SKIPPED = [
    "signal q; if (n == 2) { B q;  } o2 <== q.u;",
    "signal q; if (n == 2) { B q;  } o2 <-- q.k[1];",
    "B q; if (n == 2) { signal q;  } o2 <-- q.k[1];",
    "component q; if (n == 2) { signal q; q <== a;  } q <== a;",
    "component q = A(); q.x <== a; if (n == 2) { signal q; q <== a;  } o2 <== q;",
]


def repeated(deep):
    for outer in N_DECL + [""]:
        for inner in N_DECL:
            for block in N_BLOCKS:
                for use in N_USES if deep else ("o2 <== q;", "o2 <== q.u;"):
                    yield outer + " " + block % (inner, "", use)
                    if deep:
                        yield outer + " " + block % (inner, use, "")


def main_program(head, body, arg, public, bus, pragma):
    lib = LIB[:LIB.index("template M(n)")].replace("pragma circom 2.2.0;\n", "pragma circom 2.2.0;\n" + pragma + "\n", 1)
    return lib + "bus BP(p) { " + bus + " }\n" + head + " { " + body + " }\ncomponent main" + public + " = T(" + arg + ");\n"


def program(decl, use=None, wrap=None, call=None, *more):
    if use is None:
        return decl + "\n"
    if more:
        return main_program(decl, use, wrap, call, *more)
    if call is not None:
        head, main = LIB[:LIB.index("template M(n)")], LIB[LIB.index("template M(n)"):]
        return head + "function F(p) { " + decl + " " + use + " " + wrap + " }\n" + main + call + " }\ncomponent main = M(1);\n"
    return LIB + decl + " " + wrap.replace("@", use) + " }\ncomponent main = M(1);\n"


FEW = ["1", "a", "v", "b", "q", "q[1]", "q[a]", "q[w[a]]", "q.x", "q.y", "q.u", "q.k", "q.t", "q.x.u", "q[1].y", "[q, 1]", "a ? q : 1", "a ? q.t : 2", "w[a] ? q : q", "A()(q)"]
QUICK = ["a", "q", "q.y", "q[w[a]]"]
QUICK_USES = ["q <== X;", "signal z <-- a == 1 ? X : 0;"]


def each(uses, values):
    return list(dict.fromkeys(u.replace("X", x) for u in uses for x in values))


def filled(values, uses):
    return [(d, u) for d in DECL for u in each(uses, values) if not d or re.search(r"\bq\b", u)]


def jobs(deep):
    out = [(d, u, "@") for d, u in (filled(VALUES, USES) if deep else filled(QUICK, USES) + filled(VALUES, QUICK_USES))]
    for w in [WRAP[1], WRAP[3], WRAP[5]] if deep else [WRAP[3], WRAP[5]]:
        out += [(d, u, w) for d, u in filled(FEW if deep else ["q"], USES)]
    for d in F_DECL:
        if deep:
            out += [(d, u, e, c) for u in each(F_USES, F_VALUES) for e in F_END[:2] for c in F_CALLS[:3]]
        else:
            out += [(d, u, "return q;", c) for u in each(F_USES, ["p", "q[1]"]) for c in (F_CALLS[1], F_CALLS[3])]
            out += [(d, u, "return q;", F_CALLS[0]) for u in each(F_USES[:1], F_VALUES)]
        out += [(d, u, e, c) for u in ("q = 1;", "q[1] = p;") for e in F_END for c in F_CALLS]
    head, bus, pragma = M_HEADS[:1], M_BUSES[:1], M_PRAGMAS[:1]
    uses_bus = [b for b in M_BODIES if "BP(p)" in b]
    prod = itertools.product
    out += prod(head, M_BODIES, M_ARGS, M_PUBLIC if deep else M_PUBLIC[:1], bus, pragma)
    out += prod(head, M_BODIES, ["1"], M_PUBLIC, bus, pragma)
    out += prod(M_HEADS, M_BODIES, ["1", "2", "[1, 2]"] if deep else ["1"], [""], bus, M_PRAGMAS if deep else M_PRAGMAS[:2])
    out += prod(head, uses_bus, M_ARGS, M_PUBLIC if deep else [""], M_BUSES, pragma)
    out += [(" ".join(t),) for t in edited(deep)]
    out += [(names(x),) for x in repeated(deep)]
    return list(dict.fromkeys(out))


def run(job):
    """None, or (kind, detail); and whether the program was accepted"""
    d = circom.scratch()
    src = program(*job)
    try:
        try:
            r = circom.run(BIN, src, ["--r1cs", "--sym", "--json", "--wasm", "--c", "--inspect", "--simplification_substitution"], d, timeout=60)
        except circom.FormatError:
            return ("no answer in 60 s", {"source": src}), False
        if r.panicked or r.rc not in (0, 1):
            m = re.search(r"panicked at ([^\n]*):\d+:\d+:\n?([^\n]*)", r.err)
            return ("panic", {"source": src, "rc": r.rc, "where": m.group(1) if m else "", "message": (m.group(2) if m else r.err)[-300:]}), False
        if r.rc == 1:
            if "error" not in r.err + r.out:
                return ("rejected without an error", {"source": src, "output": (r.err + r.out)[-500:]}), False
            return None, False
        c = circom.read_r1cs(d + "/m.r1cs")
        circom.read_sym(d + "/m.sym")
        json.load(open(d + "/m_constraints.json"))
        v = subprocess.run(["node", "-e", "process.exit(WebAssembly.validate(require('fs').readFileSync(process.argv[1])) ? 0 : 1)", d + "/m_js/m.wasm"], timeout=60)
        if v.returncode:
            return ("invalid WASM", {"source": src}), True
        missing = [x for x in ("m.cpp", "m.dat", "main.cpp", "Makefile") if not os.path.exists(d + "/m_cpp/" + x)]
        if missing or c.n_wires < 1:
            return ("missing output", {"source": src, "missing": missing}), True
        return None, True
    except circom.FormatError as e:
        return ("unreadable output: %s" % e, {"source": src}), True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN
    ck = Check("C36")
    BIN = build.circom()
    todo = jobs(ck.thorough)
    accepted = 0
    for bad, ok in pmap(run, todo, 40):
        accepted += ok
        if bad:
            kind, detail = bad
            ck.violation(" ".join(x for x in (kind, detail.get("where", "")) if x), detail)
    for body, (bad, ok) in zip(N_SKIPPED, [run((names(x),)) for x in N_SKIPPED]):
        accepted += ok
        if bad:
            ck.violation("%s: %s" % (bad[0], body), bad[1])
    todo += N_SKIPPED
    ck.add(programs=len(todo), states=len(todo), transitions=len(todo), traces_validated_against_impl=len(todo))
    ck.cov["rule"] = "a state is a program made of one declaration, one use of it and one context; a transition is one run of the real compiler on it, that has to end with usable files or with an error"
    ck.cov["accepted"] = accepted
    ck.cov["rejected with an error"] = len(todo) - accepted
    ck.cov["declarations"] = len(DECL)
    ck.cov["uses"] = len(USES)
    ck.cov["values"] = len(VALUES)
    ck.sample({"program": program(*todo[5000])})
    ck.finish()
