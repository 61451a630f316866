"""C32: --inspect reports exactly the signals that are in no constraint, and the <-- that may be <==."""
import itertools, re, shutil
from collections import Counter
from mc import build, circom
from mc.par import pmap
from mc.report import Check

BIN = None
LIB = """pragma circom 2.2.0;
bus B() { signal u; signal w; }
bus N() { B() k; signal t[2]; }
template A() { signal input i; signal output o; o <== i * i; }
template V() { signal input i[2]; signal output o[2]; o <== i; }
template W() { input B() i; output N() o; o.k <== i; o.t[0] <== i.u; o.t[1] <== i.w; }
template Z() { signal output o; o <== 4; }
function lin(q) { return 3 * q + 1; }
function sqr(q) { return q * q; }
function cub(q) { return q * q * q; }
"""
NQ = "a * b * c"
# objects: declaration, assignment of everything without constraints, leaves, subcomponent?, wholes (arrays and buses with the leaves that they have)
BU = ["u", "w"]
OBJ = {
    "signal": ("signal x;", "x <-- NQ;", ["x"], False, {}), "array": ("signal x[2];", "x[0] <-- NQ; x[1] <-- NQ;", ["x[0]", "x[1]"], False, {"x": "all"}),
    "matrix": ("signal x[2][2];", "x[0][0] <-- NQ; x[0][1] <-- NQ; x[1] <-- [NQ, NQ];", ["x[0][0]", "x[0][1]", "x[1][0]", "x[1][1]"], False, {"x": "all", "x[1]": ["x[1][0]", "x[1][1]"]}),
    "input": ("signal input x;", "", ["x"], False, {}), "input array": ("signal input x[3];", "", ["x[0]", "x[1]", "x[2]"], False, {"x": "all"}), "output": ("signal output x;", "x <-- NQ;", ["x"], False, {}),
    "output array": ("signal output x[2];", "x <-- [NQ, NQ];", ["x[0]", "x[1]"], False, {"x": "all"}), "bus": ("B() x;", "x.u <-- NQ; x.w <-- NQ;", ["x.u", "x.w"], False, {"x": "all"}),
    "bus array": ("B() x[2];", "for (var i = 0; i < 2; i++) { x[i].u <-- NQ; x[i].w <-- NQ; }", ["x[0].u", "x[0].w", "x[1].u", "x[1].w"], False, {"x": "all", "x[0]": ["x[0].u", "x[0].w"]}),
    "nested": ("N() x;", "x.k.u <-- NQ; x.k.w <-- NQ; x.t <-- [NQ, NQ];", ["x.k.u", "x.k.w", "x.t[0]", "x.t[1]"], False, {"x": "all", "x.k": ["x.k.u", "x.k.w"], "x.t": ["x.t[0]", "x.t[1]"]}),
    "input bus": ("input N() x;", "", ["x.k.u", "x.k.w", "x.t[0]", "x.t[1]"], False, {"x": "all", "x.k": ["x.k.u", "x.k.w"], "x.t": ["x.t[0]", "x.t[1]"]}), "output bus": ("output B() x;", "x.u <-- NQ; x.w <-- NQ;", ["x.u", "x.w"], False, {"x": "all"}),
    "component": ("component x = A();", "x.i <-- NQ;", ["x.i", "x.o"], True, {}), "components": ("component x[2];", "for (var i = 0; i < 2; i++) { x[i] = A(); x[i].i <-- NQ; }", ["x[0].i", "x[0].o", "x[1].i", "x[1].o"], True, {}),
    "component of arrays": ("component x = V();", "x.i[0] <-- NQ; x.i[1] <-- NQ;", ["x.i[0]", "x.i[1]", "x.o[0]", "x.o[1]"], True, {"x.i": ["x.i[0]", "x.i[1]"], "x.o": ["x.o[0]", "x.o[1]"]}),
    "component of buses": ("component x = parallel W();", "x.i.u <-- NQ; x.i.w <-- NQ;", ["x.i.u", "x.i.w", "x.o.k.u", "x.o.k.w", "x.o.t[0]", "x.o.t[1]"], True, {"x.i": ["x.i.u", "x.i.w"], "x.o": ["x.o.k.u", "x.o.k.w", "x.o.t[0]", "x.o.t[1]"], "x.o.k": ["x.o.k.u", "x.o.k.w"]}),
    "component without inputs": ("component x = Z();", "", ["x.o"], True, {}),
}
# statements on a signal L (and another one, K) and the signals that they use; n is the parameter of the instance
ONE = [
    ("L === a;", "L", "L"), ("3 === 2 * L;", "L", "L"), ("L * L === b;", "L", "L"), ("a * b === L;", "L", "L"), ("a * L === c;", "L", "L"), ("L * a === 2 * b + L;", "L", "L"), ("z[#] <== L;", "L", "L"), ("L ==> z[#];", "L", "L"), ("z[#] <== a * b + L;", "L", "L"),
    ("L - L === a * 1;", "", ""), ("0 * L === a;", "", ""), ("a === b + L - L;", "", ""), ("L * a * 0 === c;", "", ""), ("a === L - (a + L);", "", ""),
    ("_ <== L;", "L", "L"), ("L ==> _;", "L", "L"), ("_ <== 3 * L + a;", "L", "L"), ("_ <== L * a;", "L", "L"), ("_ <== a * b + L;", "L", "L"), ("_ <== [1, L];", "L", "L"), ("(_, z[#]) <== (L, a);", "L", "L"), ("_ <-- L;", "", ""), ("_ = L;", "", ""), ("_ <== a;", "", ""),
    ("z[#] <-- L * a * b; _ <== z[#];", "", ""), ("var t = L + 1;", "", ""), ("log(L);", "", ""), ("assert(L == L);", "", ""), ("if (n == 1) { L === a; }", "L", ""), ("if (n == 1) { a === b; } else { _ <== L; }", "", "L"), ("for (var i = 0; i < n - 1; i++) { L === i; }", "", "L"),
    ("for (var i = n; i < 2; i++) { a === L + i; }", "L", ""), ("var t = L; t += a; t === 3;", "L", "L"), ("var t = 2; if (n == 2) { t = L; } t * a === b;", "", "L"), ("lin(L) === a;", "L", "L"), ("sqr(L) === a;", "L", "L"), ("if (a == 1) { log(L); }", "", ""),
    ("_ <== A()(L);", "L", "L"), ("component q# = A(); q#.i <== L; _ <== q#.o;", "L", "L"), ("component q# = A(); q#.i <-- L * a * b; _ <== q#.o; _ <== q#.i;", "", ""), ("[L, a] === [b, c];", "L", "L"), ("_ <== V()([a, L]);", "L", "L"), ("z[#] <== n * L - L;", "", "L"), ("{ signal y#; y# <== L; }", "L", "L"),
]
WHOLE = ["_ <== X;", "X ==> _;"]


def used(st, leaf, n):
    return [leaf] if st[n] else []


def leaves_of(o, whole):
    w = OBJ[o][4][whole]
    return OBJ[o][2] if w == "all" else w


def bodies(deep):
    """(object, text, leaves used for n = 1, for n = 2)"""
    out = []
    for o, (decl, init, leaves, sub, wholes) in OBJ.items():
        head = "%s %s" % (decl, init.replace("NQ", NQ))
        st = [(("signal z#; " if "z[#]" in s[0] else "") + s[0].replace("L", l).replace("z[#]", "z#"), [l] if s[1] else [], [l] if s[2] else []) for l in leaves for s in ONE]
        st += [(s.replace("X", w), leaves_of(o, w), leaves_of(o, w)) for w in wholes for s in WHOLE]
        out.append((o, head, [], []))
        for s in st:
            out.append((o, head + " " + s[0].replace("#", "0"), s[1], s[2]))
        every = st if deep else st[::5] + st[-2:]
        for k, s in enumerate(st if deep else st[::2]):
            for t in every if deep else every[k % 3::3]:
                a, b = s[0].replace("#", "0"), t[0].replace("#", "1")
                out.append((o, head + " { " + a + " } { " + b + " }", s[1] + t[1], s[2] + t[2]))
    return out


HEADER = "template T%d(n) { signal input a; signal input b; signal input c; a === b; b === c; %s }\n"


def expected(o, k, n, use):
    """the warnings of the instance T<k>(n): how many signals of each array are in no constraint, and which"""
    groups = {}
    for l in OBJ[o][2]:
        if l not in use:
            groups.setdefault(re.sub(r"\[\d+\]", "", l[l.rfind(".") + 1:]) if "." not in l else l[:l.rfind(".") + 1] + re.sub(r"(\[\d+\])+$", "", l[l.rfind(".") + 1:]), []).append(l)
    return {("T%d(%d)" % (k, n), "sub" if OBJ[o][3] else "local", g, frozenset(ls)) for g, ls in groups.items()}


def parse(text):
    """[(template, kind, array, number, names)] of the warnings on constraints, and the places of the others"""
    text = circom.ANSI.sub("", text)
    out, lines = [], []
    for block in re.split(r"(?=^warning\[|^error\[)", text, flags=re.M):
        m = re.match(r'warning\[CA0[12]\]: In template "(.*?)": (.*?)(?:$|\n)', block)
        if m:
            kind = "sub" if "ubcomponent" in m.group(2) else "local"
            many = re.search(r"signals (\S+) contains a total\s+of (\d+) ", m.group(2))
            if many:
                names = re.search(r"For example: (.*)\.", block).group(1).split(", ")
                out.append((m.group(1), kind, many.group(1), int(many.group(2)), names))
            else:
                nm = re.search(r"signal (\S+) does not", m.group(2)).group(1)
                out.append((m.group(1), kind, None, 1, [nm]))
        elif block.startswith("warning[T3002]"):
            nm = re.search(r"assignment of the positions (.*?) satisfy", block, re.S)
            ln = re.search(r'"m.circom":(\d+):', block)
            lines.append((int(ln.group(1)), tuple(nm.group(1).split(", ")) if nm else None))
        elif block.startswith(("warning", "error")):
            lines.append((-1, block[:300]))
    return out, lines


def batch(items):
    src = LIB + "".join(HEADER % (k, it[1]) for k, it in enumerate(items))
    src += "template M() { signal input a; component t[%d];\n" % (3 * len(items))
    for k, (o, text, _, _) in enumerate(items):
        for j, n in enumerate((1, 2, 1)):
            c = "component t%d_%d = T%d(%d); " % (k, j, k, n)
            c += "".join("t%d_%d.%s <== a; " % (k, j, x) for x in "abc")
            if "input" in o and "component" not in o:
                c += "".join("t%d_%d.%s <== a; " % (k, j, l) for l in OBJ[o][2])
            if "output" in o:
                c += "_ <== t%d_%d.x; " % (k, j)
            src += c + "\n"
    src = src.replace("component t[%d];" % (3 * len(items)), "") + "}\ncomponent main = M();\n"
    d = circom.scratch()
    try:
        r = circom.run(BIN, src, ["--r1cs", "--inspect", "--O0"], d)
        if not r.ok:
            if len(items) > 1:
                h = len(items) // 2
                return batch(items[:h]) or batch(items[h:])
            return "compilation of " + items[0][1], {"rc": r.rc, "stderr": r.err[-500:], "source": src}
        got, _ = parse(r.text)
        got_c = Counter(g[0] + " " + g[1] + " " + (g[2] or g[4][0]) for g in got)
        exp = {}
        for k, (o, _, u1, u2) in enumerate(items):
            for n, u in ((1, u1), (2, u2)):
                for t, kind, g, ls in expected(o, k, n, u):
                    exp["%s %s %s" % (t, kind, g if len(ls) > 1 else min(ls))] = (k, ls)
        for key in sorted(set(got_c) | set(exp)):
            if got_c[key] != (1 if key in exp else 0):
                k = exp[key][0] if key in exp else int(re.match(r"T(\d+)", key).group(1)) if key.startswith("T") else 0
                return "%s: %s" % (items[k][0], items[k][1]), {"warning": key, "times": got_c[key], "expected": 1 if key in exp else 0, "unused": sorted(exp[key][1]) if key in exp else None, "source": LIB + HEADER % (k, items[k][1])}
        for t, kind, g, num, names in got:
            k, ls = exp["%s %s %s" % (t, kind, g or names[0])]
            if num != len(ls) or not set(names) <= ls or len(set(names)) != min(2, num):
                return "%s: %s" % (items[k][0], items[k][1]), {"warning": (t, kind, g, num, names), "unused": sorted(ls), "source": LIB + HEADER % (k, items[k][1])}
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- <-- that may be <==
EXPR = ["3", "a", "n", "a + b", "a * b", "a * b + c", "(a + b) * (c + 1) - a", "a * b + b * c", "a * b * c", "a * b * c * 0", "a * b * (c - c)", "a / 4", "a * b / 4", "4 / a", "a / b", "a \\ 2", "5 \\ 2 + a", "a % 2", "a ** 1", "a ** 2", "a ** 3", "3 ** n", "n ** a",
        "a < b", "n < 2", "a == b", "n == 1", "-a", "-(a * b)", "!a", "~a", "a & 1", "a >> 1", "a << 1", "n << 1", "a && b", "n == 1 ? a : a * b * c", "n == 2 ? a : a * b * c", "a == 1 ? b : c", "lin(a)", "sqr(a)", "cub(a)", "lin(a * b)", "sqr(a + b)", "cub(n)", "v[0]", "v[n]", "v[a]", "t", "w", "q.o"]
PRE = "var t = a * b; var w = 1; if (n == 1) { w = a; } else { w = a * b * c; } component q = A(); q.i <== b;"
# targets of one signal: declaration, statement
TARGET = [
    ("signal x;", "x OP E;"), ("signal x[2];", "x[n - 1] OP E;"), ("B() x;", "x.w OP E;"), ("B() x[2];", "x[n - 1].u OP E;"), ("component x = A();", "x.i OP E;"), ("component x[2]; x[0] = A(); x[1] = A(); x[1].i <== 1;", "x[0].i OP E;"), ("signal output x;", "x OP E;"),
    ("signal x; signal y;", "(x, y) OP (E, PO);"), ("signal x;", "E RO x;"), ("", "signal x OP E;"), ("signal x;", "if (n < 3) { x OP E; }"), ("signal x[2];", "for (var i = 0; i < 2; i++) { x[i] OP E; }"), ("component x = W(); x.i.w <== 1;", "x.i.u OP E;"), ("component x = parallel V(); x.i[0] <== 3;", "x.i[1] OP E;"),
]


def program(decl, st, e, op, n):
    # the statement is alone in its line, which is the third last
    st = st.replace("OP", op).replace("RO", {"<--": "-->", "<==": "==>"}[op]).replace("PO", "a * b * c" if op == "<--" else "a")
    return LIB + "template M(n) { signal input a; signal input b; signal input c; signal input v[2]; %s %s\n%s\n}\ncomponent main = M(%d);\n" % (PRE, decl, st.replace("E", e), n)


def arrow(job):
    decl, st, e, n = job
    d = circom.scratch()
    try:
        ok = circom.run(BIN, program(decl, st, e, "<==", n), ["--r1cs"], d)
        src = program(decl, st, e, "<--", n)
        r = circom.run(BIN, src, ["--r1cs", "--inspect"], d)
        if not r.ok:
            if ok.ok or r.panicked:
                return "%s %s: the compilation" % (st, e), {"rc": r.rc, "stderr": r.err[-400:], "source": src}
            return None
        _, lines = parse(r.text)
        line = src.count("\n") - 2
        got = {l for l in lines if l[0] == line}
        want = {(line, None)} if ok.ok else set()
        if got != want or any(l[0] not in (line, -1) for l in lines):
            return "%s with %s, n = %d" % (st, e, n), {"warned": bool(got), "accepted with <==": ok.ok, "lines": str(lines)[:300], "stderr_of_<==": ok.err[-200:], "source": src}
    finally:
        shutil.rmtree(d, ignore_errors=True)


ARR = ["3", "a * b", "a * b * c", "a / 4", "a < b", "4 / a", "t", "w"]
ARRAYS = [("signal x[2];", "x OP [E0, E1];", ["x[0]", "x[1]"]), ("component x = V();", "x.i OP [E0, E1];", ["x.i[0]", "x.i[1]"]), ("N() x;", "x.t OP [E0, E1];", ["x.t[0]", "x.t[1]"]), ("signal x[2][2];", "x[1] OP [E0, E1];", ["x[1][0]", "x[1][1]"]),
          ("signal x[2]; var y[2]; y[0] = E0; y[1] = E1;", "x OP y;", ["x[0]", "x[1]"]), ("signal x[2][2];", "x OP [[E0, E1], [E1, E0]];", ["x[0][0]", "x[0][1]", "x[1][0]", "x[1][1]"]), ("component x[2]; x[0] = V(); x[1] = V(); x[0].i <== v;", "x[1].i OP [E0, E1];", ["x[1].i[0]", "x[1].i[1]"])]


def array(job):
    decl, st, names, e0, e1, n = job
    d = circom.scratch()
    try:
        oks = []
        for e in (e0, e1):
            oks.append(circom.run(BIN, program("signal x;", "x OP E;", e, "<==", n), ["--r1cs"], d).ok)
        oks = [oks[0], oks[1], oks[1], oks[0]][:len(names)]
        f = lambda t: t.replace("E0", e0).replace("E1", e1)
        src = program(f(decl), f(st), "", "<--", n)
        r = circom.run(BIN, src, ["--r1cs", "--inspect"], d)
        if not r.ok:
            return "%s with %s, %s: the compilation" % (st, e0, e1), {"rc": r.rc, "stderr": r.err[-400:], "source": src}
        _, lines = parse(r.text)
        line = src.count("\n") - 2
        got = [l for l in lines if l[0] == line]
        want = [] if not any(oks) else [(line, None)] if all(oks) else [(line, tuple(x for x, o in zip(names, oks) if o))]
        if [(l, p and tuple(sorted(p))) for l, p in got] != [(l, p and tuple(sorted(p))) for l, p in want]:
            return "%s with %s, %s, n = %d" % (st, e0, e1, n), {"warned": str(got), "expected": str(want), "source": src}
    finally:
        shutil.rmtree(d, ignore_errors=True)


UNKNOWN = ["if (a == 1) { x <-- E; }", "if (n == 1) { } else { x <-- a * b * c; } if (a == 1) { if (n == 1) { x <-- E; } }", "if (n == 7) { x <-- E; }", "if (a == 1) { } else { x <-- E; }"]


def unknown(job):
    st, e = job
    d = circom.scratch()
    try:
        src = program("signal x;", st, e, "<--", 1)
        r = circom.run(BIN, src, ["--r1cs", "--inspect"], d)
        _, lines = parse(r.text)
        if not r.ok or any(l[0] > 0 for l in lines):
            return "%s with %s" % (st, e), {"rc": r.rc, "lines": str(lines)[:300], "why": "<== is not allowed there, or it is not executed", "stderr": r.err[-300:], "source": src}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN
    ck = Check("C32")
    BIN = build.circom()
    b = bodies(ck.thorough)
    ns = (1, 2)
    arrows = [(d, s, e, n) for j, (d, s) in enumerate(TARGET) for i, e in enumerate(EXPR) for n in ns]
    arrays = [(d, s, names, x, y, n) for d, s, names in ARRAYS for x, y in itertools.product(ARR, repeat=2) for n in (ns if ck.thorough or "w" in (x, y) else (1,))]
    unk = [(s, e) for s in UNKNOWN for e in EXPR if e != "v[a]"]
    for f, jobs, c in ((batch, [b[i:i + 40] for i in range(0, len(b), 40)], 1), (arrow, arrows, 10), (array, arrays, 10), (unknown, unk, 10)):
        for r in pmap(f, jobs, chunksize=c):
            if r:
                ck.violation(*r)
    n = 2 * len(b) + 2 * len(arrows) + 3 * len(arrays) + len(unk)
    ck.add(states=n, transitions=n, traces_validated_against_impl=len(b) // 40 + 2 * len(arrows) + 3 * len(arrays) + len(unk), templates=len(b), assignments=len(arrows) + len(arrays) + len(unk))
    ck.cov["rule"] = "a state is an instance of a template whose signals are used by the statements enumerated (its warnings compared with the signals that the statements leave in no constraint), or an assignment with <-- (warned if and only if the same program with <== is accepted)"
    ck.sample({"template": b[len(b) // 2][1], "used for n = 1": b[len(b) // 2][2]})
    ck.sample({"assignment": arrows[100]})
    ck.finish()
