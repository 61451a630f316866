"""C31: anonymous components, tuples and shorthands mean the components, declarations and assignments they abbreviate."""
import itertools, re, shutil
from collections import Counter
from mc import build, circom, wasmrun
from mc.par import pmap
from mc.report import Check

BIN = None
LIB = """pragma circom 2.2.0;
bus B() { signal w; signal u; }
template Mul() { signal input q; signal input b; signal output o; o <== (q + 2) * b; }
template Add(k) { signal input x; signal output y; y <== x * k + 3; }
template Sum(n) { signal input v[n]; signal output s; var t = 0; for (var i = 0; i < n; i++) { t += (i + 2) * v[i]; } s <== t; }
template Pair() { signal input z; signal input a; signal output o[2]; o[0] <== z * a; o[1] <== z - a; }
template Two() { signal input x; signal output z; signal output a; z <== x * x; a <== x + 5; }
template Ord() { signal output m; signal input k; signal input c; signal output z; signal input d; signal output a; m <== k * c; z <== c - d; a <== d + k * 2; }
template Mk() { signal input z; signal input a; output B() o; o.w <== z * 7; o.u <== a * z; }
template Un() { input B() i; signal output o; o <== i.w * i.u + i.w; }
template Mix(k) { signal input s; input B() g; signal input e[2]; signal output r; output B() h; signal output f[2]; r <== s * k; h.w <== g.u; h.u <== g.w * s; f[0] <== e[1] * s; f[1] <== e[0] + s; }
template No() { signal input x; signal y; y <== x * x; }
template Const(k) { signal output c; c <== k; }
template Ign(k) { signal output c; signal input x; c <== k; }
"""
# template: kinds of the inputs in the order of declaration, names of the inputs, of the outputs and their kinds
T = {
    "Mul": ("ss", ["q", "b"], ["o"], "s"), "Add": ("s", ["x"], ["y"], "s"), "Sum": ("v", ["v"], ["s"], "s"), "Pair": ("ss", ["z", "a"], ["o"], "v"),
    "Two": ("s", ["x"], ["z", "a"], "ss"), "Ord": ("sss", ["k", "c", "d"], ["m", "z", "a"], "sss"), "Mk": ("ss", ["z", "a"], ["o"], "b"), "Un": ("b", ["i"], ["o"], "s"),
    "Mix": ("sbv", ["s", "g", "e"], ["r", "h", "f"], "sbv"), "No": ("s", ["x"], [], ""), "Const": ("", [], ["c"], "s"), "Ign": ("s", ["x"], ["c"], "s"),
}
PARAM = {"Add": ["2", "@ + 1"], "Sum": ["2"], "Mix": ["3"], "Const": ["@ + 4"], "Ign": ["6"]}


def call(t, args, param=None, named=None, par=False):
    return ("call", t, PARAM[t][0] if param is None and t in PARAM else (param or ""), tuple(args), named, par)


def calls(t, choices, variants=True):
    """the calls of t with the arguments given; with names in every order, and parallel"""
    out = []
    for args in choices:
        for p in PARAM.get(t, [""]):
            out.append(call(t, args, p))
        if variants:
            out.append(call(t, args, par=True))
            for perm in itertools.permutations(range(len(args))):
                if args:
                    out.append(call(t, args, named=perm))
    return out


def sugar(e):
    if e[0] == "leaf":
        return e[1]
    if e[0] == "arr":
        return "[" + ", ".join(map(sugar, e[1])) + "]"
    if e[0] == "tup":
        return "(" + ", ".join(map(sugar, e[1])) + ")"
    _, t, p, args, named, par = e
    names = T[t][1]
    a = [sugar(x) for x in args]
    a = ", ".join("%s <== %s" % (names[i], a[i]) for i in named) if named is not None else ", ".join(a)
    return "%s%s(%s)(%s)" % ("parallel " if par else "", t, p, a)


class Expand:
    def __init__(self, size):
        self.size, self.n, self.decl = size, 0, []

    def __call__(self, e):
        """(statements, values) of e: an array literal has one value, a tuple one per element of it"""
        if e[0] == "leaf":
            return [], [e[1]]
        if e[0] in ("arr", "tup"):
            st, vals = [], []
            for x in e[1]:
                s, v = self(x)
                st += s
                vals += v
            return st, ["[" + ", ".join(vals) + "]"] if e[0] == "arr" else vals
        _, t, p, args, named, par = e
        c = "zz_%s_%d" % (t, self.n)
        self.n += 1
        self.decl.append("component %s%s;" % (c, "[%d]" % self.size if self.size else ""))
        if self.size:
            c += "[@]"
        st = ["%s = %s%s(%s);" % (c, "parallel " if par else "", t, p)]
        for name, x in zip(T[t][1], args):
            s, v = self(x)
            assert len(v) == 1
            st += s + ["%s.%s <== %s;" % (c, name, v[0])]
        return st, ["%s.%s" % (c, o) for o in T[t][2]]


def leaf(x):
    return ("leaf", x)


def grammar(thorough):
    S0 = [leaf("a"), leaf("b + 1"), leaf("v[@]"), leaf("7")]
    V0, B0 = [leaf("vv"), ("arr", (S0[0], S0[2]))], [leaf("p"), leaf("pp[@]")]
    few = S0 if thorough else S0[:1] + S0[2:3]
    S1 = calls("Mul", itertools.product(S0, repeat=2)) + calls("Add", [[x] for x in S0]) + calls("Sum", [[x] for x in V0]) + calls("Un", [[x] for x in B0]) + calls("Const", [[]], False) + calls("Ign", [[S0[0]]])
    V1 = calls("Pair", itertools.product(few, repeat=2)) + [("arr", (x, y)) for x in [call("Mul", S0[:2]), S0[1]] for y in [call("Add", S0[:1]), call("Const", []), S0[0]]]
    B1 = calls("Mk", itertools.product(few, repeat=2))
    s1 = [call("Mul", [S0[1], S0[0]]), call("Add", S0[2:3], "@ + 1"), call("Sum", V0[1:]), call("Un", B0[:1]), call("Const", []), call("Mul", S0[:2], named=(1, 0)), call("Add", S0[:1], par=True)]
    if thorough:
        s1 = S1[::3] + s1
    S2 = calls("Mul", [(x, y) for x in s1 for y in s1 + few] + [(y, x) for x in s1 for y in few]) + calls("Add", [[x] for x in s1]) + calls("Sum", [[x] for x in V1]) + calls("Un", [[x] for x in B1]) + calls("Ign", [[x] for x in s1])
    V2 = calls("Pair", [(x, y) for x in s1 for y in few] + [(y, x) for x in s1 for y in few])
    B2 = calls("Mk", [(x, y) for x in s1 for y in s1])
    s2 = [call("Mul", [s1[0], s1[1]]), call("Sum", [V1[0]]), call("Un", [B1[-1]]), call("Sum", [("arr", (s1[0], s1[3]))])]
    S3 = calls("Mul", [(x, y) for x in s2 for y in s2 + s1]) + calls("Add", [[x] for x in S2[::7]], False)
    N = [c for c in calls("No", [[x] for x in S0 + s1 + s2]) if not c[5]]      # "parallel No()(x);" is not a statement
    T2 = [("tup", (x, y)) for x in few + s1 for y in few + s1] + calls("Two", [[x] for x in S0 + s1 + s2])
    T3 = calls("Ord", itertools.product(few, repeat=3)) + calls("Ord", [(x, S0[1], y) for x in s1 for y in s2 + s1]) + [("tup", (x, t)) for x in few + s1[:2] for t in calls("Two", [[s1[0]]]) + [("tup", (S0[0], s1[1]))]] \
        + [("tup", (t, x)) for x in few + s1[:2] for t in calls("Two", [[s1[0]]])]
    TM = calls("Mix", [(s, g, e) for s in [S0[0], s1[0]] for g in [B0[1], B1[0]] for e in [V0[0], V0[1], V1[0], V1[-1]]])
    TM += [("tup", (s, g, e)) for s in [S0[0], s1[0]] for g in [B0[0], B0[1], B1[0]] for e in [V0[0], V1[0], V1[-1]]]
    return {"s": S0[:2] + S1 + S2 + S3, "v": V0 + V1 + V2, "b": B0 + B1 + B2, "n": N, "2": T2, "3": T3, "m": TM}


# statements: the kind of expression, and the text with X for it (E1, E2, … for its values in the expansion); the second text is the expansion
ANY = [
    ("s", "x[@] <== X;", "x[@] <== E1;"), ("s", "X ==> x[@];", "x[@] <== E1;"), ("s", "_ <== X;", ""), ("v", "y[@] <== X;", "y[@] <== E1;"), ("v", "X ==> y[@];", "y[@] <== E1;"),
    ("b", "z[@] <== X;", "z[@] <== E1;"), ("n", "X;", ""), ("s", "m[@] = Mul(); m[@].q <== X; b ==> m[@].b; x[@] <== m[@].o;", "m[@] = Mul(); m[@].q <== E1; b ==> m[@].b; x[@] <== m[@].o;"),
    ("2", "(x[@], y[@][1]) <== X;", "x[@] <== E1; y[@][1] <== E2;"), ("2", "(_, x[@]) <== X;", "x[@] <== E2;"), ("2", "(x[@], _) <== X;", "x[@] <== E1;"), ("2", "X ==> (x[@], xx[@]);", "x[@] <== E1; xx[@] <== E2;"),
    ("2", "m[@] = Mul(); (m[@].b, m[@].q) <== X; x[@] <== m[@].o;", "m[@] = Mul(); m[@].b <== E1; m[@].q <== E2; x[@] <== m[@].o;"), ("2", "(z[@].u, z[@].w) <== X;", "z[@].u <== E1; z[@].w <== E2;"),
    ("3", "(x[@], y[@][0], y[@][1]) <== X;", "x[@] <== E1; y[@][0] <== E2; y[@][1] <== E3;"), ("3", "(x[@], (_, xx[@])) <== X;", "x[@] <== E1; xx[@] <== E3;"), ("3", "X ==> ((xx[@], x[@]), _);", "xx[@] <== E1; x[@] <== E2;"),
    ("m", "(x[@], z[@], y[@]) <== X;", "x[@] <== E1; z[@] <== E2; y[@] <== E3;"), ("m", "(_, z[@], y[@]) <== X;", "z[@] <== E2; y[@] <== E3;"), ("m", "X ==> (x[@], z[@], _);", "x[@] <== E1; z[@] <== E2;"),
]
ONCE = [
    ("s", "signal l <== X; x[@] <== l * 2;", "signal l; l <== E1; x[@] <== l * 2;"), ("v", "signal l[2] <== X; x[@] <== l[1];", "signal l[2]; l <== E1; x[@] <== l[1];"), ("b", "B() l <== X; x[@] <== l.u;", "B() l; l <== E1; x[@] <== l.u;"),
    ("2", "signal (l, k) <== X; x[@] <== l + k * 2;", "signal l; signal k; l <== E1; k <== E2; x[@] <== l + k * 2;"), ("3", "signal (l, j, k) <== X; x[@] <== l + k * 2;", "signal l; signal j; signal k; l <== E1; j <== E2; k <== E3; x[@] <== l + k * 2;"),
    ("s", "signal (l, k) <== (X, a); x[@] <== l + k * 2;", "signal l; signal k; l <== E1; k <== a; x[@] <== l + k * 2;"),
]
PLAIN = [       # statements without anonymous components
    ("(x[@], xx[@]) <-- (a * b * v[0], b / a);", "x[@] <-- a * b * v[0]; xx[@] <-- b / a;"), ("(a * b * v[0], b) --> (x[@], _); xx[@] <== x[@];", "x[@] <-- a * b * v[0]; xx[@] <== x[@];"),
    ("var q; var r; (q, r) = (2, 5); x[@] <== a * q + r;", "var q = 2; var r = 5; x[@] <== a * q + r;"), ("var (q, r) = (2, 5); x[@] <== a * q + r;", "var q = 2; var r = 5; x[@] <== a * q + r;"),
    ("var (q, r) = (2, 5); (q, r) = (r, q); x[@] <== a * q + r;", "var q = 2; var r = 5; q = r; r = q; x[@] <== a * q + r;"), ("var q[2]; var r; (q[1], _, r) = (a, 1, b); x[@] <== q[1] + 3 * r;", "var q[2]; var r; q[1] = a; r = b; x[@] <== q[1] + 3 * r;"),
    ("(m[@], m2[@]) = (Mul(), Mul()); (m[@].q, m2[@].b) <== (a, b); (m[@].b, m2[@].q) <== (b, m[@].o); x[@] <== m2[@].o;", "m[@] = Mul(); m2[@] = Mul(); m[@].q <== a; m2[@].b <== b; m[@].b <== b; m2[@].q <== m[@].o; x[@] <== m2[@].o;"),
]
PLAIN += [("var q = 13; var s[3]; s[1] = 13; s[2] = b; q %s= 3; s[1] %s= 3; x[@] <== a * q + s[0] + s[1] * 2 + s[2];" % (o, o), "var q = 13; var s[3]; s[1] = 13; s[2] = b; q = q %s (3); s[1] = s[1] %s (3); x[@] <== a * q + s[0] + s[1] * 2 + s[2];" % (o, o))
          for o in ["+", "-", "*", "/", "\\", "%", "**", "<<", ">>", "&", "|", "^"]]
PLAIN += [("var q = 13; var s = 2; q %s= s + 1; x[@] <== a * q;" % o, "var q = 13; var s = 2; q = q %s (s + 1); x[@] <== a * q;" % o) for o in ["+", "-", "*", "/", "\\", "%", "**", "<<", ">>", "&", "|", "^"]]
PLAIN += [
    ("var q = 2, r, s[2], t = q * 3; r++; s[1]++; s[0]--; t--; x[@] <== a * q + r + s[0] + 2 * s[1] + 5 * t;", "var q; var r; var s[2]; var t; q = 2; r = 0; s[0] = 0; s[1] = 0; t = q * 3; r = r + 1; s[1] = s[1] + 1; s[0] = s[0] - 1; t = t - 1; x[@] <== a * q + r + s[0] + 2 * s[1] + 5 * t;"),
    ("var q = a, r = q * b, s[2] = [r, q]; x[@] <== s[0] + 3 * s[1];", "var q; var r; var s[2]; q = a; r = q * b; s = [r, q]; x[@] <== s[0] + 3 * s[1];"),
    ("var s; for (var w = 1, u = 2; w + u < 9; w += u) { s += w * a; u++; } x[@] <== s;", "var s; { var w; var u; w = 1; u = 2; while (w + u < 9) { { s = s + w * a; u = u + 1; } w = w + u; } } x[@] <== s;"),
    ("var s; var w = 4; for (w = 6; w > 2; w--) s += w * a; x[@] <== s + w;", "var s; var w = 4; { w = 6; while (w > 2) { { s = s + w * a; } w = w - 1; } } x[@] <== s + w;"),
    ("var s = 1; for (var w = 0; w < 3; w++) { for (var u = w; u < 3; u++) { s *= 2; s += u; } } x[@] <== s * a;", "var s = 1; { var w = 0; while (w < 3) { { var u = w; while (u < 3) { s = s * 2; s = s + u; u = u + 1; } } w = w + 1; } } x[@] <== s * a;"),
    ("var s = 3; if (s == 3) if (s == 4) s = 7; else s = 9; x[@] <== s * a;", "var s = 3; if (s == 3) { if (s == 4) { s = 7; } else { s = 9; } } x[@] <== s * a;"),
    ("var s = 3; if (s == 3) s = 5; else if (s == 5) s = 8; else s = 1; x[@] <== s * a;", "var s = 3; if (s == 3) { s = 5; } else { if (s == 5) { s = 8; } else { s = 1; } } x[@] <== s * a;"),
    ("a * b --> x[@]; xx[@] <-- a; b + 1 ==> y[@][0]; y[@][1] <== a;", "x[@] <-- a * b; xx[@] <-- a; y[@][0] <== b + 1; y[@][1] <== a;"),
]
PLAIN_ONCE = [
    ("signal l <== a, k <== l * b, g <== k + 1; x[@] <== g;", "signal l; signal k; signal g; l <== a; k <== l * b; g <== k + 1; x[@] <== g;"), ("signal l, k[2], g; k <== [a, b]; l <== k[0]; g <== k[1]; x[@] <== g;", "signal l; signal k[2]; signal g; k <== [a, b]; l <== k[0]; g <== k[1]; x[@] <== g;"),
    ("signal l <-- a, k[2] <-- [l * b, b]; x[@] <== l + k[1]; xx[@] <== k[0];", "signal l; signal k[2]; l <-- a; k <-- [l * b, b]; x[@] <== l + k[1]; xx[@] <== k[0];"), ("B l, k[2]; l <== p; k[0] <== l; k[1] <== k[0]; x[@] <== k[1].u;", "B() l; B() k[2]; l <== p; k[0] <== l; k[1] <== k[0]; x[@] <== k[1].u;"),
    ("B() l <== p, k <== l; x[@] <== k.u;", "B() l; B() k; l <== p; k <== l; x[@] <== k.u;"), ("B l <-- p, k[2] <-- [l, p]; x[@] <== k[0].u;", "B() l; B() k[2]; l <-- p; k[0] <-- l; k[1] <-- p; x[@] <== k[0].u;"),
    ("component c = Add(2), d[2], e = Add(3); c.x <== a; e.x <== c.y; x[@] <== e.y; d[0] = Add(4); d[0].x <== 1; d[1] = Add(4); d[1].x <== a;", "component c; component d[2]; component e; c = Add(2); e = Add(3); c.x <== a; e.x <== c.y; x[@] <== e.y; d[0] = Add(4); d[0].x <== 1; d[1] = Add(4); d[1].x <== a;"),
    ("signal (l, k[2]) <== (a, [b, a]); x[@] <== l + k[0] * 3;", "signal l; signal k[2]; l <== a; k <== [b, a]; x[@] <== l + k[0] * 3;"), ("signal (l, k) <-- (a, b * a); x[@] <== l; xx[@] <== k;", "signal l; signal k; l <-- a; k <-- b * a; x[@] <== l; xx[@] <== k;"), ("signal (l, k); l <== a; k <== l; x[@] <== k;", "signal l; signal k; l <== a; k <== l; x[@] <== k;"),
    ("var (l, k[2]) = (a, [b, 3]); x[@] <== l + k[0] * 3 + k[1];", "var l; var k[2]; l = a; k = [b, 3]; x[@] <== l + k[0] * 3 + k[1];"), ("component (c[2], d); c[0] = Add(2); d = Add(3); c[1] = Add(5); (c[0].x, d.x, c[1].x) <== (a, b, 1); x[@] <== c[0].y + d.y * 2 + c[1].y * 3;", "component c[2]; component d; c[0] = Add(2); d = Add(3); c[1] = Add(5); c[0].x <== a; d.x <== b; c[1].x <== 1; x[@] <== c[0].y + d.y * 2 + c[1].y * 3;"),
] + [("component (c, d) = (Mul(), Add(4)); (c.q, c.b, d.x) <== (a, b, c.o); x[@] <== d.y;", "component c = Mul(); component d = Add(4); c.q <== a; c.b <== b; d.x <== c.o; x[@] <== d.y;")]
# contexts: index of the loop, number of instances, text with # for the statement and ! for a second one
CONTEXTS = {
    "top": ("1", 0, "#"), "block": ("2", 0, "{ { var k = 2; } # }"), "if": ("n", 0, "if (n == 1) { # } else { x[0] <== a; }"), "else": ("3", 0, "if (n != 1) { x[0] <== b; } else { # }"),
    "for": ("i", 4, "for (var i = 0; i < 3; i++) { # }"), "while": ("k", 4, "var k = 2; while (k >= n) { # k--; }"), "nested": ("2 * i + j", 4, "for (var i = 0; i < 2; i++) { for (var j = 0; j < 2; j++) { # } }"),
    "triangle": ("j", 4, "for (var i = 3; i < 4; i++) { for (var j = 0; j <= i; j++) { if (j % 2 == 1) { # } else { x[j] <== j * a; } } }"), "empty": ("i", 4, "for (var i = 0; i < n; i++) { for (var j = 1; j < i; j++) { # } # }"),
    "loops": ("i", 4, "for (var i = 0; i < 2; i++) { # } for (var i = 2; i < 4; i++) { # }"), "loop, if": ("i", 4, "for (var i = 0; i < 4; i++) { if (i == n) { # } else { if (i > n) { # } } }"),
}
# in "empty" the inner loop has no iterations for the values of n used (i < n = 1), and in loops and "loop, if" the copies are different components


def fill(ctx, once, kind, e, st, ex):
    """(sugar, expansion) of the statement in a context"""
    idx, size, text = CONTEXTS[ctx]
    exp = Expand(size)
    stext = text.replace("#", st.replace("X", sugar(e)) if e else st)
    parts = text.split("#")
    etext = parts[0]
    for part in parts[1:]:
        if e:
            pre, vals = exp(e)
            body = " ".join(pre) + " " + re.sub(r"E(\d)", lambda m: vals[int(m.group(1)) - 1], ex)
        else:
            body = ex
        etext += body + part
    return stext.replace("@", idx), (" ".join(exp.decl) + " " + etext).replace("@", idx)


HEADER = "template %s(n) { signal input a; signal input b; signal input v[4]; signal input vv[2]; input B() p; input B() pp[4]; signal x[4]; signal xx[4]; signal y[4][2]; B() z[4]; component m[4]; component m2[4]; %s }\n"


def source(items):
    src, main = LIB, "template M() { signal input i[16];\n"
    for k, (_, s, e) in enumerate(items):
        src += HEADER % ("S%d" % k, s) + HEADER % ("E%d" % k, e)
        for c in "se":
            nm = "%s%d" % (c, k)
            main += "component %s = %s%d(1); %s.a <== i[0]; %s.b <== i[1]; for (var k = 0; k < 4; k++) { %s.v[k] <== i[2 + k]; %s.pp[k].u <== i[8 + k]; %s.pp[k].w <== i[12 + k]; } for (var k = 0; k < 2; k++) { %s.vv[k] <== i[6 + k]; } %s.p.u <== i[15]; %s.p.w <== i[14];\n" % (
                nm, c.upper(), k, nm, nm, nm, nm, nm, nm, nm, nm)
    return src + main + "}\ncomponent main = M();\n"


def canon(part):
    m = re.match(r"^(?:zz_(\w+)_\d+|([A-Z]\w*)_\d+_\d+)(?:\[\d+\])?$", part)
    return "%" + (m.group(1) or m.group(2)) if m else part


INPUTS = [{"i": [str(3 + 7 * k * k + k) for k in range(16)]}, {"i": [str(2 ** (k + 3) + 5 * k + 1) for k in range(16)]}]


def compare(items):
    """None or (name of the item, detail)"""
    src = source(items)
    d = circom.scratch()
    try:
        r = circom.run(BIN, src, ["--r1cs", "--wasm", "--sym", "--O0"], d, timeout=120)
        w = wasmrun.witnesses(d, "m", INPUTS) if r.ok else None
        if not r.ok or any("w" not in x for x in w):
            if len(items) > 1:
                h = len(items) // 2
                return compare(items[:h]) or compare(items[h:])
            # which of the two?
            only = LIB + HEADER % ("S0", items[0][1]) + "component main = S0(1);\n"
            return items[0][0], {"rc": r.rc, "stderr": r.err[-600:], "witness": str(w)[:200], "source": src, "sugar_alone": circom.run(BIN, only, ["--r1cs"], d).rc}
        w = [x["w"] for x in w]
        cons = circom.read_r1cs(d + "/m.r1cs")
        wires = {}
        names = {"s": {}, "e": {}}
        for label, wi, node, nm in circom.read_sym(d + "/m.sym"):
            parts = nm.split(".")
            m = re.match(r"^([se])(\d+)$", parts[1]) if len(parts) > 2 else None
            if m:
                rest = [canon(x) for x in parts[2:]]
                key = (".".join(rest), w[0][wi], w[1][wi])
                names[m.group(1)].setdefault(int(m.group(2)), Counter())[key] += 1
                wires[wi] = (m.group(1), int(m.group(2)), key)
        sets = {"s": {}, "e": {}}
        for con in cons.constraints:
            ws = {x for lc in con for x in lc if x in wires}
            owners = {wires[x][:2] for x in ws}
            glue = any(x not in wires and x != 0 for lc in con for x in lc)
            if glue:
                continue        # inputs of the templates
            if len(owners) > 1:
                return "constraints between templates", {"source": src}
            if not owners:
                continue
            c, k = owners.pop()
            norm = tuple(tuple(sorted(((wires[x][2] if x in wires else ("1",)), v) for x, v in lc.items())) for lc in con)
            sets[c].setdefault(k, Counter())[norm] += 1
        for k, it in enumerate(items):
            for what, tab in (("signals", names), ("constraints", sets)):
                s, e = tab["s"].get(k, Counter()), tab["e"].get(k, Counter())
                if s != e:
                    return it[0], {"difference": what, "only_sugar": [str(x)[:400] for x in list((s - e))[:4]], "only_expansion": [str(x)[:400] for x in list((e - s))[:4]], "sugar": it[1], "expansion": it[2], "source": source([it])}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def programs(thorough):
    G = grammar(thorough)
    out = []
    for ctx, (idx, size, text) in CONTEXTS.items():
        once = text.count("#") == 1 and not size
        base = ctx in ("top", "for")
        for j, (kind, st, ex) in enumerate(ANY + (ONCE if once else [])):
            es = G[kind]
            # every expression with the first statement of each kind in the contexts top and for; elsewhere one in every few
            first = next(k for k, s in enumerate(ANY) if s[0] == kind) == j
            step = 1 if thorough or (ctx == "top" and first) else 2 if base and first else 7 if base else 12
            for e in es[j % step::step] if step > 1 else es:
                s, x = fill(ctx, once, kind, e, st, ex)
                out.append(("%s: %s" % (ctx, st.replace("X", sugar(e))), s, x))
        for st, ex in PLAIN + (PLAIN_ONCE if once else []):
            s, x = fill(ctx, once, None, None, st, ex)
            out.append(("%s: %s" % (ctx, st), s, x))
    return out


def main():
    global BIN
    ck = Check("C31")
    BIN = build.circom()
    items = programs(ck.thorough)
    size = 24
    jobs = [items[i:i + size] for i in range(0, len(items), size)]
    n = 0
    for job, bad in pmap(work, jobs, chunksize=1):
        n += len(job)
        ck.add(states=2 * len(job), transitions=2 * len(job) * len(INPUTS), traces_validated_against_impl=2 * len(job) * len(INPUTS))
        if bad:
            ck.violation(bad[0], bad[1])
    for k in (len(items) // 3, len(items) // 2):
        ck.sample({"sugar": items[k][1], "expansion": items[k][2]})
    ck.cov["templates_with_sugar"] = n
    ck.cov["rule"] = "a state is a template (with sugar or expanded), a transition its execution on one of two inputs; signals with both values and constraints over them compared as multisets"
    ck.finish()


def work(job):
    return job, compare(job)
