"""Exhaustively enumerated families of small programs over two arguments x and y.

Each program is the text of a body that computes a value; `kind` is "f" when it needs to be a function (early return).
"""
import itertools
from . import field

HELP = """
function g(v) { var r[3]; for (var i = 0; i < 3; i++) { r[i] = v[2-i] + i; } return r; }
function h(m) { var t[3] = m[0]; m[0] = m[1]; m[1] = t; return m; }
function sum(v) { var s = 0; for (var i = 0; i < 3; i++) { s += v[i]; } return s; }
function fact(n) { if (n == 0) { return 1; } else { return n * fact(n-1); } }
function fib(n) { if (n < 2) return n; return fib(n-1) + fib(n-2); }
function gcd(a,b) { while (b != 0) { var t = a % b; a = b; b = t; } return a; }
function even(n) { if (n == 0) { return 1; } return odd(n-1); }
function odd(n) { if (n == 0) { return 0; } return even(n-1); }
function pick(a,b,c) { return a == 0 ? b : c; }
function clob(a) { a = a + 1; { var a = 5; a += 1; } return a; }
function mat(a,b) { var m[2][2] = [[a,b],[b,a+1]]; return m; }
function tr(m) { return m[0][0] * 7 + m[0][1] * 5 + m[1][0] * 3 + m[1][1]; }
function two(a) { var r[2] = [a+1, a*3]; var z[3] = [91, 92, a]; if (z[2] == 1) { r[1] = z[0]; } return r; }
function four(a) { var r[4] = [a, a+2, 4, a*a]; return r; }
function tall(a) { var r[3][2] = [[a, 31], [a+2, 33], [34, a*5]]; if (a == 2) { r[1][0] = r[2][1]; } return r; }
function last(v, n) { var s = 0; for (var i = 0; i < n; i++) { s = s*5 + v[i]; } return s; }
function swap(c) { var t[2][2] = c[0]; c[0] = c[1]; c[1] = t; return c; }
function face(c, k) { return c[k]; }
function plane(c, k) { var r[2][2]; for (var i = 0; i < 2; i++) { r[i] = c[i][k]; } return r; }
"""

SCALAR = [
    "a = a + 1;",
    "b = a * 2;",
    "a = b;",
    "if (a < b) { a = b + 1; }",
    "if (x == 1) { a = 5; } else { b = 7; }",
    "for (var i = 0; i < 3; i++) { a += b + i; }",
    "while (b > 3) { b = b \\ 2; a += 1; }",
    "{ var a = 9; b += a; }",
    "a = (b != 0) ? a + 3 : x;",
    "for (var i = 0; i < 2; i++) { if (i == x) { b += 10; } else { a -= 1; } }",
    "{ a = 3; { var b = a; a = b + 4; } b++; }",
    "b--; a *= 2;",
    "if (a == b) if (x == y) a = 1; else b = 2;",
    "a &= 6; b |= x;",
    "var c = a; a = b; b = c;",
    "if (a > b && x != 2 || !(y == 0)) { a ^= 5; }",
]
RET = [
    "if (y > 2) return a;",
    "for (var i = 0; i < 4; i++) { if (i * x > y) return i + 100; a += i; }",
    "if (x == y) { return b; } else { a = a + b; }",
    "while (a < 5) { if (b == 1) { return 77; } a++; }",
]
ARR = [
    "v[0] = y;",
    "v[k] = 7;",
    "w = v;",
    "m[0] = v;",
    "m[1] = w;",
    "m[k] = v;",
    "v = m[k];",
    "v = m[1];",
    "m[k][2] = x;",
    "m[1][k+1] = v[k];",
    "w[v[2] & 1] = 3;",
    "for (var i = 0; i < 3; i++) { w[i] = v[2-i]; }",
    "m = [v, w];",
    "v = [w[1], v[0], 5];",
    "v[k] += w[k+1];",
    "w = g(v);",
    "m = h(m);",
    "if (k == 1) { v = w; } else { w[1] = 8; }",
    "{ var v[3] = w; v[1] = 4; w[0] = v[1] + 1; }",
    "k = 1 - k;",
]
# arrays assigned to arrays of other lengths
LEN = [
    "p = q;", "p = r;", "q = p;", "q = r;", "r = p;", "r = q;", "n[0] = p;", "n[k] = r;", "p = n[k];", "r = n[1];",
    "p = four(y);", "q = two(x);", "q = four(x);", "r = two(y);", "n[k] = two(y);", "n[1] = four(x);", "r = [y, 7];", "p = [1, x, y];", "q = g(q);",
    "p[0] = last(r, 4) + last(p, 2);", "{ var e[2] = q; var z = 5; p = e; r[2] += e[1] + z; }", "{ var e[4] = p; r = e; q[1] = e[1]; }", "k = 1 - k;",
    "for (var i = 0; i < 2; i++) { n[i] = i == k ? four(i) : four(y); }",
    # inner dimensions
    "n = tall(x);", "{ var t[2][2] = n; t[k][1] = 77; n = t; }", "{ var t[3][4] = tall(y); n = t; p = t[2]; }", "{ var t[3][2] = n; var z = 5; t[2] = t[k]; n = t; q[0] += z; }", "n = [[x], [4, 5, 6, 7]];", "n = [[k, 1, 2, y], q, r];",
]
# arrays of three dimensions
CUBE = [
    "c[0][k] = d;", "c[k][1] = c[1-k][0];", "c[k] = c[1-k];", "d = c[k][j];", "c[j][k][k] = y;", "c[1] = [d, c[0][0]];", "c = swap(c);", "c[j] = face(c, k);", "c[0] = plane(c, j);", "d = face(c[j], 1);",
    "d[k] = c[k][j][1-k];", "e = c[j];", "c[1] = e;", "e[k] = d;", "k = 1 - k;", "j = d[0] & 1;", "for (var i = 0; i < 8; i++) { c[i\\4][i\\2%2][i%2] += i*k; }", "c = [e, [d, e[j]]];", "{ var f[2][2][2] = c; f[k][0] = d; c[j] = f[k]; }", "d = plane(c, k)[0];".replace("plane(c, k)[0]", "[c[0][k][0], c[1][0][j]]"),
]
SC_PRE = "var a = x; var b = y; "
SC_POST = "a + 1000 * b"
AR_PRE = "var v[3] = [x, y, 1]; var w[3]; var m[2][3] = [[1,2,3],[4,5,6]]; var k = x & 1; "
AR_POST = "v[0] + 2*v[1] + 4*v[2] + 100*w[0] + 300*w[1] + 900*w[2] + 10000*m[0][0] + 20000*m[0][1] + 40000*m[0][2] + 1000000*m[1][0] + 3000000*m[1][1] + 7000000*m[1][2]"


LEN_PRE = "var p[2] = [x, y]; var q[3] = [x+1, y+2, 5]; var r[4] = [9, x, 8, y]; var n[2][3] = [[x, 2, 3], [4, y, 6]]; var k = x & 1; "
LEN_POST = " + ".join("%d*%s" % (c, v) for c, v in zip((1, 3, 7, 20, 50, 100, 300, 1000, 5000, 20000, 90000, 300000, 1000003, 7000001, 90000007), ["p[0]", "p[1]"] + ["q[%d]" % i for i in range(3)] + ["r[%d]" % i for i in range(4)] + ["n[%d][%d]" % (i, j) for i in range(2) for j in range(3)]))
CUBE_PRE = "var c[2][2][2] = [[[1, x], [3, y]], [[x+5, 6], [y*7, 8]]]; var d[2] = [y, x]; var e[2][2] = [[10, x], [12, 13]]; var k = x & 1; var j = y & 1; "
CUBE_POST = "d[0] + 3*d[1] + " + " + ".join("%d*c[%d][%d][%d]" % (10 + 11 ** (i + 1), i // 4, i // 2 % 2, i % 2) for i in range(8)) + " + 17*e[0][1] + 1019*e[1][0]"


def rename(seq):
    """each occurrence of a statement that declares c at the same level declares its own variable"""
    out = []
    for j, s in enumerate(seq):
        out.append(s.replace("var c = a; a = b; b = c;", "var c%d = a; a = b; b = c%d;" % (j, j)))
    return " ".join(out)


def scalar(depth):
    for n in range(1, depth + 1):
        for seq in itertools.product(SCALAR, repeat=n):
            yield ("f", "scalar", SC_PRE + rename(seq), SC_POST)


def early(depth):
    al = SCALAR + RET
    for n in range(1, depth + 1):
        for seq in itertools.product(al, repeat=n):
            if any(s in RET for s in seq):
                yield ("r", "early", SC_PRE + rename(seq), SC_POST)


def arrays(depth):
    for n in range(1, depth + 1):
        for seq in itertools.product(ARR, repeat=n):
            yield ("f", "arrays", AR_PRE + " ".join(seq), AR_POST)


def lens(depth):
    for n in range(1, depth + 1):
        for seq in itertools.product(LEN, repeat=n):
            yield ("f", "lens", LEN_PRE + " ".join(seq), LEN_POST)


def cubes(depth):
    for n in range(1, depth + 1):
        for seq in itertools.product(CUBE, repeat=n):
            yield ("f", "cubes", CUBE_PRE + " ".join(seq), CUBE_POST)


WRAP = [
    "if (x < 2) { %s }",
    "if (a == y) { %s } else { b += 3; }",
    "if (b > a) { b = 1; } else { %s }",
    "for (var @ = 0; @ < 3; @++) { %s }",
    "for (var @ = 2; @ > 0; @--) { a += @; %s }",
    "var @ = 0; while (@ < x) { if (@ > 3) { @ = x; } @++; %s }",
    "{ var a = b; %s b = a + 1; }",
]
LEAF = ["a = a * 2 + 1;", "b += a;", "if (a != b) { a++; }", "var b = 4; a += b;", "{ var t = a; a = b; b = t; }"]
RLEAF = ["return a + 5;", "if (b == 2) return b;"]


def nest(depth, leaves, ret):
    for d in range(1, depth + 1):
        for ws in itertools.product(WRAP, repeat=d):
            for l in leaves:
                s = l
                for j, w in enumerate(reversed(ws)):
                    s = w.replace("@", "i%d" % j).replace("%s", s)
                yield ("r" if ret else "f", "nest", SC_PRE + s, SC_POST)


def nested(depth):
    yield from nest(depth, LEAF, False)


def nested_ret(depth):
    yield from nest(depth, RLEAF, True)


LOOPY = [
    "while (n < 4 && C) { n++; a += E; }",
    "while (n < 4 ? C : 0) { n++; b += E; }",
    "while ((n < 4 ? C : 0) == 1) { a += E; n++; }",
    "while (n < 3 && C) n += 1 + 0 * E;",
    "for (var i = 0; i < 3; i++) a += E;",
    "if (C) a = E; else b = E;",
    "if (C) { a = E + 1; } else if (E == 2) b = E; else b = 1 + E;",
    "if (!(C)) { if (x == y) a = E; }",
    "a = C ? E : b;",
    "b = 3 + (C ? E : a) * 2;",
    "{ var v[2] = C ? [E, a] : [b, E + 1]; v = [v[1], v[0]]; a = v[0]; b = v[1] + E; }",
]
COND = ["clob(a) < 10", "(a < 5 ? sum([a, 1, b]) : clob(b)) < 12", "clob(clob(a)) != 7", "sum(g([a, b, 1])) < 20 && a < 9", "gcd(a & 15, b & 7) != 1", "(clob(a) == 3 ? clob(b) : a) == b"]
EXPR = ["clob(a)", "sum(g([a, b, 1]))", "(a == 1 ? clob(b) : 3)", "(b + clob(a) * 2)", "gcd(b & 15, 6)"]


def conds(depth):
    """calls, arrays and ternaries inside conditions, branches and unbraced bodies"""
    pre, post = SC_PRE + "var n = 0; ", "a + 1000 * b + 100000 * n"
    one = [t.replace("C", c).replace("E", e) for t in LOOPY for c in COND for e in EXPR]
    for s in one:
        yield ("f", "conds", pre + s, post)
    if depth > 1:
        few = [t.replace("C", c).replace("E", e) for t in LOOPY for c in COND[:2 if depth == 2 else 4] for e in EXPR[1:3 if depth == 2 else 5]]
        for s1 in few:
            for s2 in few:
                yield ("f", "conds", pre + s1 + " " + s2, post)


KNOWN = [
    "while (j < x) { a = a * 3 + E; j++; }",
    "for (var i = 0; i < 3; i++) { if (x == i) { a += E; } else { j++; } }",
    "for (var i = 0; i < x; i++) { b += E; a = i; }",
    "if (x == 1) { a = y; } b = E;",
    "for (var i = 0; i < 2; i++) { b += E; a = x; }",
    "for (var i = 0; i < 3; i++) { b = b * 2 + E; if (i == 1) { j = y; } }",
    "for (var i = 0; i < 2; i++) { v[E & 1] = 7 + i; k = x & 1; a += 1; }",
    "for (var i = 0; i < 2; i++) { b += E; v = [y, a, b]; }",
    "for (var i = 0; i < 2; i++) { if (E == 1) { b += 5; } else { b += a; j = y; } a = y; j++; }",
    "for (var i = 0; i < 2; i++) { var t = E; b = t * 7 + b; a = x; k = 1; }",
    "{ var w[3] = v; for (var i = 0; i < 2; i++) { w[i] = E; a = w[y & 1]; } v = w; }",
    "for (var i = 0; i < 2; i++) { b = b * 3 + (a == 1 ? E : 2); a += x; }",
    "for (var i = 0; i < 2; i++) { b = b * 3 - (i == 0 ? a : E); a = y; }",
    "for (var i = 0; i < 2; i++) { m[i] = [E, a]; a = x; j = y; }",
    "while (j < 2) { b += E; if (y == 2) { j = 3; } else { j++; } }",
    "a += E; { var a = x; b += E; a = E; b += a; } k = 1;",
]
KEXPR = ["j", "(j == 1 ? y : j)", "(a < 3 ? b : 7)", "(a == 1 ? (b == 2 ? 5 : x) : 9)", "v[j & 1]", "(a * 2 + b)", "clob(a)", "(j == 0 ? clob(b) : sum(v))", "sum([a, j, 1])", "gcd(a & 7, 4)", "tr(m)", "(b == 2 && a != 1 ? m[k][1] : v[k])", "(k == 0 ? 3 : (j < 1 ? y : clob(j)))", "pick(j, a, b)"]


def known(depth):
    """variables that start with known values: what is computed at compile time must hold every time"""
    pre, post = "var a = 1; var b = 2; var j = 0; var k = 0; var v[3] = [1, 2, 3]; var m[2][2] = [[4, 5], [6, 7]]; ", "a + 300 * b + 70000 * j + 1000003 * v[0] + 11000003 * v[1] + 130000001 * v[2] + 700000001 * m[0][0] + 1900000001 * m[0][1] + 23000000001 * m[1][0] + 310000000001 * m[1][1]"
    for s in KNOWN:
        for e in KEXPR:
            yield ("f", "known", pre + s.replace("E", e), post)
    if depth > 1:
        few = [s.replace("E", e) for j, s in enumerate(KNOWN) for e in (KEXPR if depth > 2 else [KEXPR[(3 * j + i) % len(KEXPR)] for i in range(3)])]
        for s1 in few:
            for s2 in few:
                yield ("f", "known", pre + s1 + " " + s2, post)


def exprs():
    ops = [o for o in field.BINOPS if o not in ("/", "\\", "%")]
    # every pair of operators in both shapes, and unary operators around them
    for o1 in ops:
        for o2 in ops:
            yield ("f", "expr", "", "(x %s y) %s (x + 3)" % (o1, o2))
            yield ("f", "expr", "", "(x + 3) %s (y %s x)" % (o1, o2))
    for u1 in field.UNOPS:
        for o1 in ops:
            yield ("f", "expr", "", "%s(x %s y)" % (u1, o1))
            yield ("f", "expr", "", "(%sx) %s (%sy)" % (u1, o1, u1))
            for u2 in field.UNOPS:
                yield ("f", "expr", "", "%s(%s(x) %s y)" % (u1, u2, o1))
    for o1 in ("/", "\\", "%"):
        for d in ("(y*y+1)", "(y == 0 ? 3 : y)", "7"):
            for n in ("x", "(x-y)", "(x*y+5)"):
                yield ("f", "expr", "", "%s %s (%s == 0 ? 1 : %s)" % (n, o1, d.replace("?", "?") if "?" not in d else "y", d if "?" not in d else "3"))
    for c in ("x", "x == y", "x < y && y != 2", "!x"):
        for a in ("y", "x+1", "fact(3)"):
            for b in ("x", "y*y", "sum([x,y,1])"):
                yield ("f", "expr", "var r = %s ? %s : %s; " % (c, a, b), "r * 3 + 1")


def calls(depth, recursion=True):
    lvl = [["x & 3", "y & 3"]]
    for d in range(depth):
        prev = lvl[-1] if d == 0 else lvl[-1]
        cur = []
        for e in prev:
            if recursion:
                cur += ["fact((%s) & 7)" % e, "fib((%s) & 7)" % e, "even((%s) & 7)" % e]
            cur += ["clob(%s)" % e, "sum(g([%s, 1, x]))" % e, "tr(mat(%s, y))" % e]
        for e1 in (prev if d == 0 else prev[::5]):
            for e2 in (prev if d == 0 else prev[::7]):
                cur += ["gcd((%s) & 255, (%s) & 255)" % (e1, e2), "pick(%s, %s, x)" % (e1, e2), "pick(x, %s, %s)" % (e1, e2), "tr(mat(%s, %s)) + g([%s, %s, 2])[0]" % (e1, e2, e2, e1) if False else "(%s) * 3 + (%s)" % (e1, e2)]
        lvl.append(cur)
    for l in lvl[1:]:
        for e in l:
            yield ("f", "calls", "", e)


def family(name, d):
    return {"scalar": scalar, "early": early, "arrays": arrays, "lens": lens, "cubes": cubes, "nested": nested, "nested_ret": nested_ret, "conds": conds, "known": known, "calls": lambda d: calls(d, False), "recursion": calls}[name](d) if name != "exprs" else exprs()


def function_text(name, prog):
    _, _, body, ret = prog
    return "function %s(x, y) { %sreturn %s; }" % (name, body, ret)


def template_text(name, prog):
    _, _, body, ret = prog
    return "template %s() { signal input x; signal input y; signal output o; %so <-- %s; }" % (name, body, ret)


def values(p):
    return [0, 1, 2, 3, 5, p - 1]
