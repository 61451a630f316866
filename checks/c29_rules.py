"""C29: the static rules hold in every position: a program that breaks one anywhere is rejected, the correct one accepted."""
import itertools, os, shutil
from mc import build, circom
from mc.par import pmap
from mc.report import Check

BIN = None
HEAD = """pragma circom 2.2.0;
bus B(k) { signal u; signal w[k]; }
function f(x) { return x + 1; }
function g(x, y) { return x[0] + y; }
function h(n) { var r[2] = [n, n + 1]; return r; }
template A(k) { signal input x; signal output y; y <== x + k; }
template A2(k) { signal input x; signal input z[2]; signal output y; signal output t[2]; y <== x + k; t <== z; }
template E(k) { signal output y; y <== k; }
template P() { input B(2) p; output B(2) q; q <== p; }
"""
ENV = "var s = 1; var v[2] = [1, 1]; signal z1[2]; z1 <== [a, a]; component k = A(1); k.x <== a; component kk[2]; kk[0] = A(1); kk[1] = A(2); kk[0].x <== a; kk[1].x <== a; component k2 = A2(1); k2.x <== a; k2.z <== [a, a]; B(2) bb; bb.u <== a; bb.w <== [a, 2]; "
FENV = "var s = 1; var v[2] = [1, 1]; "
# positions of an expression; @ is the expression, # a fresh number. f: also in a function, b: in a bus, d: declares signals or components
# a: arrays are accepted too
EXPR = {
    "var init": ("var x# = @;", "fb"), "var array init": ("var x#[2] = [@, 1];", "fb"), "var array second": ("var x#[2] = [1, @];", "fb"), "inner array": ("var x#[2][1] = [[1], [@]];", "fb"),
    "var size": ("var x#[@];", "fb"), "var second size": ("var x#[2][@];", "fb"), "second var": ("var x#, y# = @;", "fb"), "var tuple": ("var (x#, y#) = (1, @);", "f"),
    "signal size": ("signal x#[@]; x#[0] <== a;", "d"), "component size": ("component x#[@]; x#[0] = E(1);", "d"), "bus size": ("B(1) x#[@]; x#[0].u <== a; x#[0].w[0] <== a;", "d"), "bus parameter": ("B(@) x#; x#.u <== a; x#.w[0] <== a;", "d"),
    "signal init": ("signal x# <== @;", "d"), "signal init hint": ("signal x# <-- @;", "d"), "array signal init": ("signal x#[2] <== [a, @];", "d"),
    "assignment": ("s = @;", "fb"), "plus": ("s += @;", "fb"), "times": ("s *= @;", "fb"), "element": ("v[0] = @;", "fb"), "element index": ("v[@] = 1;", "fb"), "element index plus": ("v[@] += 1;", "fb"), "whole array": ("v = [@, 1];", "fb"), "read index": ("s = v[@];", "fb"),
    "left operand": ("s = @ + 1;", "fb"), "right operand": ("s = 1 * @;", "fb"), "power": ("s = 2 ** @;", "fb"), "compared": ("s = 1 < @;", "fb"), "equal": ("s = @ == 1;", "fb"), "and": ("s = 1 && @;", "fb"), "or": ("s = @ || 1;", "fb"), "bits": ("s = (@ ^ 1) | 3;", "fb"), "shift": ("s = 4 >> @;", "fb"),
    "minus": ("s = -@;", "fb"), "not": ("s = !@;", "fb"), "complement": ("s = ~@ & 1;", "fb"), "parentheses": ("s = ((@));", "fb"),
    "condition": ("s = @ ? 1 : 2;", "fb"), "then": ("s = 1 == 1 ? @ : 2;", "fb"), "else": ("s = 1 == 2 ? @ : 2;", "fb"),
    "argument": ("s = f(@);", "fb"), "second argument": ("s = g(v, @);", "fb"), "in array argument": ("s = g([@, 2], 1);", "fb"), "nested argument": ("s = f(f(1 + @));", "fb"),
    "if": ("if (@) { s = 1; }", "fb"), "if else": ("if (s == 5) { s = 1; } else if (@ == 1) { s = 3; } else { s = 1; }", "fb"), "while": ("var i# = 0; while (i# < @) { i# += 1; }", "fb"), "for init": ("for (var i# = @; i# < 2; i#++) { s = 1; }", "fb"), "for bound": ("for (var i# = 0; i# < @; i#++) { s = 1; }", "fb"),
    "for step": ("for (var i# = 0; i# < 1; i# += @) { s = 1; }", "fb"), "log": ("log(@);", "fb"), "log second": ("log(\"x\", s, @);", "fb"), "assert": ("assert(@);", "fb"), "assert compared": ("assert(1 == @);", "fb"),
    "template argument": ("component x# = E(@);", "d"), "component array index": ("component x#[2]; x#[@] = E(2);", "d"), "component index read": ("s = kk[@ - 1].y;", ""), "input index": ("component x# = A2(1); x#.x <== a; x#.z[@ - 1] <== a; x#.z[1] <== a;", "d"),
    "component argument later": ("component x#; x# = E(@);", "d"), "output index": ("s = k2.t[@];", ""), "bus index": ("s = bb.w[@];", ""), "signal index": ("s = z1[@];", ""), "signal lhs index": ("signal x#[2]; x#[@] <== a;", "d"), "signal lhs hint index": ("signal x#[2]; x#[@] <-- a;", "d"), "bus lhs index": ("B(2) x#; x#.w[@] <== a;", "d"),
    "input": ("component x# = A(1); x#.x <== @;", "d"), "reverse": ("component x# = A(1); @ ==> x#.x;", "d"), "input hint": ("component x# = A(1); x#.x <-- @ * a;", "d"),
    "left side": ("@ === 1;", ""), "right side": ("a === a * @;", ""), "constraint index": ("z1[@] === a;", ""),
    "anonymous parameter": ("signal x# <== A(@)(a);", "d"), "anonymous input": ("signal x# <== A(1)(@);", "d"), "anonymous named input": ("signal x# <== A(1)(x <== @);", "d"), "anonymous of anonymous": ("signal x# <== A(1)(A(1)(@));", "d"), "anonymous in tuple": ("signal x#, y#[2]; (x#, y#) <== A2(1)(@, [a, a]);", "d"), "anonymous array": ("signal x#, y#[2]; (x#, y#) <== A2(1)(a, [@, a]);", "d"), "ignored": ("_ <== @;", ""), "tuple": ("signal x#, y#; (x#, y#) <== (a, @);", "d"),
    "parallel": ("component x# = parallel E(@);", "d"),
}
GOOD = ["1", "s", "f(0)", "v[1]", "v[v[0]]", "(s == 1 ? 1 : 2)", "g([1, 2], 0)", "n"]
# expressions that break a rule; t: only in templates (they use what ENV declares there)
BAD = {
    "zz": "", "zz[0]": "", "zz(1)": "", "f()": "", "f(1, 2)": "", "f(zz)": "", "v[zz]": "", "1 + zz": "", "E(1)": "", "A(1)": "", "B(1)": "", "zz.x": "", "s.x": "", "s[0]": "", "v[0][0]": "", "f": "", "E": "", "B": "",
    "(zz == 1 ? 1 : 1)": "", "(1 == 1 ? 1 : zz)": "", "g([1, zz], 1)": "", "g(1, 1)": "", "f(v)": "", "f([1])": "", "v[v]": "", "v + 1": "", "1 - v": "", "-v": "", "!v": "", "v == v": "", "(v && 1)": "", "(1 == 1 ? v : 1)": "", "(v ? 1 : 1)": "", "[1, [2, 3]][0]": "", "f(f)": "", "h(1)[0]": "", "v.length": "", "g(v)": "", "g(v, v)": "", "f(1)(2)": "",
    "k.zz": "t", "k": "t", "kk[0]": "t", "k.y[0]": "t", "k.y.u": "t", "k[0].y": "t", "kk.zz": "t", "bb.zz": "t", "bb.u[0]": "t", "a[0]": "t", "z1[0][0]": "t", "a.u": "t", "bb + 1": "t", "k + 1": "t", "z1 + 1": "t", "f(bb)": "t", "f(k)": "t", "k(1)": "t", "bb[0]": "t", "kk[kk]": "t", "v[bb]": "t", "v[k]": "t", "kk[0][0].y": "t", "bb.w[0][0]": "t", "bb.w.u": "t", "k2.t.u": "t", "f(z1)": "t", "a + z1": "t", "-bb": "t", "z1 == 1": "t",
}
# arrays where a number is expected
ARRAYS = {"v": "", "[1, 2]": "", "h(1)": "", "z1": "t", "k2.t": "t", "bb": "t", "bb.w": "t", "kk.y": "t", "kk": "t", "k2": "t"}
TAKES_ARRAY = {"var init", "second var", "var tuple", "signal init", "signal init hint", "assignment", "element", "var array init", "var array second", "inner array", "whole array", "array signal init", "then", "else", "argument", "second argument", "in array argument", "log", "log second",
               "template argument", "component argument later", "parallel", "input", "reverse", "left side", "anonymous parameter", "anonymous input", "anonymous named input", "anonymous of anonymous", "anonymous in tuple", "anonymous array", "ignored", "tuple", "parentheses", "bus parameter"}
# rules about names and arities, which are also checked in templates and functions that are not used
NAMES = [
    "zz", "zz[0]", "zz(1)", "f()", "f(1, 2)", "f(zz)", "v[zz]", "1 + zz", "E(1)", "A(1)", "B(1)", "zz.x", "f", "E", "B", "(zz == 1 ? 1 : 1)", "(1 == 1 ? 1 : zz)", "g([1, zz], 1)", "[1, [2, 3]][0]", "f(f)", "h(1)[0]", "g(v)",
    "f(1)(2)",
]
# statements: T in templates, F in functions, TF in both
GOOD_STMT = {
"T": [
    "signal q; q <== a;", "var q = 1; { var q = 2; s = q; }", "component q = A(1); q.x <== a;", "signal q[2] <== [a, a];", "B(2) q <== bb;", "var (q, r) = (1, 2);", "s = 3; a === z1[0];", "_ <== a;", "_ <== A(1)(a);",
    "log(a, \"x\", s);", "z1 === [a, a];", "bb === bb;", "v = [3, 4];", "assert(a == a);", "var q[2] = h(1);", "signal q; signal r[2]; (q, r) <== A2(1)(a, z1);", "signal q; (q, _) <== A2(1)(a, z1);", "_ <== bb;",
    "component q; q = A(n); q.x <== a;", "signal {t} q; q.t = 1; q <== a;", "component q[2]; for (var i = 0; i < 2; i++) { q[i] = A(i); q[i].x <== a; }", "B(2) q; q.u <== a; q.w <== z1;", "component q = P(); q.p <== bb;",
    "signal q; q <-- a; q === a;",
],
"F": [
    "var q = 1; { var q = 2; s = q; }", "return 1;", "var (q, r) = (1, 2); s = q + r;", "s += 1; s++; s--;", "log(s);", "assert(s == s);", "var q[2] = h(1); s = q[0];", "v = [3, 4];",
    "if (s == 77) { return 4; } else { return 5; }", "n = 1;",
],
}
BAD_STMT = {
"TF": [
    "var q; var q;", "var q = 1; var q = 2;", "var q; var q[2];", "{ var q = 1; } s = q;", "for (var q = 0; q < 1; q++) { s = 1; } s = q;", "if (s == 1) { var q = 1; s = q; } else { s = q; }", "s = q; var q = 1;", "zz = 1;",
    "zz += 1;", "zz++;", "zz[0] = 1;", "v[0][0] = 1;", "s[0] = 1;", "s.x = 1;", "v.x = 1;", "v = 1;", "v += 1;", "v++;", "v += v;", "v[0] = v;", "v[0] = [1, 2];", "s = v;", "s += v;", "s = h(1);", "var q = v;", "var q[2] = 1;",
    "var q[2] = [[1, 2], [3, 4]];", "var q[2][1] = v;", "var (q, r) = (1, 2, 3);", "var (q, q) = (1, 2);", "(s, zz) = (1, 2);", "(s, s) = 1;", "s = (1, 2);", "f = 1;", "f(1) = 1;", "E = 1;", "s = A(1);", "var q = E(1);",
    "s = B(1);", "s = _;", "s = _ + 1;", "_ = _;", "f(1, 2);", "s = f;", "zz(1);", "var f() = 1;", "return;", "if (v) { s = 1; }", "while (v) { s = 1; }", "for (var i = v; i < 1; i++) { s = 1; }", "assert(v);", "assert(zz);",
    "log(zz);", "log(v);", "s = \"x\";", "s = 1 +;", "s = [1, [2]][0];", "break;", "s =< 1;", "var 1q;", "s = 1 = 2;", "1 = s;", "s + 1;", "s;", "var x y;", "{ s = 1;", "} s = 1;", "var q = 1 s = 2;", "v = [];",
    "var q[0][1] = [];", "s = (;", "s = $;",
],
"T": [
    "return 1;", "signal q; signal q;", "signal q; var q;", "var q; signal q;", "component q; component q;", "component q; var q;", "var q; B(2) q;", "{ signal q; q <== a; } s = 0; q === 1;",
    "if (n == 1) { component q = A(1); q.x <== a; } s = 1; q.y === 1;", "s <== 1;", "s <== a;", "s <-- 1;", "v <== [a, a];", "v[0] <== 1;", "v[0] <-- a;", "n <== 1;", "n <-- 1;", "z1[0] = 1;", "o = 1;", "a = 1;", "bb.u = a;",
    "k.x = 1;", "k.y = 1;", "k = 1;", "k <== A(1);", "k <-- A(1);", "component q = 1;", "component q = a;", "component q = f(1);", "component q = zz(1);", "component q = B(1);", "component q <== A(1);", "component q <-- A(1);",
    "component q = A();", "component q = A(1, 2);", "component q = A;", "component q; q = A(1)(a);", "component q = A(zz);", "component q; q[0] = A(1);", "component q[1]; q = A(1);", "component q[1]; q[0][0] = A(1);", "k += 1;",
    "z1[0] += 1;", "z1[0]++;", "bb = 1;", "bb = bb;", "bb <== a;", "bb.w <== bb;", "bb.u <== z1;", "bb.zz <== a;", "bb <-- a;", "B(1) q <== bb; s = 1; B(2) r <== q + 1;", "P() q;", "A(1) q;", "B() q;", "B(1, 2) q;", "zz(1) q;",
    "B(zz) q;", "B q;", "k.y <== a;", "k.y <-- a;", "k.zz <== a;", "k.y.u <== a;", "k2.z <== a;", "k.x <== z1;", "k2.z[0] <== z1;", "k.x[0] <== a;", "z1 <== a;", "z1[0] <== z1;", "a === z1;", "bb === a;", "bb === z1;", "v === 1;",
    "v === z1[0];", "k === 1;", "k === k;", "1 === k;", "zz === 1;", "1 === zz;", "f === 1;", "A(1) === 1;", "bb.w === bb.u;", "signal q = 1;", "signal q <== z1;", "signal q[2] <== a;", "signal q[2] <== bb;",
    "signal q[2] <== [[a], [a]];", "signal q[zz];", "signal q[v];", "signal output input q;", "signal q, q;", "signal (q, r) <== (a, a, a);", "signal (q, q) <== (a, a);", "signal {t} {r} q;", "signal {zz, 1} q;",
    "(z1, zz) <== (z1, a);", "(s, k.x) <== (a, a);", "A(1)(a, a) ==> _;", "_ <== A(1)();", "_ <== A(1)(a, a);", "_ <== A(1)(zz <== a);", "_ <== A(1)(x <== a, x <== a);", "_ <== A(1)(x = a);", "_ <== A()(a);", "_ <== A(1, 2)(a);",
    "_ <== zz(1)(a);", "_ <== f(1)(a);", "_ <== B(1)(a);", "_ <== A(1)(z1);", "_ <== A(1)(bb);", "_ <== A2(1)(a, a);", "_ <== A2(1)(a);", "_ <== A2(1)(x <== a);", "s <== A(1)(a);", "signal q; q <-- A(1)(a);",
    "signal q; signal r; (q, r) <== A2(1)(a, z1);", "signal q; q <== A2(1)(a, z1);", "signal q; signal r[2]; signal t; (q, r, t) <== A2(1)(a, z1);", "signal q; (q, _, _) <== A2(1)(a, z1);", "P()(bb) === 1;", "_ === a;", "a === _;",
    "a <== _;", "k.x <== _;", "z1[zz] <== a;", "z1[v] <== a;", "z1[0].u <== a;", "a.u <== a;", "k[0].x <== a;", "kk.x <== a;", "kk[0].zz <== a;", "kk[0][0].x <== a;", "kk[0] = k;", "k = k;", "component q = k;", "var q = k;",
    "s = k;", "s = kk[0];", "s = bb;", "s = z1;", "v = bb;", "signal q <== k;", "signal q <== bb;", "signal q <== kk[0];", "a ==> s;", "a --> s;", "1 ==> 1;", "a ==> a + 1;", "f(a) <== a;", "a + 1 <== a;", "a * 2 --> z1;",
    "log(bb);", "log(k);", "log(z1);", "assert(bb);", "if (bb) { s = 1; }", "if (k) { s = 1; }", "for (var i = 0; i < bb; i++) { s = 1; }", "signal q; q.t = 1;", "signal {t} q; q.t = bb; q <== a;",
    "signal {t} q; q.t = z1; q <== a;", "signal {t} q; q.r = 1; q <== a;", "signal {t} q; q.t <== 1; q <== a;", "a.t = 1;", "k.x.t = 1;", "component parallel q = A(1);", "parallel A(1);", "component q = parallel A;",
    "component q = parallel 1;", "component q = parallel f(1);", "s = parallel 1;",
],
"F": [
    "signal q;", "signal input q;", "signal q <== 1;", "component q;", "component q = A(1);", "B(1) q;", "s <== 1;", "s <-- 1;", "v <== v;", "1 ==> s;", "1 --> s;", "s === 1;", "v === v;", "n === n;", "var q = A(1)(1);",
    "s = A(1)(1);", "_ <== 1;", "_ <-- 1;", "_ <== A(1)(1);", "(s, n) <== (1, 2);", "(s, n) <-- (1, 2);", "var q; q.t = 1;", "return A(1);", "return zz;", "return B(1);", "return E;", "return _;", "return \"x\";", "return;",
    "return (1, 2);", "return [[1], 2];",
],
}
# positions of a statement
STMT = {
    "top": "@", "block": "{ @ }", "if": "if (n == 1) { @ }", "else": "if (n == 2) { s = 1; } else { @ }", "untaken": "if (n == 2) { @ }", "untaken else": "if (n == 1) { s = 1; } else { @ }",
    "loop": "for (var j = 0; j < 1; j++) { @ }", "while": "var w = 0; while (w < 1) { w += 1; @ }", "never": "for (var j = 0; j < 0; j++) { @ }", "nested": "if (n == 1) { for (var j = 0; j < 1; j++) { if (j == 0) { { @ } } } }", "after": "if (n == 1) { s = 1; } { var s = 2; s += 1; } @",
    "nested if": "if (n == 1) { if (s == 1) { s = 1; } else { s = 1; } if (s == 1) { @ } }",
}


def program(where, stmt):
    """the statement in the body of ..."""
    s = stmt.replace("#", "7")
    body = "template M() { signal input a; signal output o; component c = T(1); c.a <== a; o <== c.o; %s }\ncomponent main = M();\n"
    t = "template T(n) { signal input a; signal output o; o <== a; %s }\n"
    if where == "template":
        return HEAD + t % (ENV + s) + body % ""
    if where == "unused template":
        return HEAD + t % "" + "template U(n) { signal input a; " + ENV + s + " }\n" + body % ""
    if where == "function":
        return HEAD + "function q(n) { " + FENV + s + " return s; }\n" + t % "var e = q(n);" + body % ""
    if where == "unused function":
        return HEAD + "function q(n) { " + FENV + s + " return s; }\n" + t % "" + body % ""
    if where == "run-time function":
        return HEAD + "function q(n, m) { " + FENV + s + " return s + m; }\n" + t % "signal e <-- q(1, a);" + body % ""
    if where == "bus":
        return HEAD + "bus Q(n) { " + FENV + s + " signal d; }\n" + t % "Q(1) e; e.d <== a;" + body % ""
    if where == "unused bus":
        return HEAD + "bus Q(n) { " + FENV + s + " signal d; }\n" + t % "" + body % ""


ALONE = "template M() { signal input a; signal output o; o <== a; }\n"
# whole programs: definitions and the main component
GOOD_DEF = {
    "plain": ALONE + "component main = M();",
    "parameters": "template M(n, m) { signal input a[n]; signal output o; o <== a[m]; }\ncomponent main {public [a]} = M(2, 1);",
    "array parameter": "template M(v) { signal input a[v[1]]; signal output o; o <== a[0] * v[0]; }\ncomponent main = M([1, 2]);",
    "function parameter": "function f(x) { return x + 1; }\ntemplate M(n) { signal input a[n]; signal output o; o <== a[0]; }\ncomponent main = M(f(1));",
    "same names in different definitions": "function f(x) { var y = x; return y; }\nfunction g(x) { var y = x; return y; }\ntemplate x(y) { signal input f; signal output g; g <== f * y; }\ncomponent main = x(f(2));",
    "recursive": "function f(n) { if (n == 0) { return 1; } else { return n * f(n - 1); } }\ntemplate R(n) { signal input a; signal output o; if (n == 0) { o <== a; } else { component r = R(n - 1); r.a <== a; o <== r.o * f(n); } }\ncomponent main = R(3);",
    "any order": "template M() { signal input a; signal output o; component k = Z(); k.a <== a; o <== k.o * f(2); B() b; b.u <== a; }\nfunction f(n) { return g(n); }\nbus B() { signal u; }\nfunction g(n) { return n + 1; }\ntemplate Z() { signal input a; signal output o; o <== a; }\ncomponent main = M();",
    "bus of buses": "bus X(n) { signal u; signal v[n]; Y(n + 1) y[2]; }\nbus Y(n) { signal w[n][2]; }\ntemplate M() { input X(1) a; output X(1) o; o <== a; }\ncomponent main {public [a]} = M();",
    "unused": ALONE + "function f(x) { return x; }\nbus B(n) { signal u[n]; }\ntemplate U(n) { signal input a[n]; }\ncomponent main = M();",
    "public": "template M() { signal input a; signal input b[2]; signal output o; o <== a * b[0] + b[1]; }\ncomponent main {public [b, a]} = M();",
    "no inputs": "template M() { signal output o; o <== 1; }\ncomponent main = M();",
    "tags": "template T() { signal input {s, t} a; signal output {t} o; o <== a; }\ntemplate M() { signal input a; signal output {t} o; signal {s, t} b; b <== a; component k = T(); k.a <== b; o <== k.o; }\ncomponent main = M();",
    "signal in if": "template M(n) { signal input a; signal output o; if (n == 1) { signal c; c <== a; o <== c; } else { component k = N(); k.a <== a; o <== k.o; } }\ntemplate N() { signal input a; signal output o; o <== a; }\ncomponent main = M(1);",
    "version": "pragma circom 2.0.0;\n" + ALONE + "component main = M();",
}
BAD_DEF = {
    "no main": ALONE, "two mains": ALONE + "component main = M();\ncomponent main = M();", "unknown main": ALONE + "component main = N();", "main is a function": ALONE + "function f() { return 1; }\ncomponent main = f();", "main is a bus": ALONE + "bus B() { signal u; }\ncomponent main = B();", "main is a number": ALONE + "component main = 3;",
    "main with arguments": ALONE + "component main = M(1);", "main without arguments": "template M(n) { signal input a; }\ncomponent main = M();", "main with few arguments": "template M(n, m) { signal input a; }\ncomponent main = M(1);", "main with an unknown argument": "template M(n) { signal input a; }\ncomponent main = M(zz);", "main with an unknown function": "template M(n) { signal input a; }\ncomponent main = M(zz(1));",
    "public unknown": ALONE + "component main {public [zz]} = M();", "public output": ALONE + "component main {public [o]} = M();", "public and unknown": ALONE + "component main {public [a, zz]} = M();", "public intermediate": "template M() { signal input a; signal c; c <== a; }\ncomponent main {public [c]} = M();", "public variable": "template M(n) { signal input a; }\ncomponent main {public [n]} = M(1);", "public component": "template N() { signal input a; }\ntemplate M() { signal input a; component k = N(); k.a <== a; }\ncomponent main {public [k]} = M();",
    "two templates": ALONE + ALONE + "component main = M();", "two functions": ALONE + "function f(x) { return x; }\nfunction f(x, y) { return y; }\ncomponent main = M();", "two buses": ALONE + "bus B() { signal u; }\nbus B(n) { signal w; }\ncomponent main = M();", "function and template": ALONE + "function M() { return 1; }\ncomponent main = M();", "template and function": ALONE + "function f() { return 1; }\ntemplate f() { signal input a; }\ncomponent main = M();",
    "bus and template": ALONE + "bus M() { signal u; }\ncomponent main = M();", "bus and function": ALONE + "function f() { return 1; }\nbus f() { signal u; }\ncomponent main = M();", "function and bus": ALONE + "bus f() { signal u; }\nfunction f() { return 1; }\ncomponent main = M();",
    "repeated template parameter": ALONE + "template U(n, n) { signal input a; }\ncomponent main = M();", "repeated template parameter later": ALONE + "template U(n, m, n) { signal input a; }\ncomponent main = M();", "repeated function parameter": ALONE + "function f(n, n) { return n; }\ncomponent main = M();", "repeated bus parameter": ALONE + "bus B(n, n) { signal u[n]; }\ncomponent main = M();",
    "parameter and variable": ALONE + "template U(n) { var n; }\ncomponent main = M();", "parameter and signal": ALONE + "template U(n) { signal input n; }\ncomponent main = M();", "function parameter and variable": ALONE + "function f(n) { var n = 1; return n; }\ncomponent main = M();", "bus parameter and field": ALONE + "bus B(n) { signal n; }\ncomponent main = M();", "parameter and component": ALONE + "template U(n) { component n = M(); n.a <== 1; }\ncomponent main = M();",
    "repeated field": ALONE + "bus B() { signal u; signal u; }\ncomponent main = M();", "repeated field of other type": ALONE + "bus A() { signal u; }\nbus B() { signal u; A() u; }\ncomponent main = M();", "input in a bus": ALONE + "bus B() { signal input u; }\ncomponent main = M();", "output in a bus": ALONE + "bus B() { signal output u; }\ncomponent main = M();", "input bus in a bus": ALONE + "bus A() { signal u; }\nbus B() { input A() u; }\ncomponent main = M();",
    "recursive bus": ALONE.replace("o <== a;", "o <== a; B() b; b.u <== a;") + "bus B() { signal u; B() b; }\ncomponent main = M();", "mutually recursive buses": ALONE.replace("o <== a;", "o <== a; B() b; b.u <== a;") + "bus B() { signal u; C() c; }\nbus C() { signal w; B() b; }\ncomponent main = M();", "unknown bus in a bus": ALONE + "bus B() { Z() z; }\ncomponent main = M();", "bus arguments in a bus": ALONE + "bus C(n) { signal u; }\nbus B() { C() z; }\ncomponent main = M();", "tag and field": "bus B() { signal u; }\ntemplate M() { input B() {u} b; }\ncomponent main = M();", "template in a bus": ALONE + "bus B() { M() m; }\ncomponent main = M();",
    "newer version": "pragma circom 99.0.0;\n" + ALONE + "component main = M();", "two versions": "pragma circom 2.0.0;\npragma circom 2.1.0;\n" + ALONE + "component main = M();", "extern_c": "template extern_c M() { signal input a; signal output o; o <== a; }\ncomponent main = M();", "custom without the pragma": ALONE + "template custom G() { signal input a; }\ncomponent main = M();",
    "signal in a loop": "template M() { signal input a; for (var i = 0; i < 1; i++) { signal c; c <== a; } }\ncomponent main = M();", "component in a loop": ALONE.replace("M()", "N()") + "template M() { signal input a; for (var i = 0; i < 1; i++) { component c = N(); c.a <== a; } }\ncomponent main = M();", "bus in a loop": "bus B() { signal u; }\ntemplate M() { signal input a; var i = 0; while (i < 1) { B() c; c.u <== a; i++; } }\ncomponent main = M();", "signal in an if of a loop": "template M() { signal input a; for (var i = 0; i < 1; i++) { if (i == 0) { signal c; c <== a; } } }\ncomponent main = M();", "signal under an unknown condition": "template M() { signal input a; if (a == 1) { signal c; c <-- a; } }\ncomponent main = M();",
    "tags of main": "template M() { signal input {t} a; }\ncomponent main = M();", "tags of the buses of main": "bus B() { signal {t} u; }\ntemplate M() { input B() a; }\ncomponent main = M();", "tags of deep buses of main": "bus B() { signal {t} u; }\nbus C() { signal w; B() b[2]; }\ntemplate M() { input C() a; }\ncomponent main = M();", "recursive bus not used": ALONE + "bus B() { signal u; B() b[1]; }\ncomponent main = M();",
    "text after": ALONE + "component main = M();\n}", "unknown definition": ALONE + "object X() { }\ncomponent main = M();", "no body": ALONE + "template U()\ncomponent main = M();", "statement outside": ALONE + "var x = 1;\ncomponent main = M();", "signal outside": ALONE + "signal x;\ncomponent main = M();", "empty": "", "unclosed": "template M() { signal input a;", "unclosed comment": ALONE + "component main = M(); /* ",
    "parameter with a value": ALONE + "template U(n = 1) { signal input a; }\ncomponent main = M();", "missing comma": ALONE + "template U(n m) { signal input a; }\ncomponent main = M();", "number as a name": ALONE + "template 3() { signal input a; }\ncomponent main = M();", "keyword as a name": ALONE + "template signal() { signal input a; }\ncomponent main = M();", "keyword as a variable": "template M() { var input = 1; }\ncomponent main = M();", "reserved": "template M() { var return = 1; }\ncomponent main = M();",
}
BUS_EXPR = ["signal u@;", "signal u[2]@;", "C(1) c@;"]
BUS_BAD = ["var u;", "var u = 1;", "signal w; w <== 1;", "signal w <== 1;", "signal w; w <-- 1;", "signal w; w === 1;", "component k;", "component k = M();", "if (n == 1) { signal w; }", "for (var i = 0; i < 2; i++) { signal w; }", "while (n == 2) { signal w; }", "log(n);", "assert(n == 1);", "return 1;", "n = 2;", "n += 1;", "(n) = 1;", "_ <== 1;", "signal input w;", "input C(1) w;"]


def returns(depth):
    """bodies of functions and whether all their paths end in a return"""
    leaves = [("return 1;", True), ("x += 1;", False)]
    if depth == 0:
        return leaves
    sub = returns(depth - 1)
    out = list(leaves)
    out += [("{ %s }" % a, r) for a, r in sub]
    out += [("if (x == 1) { %s }" % a, False) for a, r in sub]
    out += [("while (x < 3) { x += 1; %s }" % a, False) for a, r in sub]
    out += [("for (var i@ = 0; i@ < 2; i@++) { %s }".replace("@", str(depth)) % a, False) for a, r in sub]
    few = sub if depth == 1 else sub[:8] + sub[8::5]
    out += [("if (x == 1) { %s } else { %s }" % (a, b), r and q) for a, r in few for b, q in few]
    out += [("if (x == 1) %s else %s" % (a, b), r and q) for a, r in leaves for b, q in few if b.startswith("{")]
    out += [("%s %s" % (a, b), r or q) for a, r in few for b, q in few]
    return out


def cases(deep):
    """(expected, key, program)"""
    def where(fl, expr):
        w = ["template", "function", "run-time function"] if "f" in fl else ["template"]
        return w + [u for u in ("unused template", "unused function") if u != "unused function" or "f" in fl]
    for pos, (t, fl) in EXPR.items():
        for w in where(fl, t):
            fun = "function" in w
            for g in GOOD:
                if fun and pos.endswith("size") and g not in ("1", "s", "f(0)"):
                    continue
                yield True, "%s in a %s: %s" % (pos, w, g), program(w, t.replace("@", g))
            bads = [(b, k) for b, k in BAD.items() if not k or not fun]
            if pos not in TAKES_ARRAY:
                bads += [(b, k) for b, k in ARRAYS.items() if not k or not fun]
            for b, k in bads:
                if w.startswith("unused") and (b not in NAMES or b in ("E(1)", "A(1)") and not fun):
                    continue
                yield False, "%s in a %s: %s" % (pos, w, b), program(w, t.replace("@", b))
    for pos, t in STMT.items():
        loop = pos in ("loop", "while", "never", "nested")
        for kinds, ws in (("T", ["template"]), ("F", ["function", "run-time function"])):
            for k in (kinds, "TF"):
                for st in GOOD_STMT.get(k, []):
                    if loop and any(x in st for x in ("signal", "component", "B(2) q", "_ <== A")):
                        continue
                    for w in ws + ["unused " + ws[0]]:
                        yield True, "%s of a %s: %s" % (pos, w, st), program(w, t.replace("@", st))
                for st in BAD_STMT.get(k, []):
                    if pos in ("never", "untaken", "untaken else") and st.startswith(("k.y <", )):
                        continue
                    for w in ws:
                        yield False, "%s of a %s: %s" % (pos, w, st), program(w, t.replace("@", st))
    for k, src in GOOD_DEF.items():
        yield True, "definitions: " + k, "pragma circom 2.2.0;\n" + src if "pragma" not in src else src
    for k, src in BAD_DEF.items():
        yield False, "definitions: " + k, "pragma circom 2.2.0;\n" + src if "pragma" not in src else src
    m = "bus C(n) { signal z[n]; }\nbus Q(n) { %s signal d; }\nfunction f(x) { return x + 1; }\nfunction g(x, y) { return x[0] + y; }\ntemplate M() { signal input a; signal output o; %s o <== a; }\ncomponent main = M();\n"
    for used in ("Q(1) q; q <== q;".replace(" q <== q;", ""), ""):
        for t in BUS_EXPR:
            for e in ("n", "1", "n + 1", "f(n)", "(n == 1 ? 2 : 1)"):
                yield True, "bus %s %s%s" % (t, e, "" if used else " unused"), "pragma circom 2.2.0;\n" + m % (t.replace("@", "[%s]" % e), used)
            for e in ("zz", "f()", "zz(1)", "d", "f(zz)", "M()", "C(1)", "f", "(n == 1 ? zz : 1)") + (("[1, 2]", "g(1, 2)", "g([1], [2])", "n[0]", "n.x", "f([n])") if used else ()):
                yield False, "bus %s %s%s" % (t, e, "" if used else " unused"), "pragma circom 2.2.0;\n" + m % (t.replace("@", "[%s]" % e), used)
        for s in BUS_BAD:
            for form in ("%s", "signal u; %s", "signal u; %s signal y;"):
                yield False, "bus %s %s%s" % (form, s, "" if used else " unused"), "pragma circom 2.2.0;\n" + m % (form % s, used)
    for body, ok in returns(2):
        yield ok, "returns: " + body, "function q(x) { %s }\n" % body + ALONE + "component main = M();\n"


def one(job):
    deep, ok, key, src = job
    d = circom.scratch()
    try:
        r = circom.run(BIN, src, ["--r1cs", "--c"] if ok and deep else ["--r1cs", "--wasm"] if ok else ["--r1cs"], d)
        if ok and r.rc != 0:
            return key, {"expected": "accepted", "rc": r.rc, "stderr": r.err[-800:], "source": src}
        if not ok and (r.rc != 1 or "error[" not in r.err + r.out):
            return key, {"expected": "rejected", "rc": r.rc, "stderr": r.err[-800:], "source": src}
        if not ok and os.listdir(d) != ["m.circom"]:
            return key, {"expected": "rejected without writing anything", "files": os.listdir(d), "source": src}
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN
    ck = Check("C29")
    BIN = build.circom()
    jobs = [(ck.thorough, *j) for j in cases(ck.thorough)]
    for r in pmap(one, jobs, 25):
        if r:
            ck.violation(*r)
    good = sum(1 for j in jobs if j[1])
    ck.add(programs=len(jobs), accepted=good, rejected=len(jobs) - good, states=len(jobs), transitions=len(jobs), traces_validated_against_impl=len(jobs))
    ck.cov["rule"] = "every rule in every position; a state is a program, a trace one run of the compiler on it whose verdict is compared with the expected one"
    ck.cov["positions"] = {"expressions": len(EXPR), "statements": len(STMT)}
    ck.sample({"rejected": next(j[2] for j in jobs if not j[1])})
    ck.sample({"accepted": jobs[-1][2]})
    ck.finish()
