"""Positions of arrays computed from unknown values: every expression over operands of every size whose value is a position."""
import json, os, shutil
from . import circom, cxxrun, wasmrun

BIN = None
N = 200
EXPRS = ["a", "a + b", "a*b", "a + b + 1", "a*b + 1", "(a + b)*2", "a*2 + b", "a*150", "2*a + b*3", "a - b", "a + 5 - b", "a*b - 1", "a*2*b", "a & 63", "(a + b)*(a + 1)", "-a", "a \\ 2", "a % 7 + b", "b + a*99", "b + a*100", "a ** 2", "3 - a", "a > b", "(a == b) + b", "a + b*a + 2"]
# reading and writing, of arrays of the kinds whose positions are computed differently
FORMS = {"var": "r = t[@];", "signal": "r = s[@];", "write": "t[@] = 7; for (var i = 0; i < 200; i++) { r = r*3 + t[i]; }", "rows": "r = t2[@][1] + t2[@][0];", "inner": "r = t3[1][@] + t3[0][@];", "component": "r = c[@].r;", "array": "w = t2[@]; r = w[0] + 5*w[1];",
         "function": "r = at(t, @);", "hetero": "r = d[1].r[@] + d[0].r[1];"}


def value(e, a, b, p):
    x = eval(e.replace("\\", "//").replace("a", "A").replace("b", "B"), {"A": V(a, p), "B": V(b, p)})
    return (x.v if isinstance(x, V) else int(x)) % p


class V:
    """a field element with the operators of the expressions above"""
    def __init__(self, v, p):
        self.v, self.p = v % p, p

    def of(self, o):
        return o.v if isinstance(o, V) else int(o) % self.p

    def sig(self, x):
        return x if x <= self.p // 2 else x - self.p

    def __add__(self, o): return V(self.v + self.of(o), self.p)
    def __sub__(self, o): return V(self.v - self.of(o), self.p)
    def __rsub__(self, o): return V(self.of(o) - self.v, self.p)
    def __mul__(self, o): return V(self.v * self.of(o), self.p)
    def __neg__(self): return V(-self.v, self.p)
    def __pow__(self, o): return V(pow(self.v, self.of(o), self.p), self.p)
    def __and__(self, o): return V(self.v & self.of(o), self.p)
    def __floordiv__(self, o): return V(self.v // self.of(o), self.p)
    def __mod__(self, o): return V(self.v % self.of(o), self.p)
    def __gt__(self, o): return V(int(self.sig(self.v) > self.sig(self.of(o))), self.p)
    def __eq__(self, o): return V(int(self.v == self.of(o)), self.p)
    __radd__, __rmul__ = __add__, __mul__


def operands(p, big):
    """small ones (also negative), and pairs with large ones"""
    s = [0, 1, 2, 3, 7, 50, 99, 100, 101, 150, 199, -1, -2, -50, -100, -199]
    m = [2 ** 15, 2 ** 16, 2 ** 16 + 1, 2 ** 30, 2 ** 31 - 1]
    out = [(x % p, y % p) for x in s for y in s]
    out += [(x % p, y % p) for x in m for d in (0, 1, 5, 100) for y in (x, -x + d, x + d)]
    large = [(2 ** 31, 3 - 2 ** 31), (pow(2, -1, p), 3)] if big else []
    return out + [(x % p, y % p) for x, y in large]


def source(form):
    arr = "var t[200]; for (var i = 0; i < 200; i++) { t[i] = i*i + 1; } var t2[200][2]; var t3[2][200]; for (var i = 0; i < 200; i++) { t2[i] = [i + 3, i*i]; t3[0][i] = i; t3[1][i] = 2*i + 1; } var w[2];"
    if form == "signal":
        arr += " signal s[200]; for (var i = 0; i < 200; i++) { s[i] <== i*i + 1; }"
    if form == "component":
        arr += " component c[200]; for (var i = 0; i < 200; i++) { c[i] = K(i); c[i].p <== 1; }"
    if form == "hetero":
        arr += " component d[2]; for (var i = 0; i < 2; i++) { d[i] = H(2 + 198*i); d[i].p <== 1; }"
    sel = " ".join("if (k == %d) { %s }" % (i, FORMS[form].replace("@", e)) for i, e in enumerate(EXPRS))
    return ("pragma circom 2.2.0;\nfunction at(t, i) { return t[i]; }\ntemplate K(k) { signal input p; signal output r; r <== k*k + p; }\n"
            "template H(n) { signal input p; signal output r[n]; for (var i = 0; i < n; i++) { r[i] <== i*i + p; } }\n"
            "template M() { signal input a; signal input b; signal input k; signal output o; var r = 0; %s\n%s\no <-- r; }\ncomponent main = M();\n" % (arr, sel))


def expected(form, i, p):
    q = i * i + 1
    if form == "write":
        r = 0
        for j in range(N):
            r = r * 3 + (7 if j == i else j * j + 1)
        return r % p
    return {"var": q, "signal": q, "rows": i * i + i + 3, "inner": 3 * i + 1, "component": q, "array": i + 3 + 5 * i * i, "function": q, "hetero": q + 2}[form] % p


def job(a):
    form, backend, prime = a
    p = circom.prime_of(prime)
    cases = []
    for k, e in enumerate(EXPRS):
        for x, y in operands(p, form == "var" and prime in ("bn128", "goldilocks")):
            i = value(e, x, y, p)
            if i < N:
                cases.append((k, x, y, i))
    d = circom.scratch()
    bad = []
    try:
        src = source(form)
        r = circom.run(BIN, src, ["--O0", "--prime", prime, "--wasm" if backend == "wasm" else "--c"], d)
        if not r.ok:
            return 0, [("positions %s %s: rejected" % (backend, form), {"source": src, "stderr": r.err[-500:]})]
        ins = [{"a": str(x), "b": str(y), "k": str(k)} for k, x, y, _ in cases]
        if backend == "wasm":
            got = [g.get("w") or g.get("err") for g in wasmrun.witnesses(d, "m", ins, fresh=True)]
        else:
            exe = cxxrun.build(d, "m", flags=["-std=c++11", "-O0", "-I."])
            got = []
            for i in ins:
                json.dump(i, open(d + "/in.json", "w"))
                rc, _, se = cxxrun.run(exe, d + "/in.json", d + "/w")
                got.append(circom.read_wtns(d + "/w")[1] if rc == 0 else str(rc) + se[-100:])
        for (k, x, y, i), g in zip(cases, got):
            if isinstance(g, str) or g[1] != expected(form, i, p):
                sg = lambda v: v if v <= p // 2 else v - p
                bad.append(("positions %s %s %s: %s with a = %d, b = %d" % (backend, prime, form, EXPRS[k], sg(x), sg(y)), {"source": src, "input": ins[cases.index((k, x, y, i))], "position": i, "expected": expected(form, i, p), "observed": g if isinstance(g, str) else g[1]}))
        return len(cases), bad
    finally:
        shutil.rmtree(d, ignore_errors=True)
