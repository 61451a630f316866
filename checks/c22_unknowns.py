"""C22: which constraints there are never depends on a value that is unknown at compile time.

Every program of a family (two statements on variables, then a place where knowing a value matters) is compiled. When it is
accepted, the R1CS has to agree with the program as executed on every assignment explored (all inputs, every change of every
signal): if the constraints depended on a value, they would differ for some. Independently of that, a program in which no
deciding value can come from a signal has to be accepted, and one in which it certainly does has to be rejected."""
import itertools
from mc import build, deviate, ref
from mc.par import pmap
from mc.report import Check

BIN = None
PRIME = "vp13"
K, U = 0, 1     # known, unknown

# simple statements: (text, list of (variable, [variables read], reads a signal))
SIMPLE = [
    ("v = 1;", [("v", "", K)]), ("v = a;", [("v", "", U)]), ("v = v + 1;", [("v", "v", K)]), ("v = w;", [("v", "w", K)]),
    ("w = v;", [("w", "v", K)]), ("w = a + 1;", [("w", "", U)]), ("v = N;", [("v", "", K)]), ("v = f(1);", [("v", "", K)]), ("v = f(w);", [("v", "w", K)]), ("v = f(a);", [("v", "", U)]),
    ("v = 1 - w;", [("v", "w", K)]), ("v += w;", [("v", "vw", K)]), ("v = w == 0 ? 1 : 2;", [("v", "w", K)]), ("v++;", [("v", "v", K)]), ("v = s;", [("v", "", U)]),
    ("{ var v = a; v = v + 1; }", []), ("{ v = 1; }", [("v", "", K)]), ("{ var w = 0; v = w + 1; }", [("v", "", K)]), ("v = g([1, 0], 0);", [("v", "", K)]), ("v = g([0, w], 1);", [("v", "w", K)]),
]
CONDS = [("w == 0", "w", K), ("a == 1", "", U), ("N == 1", "", K), ("v == 0", "v", K), ("f(a) == 2", "", U), ("v == 1 || w == 2", "vw", K)]
ARRAYS = ["q[0] = a;", "q[1] = v;", "q[v] = 1;", "q[a] = 1;", "v = q[0];", "v = q[1];", "v = q[v];", "q[1] = 1;", "w = q[a];", "q = [a, 1, 0, 0, 0, 2];", "q = r;", "r[1] = a;", "r = q;", "v = q[w] + 1;",
          "for (var i = 0; i < 3; i++) { q[i] = i; }", "for (var i = 0; i < 2; i++) { q[i] = a; }", "if (a == 1) { q[1] = 1; }", "if (w == 0) { q[1] = a; } else { q[1] = 2; }", "v = g(q, 1);", "v = g(q, 0);", "v = q[1] == 1 ? q[0] : 2;"]
# (text, what decides: variables, fixed, kind)
FINALS = [
    ("if (v == 1) { s === b; } else { s === a + 1; }", "v", K), ("if (v == 2) { s === b; }", "v", K), ("if (v != 1) { } else { s === b; }", "v", K),
    ("while (v < 2) { s === b + v; v = v + 1; }", "v", K), ("for (var i = 0; i < v; i++) { s === b + i; }", "v", K), ("if (w == 0) { if (v == 1) { s === b; } }", "vw", K),
    ("if (v == 1) { signal z; z <-- a; }", "v", K), ("if (v == 1) { component c = A(2); c.x <== a; s === c.y; }", "v", K), ("component c = A(v); c.x <== a; s === c.y;", "v", K),
    ("signal z[v + 1]; for (var i = 0; i <= v; i++) { z[i] <-- a; } z[v] === b;", "v", K), ("t[v] === b;", "v", K), ("t[v] === t[w] + a;", "vw", K),
    ("component c[6]; for (var i = 0; i < 6; i++) { c[i] = A(i); c[i].x <== a; } s === c[v].y;", "v", K), ("component c[6]; for (var i = 0; i < 6; i++) { c[i] = A(i); } for (var i = 0; i < 6; i++) { c[(i + v) % 6].x <== a + i; }", "v", K),
    ("if (a == 1) { s === b; }", "", U), ("while (a > v) { s === b; v = a; }", "", U), ("if (v == 1) { u <== a; } else { u <== b; }", "v", K), ("var z[v + 1]; z[v] = a; s === z[v];", "v", K),
    ("if (v == 1) { s === b; } if (w == 1) { s === a; } else { s === 1; }", "vw", K), ("var i = 0; while (i < 2) { if (v == i) { s === b + i; } v = w; i++; }", "vw", K),
    ("P(v) z; for (var i = 0; i <= v; i++) { z.x[i] <== a; } s === z.x[v];", "v", K), ("s === (v == 1 ? a : b);", "", None), ("s === v;", "", None), ("s === v*a + w;", "", None), ("s === g(q, 1);", "", None), ("s === q[1] + q[0];", "", None), ("t === q;", "", None),
]
SRC = """pragma circom 2.2.0;
function f(x) { if (x == 0) { return 1; } return x + 1; }
function g(m, i) { var z = m[i]; return z; }
template A(k) { signal input x; signal output y; y <== x + k; }
bus P(k) { signal x[k + 1]; }
template M(N) { signal input a; signal input b; signal output s; signal output t[6]; signal output u; var v = 0; var w = 0; var q[6]; var r[6];
s <-- a + b; for (var j = 0; j < 6; j++) { t[j] <-- a + j; } UU
%s
}
component main = M(1);
"""


def analyse(stmts, env):
    """taint after simple/guarded statements; env: {v: K/U}"""
    for s in stmts:
        if s[0] == "if":
            _, (_, cv, cu), th, el = s
            c = max([cu] + [env[x] for x in cv])
            e1, e2 = dict(env), dict(env)
            analyse(th, e1)
            analyse(el, e2)
            mod = {m for st in th + el for m in modified(st)}
            for x in env:
                env[x] = max(e1[x], e2[x], c if x in mod else K)
        else:
            for x, reads, sig in s[1]:
                env[x] = max([sig] + [env[y] for y in reads])


def modified(s):
    if s[0] == "if":
        return {m for st in s[2] + s[3] for m in modified(st)}
    return {x for x, _, _ in s[1]}


def everything(stmts):
    """can any variable ever depend on a signal? (whatever the order of the statements)"""
    env = {"v": K, "w": K}
    while True:
        old = dict(env)
        for s in stmts:
            if s[0] == "if":
                c = max([s[1][2]] + [env[x] for x in s[1][1]])
                for st in s[2] + s[3]:
                    for x, reads, sig in st[1]:
                        env[x] = max([env[x], sig, c] + [env[y] for y in reads])
            else:
                for x, reads, sig in s[1]:
                    env[x] = max([env[x], sig] + [env[y] for y in reads])
        if env == old:
            return env


def text(s):
    if s[0] == "if":
        return "if (%s) { %s }%s" % (s[1][0], " ".join(map(text, s[2])), " else { %s }" % " ".join(map(text, s[3])) if s[3] else "")
    return s[0]


def programs(deep):
    """(source, must): must is 'accept', 'reject' or None"""
    gs = []
    for ci, c in enumerate(CONDS):
        for i, x in enumerate(SIMPLE[:8]):
            if deep or (i + ci) % 2 == 0:
                gs.append(("if", c, [x], []))
            if deep or (i + ci) % 4 == 1:
                gs.append(("if", c, [x], [SIMPLE[(i + 3) % 8]]))
    units = [(x,) for x in SIMPLE + gs]
    seqs = units + list(itertools.product(SIMPLE[:13], SIMPLE[:13])) + list(itertools.product(gs, SIMPLE[2:6])) + list(itertools.product(SIMPLE[:6], gs))
    out = {}
    for i, seq in enumerate(seqs):
        env = {"v": K, "w": K}
        analyse(list(seq), env)
        ever = everything(list(seq))
        for fi, (ft, fv, fk) in enumerate(FINALS):
            if not deep and len(seq) > 1 and (i + fi) % 4:
                continue
            must = None
            if fk is not None:
                d = max([fk] + [env[x] for x in fv])
                if d == U:
                    must = "reject"
                elif max([fk] + [ever[x] for x in "vw"]) == K:
                    must = "accept"
            body = " ".join(map(text, seq)) + " " + ft
            out[SRC.replace("UU", "" if "u <==" in ft else "u <-- a;") % body] = must
    for i, seq in enumerate(list(itertools.product(ARRAYS, repeat=1)) + list(itertools.product(ARRAYS, repeat=2))):
        for fi, (ft, fv, fk) in enumerate(FINALS):
            if not deep and len(seq) > 1 and (i + fi) % 6:
                continue
            body = " ".join(seq) + " " + ft
            out[SRC.replace("UU", "" if "u <==" in ft else "u <-- a;") % body] = None
    return list(out.items())


INPUTS = [{"a": a, "b": b} for a, b in ((0, 1), (1, 3), (2, 2))]


def job(a):
    src, must = a
    try:
        n, k, bad, _ = deviate.explore(BIN, src, INPUTS, PRIME, lambda v, p: [(v + 1) % p], None)
    except ref.Reject as e:
        return src, 0, 1, 0, ("accepted", {"source": src, "reference": str(e)})
    if bad and bad[0] == "rejected":
        err = bad[1]["stderr"]
        if "panicked" in err:
            return src, n, 0, 1, ("panic", {"source": src, "stderr": err})
        return src, n, 0, 1, (("rejected", {"source": src, "stderr": err}) if must == "accept" else None)
    if bad:
        return src, n, 1, 0, bad
    return src, n, 1, 0, (("accepted", {"source": src}) if must == "reject" else None)


def main():
    global BIN
    ck = Check("C22")
    BIN = build.circom()
    ps = programs(ck.thorough)
    ck.cov["must_accept"] = sum(m == "accept" for _, m in ps)
    ck.cov["must_reject"] = sum(m == "reject" for _, m in ps)
    for src, n, acc, rej, bad in pmap(job, ps, chunksize=8):
        ck.add(states=n, transitions=1, accepted=acc, rejected=rej, traces_validated_against_impl=1)
        if bad:
            ck.violation("%s: %s" % (bad[0], src.split("\n")[7]), bad[1])
    ck.cov["programs"] = len(ps)
    ck.cov["rule"] = "a state is an assignment of the signals of an accepted program judged both by its R1CS and by its execution; a transition is one program compiled"
    ck.sample({"program": ps[len(ps) // 2][0]})
    ck.finish()
