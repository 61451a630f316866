"""C23: a program is accepted exactly when it assigns each signal once and reads it afterwards."""
import itertools
from mc import build, circom, ref
from mc.par import pmap
from mc.report import Check
import shutil

BIN = None
LIB = """pragma circom 2.2.0;
template Mul() { signal input p; signal input q[2]; signal output r; signal output s[2]; r <== p*q[0]; s <== q; }
template Pass() { input P() i; output P() o; o <== i; }
template Const() { signal output r; r <== 4; }
bus P() { signal x; signal y[2]; }
function f(z) { return z + 1; }
template M(N) { signal input a; signal input v[2]; signal output o; signal s; signal t[2]; %s
%s
}
component main = M(1);
"""
# declarations and the statements of each context
CONTEXTS = {
    "signals": ("signal m[2][2];", [
        "s <== a;", "s <-- a;", "a ==> s;", "s <== t[1];", "t[0] <== a;", "t[1] <-- s;", "t <== v;", "for (var i = 0; i < 2; i++) { t[i] <== v[i]; }", "for (var i = 1; i < 2; i++) { t[i] <== s; }", "t[1-N] <== s;",
        "m[0] <== v;", "m[1][0] <== a;", "m <== [v, v];", "for (var i = 0; i < 4; i++) { m[i\\2][i%2] <== a; }", "for (var i = 0; i < 2; i++) { m[i][1] <== a; }", "m[1] <== m[0];", "t <== m[0];", "(t[0], s) <== (a, a);", "(s, t) <== Mul()(a, v);", "_ <== s;",
        "if (N == 1) { s <== a; } else { t <== v; }", "if (N == 2) { s <== a; } else { t[1] <== a; }", "{ signal z; z <== s; }", "s === s;", "{ var z = f(s); }", "{ var z[2] = t; }", "a <== s;", "v[0] <-- 1;", "o <== s;", "log(t[1]);", "assert(t[0] != 777);", "t[0] <-- t[0];", "for (var i = 0; i < 2; i++) { s <-- i; }", "t[2] <== a;", "m[0][2] <-- a;"]),
    "buses": ("P() b; P() e[2]; component g = Pass(); g.i.x <== a;", [
        "b.x <== a;", "b.y[0] <== a;", "b.y[1] <-- a;", "b.y <== v;", "b <== e[0];", "e[0] <== b;", "e[0].x <== a;", "e[0].y <== b.y;", "e[1] <== g.o;", "g.i <== b;", "g.i.y <== v;", "g.i.y[1] <-- a;", "g.i.y[0] <== b.y[0];", "s <== g.o.x;", "s <== b.y[1];", "e[1].y[0] <== e[0].x;", "t <== b.y;",
        "for (var i = 0; i < 2; i++) { e[i].x <== a; }", "for (var i = 0; i < 2; i++) { e[i].y <== v; b.y[i] <== e[i].y[i]; }", "b === e[0];", "e[0] <== Pass()(b);", "g.o.x <== a;", "s <== g.i.x;", "b <-- e[1];"]),
    "component": ("component c;", [
        "c = Mul();", "c = Mul();", "c.p <== a;", "c.p <-- a;", "c.q <== v;", "c.q[0] <== a;", "c.q[1] <== a;", "for (var i = 0; i < 2; i++) { c.q[i] <== v[i]; }", "s <== c.r;", "t <== c.s;", "s <== c.p;", "c.q[1] <== c.p;", "if (N == 1) { c = Mul(); } else { c.p <== a; }", "if (N == 0) { c.p <== a; } else { c.q <== v; }", "c.r <== a;", "c.s[0] <-- a;", "c.q <== c.s;", "c.p <== c.r;", "c.q[2] <== a;", "(c.p, c.q) <== (a, v);", "c = Const();"]),
    "created": ("component c = Mul(); component k = Const();", [
        "c.p <== a;", "c.p <-- a;", "c.q <== v;", "c.q[0] <== k.r;", "c.q[1] <== a;", "for (var i = 0; i < 2; i++) { c.q[i] <== v[i]; }", "s <== c.r;", "t <== c.s;", "s <== c.p;", "c.q[1] <== c.q[0];", "if (N == 1) { c.q <== v; }", "c.r <== a;", "c.s[0] <-- a;", "c.q <== c.s;", "c.p <== c.r;", "log(c.r);", "if (a == 1) { c.p <-- 1; } else { c.p <-- 2; }", "if (a == 1) { c.p <-- 1; c.q <-- v; } else { c.q <-- v; c.p <-- a; }", "if (a == 1) { s <-- c.r; } else { s <-- 1; }"]),
    "arrays": ("component d[2]; d[1] = Mul();", [
        "d[0] = Mul();", "d[1] = Mul();", "for (var i = 0; i < 2; i++) { d[i].q <== v; }", "for (var i = 0; i < 2; i++) { d[i].p <== a; }", "d[0].p <== a;", "d[N].p <== a;", "d[1].q <== v;", "d[0].q <== d[1].s;", "d[1].p <== d[0].r;", "d[0].p <== d[1].r;", "s <== d[1].r;", "t <== d[0].q;", "d[1].q[0] <== a;", "d[1].q[1] <-- a;", "d[2] = Mul();", "d[1-N] = Mul();", "for (var i = 0; i < 2; i++) { if (i != 1) { d[i] = Mul(); } d[i].p <== a; d[i].q <== v; }", "d[0].p <-- 1; d[0].q <-- v;"]),
}


def verdict(src):
    """True if the reference executes it (the compiler executes every statement, also of components not finished)"""
    try:
        prog = ref.parse(src)
        ref.witness(prog, circom.prime_of("bn128"), {"a": 1, "v[0]": 2, "v[1]": 3}, sanity=2)
        return True, ""
    except (ref.Reject, ref.Fail) as e:
        return False, str(e)


def job(a):
    ctx, seq = a
    src = LIB % (CONTEXTS[ctx][0], " ".join(seq))
    exp, why = verdict(src)
    d = circom.scratch()
    try:
        r = circom.run(BIN, src, ["--r1cs"], d)
        bad = None
        if r.panicked or r.ok != exp:
            bad = ("%s: %s" % ("panic" if r.panicked else "accepted" if r.ok else "rejected", " ".join(seq)), {"source": src, "reference": why or "accepts", "stderr": r.err[-500:]})
        return exp, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN
    ck = Check("C23")
    BIN = build.circom()
    jobs = []
    for ctx, (_, one) in CONTEXTS.items():
        for n in range(1, 5 if ck.thorough else 4):
            ss = list(itertools.product(one, repeat=n))
            if len(ss) > 9000 and not ck.thorough:
                ss = [x for i, x in enumerate(ss) if i % 11 == 0]
            if len(ss) > 60000:
                ss = [x for i, x in enumerate(ss) if i % 7 == 0]
            jobs += [(ctx, x) for x in ss]
    for e, bad in pmap(job, jobs, chunksize=16):
        ck.add(transitions=1, accepted=int(e), rejected=int(not e), traces_validated_against_impl=1)
        if bad:
            ck.violation(*bad)
    ck.cov["states"] = len(jobs)
    ck.cov["rule"] = "a state is a program; a transition its compilation, compared with its execution by the reference"
    ck.sample({"program": LIB % (CONTEXTS["arrays"][0], " ".join(jobs[-1][1]))})
    ck.finish()
