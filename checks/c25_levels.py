"""C25: each simplification level removes the constraints that it says, and no others."""
import shutil
from mc import build, circom, circuits, systems
from mc.par import pmap
from mc.report import Check

BIN = None
FLAGS = [["--O1"], ["--O2"], ["--O1", "--use_old_simplification_heuristics"], ["--O2", "--use_old_simplification_heuristics"], ["--O2round", "3"], []]


def linear(k, p):
    """{wire: coefficient} of a linear constraint, None if it is not"""
    a, b, c = k
    if any(a) and any(b):
        return None
    if any(a):
        a, b = b, a
    f = a.get(0, 0)
    out = {w: -x for w, x in c.items()}
    for w, x in b.items():
        out[w] = out.get(w, 0) + f * x
    return {w: x % p for w, x in out.items() if x % p}


def width(k):
    return len({w for lc in k for w in lc if w})


def simple(l, p):
    """signal = K or signal = signal"""
    s = [w for w in l if w]
    return len(s) == 1 or len(s) == 2 and 0 not in l and (l[s[0]] + l[s[1]]) % p == 0


def classes(cons, p, pub, n):
    """the private signals that simple constraints join to each other, to a public signal or to a constant, with how many of them --O1
    leaves: one if they are only equal to each other and something else uses them; None if two different constants are given"""
    par, value = list(range(n)), {}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    rest = []
    for k in cons:
        l = linear(k, p)
        s = [w for w in l if w] if l else []
        if not l or not simple(l, p) or all(w <= pub for w in s):
            rest.append(k)
        elif len(s) == 2:
            x, y = find(s[0]), find(s[1])
            par[max(x, y)] = min(x, y)
    for k in cons:
        l = linear(k, p)
        s = [w for w in l if w] if l else []
        if len(s) == 1 and s[0] > pub:
            v = -l.get(0, 0) * pow(l[s[0]], -1, p) % p
            if value.setdefault(find(s[0]), v) != v:
                return None

    def subst(lc):
        out = {}
        for w, x in lc.items():
            r = find(w)
            c, k = (0, x * value[r]) if r in value else (r, x)
            out[c] = (out.get(c, 0) + k) % p
        return {w: x for w, x in out.items() if x}
    used = set()
    for k in rest:
        k = tuple(subst(lc) for lc in k)
        l = linear(k, p)
        used |= set(l) if l is not None else {w for lc in k for w in lc}
    out = {}
    for w in range(1, n):
        out.setdefault(find(w), []).append(w)
    return [([w for w in ws if w > pub], int(r > pub and r not in value and r in used)) for r, ws in out.items() if any(w > pub for w in ws)]


def job(a):
    name, src, prime, flags = a
    p = circom.prime_of(prime)
    d = circom.scratch()
    bad, n = [], 0
    try:
        def run(fl):
            r = circom.run(BIN, src, ["--r1cs", "--prime", prime] + fl, d, timeout=200)
            if not r.ok:
                bad.append(("rejected %s %s" % (" ".join(fl), name), {"stderr": r.err[-500:], "source": src}))
                return None
            return circom.read_r1cs(d + "/m.r1cs")
        c0 = run(["--O0"])
        if c0 is None:
            return 0, bad
        pub = c0.n_pub_out + c0.n_pub_in
        widest = max([width(k) for k in c0.constraints], default=0)
        cls = classes(c0.constraints, p, pub, c0.n_wires)
        for fl in flags:
            c = run(fl)
            if c is None:
                continue
            full = fl[:1] in (["--O2"], ["--O2round"])
            if (c.n_pub_out, c.n_pub_in) != (c0.n_pub_out, c0.n_pub_in):
                bad.append(("%s: public signals: %s" % (" ".join(fl), name), {"source": src}))
            kept = set(c.labels)
            for ws, left in cls if not full and cls else []:
                n += 1
                here = sum(c0.labels[w] in kept for w in ws)
                if here != left:
                    bad.append(("%s leaves %d of %d equal signals instead of %d: %s" % (" ".join(fl) or "default", here, len(ws), left, name), {"source": src}))
                    break
            for k in c.constraints:
                n += 1
                l = linear(k, p)
                private = any(w > pub for lc in k for w in lc) if l is None else any(w > pub for w in l)
                if full and l is not None and private:
                    bad.append(("%s leaves a constraint that it removes: %s" % (" ".join(fl) or "default", name), {"source": src, "constraint": l, "public": pub}))
                    break
                if not full and width(k) > widest:
                    bad.append(("%s writes a constraint with more signals: %s" % (" ".join(fl) or "default", name), {"source": src}))
                    break
        return n, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN
    ck = Check("C25")
    BIN = build.circom()
    jobs = []

    def fam(kind, prime, l, bs):
        l = list(l)
        for i in range(0, len(l), bs):
            src = {"flat": systems.flat_source, "comp": lambda b: systems.comp_source(b, False), "big": systems.big_source}[kind](l[i:i + bs])
            jobs.append(("%s %s" % (kind, " ; ".join(str(x) for x in l[i:i + bs])[:120]), src, prime, FLAGS))
    t = ck.thorough
    one = 1 if t else 4
    fam("flat", "vp13", systems.sets(2), 1)
    fam("flat", "vp13", list(systems.sequences(3) if t else systems.sets(3)), one)
    fam("comp", "vp13", systems.sequences(2) if t else systems.sets(2), one)
    fam("flat", "vp13", list(systems.with_kinds(list(systems.sets(2)), ["ppooo", "pivoo", "vpovv", "vvvvv"])), one)
    fam("flat", "vp13", list(systems.with_kinds(list(systems.equality_graphs(4)), ["ooooo", "pvooo", "voovo", "vivvo"])), one)
    fam("big", "vp13", list(systems.big_systems(3, True) if t else systems.big_systems(2)), 1 if t else 2)
    for i, b in enumerate(b for b in (circuits.body(c) for c in (circuits.cover(2) if t else circuits.rotate(3))) if ")(" not in b):
        jobs.append(("circuit %s" % b, circuits.source([b]), "vp61", FLAGS))
    for n, bad in pmap(job, jobs, chunksize=4):
        ck.add(transitions=n, traces_validated_against_impl=1 + len(FLAGS))
        for b in bad:
            ck.violation(*b)
    ck.cov["states"] = len(jobs)
    ck.cov["rule"] = "a state is a system of constraints; a transition the judgement of one constraint that a level leaves"
    ck.sample({"system": jobs[0][0], "flags": FLAGS})
    ck.finish()
