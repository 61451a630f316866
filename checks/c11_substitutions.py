"""C11: the substitutions written with --simplification_substitution hold in every solution of the system, are in terms of
signals that are not substituted, and account for every removed signal."""
import json, os, shutil
import numpy as np
from mc import algebra, build, circom, sizes, solve, systems
from mc.par import pmap
from mc.report import Check
import importlib
c08 = importlib.import_module("checks.c08_simplification")

FLAGS = c08.FLAGS


def dup_hook(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("key %s twice" % k)
        d[k] = v
    return d


def job(a):
    kind, batch, prime, flags = a
    p = circom.prime_of(prime)
    big = kind == "big"
    src = systems.big_source(batch) if big else systems.flat_source(batch) if kind == "flat" else systems.comp_source(batch)
    owner = systems.owner_flat if kind == "flat" else systems.owner_comp
    d = circom.scratch()
    bad, st, n = [], 0, 0

    def one(fl, sub):
        dd = os.path.join(d, sub)
        os.makedirs(dd)
        r = circom.run(c08.BIN, src, ["--r1cs", "--sym", "--simplification_substitution", "--prime", prime] + fl, dd, timeout=200)
        if not r.ok:
            raise circom.FormatError("rejected: " + r.err[-500:])
        try:
            js = json.load(open(dd + "/m_substitutions.json"), object_pairs_hook=dup_hook)
        except (ValueError, FileNotFoundError) as e:
            raise circom.FormatError("substitutions file: %s\n%s" % (e, src[:2000]))
        return circom.read_r1cs(dd + "/m.r1cs"), circom.read_sym(dd + "/m.sym"), js

    try:
        c0, s0, js0 = one(["--O0"], "o0")
        if js0:
            bad.append(("O0 %s" % (batch[:1],), {"substitutions": js0}))
        cons0, e = c08.split(c0, s0, owner)
        cons0.pop(None, None)
        names = {}
        for l, w, _, nm in s0:
            names.setdefault(owner(nm), []).append((l, w))
        base = {i: solve.enumerate_solutions(cons0.get(i, []), [w for _, w in l], p) for i, l in names.items()}
        own = {l: i for i, ls in names.items() for l, _ in ls}
        unsat = {i for i in base if not base[i][1]}
        for fl in flags:
            c, s, js = one(fl, "_".join(fl).replace("-", ""))
            wire = {l: w for l, w, _, _ in s}
            keys = {int(k) for k in js}
            tag = "%s %s" % (kind, " ".join(fl))
            for k, v in js.items():
                k = int(k)
                v = {int(x): int(y) for x, y in v.items()}
                i = own[k]
                st += 1
                if wire[k] != -1:
                    bad.append(("%s substituted signal in the witness %s" % (tag, batch[i]), {"signal": k, "system": batch[i]}))
                if any(x in keys for x in v):
                    bad.append(("%s substitution by a substituted signal %s" % (tag, batch[i]), {"signal": k, "by": v, "system": batch[i]}))
                    continue
                if any(y % p == 0 for y in v.values()) or any(not 0 < y < p for y in v.values()):
                    bad.append(("%s coefficient %s" % (tag, batch[i]), {"signal": k, "by": v, "system": batch[i]}))
                if any(x and own[x] != i for x in v):
                    bad.append(("%s substitution across systems %s" % (tag, batch[i]), {"signal": k, "by": v}))
                    continue
                val, n = base[i]
                e = np.zeros(n, dtype=np.int64)
                for x, y in v.items():
                    e = e + (y % p) * (val[x] if x else 1)
                if n and not ((e - val[k]) % p == 0).all():
                    bad.append(("%s substitution does not hold %s" % (tag, batch[i]), {"signal": k, "by": v, "system": batch[i], "prime": prime}))
            # removed signals without a substitution are free
            if not big:
                for i, ls in names.items():
                    if i in unsat or unsat:
                        continue
                    val, n = base[i]
                    kept = [l for l, _ in ls if wire[l] >= 0]
                    gone = [l for l, _ in ls if wire[l] < 0 and l not in keys]
                    if gone and len(solve.rows(val, n, kept + gone)) != len(solve.rows(val, n, kept)) * p ** len(gone):
                        bad.append(("%s removed without a substitution %s" % (tag, batch[i]), {"signals": gone, "system": batch[i], "substitutions": js if len(batch) == 1 else None}))
        return sum(n for _, n in base.values()), st, 1 + len(flags), bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def exact(a):
    """large systems: with the substitutions applied, the constraints as written are those of the simplified system"""
    name, n, src, prime, flags = a
    bad, n, runs = algebra.compare(c08.BIN, src, prime, flags)
    return n, n, runs, [("exact %s %s: %s" % (prime, name, k), {**d, "source": src}) for k, d in bad[:2]]


def work(a):
    return exact(a[1:]) if a[0] == "exact" else job(a)


def main():
    ck = Check("C11")
    c08.BIN = build.circom()
    jobs = []

    def fam(kind, prime, it, bs, flags=FLAGS):
        l = list(it)
        ck.cov.setdefault("systems", {})["%s %s" % (kind, prime)] = len(l)
        jobs.extend((kind, l[i:i + bs], prime, flags) for i in range(0, len(l), bs))

    if ck.thorough:
        fam("flat", "vp3", systems.sets(3), 30)
        fam("flat", "vp5", systems.sequences(2), 30)
        fam("comp", "vp3", systems.sets(3), 10)
        fam("big", "vp5", systems.big_systems(2), 6, c08.BIGFLAGS)
    else:
        fam("flat", "vp3", systems.sets(3), 30)
        fam("flat", "vp5", systems.sets(2), 30)
        fam("comp", "vp3", systems.sets(2), 10)
        fam("flat", "vp3", list(systems.with_kinds(list(systems.sets(2)), ["ppooo", "vpovv"])), 60)
        fam("flat", "vp3", list(systems.with_kinds(list(systems.equality_graphs(4)), ["pvooo", "vivvo"])), 60)
        fam("big", "vp5", systems.big_systems(1), 6, c08.BIGFLAGS[:1])
    large = [c for c in sizes.systems(ck.thorough) if c[1] <= (129 if not ck.thorough else 600) and (ck.thorough or c[1] in (7, 33, 129))]
    ck.cov["systems"]["exact"] = len(large)
    jobs = [("exact", "%s %d" % c[:2], c[1], c[2], "bn128", FLAGS if ck.thorough else [["--O1"], ["--O2"], ["--O2round", "1"]]) for c in large] + jobs
    for s, t, r, bad in pmap(work, jobs[::-1]):
        ck.add(states=s, transitions=t, traces_validated_against_impl=r)
        for k, d in bad:
            ck.violation(k[:400], d)
    ck.cov["exhaustive"] = True
    ck.cov["rule"] = "a state is a solution of a system before simplification, a transition is one substitution evaluated on all of them, a trace is one compilation"
    ck.sample({"system": jobs[0][1][-1]})
    ck.finish()
