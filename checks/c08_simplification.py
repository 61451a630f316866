"""C08: constraint simplification preserves the solutions, whatever the level and options."""
import itertools, json, os, shutil
import numpy as np
from mc import algebra, build, circom, circuits, ref, sizes, solve, systems
from mc.par import pmap
from mc.report import Check

BIN = None
FLAGS = [["--O1"], ["--O2"], ["--O2round", "1"], ["--O2round", "2"], ["--O1", "--use_old_simplification_heuristics"], ["--O2", "--use_old_simplification_heuristics"]]


def split(c, sym, owner):
    """constraints and wires of each independent system"""
    own = {}
    for _, w, _, nm in sym:
        if w > 0:
            own.setdefault(w, owner(nm))
    cons = {}
    for k in c.constraints:
        ws = {w for lc in k for w in lc if w}
        os_ = {own[w] for w in ws}
        if len(os_) > 1:
            return None, "constraint across independent systems"
        cons.setdefault(os_.pop() if os_ else None, []).append(k)
    return cons, None


def job(a):
    kind, batch, prime, flags = a
    p = circom.prime_of(prime)
    src = systems.flat_source(batch) if kind == "flat" else systems.comp_source(batch, kind == "comprev")
    owner = systems.owner_flat if kind == "flat" else systems.owner_comp
    d = circom.scratch()
    out = []
    tr = 0
    maxw = 0

    def one(fl, sub):
        dd = os.path.join(d, sub)
        os.makedirs(dd)
        r = circom.run(BIN, src, ["--r1cs", "--sym", "--prime", prime] + fl, dd, timeout=120)
        if not r.ok:
            return None, None, r
        return circom.read_r1cs(dd + "/m.r1cs"), circom.read_sym(dd + "/m.sym"), r

    try:
        c0, s0, r0 = one(["--O0"], "o0")
        if c0 is None:
            return 0, 0, 0, [("rejected O0 %s" % (batch,), {"stderr": r0.err[-800:], "source": src})]
        cons0, e = split(c0, s0, owner)
        if e:
            return 0, 0, 0, [("O0 " + e, {"source": src})]
        glob0 = cons0.pop(None, [])
        names = {}
        for _, w, _, nm in s0:
            names.setdefault(owner(nm), []).append((nm, w))
        base = {}
        for i, l in names.items():
            base[i] = solve.solutions(cons0.get(i, []), [w for _, w in l], p)
        states = sum(int(m.size) for m in base.values())
        unsat = [i for i in base if not base[i].any()]
        if unsat and len(batch) > 1:
            # an unsatisfiable system makes the whole circuit unsatisfiable: each of them is simplified on its own
            parts = [[batch[i]] for i in unsat]
            rest = [s for i, s in enumerate(batch) if i not in unsat]
            if rest:
                parts.append(rest)
            acc = [0, 0, 1, []]
            for part in parts:
                acc = [x + y for x, y in zip(acc, job((kind, part, prime, flags)))]
            return tuple(acc)
        for fi, fl in enumerate(flags):
            c, s, r = one(fl, "f%d" % fi)
            if c is None:
                out.append((batch, fl, "rejected", {"stderr": r.err[-800:]}))
                continue
            cons, e = split(c, s, owner)
            if e:
                out.append((batch, fl, e, {}))
                continue
            glob = cons.pop(None, [])
            contradiction = any(not solve.solutions([g], [], p).all() for g in glob)
            wire = {nm: w for _, w, _, nm in s}
            bad = []
            for i, l in names.items():
                keep = [j for j, (nm, _) in enumerate(l) if wire[nm] >= 0]
                m = solve.solutions(cons.get(i, []) + (glob if unsat else []), [wire[l[j][0]] for j in keep], p)
                pr = solve.project(base[i], keep)
                tr += 1
                if not (m == pr).all():
                    bad.append((i, m, pr, keep, l))
            if contradiction and not unsat:
                out.append((batch, fl, "a contradiction appeared", {"constraints": glob}))
            for i, m, pr, keep, l in bad:
                diff = np.argwhere(m != pr)[0]
                out.append(((batch[i],), fl, "solutions differ", {
                    "system": batch[i], "signals": [l[j][0] for j in keep], "values": diff.tolist(),
                    "solution_before": bool(pr[tuple(diff)]), "solution_after": bool(m[tuple(diff)]),
                    "constraints_after": cons.get(i, []), "prime": prime}))
        bad = [("%s %s %s %s" % (kind, " ".join(fl), what, " ; ".join(" & ".join(s) for s in b)[:300]), {"kind": kind, **det}) for b, fl, what, det in out]
        return states, tr, 1 + len(flags), bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


BIGFLAGS = [["--O2"], ["--O2round", "1"], ["--O2", "--use_old_simplification_heuristics"]]


def big_job(a):
    batch, prime, flags = a
    p = circom.prime_of(prime)
    src = systems.big_source(batch)
    owner = systems.owner_comp
    d = circom.scratch()
    out = []
    states = tr = 0
    try:
        def one(fl, sub):
            dd = os.path.join(d, sub)
            os.makedirs(dd)
            r = circom.run(BIN, src, ["--r1cs", "--sym", "--prime", prime] + fl, dd, timeout=300)
            if not r.ok:
                return None, None, None, "rejected", r.err[-800:]
            c, s = circom.read_r1cs(dd + "/m.r1cs"), circom.read_sym(dd + "/m.sym")
            cons, e = split(c, s, owner)
            return c, s, cons, e, ""

        c0, s0, cons0, e, err = one(["--O0"], "o0")
        if e:
            return 0, 0, 0, [("big O0 " + e, {"stderr": err, "source": src})]
        names = {}
        for _, w, _, nm in s0:
            names.setdefault(owner(nm), []).append((nm, w))
        base = {i: solve.enumerate_solutions(cons0.get(i, []), sorted({w for _, w in l}), p) for i, l in names.items()}
        states = sum(n for _, n in base.values())
        unsat = [i for i in base if not base[i][1]]
        if unsat and len(batch) > 1:
            parts = [[batch[i]] for i in unsat] + ([[s for i, s in enumerate(batch) if i not in unsat]] if len(unsat) < len(batch) else [])
            acc = [0, 0, 1, []]
            for part in parts:
                acc = [x + y for x, y in zip(acc, big_job((part, prime, flags)))]
            return tuple(acc)
        for fi, fl in enumerate(flags):
            c, s, cons, e, err = one(fl, "f%d" % fi)
            if e:
                out.append((batch[:1], fl, e, {"stderr": err, "source": src}))
                continue
            glob = cons.pop(None, [])
            if any(not solve.solutions([g], [], p).all() for g in glob) and not unsat:
                out.append((batch[:1], fl, "a contradiction appeared", {"constraints": glob}))
            wire = {nm: w for _, w, _, nm in s}
            for i, l in names.items():
                tr += 1
                kept = [(wire[nm], w) for nm, w in l if wire[nm] >= 0]
                after, n = solve.enumerate_solutions(cons.get(i, []) + (glob if unsat else []), sorted({w for w, _ in kept}), p)
                states += n
                x = solve.rows(after, n, [w for w, _ in kept])
                y = solve.rows(*base[i], [w for _, w in kept])
                if x != y:
                    q = sorted(x ^ y)[0]
                    out.append((batch[i:i + 1], fl, "solutions differ", {"system": batch[i], "values": dict(zip([nm for nm, w in l if wire[nm] >= 0], q)), "solution_before": q in y, "solution_after": q in x, "prime": prime}))
        return states, tr, 1 + len(flags), [("big %s %s %s" % (" ".join(fl), what, str(b)[:200]), det) for b, fl, what, det in out]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def dense(cons, n, p):
    m = [np.zeros((len(cons), n), dtype=np.int64) for _ in range(3)]
    for k, abc in enumerate(cons):
        for j in range(3):
            for w, c in abc[j].items():
                m[j][k, w] = c % p
    return m


def accepts(m, w, p):
    """w: assignments x wires"""
    a, b, c = [(w @ x.T) % p for x in m]
    return ((a * b - c) % p == 0).all(axis=1)


def circuit_job(a):
    """simplified circuits: from the honest assignments, every change of one surviving signal to any value and of two by one;
    the values of the signals removed follow from the substitutions"""
    body, prime, flags = a
    p = circom.prime_of(prime)
    src = circuits.source([body])
    prog = ref.parse(src)
    d = circom.scratch()
    bad, st = [], 0

    def one(fl, sub):
        dd = os.path.join(d, sub)
        os.makedirs(dd)
        r = circom.run(BIN, src, ["--r1cs", "--sym", "--simplification_substitution", "--prime", prime] + fl, dd, timeout=200)
        if not r.ok:
            raise circom.FormatError("rejected: " + r.err[-500:] + src[-900:])
        return circom.read_r1cs(dd + "/m.r1cs"), circom.read_sym(dd + "/m.sym"), json.load(open(dd + "/m_substitutions.json"))

    try:
        c0, s0, _ = one(["--O0"], "o0")
        m0 = dense(c0.constraints, c0.n_wires, p)
        w0 = {l: w for l, w, _, _ in s0}
        honest = []
        for i in circuits.SMALL_INPUTS:
            v = ref.witness(prog, p, i, sanity=0).values
            h = np.zeros(c0.n_wires, dtype=np.int64)
            h[0] = 1
            for l, w, _, nm in s0:
                if w >= 0:
                    h[w] = v[nm]
            honest.append(h)
        for fi, fl in enumerate(flags):
            c, s, js = one(fl, "f%d" % fi)
            m = dense(c.constraints, c.n_wires, p)
            kept = [(w0[l], w) for l, w, _, _ in s if w >= 0]
            rows = []
            for h in honest:
                rows.append(h)
                for x, _ in kept:
                    for e in range(1, p):
                        r = h.copy()
                        r[x] = (r[x] + e) % p
                        rows.append(r)
                for i, (x, _) in enumerate(kept):
                    for y, _ in kept[:i]:
                        for e in (1, p - 1, 2):
                            r = h.copy()
                            r[x] = (r[x] + 1) % p
                            r[y] = (r[y] + e) % p
                            rows.append(r)
            full = np.array(rows)
            ext = full.copy()
            for k, e in js.items():
                col = np.zeros(len(rows), dtype=np.int64)
                for l, y in e.items():
                    col = (col + int(y) % p * (full[:, w0[int(l)]] if int(l) else 1)) % p
                ext[:, w0[int(k)]] = col
            if not accepts(m0, ext[[0]], p)[0]:
                bad.append(("%s honest %s" % (" ".join(fl), body), {"body": body, "flags": fl}))
                continue
            small = np.zeros((len(rows), c.n_wires), dtype=np.int64)
            small[:, 0] = 1
            for x, w in kept:
                small[:, w] = full[:, x]
            st += len(rows)
            x, y = accepts(m0, ext, p), accepts(m, small, p)
            if (x != y).any():
                q = int(np.argwhere(x != y)[0][0])
                bad.append(("%s circuit %s" % (" ".join(fl), body), {"body": body, "flags": fl, "prime": prime, "solution_before": bool(x[q]), "solution_after": bool(y[q]), "values": {nm: int(small[q, w]) for _, w, _, nm in s if w >= 0}}))
        return st, len(flags), 1 + len(flags), [("circuit " + k, v) for k, v in bad]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def algebra_job(a):
    name, src, prime, flags = a
    bad, n, runs = algebra.compare(BIN, src, prime, flags)
    return n, n, runs, [("algebra %s %s: %s" % (prime, name, k), {**d, "source": src}) for k, d in bad[:2]]


def dispatch(a):
    return globals()[a[0]](a[1])


def main():
    global BIN
    ck = Check("C08")
    BIN = build.circom()
    jobs = []
    fams = {}

    def fam(kind, prime, it, bs):
        l = list(it)
        k = "%s %s" % (kind, prime)
        fams[k] = fams.get(k, 0) + len(l)
        for i in range(0, len(l), bs):
            jobs.append((kind, l[i:i + bs], prime, FLAGS))

    if ck.thorough:
        fam("flat", "vp3", systems.sequences(3), 60)
        fam("flat", "vp5", systems.sets(3), 60)
        fam("flat", "vp7", systems.sets(2), 60)
        fam("comp", "vp3", systems.sequences(2), 10)
        fam("comprev", "vp3", systems.sets(3), 10)
        fam("flat", "vp5", list(systems.with_kinds(list(systems.sets(2)), ["".join(k) for k in itertools.product("iv", "po", "vo", "vo", "vo")])), 60)
        fam("flat", "vp3", list(systems.with_kinds(list(systems.equality_graphs(5)), ["".join(k) for k in itertools.product("pvo", repeat=5) if list(k) == sorted(k)])), 60)
    else:
        fam("flat", "vp3", systems.sets(3), 60)
        fam("flat", "vp5", systems.sequences(2), 60)
        fam("comp", "vp3", systems.sets(2), 10)
        fam("flat", "vp3", list(systems.with_kinds(list(systems.sets(2)), ["ppooo", "pivoo", "vpovv", "vvvvv"])), 60)
        fam("flat", "vp3", list(systems.with_kinds(list(systems.equality_graphs(4)), ["ooooo", "pvooo", "voovo", "vivvo"])), 120)
    big = list(systems.big_systems(3, True) if ck.thorough else systems.big_systems(2))
    fams["big vp5"] = len(big)
    jobs = [("job", j) for j in jobs] + [("big_job", (big[i:i + 10], "vp5", BIGFLAGS)) for i in range(0, len(big), 10)]
    bodies = [b for b in (circuits.body(c) for c in (circuits.rotate(2) if not ck.thorough else circuits.cover(2))) if ")(" not in b]
    jobs += [("circuit_job", (b, "vp61", [FLAGS[i % len(FLAGS)], FLAGS[(i // len(FLAGS)) % len(FLAGS)]] if not ck.thorough else FLAGS)) for i, b in enumerate(bodies)]
    fams["circuits vp61"] = len(bodies)
    big = sorted([c for c in sizes.cases(ck.thorough, not ck.thorough) if c[1] <= (257 if not ck.thorough else 1025)] + list(sizes.systems(ck.thorough)), key=lambda c: c[1])
    alg = [("%s %d" % c[:2], c[2], q, [FLAGS[i] for i in ((0, 1, 2, 5) if not ck.thorough else range(6))]) for c in big for q in (("bn128", "goldilocks") if ck.thorough else ("bn128",))]
    bodies = [circuits.body(c) for c in circuits.cover(2 if not ck.thorough else 3)]
    alg += [(" / ".join(bodies[i:i + 5]), circuits.source(bodies[i:i + 5]), "goldilocks" if i % 2 else "bn128", [FLAGS[i // 5 % 2], FLAGS[2 + i // 10 % 4]] if not ck.thorough else FLAGS) for i in range(0, len(bodies), 5)]
    fams["exact"] = len(alg)
    jobs += [("algebra_job", j) for j in alg]
    for st, tr, runs, bad in pmap(dispatch, jobs[::-1]):
        ck.add(states=st, transitions=tr, traces_validated_against_impl=runs)
        for k, d in bad:
            ck.violation(k, d)
    ck.cov["systems"] = fams
    ck.cov["rule"] = "a state is an assignment of all the signals of a system; a transition compares the solution sets of a system before and after one simplification (projected on the surviving signals); a trace is one compilation; for the exact comparisons, a state is a constraint of the original system"
    ck.cov["exhaustive"] = True
    ck.sample({"system": jobs[0][1][1][-1], "flags": FLAGS})
    ck.finish()
