"""Exact comparison of a constraint system with its simplification, of any size and prime: the constraints of the original system,
with the substitutions applied, are those of the simplified one (as polynomials, up to a factor), or 0 = 0."""
import json, os, shutil
from . import circom


def poly(a, b, c, p):
    """a*b - c as {(i, j): coefficient}, i <= j, 0 for the constant wire"""
    out = {}
    for i, x in a.items():
        for j, y in b.items():
            k = (i, j) if i <= j else (j, i)
            out[k] = (out.get(k, 0) + x * y) % p
    for j, y in c.items():
        out[(0, j)] = (out.get((0, j), 0) - y) % p
    return {k: v for k, v in out.items() if v}


def normal(q, p):
    if not q:
        return None
    k = max(q)
    inv = pow(q[k], -1, p)
    return frozenset((m, v * inv % p) for m, v in q.items())


def apply(lc, subs, p):
    out = {}
    for l, v in lc.items():
        for m, y in (subs[l].items() if l in subs else ((l, 1),)):
            out[m] = (out.get(m, 0) + v * y) % p
    return {k: v for k, v in out.items() if v}


def compile_levels(binary, src, prime, flags, d):
    r = circom.run(binary, src, ["--r1cs", "--sym", "--simplification_substitution", "--prime", prime] + flags, d, timeout=300)
    if not r.ok:
        return None, r.err[-800:]
    subs = {int(k): {int(x): int(y) for x, y in e.items()} for k, e in json.load(open(d + "/m_substitutions.json")).items()}
    return (circom.read_r1cs(d + "/m.r1cs"), circom.read_sym(d + "/m.sym"), subs), None


def labels(c, sym):
    """the constraints over labels"""
    lab = {w: l for l, w, _, _ in sym if w >= 0}
    lab[0] = 0
    return [[{lab[w]: v for w, v in lc.items()} for lc in k] for k in c.constraints]


def compare(binary, src, prime, levels):
    """list of (key, detail), number of constraints compared, number of compilations"""
    p = circom.prime_of(prime)
    d = circom.scratch()
    bad, n = [], 0
    try:
        os.makedirs(d + "/o0")
        r, e = compile_levels(binary, src, prime, ["--O0"], d + "/o0")
        if e:
            return [("rejected", {"stderr": e})], 0, 1
        orig = labels(r[0], r[1])
        for i, fl in enumerate(levels):
            dd = "%s/f%d" % (d, i)
            os.makedirs(dd)
            s, e = compile_levels(binary, src, prime, fl, dd)
            tag = " ".join(fl)
            if e:
                bad.append((tag + " rejected", {"stderr": e}))
                continue
            c, sym, subs = s
            after = {normal(poly(*k, p), p) for k in labels(c, sym)} - {None}
            gone = {l for l, w, _, _ in sym if w < 0}
            left = set()
            for k in orig:
                q = normal(poly(*(apply(lc, subs, p) for lc in k), p), p)
                n += 1
                if q is not None:
                    left.add(q)
                    if q not in after:
                        bad.append((tag + " constraint lost", {"constraint": k, "becomes": sorted(q)[:20]}))
                        break
            if after - left:
                bad.append((tag + " constraint added", {"constraint": sorted(sorted(after - left, key=len)[0])[:20]}))
            used = {j for q in after for m, _ in q for j in m} & gone
            if used:
                bad.append((tag + " removed signal in a constraint", {"labels": sorted(used)[:5]}))
            if any(k not in gone for k in subs) or any(x in subs for e in subs.values() for x in e):
                bad.append((tag + " substitution", {}))
        return bad, n, 1 + len(levels)
    finally:
        shutil.rmtree(d, ignore_errors=True)
