"""Batches of enumerated programs run through one of circom's evaluators and compared with the reference."""
import json, os, shutil
from . import circom, cxxrun, progs, ref, wasmrun

BIN = None


def reference(batch, p, pts):
    text = progs.HELP + "\n".join(progs.function_text("f%d" % i, pr) for i, pr in enumerate(batch))
    prog = ref.parse(text)
    m = ref.Machine(prog, p, "witness")
    out = []
    total = 0
    for i in range(len(batch)):
        row = []
        for x, y in pts:
            m.steps = 0
            row.append(m.call("f%d" % i, [x, y]))
            total += m.steps
        out.append(row)
    return out, total


def source(batch, mode, pts):
    n = len(batch)
    L = ["pragma circom 2.0.0;", progs.HELP]
    if mode == "tmpl":
        L += [progs.template_text("T%d" % i, pr) for i, pr in enumerate(batch)]
        L.append("template M() { signal input x; signal input y; signal output o[%d];" % n)
        for i in range(n):
            L.append("component c%d = T%d(); c%d.x <== x; c%d.y <== y; o[%d] <== c%d.o;" % (i, i, i, i, i, i))
    else:
        L += [progs.function_text("f%d" % i, pr) for i, pr in enumerate(batch)]
        if mode == "run":
            L.append("template M() { signal input x; signal input y; signal output o[%d];" % n)
            for i in range(n):
                L.append("o[%d] <-- f%d(x, y);" % (i, i))
        else:
            L.append("template M() { signal output o[%d][%d];" % (n, len(pts)))
            for i in range(n):
                for j, (x, y) in enumerate(pts):
                    L.append("o[%d][%d] <== f%d(%d, %d);" % (i, j, i, x, y))
    L.append("}")
    L.append("component main = M();")
    return "\n".join(L) + "\n"


def values_of(batch, backend, mode, prime, pts, flags, d):
    """rows of values per program; raises on a failure of the whole batch"""
    p = circom.prime_of(prime)
    n = len(batch)
    args = {"wasm": ["--wasm"], "cxx": ["--c"], "const": ["--r1cs"]}[backend]
    src = source(batch, mode, pts)
    r = circom.run(BIN, src, args + ["--O0", "--prime", prime] + flags, d, timeout=240)
    if not r.ok:
        raise Failure("rejected", {"rc": r.rc, "stderr": r.err[-1500:]})
    if backend == "const":
        c = circom.read_r1cs(os.path.join(d, "m.r1cs"))
        got = {}
        for A, B, C in c.constraints:
            ws = [w for w in C if w]
            if (A and B) or len(ws) != 1:
                raise Failure("constraint", {"constraint": [A, B, C]})
            got[ws[0]] = -C.get(0, 0) * pow(C[ws[0]], -1, p) % p
        return [[got.get(1 + i * len(pts) + j) for j in range(len(pts))] for i in range(n)]
    ins = [{"x": str(x), "y": str(y)} for x, y in pts]
    if backend == "wasm":
        cols = []
        for w in wasmrun.witnesses(d, "m", ins, timeout=240):
            cols.append(w["w"][1:1 + n] if "w" in w else [w["err"]] * n)
    else:
        try:
            exe = cxxrun.build(d, "m", flags=["-std=c++11", "-O0", "-I."])
        except cxxrun.CxxError as e:
            raise Failure("does not compile", {"error": str(e)[-1500:]})
        cols = []
        for inp in ins:
            with open(d + "/in.json", "w") as f:
                json.dump(inp, f)
            if os.path.exists(d + "/w"):
                os.unlink(d + "/w")
            rc, so, se = cxxrun.run(exe, d + "/in.json", d + "/w")
            if rc != 0:
                cols.append(["rc=%s %s" % (rc, se[-200:])] * n)
            else:
                cols.append(circom.read_wtns(d + "/w")[1][1:1 + n])
    return [[c[i] for c in cols] for i in range(n)]


class Failure(Exception):
    pass


def job(a):
    batch, backend, mode, prime, pts, flags = a
    p = circom.prime_of(prime)
    exp, steps = reference(batch, p, pts)
    d = circom.scratch()
    bad = []
    try:
        try:
            got = values_of(batch, backend, mode, prime, pts, flags, d)
        except Failure as e:
            if len(batch) > 1:
                h = len(batch) // 2
                r1 = job((batch[:h], backend, mode, prime, pts, flags))
                r2 = job((batch[h:], backend, mode, prime, pts, flags)) if not r1[1] else (0, [], set(), 0)
                return r1[0] + r2[0], r1[1] + r2[1], r1[2] | r2[2], steps
            return 1, [("%s %s %s" % (e.args[0], backend + " " + mode, batch[0][2] + " return " + batch[0][3]), {"source": source(batch, mode, pts), "prime": prime, **e.args[1]})], set(), steps
        outcomes = set()
        for pr, er, gr in zip(batch, exp, got):
            outcomes |= set(er)
            if er != gr:
                j = next(j for j in range(len(pts)) if er[j] != gr[j])
                bad.append(("value %s %s %s" % (backend, mode, pr[2] + " return " + pr[3]),
                            {"prime": prime, "input": pts[j], "expected": er[j], "observed": gr[j], "source": source([pr], mode, [pts[j]]), "backend": backend, "flags": flags}))
        return len(batch), bad, outcomes, steps
    finally:
        shutil.rmtree(d, ignore_errors=True)


def batches(progs_list, size):
    return [progs_list[i:i + size] for i in range(0, len(progs_list), size)]
