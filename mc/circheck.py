"""Runs a circuit through the compiler at several simplification levels and compares with the reference."""
import json, os, shutil
from . import circom, cxxrun, ref, wasmrun


def json_inputs(flat):
    """{'v[0]': 1, ...} -> nested JSON inputs"""
    import re
    out = {}
    for k, v in flat.items():
        parts = re.findall(r"\.?([A-Za-z_$][\w$]*)|\[(\d+)\]", k)
        cur, last = out, None
        path = [n if n else int(i) for n, i in parts]
        for a, b in zip(path, path[1:] + [None]):
            if b is None:
                val = str(v)
            else:
                val = [] if isinstance(b, int) else {}
            if isinstance(cur, list):
                while len(cur) <= a:
                    cur.append(None)
                if b is None or cur[a] is None:
                    cur[a] = val
            elif b is None or a not in cur:
                cur[a] = val
            cur = cur[a]
    return out


def canon(name, templates):
    """the name with the compiler's (or the reference's) choice of names for anonymous components removed; None if it has none"""
    import re
    out, found = [], False
    for part in name.split("."):
        m = re.match(r"^%([\w$]+)%\d+$", part)
        if not m:
            m = re.match(r"^([\w$]+)_\d+_\d+(?:\[\d+\])*$", part)
            if m and m.group(1) not in templates:
                m = None
        found = found or m is not None
        out.append("%" + m.group(1) if m else part)
    return ".".join(out) if found else None


def differences(expected, sym, w, templates):
    """sym entries against the expected values; signals inside anonymous components are compared as multisets"""
    from collections import Counter
    an_e, an_o, an_n = {}, {}, Counter()
    names, n = set(), 0
    for nm, v in expected.items():
        k = canon(nm, templates)
        if k is not None:
            an_e.setdefault(k, Counter())[v] += 1
    for _, wi, _, nm in sym:
        k = canon(nm, templates)
        if k is not None:
            an_n[k] += 1
            if wi >= 0:
                n += 1
                an_o.setdefault(k, Counter())[w[wi]] += 1
        else:
            names.add(nm)
            if wi >= 0:
                n += 1
                if expected.get(nm) != w[wi]:
                    return n, ("value of " + nm, {"signal": nm, "expected": expected.get(nm), "observed": w[wi]})
    miss = {x for x in expected if canon(x, templates) is None} ^ names
    if miss:
        return n, ("signals", {"difference": sorted(miss)[:6]})
    for k in set(an_e) | set(an_n):
        if sum(an_e.get(k, Counter()).values()) != an_n[k]:
            return n, ("signals", {"difference": [k]})
        if an_o.get(k, Counter()) - an_e.get(k, Counter()):
            return n, ("value of " + k, {"signal": k, "expected": dict(an_e[k]), "observed": dict(an_o[k])})
    return n, None


def compare(binary, src, inputs, prime, levels, backend="wasm", files=None):
    """inputs: list of {flat input name: int}. Returns (problems, stats)"""
    p = circom.prime_of(prime)
    prog = ref.parse(src)
    exp = [ref.witness(prog, p, i).values for i in inputs]
    d = circom.scratch()
    bad = []
    signals = checks = 0
    try:
        for lv in levels:
            dd = os.path.join(d, "_".join(lv).replace("-", ""))
            os.makedirs(dd)
            args = ["--r1cs", "--sym", {"wasm": "--wasm", "cxx": "--c"}[backend], "--prime", prime] + lv
            r = circom.run(binary, src, args, dd, timeout=200)
            tag = " ".join(lv)
            if not r.ok:
                bad.append((tag + " rejected", {"stderr": r.err[-800:]}))
                continue
            c = circom.read_r1cs(dd + "/m.r1cs")
            sym = circom.read_sym(dd + "/m.sym")
            ins = [json_inputs(i) for i in inputs]
            if backend == "wasm":
                ws = wasmrun.witnesses(dd, "m", ins, timeout=200)
            else:
                exe = cxxrun.build(dd, "m", flags=["-std=c++11", "-O0", "-I."])
                ws = []
                for i in ins:
                    json.dump(i, open(dd + "/in.json", "w"))
                    if os.path.exists(dd + "/w"):
                        os.unlink(dd + "/w")
                    rc, so, se = cxxrun.run(exe, dd + "/in.json", dd + "/w")
                    ws.append({"w": circom.read_wtns(dd + "/w")[1]} if rc == 0 else {"err": se[-300:] + str(rc)})
            for j, (e, w) in enumerate(zip(exp, ws)):
                if "err" in w:
                    bad.append((tag + " witness error", {"error": w["err"], "input": inputs[j]}))
                    continue
                w = w["w"]
                if len(w) != c.n_wires or w[0] != 1:
                    bad.append((tag + " witness shape", {"len": len(w), "wires": c.n_wires}))
                    continue
                k = circom.satisfied(c, w)
                checks += len(c.constraints)
                if k is not None:
                    A, B, C = c.constraints[k]
                    nm = {wi: n for _, wi, _, n in sym}
                    bad.append((tag + " witness does not satisfy the constraints", {"constraint": [{nm.get(x, "1"): v for x, v in lc.items()} for lc in (A, B, C)], "input": inputs[j]}))
                n, diff = differences(e, sym, w, prog.templates)
                signals += n
                if diff:
                    bad.append((tag + " " + diff[0], {**diff[1], "input": inputs[j]}))
        return bad, (len(exp) * len(levels), signals, checks)
    finally:
        shutil.rmtree(d, ignore_errors=True)
