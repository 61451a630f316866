"""C16 (WASM) and C17 (C++): the JSON inputs reach the signals they name, and wrong ones are refused."""
import itertools, json, os, shutil, subprocess
from mc import build, circom, cxxrun, wasmrun
from mc.par import pmap
from mc.report import Check

BIN = None
LIB = """pragma circom 2.2.0;
bus P() { signal x; signal y[2]; }
bus Q() { P() u; signal z; P() w[2]; }
bus N() { signal m[0]; P() h[0]; signal k; P() q[2][0]; signal l[2]; }
bus W() { signal f0; signal f1; signal f2; signal f3; signal f4; signal f5; signal f6; signal f7; signal f8; signal f9; signal f10; signal f11; }
"""
PSH = [("x", ()), ("y", (2,))]
BUS = {"N": [("m", None, (0,)), ("h", "P", (0,)), ("k", None, ()), ("q", "P", (2, 0)), ("l", None, (2,))], "P": [("x", None, ()), ("y", None, (2,))], "Q": [("u", "P", ()), ("z", None, ()), ("w", "P", (2,))], "W": [("f%d" % i, None, ()) for i in range(12)]}
# name: (declaration, bus, shape, an expression)
KINDS = {
    "a": ("signal input a;", None, (), "a"),
    "b": ("signal input b[2];", None, (2,), "b[1]"),
    "c": ("signal input c[2][2];", None, (2, 2), "c[1][0]"),
    "d": ("input P() d;", "P", (), "d.y[1]"),
    "e": ("input Q() e[2];", "Q", (2,), "e[1].w[1].x"),
    "k": ("input W() k;", "W", (), "k.f11"),
    "z": ("signal input z[0];", None, (0,), None),
    "y": ("signal input y[2][0];", None, (2, 0), None),
    "n": ("input N() n[2];", "N", (2,), "n[1].k"),
    "g": ("input P() g[0];", "P", (0,), None),
}


def leaves(name, bus, shape):
    if shape:
        for i in range(shape[0]):
            yield from leaves("%s[%d]" % (name, i), bus, shape[1:])
    elif bus is None:
        yield name
    else:
        for f, b, sh in BUS[bus]:
            yield from leaves(name + "." + f, b, sh)


def nested(name, bus, shape, val, rev=False):
    if shape:
        return [nested("%s[%d]" % (name, i), bus, shape[1:], val, rev) for i in range(shape[0])]
    if bus is None:
        return val[name]
    fs = [(f, nested(name + "." + f, b, sh, val, rev)) for f, b, sh in BUS[bus]]
    return dict(reversed(fs) if rev else fs)


def forms(k, val):
    _, bus, shape, _ = KINDS[k]
    flat = [val[n] for n in leaves(k, bus, shape)]
    out = [nested(k, bus, shape, val)]
    if bus:
        out.append(nested(k, bus, shape, val, True))
    if bus or len(shape) > 1:
        out.append(flat)
    if bus and shape and shape[0]:
        m = len(flat) // shape[0]
        out.append([flat[i * m:(i + 1) * m] for i in range(shape[0])])
    return out


def cut(v, how):
    """the value with its last array element removed or repeated, at the deepest level; None if there is none"""
    if isinstance(v, list):
        if v and isinstance(v[-1], (list, dict)):
            x = cut(v[-1], how)
            return None if x is None else v[:-1] + [x]
        if how == "short":
            return v[:-1] if v else None
        return v + [v[-1] if v else "1"]
    if isinstance(v, dict):
        for f in reversed(list(v)):
            x = cut(v[f], how)
            if x is not None:
                return {**v, f: x}
    return None


def source(seq, pub):
    es = [KINDS[k][3] for k in seq if KINDS[k][3]] or ["3"]
    decl = " ".join(KINDS[k][0] for k in seq)
    return LIB + "template M() { signal output o; %s o <== %s; }\ncomponent main %s= M();\n" % (
        decl, es[0] + "*" + es[-1], "{public [%s]} " % ", ".join(pub) if pub else "")


def cases(seq, p):
    """(label, JSON text, expected {leaf: value} or None)"""
    names = [n for k in seq for n in leaves(k, KINDS[k][1], KINDS[k][2])]
    val = {n: str(7 * i + 3) for i, n in enumerate(names)}
    exp = {n: int(v) for n, v in val.items()}
    out = []
    for combo in itertools.product(*[forms(k, val) for k in seq]):
        out.append(("forms", dict(zip(seq, combo)), exp))
    base = {k: nested(k, KINDS[k][1], KINDS[k][2], val) for k in seq}
    for perm in itertools.permutations(seq):
        out.append(("key order", {k: base[k] for k in perm}, exp))
    reps = [("0", 0), ("1", 1), (str(p - 1), p - 1), (str(p), 0), (str(p + 5), 5), (str(2 * p + 7), 7), (str(2 ** 300 + 11), (2 ** 300 + 11) % p), ("0x1f", 31), ("0xABCdef", 0xabcdef),
            (hex(p + 2), 2), ("0b101", 5), ("0o17", 15), ("0X1F", 31), ("0B101", 5), ("0O17", 15), (str(2 ** 31), 2 ** 31), (str(2 ** 32), 2 ** 32), (str(2 ** 64 - 1), (2 ** 64 - 1) % p), ("00012", 12)]
    reps += [(n, n % p) for n in (0, 1, 5, -1, -5, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 53, -2 ** 53)]
    bad = ["abc", "0xg", "1.5", 1.5, -0.25, None, {"q": "1"}, "0b12", "1e3", "12a"]
    for n in sorted({names[0], names[-1]}) if names else []:
        for r, v in reps:
            w = dict(val)
            w[n] = r
            if isinstance(r, int):  # the elements of an array have one type
                w = {m: r if m == n else int(x) for m, x in val.items()}
            out.append(("number " + json.dumps(r)[:12], {k: nested(k, KINDS[k][1], KINDS[k][2], w) for k in seq}, {**exp, n: v}))
        for r in bad:
            out.append(("not a number " + json.dumps(r), {k: nested(k, KINDS[k][1], KINDS[k][2], {**val, n: r}) for k in seq}, None))
    for k in seq:
        if 0 in KINDS[k][2]:
            out.append(("missing empty " + k, {x: v for x, v in base.items() if x != k}, exp))
            out.append(("long " + k, {**base, k: cut(base[k], "long")}, None))
            out.append(("value for empty " + k, {**base, k: "1"}, None))
        else:
            out.append(("missing " + k, {x: v for x, v in base.items() if x != k}, None))
            for how in ("short", "long"):
                for f in forms(k, val):
                    x = cut(f, how)
                    if x is not None:
                        out.append(("%s %s" % (how, k), {**base, k: x}, None))
            if not KINDS[k][2] and not KINDS[k][1]:
                out.append(("array for a scalar", {**base, k: ["1", "2"]}, None))
                out.append(("empty for a scalar", {**base, k: []}, None))
            elif not KINDS[k][1]:
                out.append(("scalar for an array", {**base, k: "1"}, None))
            if isinstance(base[k], dict) and k != "n":
                f = list(base[k])
                out.append(("missing field " + k, {**base, k: {x: base[k][x] for x in f[1:]}}, None))
                out.append(("missing last field " + k, {**base, k: {x: base[k][x] for x in f[:-1]}}, None))
                out.append(("unknown field " + k, {**base, k: {**base[k], "nn": "1"}}, None))
    for x in ("nn", "o", "main", "", "aa", "main.a", "a[0]", "d.nn"):
        out.append(("unknown key " + x, {**base, x: "1"}, None))
    out.append(("empty", {}, exp if not names else None))
    es = [KINDS[k][3] for k in seq if KINDS[k][3]] or [None]
    return [(label, inp, e if e is None else {**e, "o": e.get(es[0], 3) * e.get(es[-1], 3) % p}) for label, inp, e in out]


def compile_(d, seq, pub, prime, backend):
    r = circom.run(BIN, source(seq, pub), ["--O0", "--sym", "--prime", prime, "--wasm" if backend == "wasm" else "--c"], d)
    if not r.ok:
        raise circom.FormatError("rejected " + source(seq, pub) + r.err[-500:])
    return circom.read_sym(d + "/m.sym")


def judge(tag, sym, label, inp, exp, err, w, src):
    det = {"source": src, "input": inp}
    if exp is None:
        return [] if err is not None else [("%s: accepted %s" % (tag, label), {**det, "witness": w})]
    if err is not None:
        return [("%s: refused %s" % (tag, label), {**det, "error": err})]
    for _, wi, _, nm in sym:
        if nm[5:] in exp and w[wi] != exp[nm[5:]]:
            return [("%s: value with %s" % (tag, label), {**det, "signal": nm, "expected": exp[nm[5:]], "observed": w[wi]})]
    return []


def job(a):
    seq, pub, prime, backend = a
    p = circom.prime_of(prime)
    d = circom.scratch()
    bad = []
    try:
        src = source(seq, pub)
        sym = compile_(d, seq, pub, prime, backend)
        cs = cases(seq, p)
        tag = "%s %s %s public %s" % (backend, prime, "".join(seq), "".join(pub))
        if backend == "wasm":
            for (label, inp, exp), g in zip(cs, wasmrun.witnesses(d, "m", [c[1] for c in cs], mode="bin")):
                w = None
                if "wtns" in g:
                    open(d + "/w", "wb").write(g["wtns"])
                    q, w = circom.read_wtns(d + "/w")
                    if q != p:
                        bad.append((tag + ": prime", {"source": src, "prime": q}))
                bad += judge(tag, sym, label, inp, exp, g.get("err"), w, src)
        else:
            exe = cxxrun.build(d, "m", flags=["-std=c++11", "-O0", "-I."])
            for label, inp, exp in cs:
                json.dump(inp, open(d + "/in.json", "w"))
                if os.path.exists(d + "/w"):
                    os.unlink(d + "/w")
                rc, so, se = cxxrun.run(exe, d + "/in.json", d + "/w")
                w = None
                if rc == 0:
                    q, w = circom.read_wtns(d + "/w")
                    if q != p:
                        bad.append((tag + ": prime", {"source": src, "prime": q}))
                elif os.path.exists(d + "/w"):
                    bad.append((tag + ": failed but wrote a witness " + label, {"source": src, "input": inp}))
                bad += judge(tag, sym, label, inp, exp, None if rc == 0 else str(rc) + se[-200:], w, src)
            if prime == "goldilocks":  # this one also reads the inputs in binary, in the order of their signals
                ins = [(w, n) for _, w, _, n in sym if n != "main.o" and n.startswith("main.")]
                ins.sort()
                vals = {n: 11 * i + 5 for i, (_, n) in enumerate(ins)}
                open(d + "/in.bin", "wb").write(b"".join(vals[n].to_bytes(8, "little") for _, n in ins))
                rc, so, se = cxxrun.run(exe, d + "/in.bin", d + "/wb") if ins else (0, "", "")
                if ins:
                    bad += judge(tag, sym, "binary input", None, {n[5:]: v for n, v in vals.items()}, None if rc == 0 else str(rc) + se[-200:], circom.read_wtns(d + "/wb")[1] if rc == 0 else None, src)
        return len(cs), bad, sum(1 for c in cs if c[2] is None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fnv(s):
    h = 0xcbf29ce484222325
    for c in s.encode():
        h = (h ^ c) * 0x100000001b3 % 2 ** 64
    return h


def in_bucket(b, n, used, size=256):
    """n fresh names whose hash falls in bucket b of the table of the inputs"""
    out = []
    for i in itertools.count():
        x = "s%d" % i
        if x not in used and fnv(x) % size == b:
            used.add(x)
            out.append(x)
            if len(out) == n:
                return out


def lookups(thorough, backend):
    """(names of the inputs in order, names that are not inputs): every way in which up to four (three in C++) inputs fall in the
    buckets around the end of the table, in every order; names whose hash starts with zeros; tables from nearly full to large"""
    bs = (254, 255, 0, 1) if backend == "wasm" or thorough else (255, 0)
    for n in range(1, 5 if backend == "wasm" or thorough else 4):
        for seq in itertools.product(bs, repeat=n):
            used = set()
            names = [in_bucket(b, 1, used)[0] for b in seq]
            yield names, [x for b in (253, 254, 255, 0, 1, 2) for x in in_bucket(b, 1, used)]
    zs, want = [], {"msb": 0, "msw": 0, "lsw": 0, "low": 0}
    for i in itertools.count():
        h = fnv("t%d" % i)
        for k, c in (("msb", h >> 60 == 0), ("msw", h >> 56 == 0), ("lsw", h >> 28 & 15 == 0), ("low", h >> 24 & 255 == 0)):
            if c and want[k] < 3:
                want[k] += 1
                zs.append("t%d" % i)
                break
        if all(v == 3 for v in want.values()):
            break
    yield zs, ["a", "b"]
    for n in (255, 256, 257, 511, 512, 513) if backend == "wasm" or thorough else (256, 257):
        yield ["u%d" % i for i in range(n)], ["u%d" % i for i in range(n, n + 40)]


def lookup_job(a):
    names, unknown, prime, backend = a
    d = circom.scratch()
    bad = []
    try:
        src = "pragma circom 2.2.0;\ntemplate M() { signal output o; %s o <== %s; }\ncomponent main = M();\n" % (
            " ".join("signal input %s%s;" % (x, "[2]" if i % 5 == 3 else "") for i, x in enumerate(names)), "%s%s*%d" % (names[-1], "[1]" if len(names) % 5 == 4 else "", 3))
        r = circom.run(BIN, src, ["--O0", "--sym", "--prime", prime, "--wasm" if backend == "wasm" else "--c"], d)
        if not r.ok:
            raise circom.FormatError("rejected " + src[:2000] + r.err[-500:])
        sym = circom.read_sym(d + "/m.sym")
        base = {x: [str(2 * i + 5), str(3 * i + 7)] if i % 5 == 3 else str(2 * i + 5) for i, x in enumerate(names)}
        exp = {}
        for x, v in base.items():
            exp.update({"%s[%d]" % (x, j): int(y) for j, y in enumerate(v)} if isinstance(v, list) else {x: int(v)})
        cs = [("the inputs", base, exp), ("reverse order", dict(reversed(base.items())), exp)]
        for x in unknown:
            cs.append(("unknown key", {**base, x: "1"}, None))
            cs.append(("unknown key first", {x: "1", **base}, None))
        for x in names[:3] + names[-3:]:
            cs.append(("missing key", {y: v for y, v in base.items() if y != x}, None))
            cs.append(("a key replaced by an unknown one", {unknown[0] if y == x else y: v for y, v in base.items()}, None))
        if backend != "wasm" and len(names) > 16:
            cs = cs[:4] + cs[-2:]
        tag = "%s lookup of %d inputs %s" % (backend, len(names), " ".join(names[:12]))
        if backend == "wasm":
            for (label, inp, e), g in zip(cs, wasmrun.witnesses(d, "m", [c[1] for c in cs], fresh=True)):
                bad += judge(tag, sym, label, inp, e, g.get("err"), g.get("w"), src)
        else:
            exe = cxxrun.build(d, "m", flags=["-std=c++11", "-O0", "-I."])
            for label, inp, e in cs:
                json.dump(inp, open(d + "/in.json", "w"))
                rc, so, se = cxxrun.run(exe, d + "/in.json", d + "/w")
                bad += judge(tag, sym, label, inp, e, None if rc == 0 else str(rc) + se[-200:], circom.read_wtns(d + "/w")[1] if rc == 0 else None, src)
        return len(cs), bad, sum(1 for c in cs if c[2] is None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def circuits(quick, backend):
    for n in (1, 2, 3):
        for seq in itertools.permutations(KINDS, n):
            if n == 3 and (("k" in seq) + ("e" in seq) + ("d" in seq) > 1 or "y" in seq or "g" in seq or "n" in seq or (quick and backend == "cxx")):
                continue
            if backend == "cxx" and quick and n == 2 and seq[0] > seq[1] and seq[0] != "z":
                continue
            yield seq, ()
            if n == 2 and KINDS[seq[1]][3]:
                yield seq, (seq[1],)
    yield (), ()


SEQ = """pragma circom 2.2.0;
template S(n) { signal input v[n]; signal output o; var s = 0; for (var i = 0; i < n; i++) { s += v[i]*(i+1); } log("s", s); o <== s; assert(s != 5); }
template M() { signal input a; signal input b[2]; signal output o; signal output q; component c[2]; c[0] = S(2); c[1] = S(3); c[0].v <== b; c[1].v[0] <== c[0].o; c[1].v[1] <== a; c[1].v[2] <== 1; o <== c[1].o; q <-- a > 3 ? b[0] : b[1]; log(a, o); }
component main = M();
"""
OPS = [("w", {"a": "2", "b": ["1", "3"]}), ("w", {"a": "9", "b": ["4", "0"]}), ("b", {"a": "2", "b": ["1", "3"]}), ("t", {"a": "9", "b": ["4", "0"]}), ("w", {"a": "1", "b": ["1", "2"]}),
       ("w", {"a": "2"}), ("w", {"b": ["1", "3"]}), ("w", {"a": "2", "b": ["1", "3"], "n": "1"}), ("w", {"a": "2", "b": ["1"]}), ("w", {"a": "x", "b": ["1", "3"]}), ("w", {"n": "1", "a": "2", "b": ["7", "3"]})]


def sequences(d, length):
    """every sequence of calls on one instance of the calculator: each answers as on a fresh instance"""
    js = """
const fs = require("fs"); const b = require(process.argv[2] + "/m_js/witness_calculator.js"); const code = fs.readFileSync(process.argv[2] + "/m_js/m.wasm");
const ops = JSON.parse(process.argv[3]); const L = Number(process.argv[4]); let log = []; console.log = (...a) => log.push(a.join(" "));
async function call(wc, o) { log = []; let r; try { if (o[0] == "w") r = (await wc.calculateWitness(o[1], 0)).map(String).join(); else if (o[0] == "b") r = Buffer.from(await wc.calculateBinWitness(o[1], 0)).toString("hex"); else r = Buffer.from(await wc.calculateWTNSBin(o[1], 0)).toString("hex"); } catch (e) { r = "error " + String(e.message).split("\\n")[0]; } return r + "|" + log.join("/"); }
(async () => { const fresh = []; for (const o of ops) fresh.push(await call(await b(code), o)); const bad = []; let n = 0, k = 0;
 const idx = Array(L).fill(0);
 while (true) { const wc = await b(code); k++; for (let i = 0; i < L; i++) { const g = await call(wc, ops[idx[i]]); n++; if (g !== fresh[idx[i]]) { bad.push([idx.slice(0, i + 1), g, fresh[idx[i]]]); break; } }
  let j = L - 1; while (j >= 0 && ++idx[j] == ops.length) idx[j--] = 0; if (j < 0) break; }
 fs.writeSync(1, JSON.stringify({ n, k, fresh, bad: bad.slice(0, 5), nbad: bad.length })); })();
"""
    open(d + "/seq.js", "w").write(js)
    r = subprocess.run(["node", "--stack-size=4000", d + "/seq.js", d, json.dumps(OPS), str(length)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    return json.loads(r.stdout)


def modes(prime):
    """the three calls of the calculator return the same witness: as numbers, as bytes and as the contents of a file"""
    d = circom.scratch()
    try:
        r = circom.run(BIN, SEQ, ["--wasm", "--prime", prime], d)
        if not r.ok:
            raise circom.FormatError(r.err)
        js = """const fs = require("fs"); const b = require(process.argv[2] + "/m_js/witness_calculator.js"); console.log = () => {};
(async () => { const wc = await b(fs.readFileSync(process.argv[2] + "/m_js/m.wasm")); const out = []; for (const i of JSON.parse(process.argv[3])) out.push([(await wc.calculateWitness(i, 0)).map(String), Buffer.from(await wc.calculateBinWitness(i, 0)).toString("hex"), Buffer.from(await wc.calculateWTNSBin(i, 0)).toString("hex")]); fs.writeSync(1, JSON.stringify(out)); })();"""
        open(d + "/modes.js", "w").write(js)
        p = circom.prime_of(prime)
        n = (p.bit_length() + 63) // 64 * 8
        ins = [o[1] for o in OPS[:2]] + [{"a": str(p - 1), "b": [str(p - 2), str(p // 2)]}]
        g = subprocess.run(["node", d + "/modes.js", d, json.dumps(ins)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        bad = []
        try:
            res = json.loads(g.stdout)
        except ValueError:
            return 0, [("%s: the calls of the calculator fail" % prime, {"error": g.stderr.decode()[-300:]})]
        for i, (w, b, t) in zip(ins, res):
            w = [int(x) for x in w]
            b = bytes.fromhex(b)
            open(d + "/t", "wb").write(bytes.fromhex(t))
            wb = [int.from_bytes(b[k:k + n], "little") for k in range(0, len(b), n)]
            wt = circom.read_wtns(d + "/t")
            if wb != w or wt != (p, w):
                bad.append(("%s: the calls of the calculator disagree" % prime, {"input": i, "calculateWitness": w, "calculateBinWitness": wb, "calculateWTNSBin": wt[1], "source": SEQ}))
        return 3 * len(ins), bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cli(d):
    """generate_witness.js writes the same file as the library call"""
    json.dump(OPS[0][1], open(d + "/in.json", "w"))
    r = subprocess.run(["node", d + "/m_js/generate_witness.js", d + "/m_js/m.wasm", d + "/in.json", d + "/cli.wtns"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if r.returncode:
        return None, r.stderr.decode()[-300:]
    json.dump(OPS[4][1], open(d + "/in.json", "w"))
    r = subprocess.run(["node", d + "/m_js/generate_witness.js", d + "/m_js/m.wasm", d + "/in.json", d + "/bad.wtns"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return circom.read_wtns(d + "/cli.wtns"), None if r.returncode != 0 and not os.path.exists(d + "/bad.wtns") else "failing input accepted"


def run(pid, backend):
    global BIN
    ck = Check(pid)
    BIN = build.circom()
    jobs = [(s, pub, "bn128", backend) for s, pub in circuits(not ck.thorough, backend)]
    jobs += [(s, pub, pr, backend) for s, pub, _, _ in jobs if ck.thorough or len(s) <= 1 for pr in circom.PRIMES if pr != "bn128" and (ck.thorough or (backend == "wasm" and s not in (("y",), ("g",))) or s == ("b",) or pr == "goldilocks")]
    if backend == "cxx" and not ck.thorough:
        jobs += [(s, pub, "goldilocks", backend) for s, pub, pr, _ in jobs if pr == "bn128" and len(s) == 2 and pub]
    inv = 0
    for n, bad, k in pmap(job, jobs):
        ck.add(traces_validated_against_impl=n)
        inv += k
        for key, d in bad:
            ck.violation(key, d)
    looks = [(n, u, pr, backend) for n, u in lookups(ck.thorough, backend) for pr in (["bn128", "goldilocks"] if ck.thorough or len(n) in (12, 2, 256) else ["bn128"])]
    for n, bad, k in pmap(lookup_job, looks):
        ck.add(traces_validated_against_impl=n)
        inv += k
        for key, d in bad:
            ck.violation(key, d)
    ck.cov["circuits_of_the_lookup"] = len(looks)
    ck.cov["invalid_inputs"] = inv
    if backend == "wasm":
        for n, bad in pmap(modes, list(circom.PRIMES)):
            ck.add(traces_validated_against_impl=n)
            for key, dt in bad:
                ck.violation(key, dt)
        d = circom.scratch()
        try:
            r = circom.run(BIN, SEQ, ["--wasm"], d)
            if not r.ok:
                raise circom.FormatError(r.err)
            s = sequences(d, 4 if ck.thorough else 3)
            ck.cov["call_sequences"], ck.cov["calls"] = s["k"], s["n"]
            for idx, g, e in s["bad"]:
                ck.violation("reuse of the calculator: calls %s" % idx, {"calls": [OPS[i] for i in idx], "observed": g, "fresh": e, "source": SEQ})
            if [x.startswith("error") for x in s["fresh"]] != [False] * 4 + [True] * 7:
                ck.violation("reuse: outcomes of the calls", {"observed": s["fresh"]})
            w, e = cli(d)
            if e or ",".join(map(str, w[1])) != s["fresh"][0].split("|")[0]:
                ck.violation("generate_witness.js", {"error": e})
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ck.cov["circuits"] = len(jobs)
    ck.cov["states"] = ck.cov["traces_validated_against_impl"] + ck.cov.get("call_sequences", 0)
    ck.cov["transitions"] = ck.cov["traces_validated_against_impl"] + ck.cov.get("calls", 0)
    ck.cov["exhaustive"] = True
    ck.cov["rule"] = "a state is (main template, input file) or a sequence of calls; transitions counts the generator calls; a trace is one run of the emitted generator on an input whose outcome (values or refusal) is compared with what the input file means"
    ck.sample({"source": source(("e", "a"), ("a",)), "inputs": [c[:2] for c in cases(("e",), 101)[:2]]})
    ck.finish()


def main():
    run("C16", "wasm")
