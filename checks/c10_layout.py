"""C10: the R1CS header, the wire numbering, the sym file, the JSON constraints and the printed summary agree with the
interface of the main component and with each other."""
import json, os, re, shutil
from collections import Counter
from mc import build, circom, mains, ref
from mc.par import pmap
from mc.report import Check

BIN = None


def interface(src, p):
    """(outputs, public inputs, private inputs) of main in order of declaration, and every signal name"""
    prog = ref.parse(src)
    m = ref.Machine(prog, p, "dry")
    e = ref._main(prog)
    inst = m.instantiate(e[1], [m.ev(x, ref.Scope(), None) for x in e[2]], "main")
    out, pub, prv = [], [], []
    for name, sig in inst.ports.items():
        l = list(m.leaves(sig.full, sig.shape, sig.bus))
        if sig.kind == "output":
            out += l
        elif name in prog.public:
            pub += l
        else:
            prv += l
    return out, pub, prv


def problems(d, r, src, prime, level, names):
    p = circom.prime_of(prime)
    out, pub, prv = interface(src, p)
    c = circom.read_r1cs(d + "/m.r1cs")
    sym = circom.read_sym(d + "/m.sym")
    if c.prime != p:
        yield "prime in the header"
    fs = -(-p.bit_length() // 64) * 8
    if c.field_size != fs:
        yield "field size"
    for what, got, exp in (("public outputs", c.n_pub_out, len(out)), ("public inputs", c.n_pub_in, len(pub)), ("private inputs", c.n_prv_in, len(prv)),
                           ("labels", c.n_labels, len(names) + 1)):
        if got != exp:
            yield "header: %s %d, expected %d" % (what, got, exp)
    if sorted(l for l, _, _, _ in sym) != list(range(1, len(names) + 1)):
        yield "sym: labels"
    if {n for _, _, _, n in sym} != names:
        yield "sym: names"
    if sorted(w for _, w, _, _ in sym if w >= 0) != list(range(1, c.n_wires)):
        yield "sym: witness positions"
    lab = {w: l for l, w, _, _ in sym if w >= 0}
    if c.labels[0] != 0 or any(c.labels[w] != lab.get(w) for w in range(1, c.n_wires)):
        yield "wire to label map differs from the sym file"
    wire = {n: w for _, w, _, n in sym}
    if [wire.get(n) for n in out + pub] != list(range(1, 1 + len(out) + len(pub))):
        yield "public signals are not the first wires in order"
    kept = [wire[n] for n in prv if wire.get(n, -1) >= 0]
    first = 1 + len(out) + len(pub)
    if kept != list(range(first, first + len(kept))):
        yield "private inputs do not follow the public signals"
    used = {w for k in c.constraints for lc in k for w in lc}
    public = set(out + pub)
    for n, w in wire.items():
        if level == ["--O0"]:
            if w < 0:
                yield "signal without a witness position at --O0"
        elif (w >= 0) != (n in public or w in used):
            yield "a witness position for a signal that is neither public nor constrained, or none for one that is"
    if any(0 in lc.values() for k in c.constraints for lc in k):
        yield "zero coefficient"
    key = lambda k: tuple(tuple(sorted((int(w), int(v)) for w, v in lc.items())) for lc in k)
    js = json.load(open(d + "/m_constraints.json"))
    if set(js) != {"constraints"} or Counter(map(key, js["constraints"])) != Counter(map(key, c.constraints)):
        yield "JSON constraints differ from the R1CS"
    nl = sum(1 for k in c.constraints if k[0] and k[1])
    s = {m.group(1): (int(m.group(2)), m.group(3)) for m in re.finditer(r"^([a-z -]+): (\d+)(?: \((.*)\))?$", r.out, re.M)}
    exp = {"non-linear constraints": nl, "linear constraints": len(c.constraints) - nl, "public inputs": len(pub), "private inputs": len(prv), "public outputs": len(out), "wires": c.n_wires, "labels": len(names) + 1}
    for k, v in exp.items():
        if k not in s or s[k][0] != v:
            yield "summary: %s is %s, expected %d" % (k, s.get(k), v)
    note = s.get("private inputs", (0, None))[1]
    expn = None if len(kept) == len(prv) else "none belong to witness" if not kept else "%d belong to witness" % len(kept)
    if note != expn:
        yield "summary: private inputs (%s), expected (%s)" % (note, expn)


def job(a):
    seq, public, prime, levels = a
    src = mains.source(seq, public)
    p = circom.prime_of(prime)
    prog = ref.parse(src)
    ins = ref.input_names(prog, p)
    names = set(ref.witness(prog, p, {n: 0 for n in ins}).values)
    d = circom.scratch()
    bad, n = [], 0
    try:
        for lv in levels:
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
            r = circom.run(BIN, src, ["--r1cs", "--sym", "--json", "--prime", prime] + lv, d)
            if not r.ok:
                bad.append(("rejected %s" % " ".join(seq), {"source": src, "stderr": r.err[-600:]}))
                break
            for b in problems(d, r, src, prime, lv, names):
                bad.append(("%s %s [%s] %s" % (" ".join(lv), " ".join(seq), " ".join(public), b), {"problem": b, "source": src, "level": lv, "prime": prime}))
            n += 1
        return n, len(names), bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN
    ck = Check("C10")
    BIN = build.circom()
    L = [["--O0"], ["--O1"], ["--O2"]]
    jobs = []
    if ck.thorough:
        jobs += [(s, q, "bn128", L) for s in mains.templates(4) for q in mains.publics(s, True)]
        jobs += [(s, q, pr, L) for pr in circom.PRIMES for s in mains.templates(2) for q in mains.publics(s)]
    else:
        jobs += [(s, q, "bn128", L) for s in mains.templates(3) for q in mains.publics(s, len(s) < 3)]
        jobs += [(s, q, pr, L[:2]) for pr in circom.PRIMES for s in mains.templates(1) for q in mains.publics(s)]
    states = set()
    for n, k, bad in pmap(job, jobs, 4):
        ck.add(traces_validated_against_impl=n, transitions=n * k)
        for key, d in bad:
            ck.violation(key, d)
    ck.cov["states"] = len(jobs)
    ck.cov["exhaustive"] = True
    ck.cov["rule"] = "a state is a main component (sequence of declarations, list of public inputs, prime); a trace is one compilation of it whose files are read; transitions counts the signals whose numbering is compared"
    ck.sample({"source": mains.source(*jobs[-1][:2])})
    ck.finish()
