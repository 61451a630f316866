"""Every deviation from an honest assignment, judged by the R1CS and by the constraints as written.

For a circuit and an input, the assignments explored are the honest one and, for each signal and each other value of a
set, (a) the honest assignment with only that signal changed and (b) the one in which the signals computed from it follow
the change. The R1CS has to accept exactly those in which every === and <== that the program executes holds."""
import itertools, re, shutil
from . import circom, ref
from .circheck import canon


class Override(ref.Machine):
    """witness mode in which one signal is given another value, which the others follow"""
    target = None
    alt = None

    def writeall(self, full, shape, bus, v):
        if not shape and bus is None and full == self.target:
            v = self.alt
        return ref.Machine.writeall(self, full, shape, bus, v)


def override(prog, p, inputs, target, alt):
    m = Override(prog, p, "witness")
    m.sanity = 0
    m.target, m.alt = target, alt
    m.owner = {}
    e = ref._main(prog)
    inst = m.instantiate(e[1], [m.ev(x, ref.Scope(), None) for x in e[2]], "main")
    m.maybe_run(inst)
    for name, sig in list(inst.ports.items()):
        if sig.kind == "input":
            for n in m.leaves(sig.full, sig.shape, sig.bus):
                m.values[n] = alt if n == target else inputs[n[5:]] % p
                inst.missing -= 1
                if inst.missing == 0:
                    m.run_inst(inst)
    return m.values


def match(names, sym, templates, honest, wires_of):
    """{reference name: wire}: anonymous components are matched by their values; None if this is ambiguous"""
    wire = {}
    groups_r, groups_c = {}, {}
    for n in names:
        if canon(n, templates) is None:
            wire[n] = None
        else:
            pre = prefix(n, templates)
            groups_r.setdefault(canon(pre, templates), {}).setdefault(pre, []).append(n)
    for _, w, _, n in sym:
        if canon(n, templates) is None:
            if n not in wire:
                return "signal %s is not of the source" % n
            wire[n] = w
        else:
            pre = prefix(n, templates)
            groups_c.setdefault(canon(pre, templates), {}).setdefault(pre, {})[n] = w
    if None in wire.values():
        return "signal %s is not in the sym file" % [n for n in wire if wire[n] is None][0]
    if {k: len(v) for k, v in groups_r.items()} != {k: len(v) for k, v in groups_c.items()}:
        return "anonymous components differ"
    for k in groups_r:
        rs, cs = groups_r[k], groups_c[k]
        opts = []
        for r, ns in rs.items():
            ok = []
            for c, ws in cs.items():
                good = True
                for n in ns:
                    w = next((w for m, w in ws.items() if canon(m, templates) == canon(n, templates)), None)
                    if w is None or (w >= 0 and any(h[n] != v[w] for h, v in honest)):
                        good = False
                if good:
                    ok.append(c)
            opts.append((r, ok))
        if any(len(o) != 1 for _, o in opts) or len({o[0] for _, o in opts}) != len(opts):
            return None
        for r, o in opts:
            for n in rs[r]:
                wire[n] = next(w for m, w in cs[o[0]].items() if canon(m, templates) == canon(n, templates))
    return wire


def prefix(n, templates):
    """the name of the innermost anonymous component of a signal"""
    parts = n.split(".")
    for i in range(len(parts), 0, -1):
        pre = ".".join(parts[:i])
        if canon(pre, templates) != (canon(".".join(parts[:i - 1]), templates) if i > 1 else None) and canon(parts[i - 1], templates) is not None:
            return pre
    return n


def violated(cons, w, p):
    for A, B, C in cons:
        s = lambda lc: sum(c * w[i] for i, c in lc.items())
        if (s(A) * s(B) - s(C)) % p:
            return True
    return False


def explore(binary, src, inputs, prime, alts, wits, args=()):
    """wits(dir, inputs) -> witnesses of the emitted generator (to match anonymous components) or None.
    Returns (assignments, constraints, problem, ambiguous)"""
    p = circom.prime_of(prime)
    prog = ref.parse(src)
    d = circom.scratch()
    try:
        r = circom.run(binary, src, ["--r1cs", "--sym", "--O0", "--prime", prime] + list(args), d, timeout=200)
        if not r.ok:
            return 0, 0, ("rejected", {"stderr": r.err[-600:], "source": src}), False
        c = circom.read_r1cs(d + "/m.r1cs")
        sym = circom.read_sym(d + "/m.sym")
        exp = []
        for i in inputs:
            exp.append(ref.witness(prog, p, i, sanity=0).values)
        anon = any(canon(n, prog.templates) is not None for n in exp[0])
        hon = []
        if anon:
            ws = wits(d, inputs)
            hon = list(zip(exp, ws))
        wire = match(exp[0].keys(), sym, prog.templates, hon, None)
        if wire is None:
            return 0, 0, None, True
        if isinstance(wire, str):
            return 0, 0, (wire, {"source": src}), False
        n = 0
        for i, base in zip(inputs, exp):
            cands = [("honest", base)]
            for s in base:
                for a in alts(base[s], p):
                    x = dict(base)
                    x[s] = a
                    cands.append(("%s=%d" % (s, a), x))
                    try:
                        y = override(prog, p, i, s, a)
                    except ref.Reject:      # the program has no meaning there (an index out of bounds)
                        continue
                    if y != x:
                        cands.append(("%s:=%d" % (s, a), y))
            for what, v in cands:
                try:
                    e = ref.check(prog, p, v)
                except ref.Reject:
                    continue
                n += 1
                w = [0] * c.n_wires
                w[0] = 1
                for nm, wi in wire.items():
                    if wi >= 0:
                        w[wi] = v[nm]
                g = not violated(c.constraints, w, p)
                if e != g:
                    return n, len(c.constraints), ("%s" % what, {"source": src, "prime": prime, "input": i, "deviation": what, "source_accepts": e, "r1cs_accepts": g, "assignment": v}), False
        return n, len(c.constraints), None, False
    finally:
        shutil.rmtree(d, ignore_errors=True)
