"""C30: a name means its innermost declaration, whatever else has the same name."""
import itertools, shutil
from mc import build, circom, wasmrun
from mc.par import pmap
from mc.report import Check

BIN = None
HEAD = """pragma circom 2.2.0;
bus B(k) { signal u; signal w; }
template A(k) { signal input x; signal output y; y <== x + k; }
"""
# declarations of q: text, use, value (of x and the position #)
DECL = {
    "V": ("var q = #;", "q", lambda x, k: k), "W": ("var q[2] = [#, x * #];", "q[1]", lambda x, k: x * k),
    "S": ("signal q; q <== x + #;", "q", lambda x, k: x + k), "R": ("signal q[2]; q[0] <== x; q[1] <== x * #;", "q[1]", lambda x, k: x * k),
    "C": ("component q = A(#); q.x <== x;", "q.y", lambda x, k: x + k), "K": ("component q[2]; q[0] = A(#); q[1] = A(#); q[0].x <== x; q[1].x <== x * 2;", "q[1].y", lambda x, k: 2 * x + k),
    "B": ("B(#) q; q.u <== x * #; q.w <== x;", "q.u", lambda x, k: x * k), "T": ("signal {t} q; q.t = #; q <== x;", "q.t", lambda x, k: k),
}
WIRES = "SRCKBT"
OPEN = {"{": "{", "I": "if (n == 1) {", "E": "if (n == 2) { n = 1; } else {", "L": "for (var j# = 0; j# < 1; j#++) {", "Q": "for (var q = #; q < # + 1; q++) {"}


def sequences(n, kinds, opens):
    """balanced sequences of n tokens: declarations, blocks and uses (U); at least one use"""
    toks = list(kinds) + list(opens) + ["}", "U"]
    out = []

    def rec(seq, depth, left):
        if depth > left:
            return
        if left == 0:
            if depth == 0 and "U" in seq:
                out.append("".join(seq))
            return
        for t in toks:
            if t == "}" and (depth == 0 or seq[-1] in OPEN):
                continue
            if t == "U" and seq and seq[-1] == "U":
                continue
            rec(seq + [t], depth + (t in OPEN) - (t == "}"), left - 1)
    rec([], 0, n)
    return out


def model(seq, param):
    """the text of the program, its uses (functions of x) and why it must be rejected, if so"""
    env = [{"q": ("q", lambda x, k: 1, 0)} if param else {}]
    closing = []        # blocks that each } closes, and whether it is a loop
    seen, text, uses, why = set(), [], [], None
    for k, t in enumerate(seq, 1):
        if t in DECL:
            d, u, v = DECL[t]
            text.append(d.replace("#", str(k)))
            if "q" in env[-1]:
                why = (why or []) + ["declared twice in a block"]
            if t in WIRES:
                if seen:
                    why = (why or []) + ["wires with the same name"]
                if any(l for _, l in closing):
                    why = (why or []) + ["declared in a loop"]
                seen.add(t)
            env[-1]["q"] = (u, v, k)
        elif t in OPEN:
            text.append(OPEN[t].replace("#", str(k)))
            if t == "Q":        # the variable of a for is in a block outside its body
                env.append({"q": ("q", lambda x, k: k, k)})
            env.append({})
            closing.append((2 if t == "Q" else 1, t in "LQ"))
        elif t == "}":
            text.append("}")
            for _ in range(closing.pop()[0]):
                env.pop()
        else:
            b = next((e["q"] for e in reversed(env) if "q" in e), None)
            if b is None:
                why = (why or []) + ["not declared"]
                text.append("o[%d] @ q;" % len(uses))
                uses.append(None)
            else:
                u, v, kk = b
                text.append("o[%d] @ %s;" % (len(uses), u))
                uses.append((v, kk))
    return " ".join(text), uses, why


def template(name, seq, param):
    text, uses, why = model(seq, param)
    return "template %s(n%s) { signal input x; signal output o[%d]; %s }\n" % (name, ", q" if param else "", len(uses), text.replace("@", "<==")), uses, why


def function(name, seq, param):
    text, uses, why = model(seq, param)
    return "function %s(x, n%s) { var o[%d]; %s return o; }\n" % (name, ", q" if param else "", len(uses), text.replace("@", "=")), uses, why


def batch(job):
    """accepted programs, many in a circuit"""
    where, seqs = job
    src, main, exp, n = HEAD, "", [], 0
    for i, (seq, param) in enumerate(seqs):
        arg = "1, 1" if param else "1"
        if where == "template":
            t, uses, _ = template("T%d" % i, seq, param)
            main += "component c%d = T%d(%s); c%d.x <== x; for (var i = 0; i < %d; i++) { o[%d + i] <== c%d.o[i]; }\n" % (i, i, arg, i, len(uses), n, i)
        else:
            t, uses, _ = function("f%d" % i, seq, param)
            if where == "constant":
                main += "var v%d[%d] = f%d(5, %s); for (var i = 0; i < %d; i++) { o[%d + i] <== x * 0 + v%d[i]; }\n" % (i, len(uses), i, arg, len(uses), n, i)
            else:
                main += "var v%d[%d] = f%d(x, %s); for (var i = 0; i < %d; i++) { o[%d + i] <-- v%d[i]; }\n" % (i, len(uses), i, arg, len(uses), n, i)
        src += t
        exp += [v(5, k) for v, k in uses]
        n += len(uses)
    src += "template M() { signal input x; signal output o[%d];\n%s}\ncomponent main = M();\n" % (n, main)
    d = circom.scratch()
    try:
        try:
            r = circom.run(BIN, src, ["--r1cs", "--wasm", "--O0"], d, timeout=25)
        except circom.FormatError as e:
            return "%s: the compilation does not end" % where, {"error": str(e)[:300], "source": src}
        w = None
        if r.ok:
            w = wasmrun.witnesses(d, "m", [{"x": "5"}])[0]
        if w is None or "w" not in w or w["w"][1:1 + n] != exp:
            if len(seqs) > 1:
                h = len(seqs) // 2
                a = batch((where, seqs[:h]))
                return a if a else batch((where, seqs[h:]))
            return "%s %s%s" % (where, seqs[0][0], " with a parameter" if seqs[0][1] else ""), {"rc": r.rc, "stderr": r.err[-600:], "expected": list(map(str, exp)), "observed": str(w)[:300], "source": src}
        c = circom.read_r1cs(d + "/m.r1cs")
        bad = circom.satisfied(c, w["w"])
        if bad is not None:
            return "%s: the witness does not satisfy the constraints" % where, {"constraint": str(bad), "source": src[:20000]}
        if where != "run-time":
            # the outputs are fixed by the constraints: the value of each constraint on it involves what the source says
            for i in range(n):
                v = list(w["w"])
                v[1 + i] = (v[1 + i] + 1) % circom.prime_of("bn128")
                if circom.satisfied(c, v) is None:
                    return "%s: an output is not constrained" % where, {"output": i, "source": src[:20000]}
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def wrong(job):
    where, seq, param = job
    arg = "1, 1" if param else "1"
    if where == "template":
        t, uses, why = template("T", seq, param)
        src = HEAD + t + "component main = T(%s);\n" % arg
    else:
        t, uses, why = function("f", seq, param)
        src = HEAD + t + "template M() { signal input x; signal output o[%d]; var v[%d] = f(x, %s); o <-- v; }\ncomponent main = M();\n" % (len(uses), len(uses), arg)
    d = circom.scratch()
    try:
        try:
            r = circom.run(BIN, src, ["--r1cs"], d, timeout=10)
        except circom.FormatError as e:
            return "%s %s%s: %s" % (where, seq, " with a parameter" if param else "", why[0]), {"error": str(e)[:300], "source": src}
        if r.rc != 1:
            return "%s %s%s: %s" % (where, seq, " with a parameter" if param else "", why[0]), {"expected": "rejected: " + why[0], "rc": r.rc, "stderr": r.err[-600:], "source": src}
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def families(deep):
    """(where, sequences)"""
    t, f = set(), set()
    n = 6 if deep else 5
    for a, b in itertools.combinations_with_replacement(DECL, 2):
        for o in itertools.combinations(OPEN, 2) if deep else ("{I", "{L", "{Q", "{E", "IQ"):
            t |= {s for k in range(2, n + 1) for s in sequences(k, {a, b}, o)}
    for o in itertools.combinations(OPEN, 2):
        f |= {s for k in range(2, n + 2) for s in sequences(k, "V" if len(o) > 1 and k > n else "VW", o)}
    return [("template", sorted(t)), ("run-time", sorted(f)), ("constant", sorted(f))]


def main():
    global BIN
    ck = Check("C30")
    BIN = build.circom()
    good, bad = [], []
    for where, seqs in families(ck.thorough):
        mk = template if where == "template" else function
        l = []
        for s in seqs:
            for param in (False, True):
                _, uses, why = mk("T", s, param)
                if why is None:
                    l.append((s, param))
                elif where != "constant" and len(why) == 1:     # one mistake only
                    bad.append((where, s, param))
        good += [(where, l[i:i + 100]) for i in range(0, len(l), 100)]
        ck.cov.setdefault("accepted", {})[where] = len(l)
    for r in pmap(batch, good):
        if r:
            ck.violation(*r)
    for r in pmap(wrong, bad, 25):
        if r:
            ck.violation(*r)
    n = sum(len(l) for _, l in good)
    ck.add(programs=n + len(bad), rejected=len(bad), states=n + len(bad), transitions=n + len(bad), traces_validated_against_impl=n + len(bad))
    ck.cov["rule"] = "every balanced sequence of declarations of the same name, blocks and uses up to the length; a state is a program; a trace one compilation (and run of the generator) whose verdict and values are compared with the model of scopes"
    ck.sample({"accepted": template("T", good[0][1][-1][0], good[0][1][-1][1])[0]})
    ck.sample({"rejected": template("T", bad[0][1], bad[0][2])[0]})
    ck.finish()
