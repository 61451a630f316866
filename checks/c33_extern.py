"""C33: extern_c custom templates: the emitted C++ program calls the user's functions with the declared signature, and its
witness is that of the body that the functions stand for."""
import itertools, json, os, re, shutil, subprocess
from mc import build, circheck, circom, cxxrun, ref, wasmrun
from mc.par import pmap
from mc.report import Check

BIN = None
BUS = {"P": [("u", []), ("w", [2])], "Q": [("p", ["P", 2]), ("z", [])]}
# name: ([(parameter, shape)], [(kind, name, shape)], [arguments of two instances]); sizes may be parameters
TEMPLATES = {
    "plain": ([], [("input", "x", []), ("output", "o", [])], ["", ""]),
    "one": ([("k", [])], [("input", "x", []), ("output", "o", [])], ["7", "0 - 1"]),
    "order": ([("z", []), ("k", []), ("m", [])], [("output", "o", []), ("input", "x", []), ("input", "b", [])], ["5, 7, 2", "7, 5, 3"]),
    "equal": ([("z", []), ("k", [])], [("input", "x", []), ("output", "o", [])], ["5, 5", "5, 6"]),
    "array": ([("v", [3]), ("k", [])], [("input", "x", []), ("output", "o", [2])], ["[1, 2, 1], 2", "[4, 5, 6], 0"]),
    "matrix": ([("k", []), ("v", [2, 3])], [("input", "x", []), ("output", "o", [])], ["9, [[1, 2, 3], [4, 5, 6]]", "9, [[6, 5, 4], [0 - 1, 2, 1]]"]),
    "single": ([("v", [1])], [("input", "x", []), ("output", "o", [1])], ["[8]", "[9]"]),
    "large": ([("k", []), ("v", [2])], [("input", "x", []), ("output", "o", [])], ["2 ** 63, [2 ** 40, 0 - 2 ** 33]", "2 ** 31, [2 ** 32 - 1, 0]"]),
    "dims": ([], [("input", "x", [2, 3]), ("output", "o", [3]), ("input", "y", [2])], ["", ""]),
    "mixed": ([("k", [])], [("input", "c", [2]), ("output", "b", [2, 2]), ("input", "a", []), ("output", "d", []), ("input", "e", [3])], ["3", "4"]),
    "sized": ([("n", []), ("m", [])], [("input", "x", ["n", "m"]), ("output", "o", ["m"])], ["1, 2", "3, 1"]),
    "zero": ([("n", [])], [("input", "x", ["n"]), ("input", "y", [2]), ("output", "o", [])], ["0", "2"]),
    "ones": ([], [("input", "x", [1]), ("input", "y", [1, 1, 1]), ("output", "o", [1])], ["", ""]),
    "source": ([("k", [])], [("output", "o", [2])], ["5", "6"]),
    "sink": ([("k", [])], [("input", "x", [2])], ["5", "6"]),
    "bus": ([("k", [])], [("input", "x", ["P"]), ("input", "y", []), ("output", "o", ["P"])], ["3", "2"]),
    "buses": ([], [("input", "y", ["P", 2]), ("output", "o", ["Q"]), ("input", "x", ["Q"])], ["", ""]),
    "tags": ([("k", [])], [("input", "{t} x", []), ("output", "{t} o", [2])], ["3", "2"]),
}
# uses: @ is a fresh number, A and B the arguments of the instances, X an expression; CONNECT(c, expr, i) gives the inputs of c
USES = {
    "two": ["component c@ = G(A);", "component d@ = G(B);"],
    "same": ["component c@ = G(A);", "component d@ = G(A);"],
    "array": ["component c@[2]; c@[0] = G(A);", "c@[1] = G(B);"],
    "parallel": ["component c@ = parallel G(A);", "component d@ = parallel G(B);"],
    "sub": ["component c@ = W(1);", "component d@ = W(2);"],
    "block": ["component c@; if (1 == 2) { c@ = G(B); } else { c@ = G(A); }", None],
}
NAMES = {"array": ("c@[0]", "c@[1]")}


def fields(shape):
    """the elements of a signal of this shape: [(access path)]"""
    if shape and isinstance(shape[0], str) and shape[0] in BUS:
        pos = ["".join("[%d]" % i for i in t) for t in itertools.product(*map(range, shape[1:]))]
        return [q + "." + f + e for q in pos for f, sh in BUS[shape[0]] for e in fields(sh)]
    return ["".join("[%d]" % i for i in t) for t in itertools.product(*map(range, shape))]


def loops(name, shape, act):
    """circom statements that run act(element) for every element in order"""
    if shape and isinstance(shape[0], str) and shape[0] in BUS:
        return " ".join(act(name + e) for e in fields(shape))
    if len(shape) > 3:
        raise ValueError
    v = ["i", "j", "l"]
    open_ = "".join("for (var %s = 0; %s < %s; %s++) { " % (v[i], v[i], n, v[i]) for i, n in enumerate(shape))
    return open_ + act(name + "".join("[%s]" % v[i] for i in range(len(shape)))) + " }" * len(shape)


def bare(name):
    return name.split()[-1]


def dims(shape):
    return shape[1:] if shape and shape[0] in BUS else shape


def template(t):
    """the text of the template: every output is a weighted sum of the parameters, inputs and sizes"""
    ps, ss, _ = TEMPLATES[t]
    body = ["var s = 0; var k_ = 1;"]
    for n, sh in sorted(ps):
        body.append(loops(n, sh, lambda e: "s += k_ * %s; k_++;" % e))
    for kind in ("output", "input"):
        for k, n, sh in ss:
            if k == kind:
                body += ["s += k_ * %s; k_++;" % d for d in dims(sh)]
                if k == "input":
                    body.append(loops(bare(n), sh, lambda e: "s += k_ * %s; k_++;" % e))
    body.append("k_ = 1;")
    for k, n, sh in ss:
        if k == "output":
            body.append(loops(bare(n), sh, lambda e: "%s <-- s * k_ + 1; k_++;" % e))
    decl = "".join("signal %s %s%s; " % (k, n, "".join("[%s]" % d for d in sh)) if not (sh and sh[0] in BUS) else "%s %s %s%s; " % (k, sh[0], n, "".join("[%s]" % d for d in sh[1:])) for k, n, sh in ss)
    return "template custom extern_c G(%s) {\n  %s\n  %s\n}\n" % (", ".join(n for n, _ in ps), decl, "\n  ".join(body))


def value(sh, args):
    return [args.get(d, d) if isinstance(d, str) and d not in BUS else d for d in sh]


def arguments(t, which):
    """the sizes given by the parameters of the instance"""
    ps, _, inst = TEMPLATES[t]
    vals = [v.strip() for v in inst[which].split(",")]
    return {n: int(v) for (n, sh), v in zip(ps, vals) if not sh and re.fullmatch(r"\d+", v)}


def connect(t, which, comp, x):
    out = []
    for k, n, sh in TEMPLATES[t][1]:
        if k == "input":
            for e in fields(value(sh, arguments(t, which))):
                out.append("%s.%s%s <== %s + %d;" % (comp, bare(n), e, x, len(out) * 3))
    if "{" in str(TEMPLATES[t][1]):
        out = ["signal {t} s%s; s%s <== %s; %s.x <== s%s;" % ((re.sub(r"\W", "_", comp),) * 2 + (x, comp) + (re.sub(r"\W", "_", comp),))]
    return " ".join(out)


def outputs(t, which, comp):
    return ["%s.%s%s" % (comp, bare(n), e) for k, n, sh in TEMPLATES[t][1] if k == "output" for e in fields(value(sh, arguments(t, which)))]


def program(t, uses, par=False):
    ps, ss, inst = TEMPLATES[t]
    text = "pragma circom 2.2.0;\npragma custom_templates;\nbus P { signal u; signal w[2]; }\nbus Q { P p[2]; signal z; }\n" + template(t)
    if "sub" in uses:
        text += "template W(k) { signal input x; signal output y; component c = G(%s); %s y <== x + k%s; }\n" % (inst[0], connect(t, 0, "c", "x * 2"), "".join(" + " + o for o in outputs(t, 0, "c")[:3]))
    body, x, n = [], "a", 0
    for i, u in enumerate(uses):
        for which, decl in enumerate(USES[u]):
            if decl is None:
                continue
            comp = NAMES.get(u, ("c@", "d@"))[which].replace("@", str(i))
            w = 0 if u in ("same", "sub") else which
            body.append(decl.replace("@", str(i)).replace("A)", inst[0] + ")").replace("B)", inst[1] + ")"))
            if u == "sub":
                body.append("%s.x <== %s;" % (comp, x))
                outs = [comp + ".y"]
            else:
                body.append(connect(t, w, comp, x))
                outs = outputs(t, w, comp)
            if outs:
                n += 1
                body.append("signal v%d; v%d <== %s;" % (n, n, " + ".join("%d * %s" % (j + 1, o) for j, o in enumerate(outs))))
                x = "v%d" % n
    return text + "template M() { signal input a; signal output r;\n  %s\n  r <== %s;\n}\ncomponent main = M();\n" % ("\n  ".join(body), x)


def external(t, out, prime):
    """the user's file, written from the signatures that the compiler prints; None where they are not as documented"""
    ps, ss, _ = TEMPLATES[t]
    sigs = sorted(set(re.findall(r"\*\*\* The method (void G\([^;]*\)); generated by the custom gate G needs to be implemented \*\*\*", out)))
    if not sigs:
        return None
    small = prime == "goldilocks"
    text = ["#include <iostream>", "#include <stdlib.h>", "#include <assert.h>", "#include <string.h>", '#include "circom.hpp"', '#include "calcwit.hpp"'] + (['#include "fr.hpp"'] if small else [])
    if small:
        text += ["typedef uint64_t E;", "static void add(E &s, E &k, E v) { s = Fr_add(s, Fr_mul(k, v)); k = k + 1; }", "static E num(uint x) { return x; }"]
        text += ["static void out(E *r, E s, E &k) { *r = Fr_add(Fr_mul(s, k), 1); k = k + 1; }"]
        ptr, arr, sc = "uint64_t*", "uint64_t", ""
    else:
        text += ["typedef FrElement E;", "static E num(uint x) { E r; Fr_str2element(&r, std::to_string(x).c_str(), 10); return r; }",
                 "static void add(E &s, E &k, E v) { E t, u, o = num(1); Fr_mul(&t, &k, &v); Fr_add(&u, &t, &s); Fr_copy(&s, &u); Fr_add(&u, &k, &o); Fr_copy(&k, &u); }"]
        text += ["static void out(E *r, E s, E &k) { E t, u, o = num(1); Fr_mul(&t, &s, &k); Fr_add(&u, &t, &o); Fr_copy(r, &u); Fr_add(&u, &k, &o); Fr_copy(&k, &u); }"]
        sc = "*"
    for sg in sigs:
        names = [re.sub(r"\[\]", "", q).split()[-1].lstrip("*") for q in sg[sg.index("(") + 1:-1].split(",") if q.strip()]
        want = [n for n, _ in sorted(ps)] + [x for kind in ("output", "input") for k, n, sh in ss if k == kind for x in (bare(n), "size_" + bare(n))]
        if names != want:
            return "signature " + sg
        b = ["E s = num(0); E k_ = num(1);"]
        for n, sh in sorted(ps):
            c = 1
            for d in sh:
                c *= d
            b.append("add(s, k_, %s%s);" % (sc, n) if not sh else "for (int i = 0; i < %d; i++) add(s, k_, %s%s[i]);" % (c, sc, n))
        for kind in ("output", "input"):
            for k, n, sh in ss:
                if k == kind:
                    n = bare(n)
                    b += ["add(s, k_, num(size_%s[%d]));" % (n, i) for i in range(len(dims(sh)))]
                    if k == "input":
                        per = len(fields([sh[0]])) if sh and sh[0] in BUS else 1
                        b.append("for (int i = 0; i < %s; i++) add(s, k_, %s[i]);" % (" * ".join([str(per)] + ["(int)size_%s[%d]" % (n, i) for i in range(len(dims(sh)))]), n))
        b.append("k_ = num(1);")
        for k, n, sh in ss:
            if k == "output":
                n = bare(n)
                per = len(fields([sh[0]])) if sh and sh[0] in BUS else 1
                b.append("for (int i = 0; i < %s; i++) out(&%s[i], s, k_);" % (" * ".join([str(per)] + ["(int)size_%s[%d]" % (n, i) for i in range(len(dims(sh)))]), n))
        text.append(sg + " {\n  " + "\n  ".join(b) + "\n}")
    return "\n".join(text) + "\n"


def job(a):
    t, uses, prime, extra, make = a
    key = "%s %s %s%s" % (t, "+".join(uses), prime, "".join(" " + x for x in extra))
    src = program(t, uses)
    prog, p = ref.parse(src), circom.prime_of(prime)
    ins = [{"a": 3}, {"a": 0}, {"a": p - 5}]
    exp = [ref.witness(prog, p, i).values for i in ins]
    d = circom.scratch()
    det = {"source": src, "prime": prime, "options": extra}
    bad, n = [], 0
    try:
        r = circom.run(BIN, src, ["--c", "--wasm", "--r1cs", "--sym", "--prime", prime] + extra, d)
        if not r.ok:
            return a, 0, [(key + ": rejected", {**det, "stderr": r.err[-600:]})]
        c, sym = circom.read_r1cs(d + "/m.r1cs"), circom.read_sym(d + "/m.sym")
        user = external(t, r.out, prime)
        if user is None or user.startswith("signature"):
            return a, 0, [(key + ": announcement", {**det, "stdout": r.out[-1500:], "problem": user})]
        open(d + "/m_cpp/user.cpp", "w").write(user)
        det["user.cpp"] = user
        try:
            if make:
                m = subprocess.run(["make"], cwd=d + "/m_cpp", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if m.returncode:
                    raise cxxrun.CxxError(m.stdout.decode("utf-8", "replace")[-3000:])
                exe = d + "/m_cpp/m"
            else:
                exe = cxxrun.build(d, "m", flags=["-std=c++11", "-O0", "-I."])
        except cxxrun.CxxError as e:
            return a, 0, [(key + ": does not build", {**det, "error": str(e)})]
        runs = []
        for i in ins:
            json.dump(circheck.json_inputs(i), open(d + "/in.json", "w"))
            if os.path.exists(d + "/w"):
                os.unlink(d + "/w")
            rc, so, se = cxxrun.run(exe, d + "/in.json", d + "/w", timeout=30)
            runs.append(("C++", circom.read_wtns(d + "/w")[1] if rc == 0 else None, (rc, se[-300:])))
        for i, w in zip(ins, wasmrun.witnesses(d, "m", [circheck.json_inputs(i) for i in ins])):
            runs.append(("WASM", w.get("w"), w.get("err")))
        for k, (b, w, err) in enumerate(runs):
            n += 1
            i, e = ins[k % len(ins)], exp[k % len(ins)]
            if w is None:
                bad.append((key + ": %s gives no witness" % b, {**det, "error": err, "input": i}))
                continue
            if len(w) != c.n_wires or circom.satisfied(c, w) is not None:
                bad.append((key + ": %s witness does not satisfy the constraints" % b, {**det, "input": i}))
            _, diff = circheck.differences(e, sym, w, prog.templates)
            if diff:
                bad.append((key + ": %s %s" % (b, diff[0]), {**det, **diff[1], "input": i}))
        return a, n, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cases(deep):
    us = list(USES)
    out = []
    for i, t in enumerate(TEMPLATES):
        for prime in ("bn128", "goldilocks"):
            out.append((t, us, prime, ["--O0"], False))
        if deep:
            for prime in circom.PRIMES:
                for u in us:
                    out.append((t, [u], prime, [["--O0"], ["--O1"], ["--O2"]][(i + us.index(u)) % 3], False))
                out.append((t, us, prime, ["--O1", "--no_asm"], False))
            out += [(t, list(q), "bn128", ["--O2"], False) for q in itertools.permutations(us, 2)]
    # with the Makefile, as the documentation says
    for prime in ("bn128", "goldilocks") if not deep else circom.PRIMES:
        out.append(("mixed", us, prime, ["--O1"], True))
    out.append(("mixed", us, "bn128", ["--O1", "--no_asm"], True))
    return out


def main():
    global BIN
    ck = Check("C33")
    BIN = build.circom()
    cs = cases(ck.thorough)
    calls = 0
    for a, n, bad in pmap(job, sorted(cs, key=lambda c: not c[4])):
        ck.add(traces_validated_against_impl=n)
        for k, d in bad:
            ck.violation(k, d)
    ck.cov["states"] = len(cs)
    ck.cov["transitions"] = ck.cov["traces_validated_against_impl"]
    ck.cov["rule"] = "a state is (template, uses, prime, options); a transition or trace is one run of an emitted generator, linked with functions written from the announced signatures, compared with the reference"
    ck.sample({"program": program(*cs[5][:2])})
    ck.finish()
