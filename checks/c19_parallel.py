"""C19: parallel components of the C++ generator, under every interleaving up to a bound on preemptions."""
import itertools, json, os, re, shutil, subprocess
from mc import build, circheck, circom, cxxrun, ref
from mc.par import pmap
from mc.report import Check

BIN = None
LIB = """pragma circom 2.2.0;
bus P() { signal x; signal y; }
function rev(v) { return [v[1], v[0]]; }
function sum(v) { return v[0] + v[1]; }
template Mul() { signal input p; signal input q; signal output r; r <== p*q; }
template Two() { signal input p; signal input q; signal output r; signal output s; r <== p + 2*q; s <== r*p; }
template parallel PTwo() { signal input p; signal input q; signal output r; signal output s; r <== p + 2*q; s <== r*p; }
template parallel PPair() { signal input v[2]; signal output r[2]; signal output s; r <== [v[1] + 1, v[0]*v[1]]; s <== v[0]; }
template parallel PFun() { signal input v[2]; signal output r[2]; signal output s; r <-- rev(v); s <-- sum(v); }
template parallel PBus() { input P() i; output P() o; signal output t; t <== i.x*i.y; o.x <== t + 1; o.y <== i.x; }
template parallel PIf(k) { signal input p; signal output r; signal output s; if (k == 0) { r <== p*p; } else { r <== p + k; } s <== 3; }
template parallel PRun() { signal input p; signal output r; signal output s; var t = 0; if (p > 3) { t = p - 1; } else { t = p*5; } r <-- t; s <-- t + 1; }
template parallel PK(k) { signal output r; r <== k; }
template parallel PNo() { signal input p; signal s; s <== p*p; }
template parallel PN(n) { signal input v[n]; signal output r[n]; signal output t; for (var i = 0; i < n; i++) { r[i] <== v[i]*v[0] + i; } t <== v[n-1]; }
template N(n) { signal input v[n]; signal output r[n]; signal output t; for (var i = 0; i < n; i++) { r[i] <== v[i]*v[0] + i; } t <== v[n-1]; }
template parallel PNest() { signal input p; signal output r; signal output s; component c = PTwo(); c.p <== p; c.q <== 2; r <== c.r + 1; s <== c.s; }
template parallel PNest2() { signal input p; signal output r; component c = PIf(1); component d = PIf(0); c.p <== p; d.p <== c.r; r <== d.r + 1; }
template SeqNest() { signal input p; signal output r; component c = PIf(1); component d = PIf(2); c.p <== p; d.p <== p + 1; r <== d.r*c.r; }
template parallel PAs() { signal input p; signal output r; r <== p; assert(p != 3); }
template parallel PZ(n) { signal input p[n]; signal input q; signal output r[n]; signal output s; r <== p; s <== q*q + n; }
template Z(n) { signal input p[n]; signal input q; signal output r[n]; signal output s; r <== p; s <== q*q + n; }
template parallel PDyn() { signal input i; signal output r[2]; signal output s; var t[2] = [5, 6]; t[i & 1] = 9; r[0] <-- t[i & 1]; r[1] <-- t[0]; s <-- t[1]; }
"""
# name: (body of main, bound on preemptions quick, thorough)
CASES = {
    "one": ("component c = PTwo(); c.p <== a; c.q <== b; o <== c.r; o2 <== c.s;", 3, 5),
    "inst": ("component c = parallel Two(); c.q <== a; c.p <== b; o <== c.s; o2 <== c.r;", 3, 5),
    "anon": ("(o, o2) <== parallel Two()(a, b);", 3, 5),
    "array": ("component c[2]; for (var i = 0; i < 2; i++) { c[i] = PTwo(); c[i].p <== a + i; c[i].q <== b; } o <== c[0].r + c[1].s; o2 <== c[1].r;", 1, 2),
    "array_late": ("component c[2]; for (var i = 0; i < 2; i++) { c[i] = PIf(0); } for (var i = 1; i >= 0; i--) { c[i].p <== v[i]; } o <== c[0].r; o2 <== c[1].r;", 2, 3),
    "chain": ("component c = PIf(1); component d = PIf(1); c.p <== a; d.p <== c.r; o <== d.r; o2 <== 1;", 2, 3),
    "chain3": ("component c[3]; for (var i = 0; i < 3; i++) { c[i] = PIf(2); if (i == 0) { c[i].p <== a; } else { c[i].p <== c[i-1].r; } } o <== c[2].r; o2 <== c[0].s;", 1, 2),
    "whole": ("component c = PPair(); c.v <== v; signal t[2]; t <== c.r; o <== t[0]; o2 <== t[1] + c.s;", 2, 4),
    "whole_in": ("component c = PPair(); c.v <== v; component d = PPair(); d.v <== c.r; o <== d.r[1]; o2 <== d.s;", 1, 2),
    "fun": ("component c = PFun(); c.v <-- rev(v); o <== c.r[0]; o2 <== c.s;", 2, 4),
    "fun_read": ("component c = PFun(); c.v <== v; signal t[2]; t <-- rev(c.r); o <== t[1]; o2 <-- sum(c.r);", 2, 4),
    "bus": ("component c = PBus(); c.i.x <== a; c.i.y <== b; P() q; q <== c.o; o <== q.x; o2 <== q.y + c.t;", 2, 3),
    "bus_chain": ("P() z; z.x <== a; z.y <== b; component c = PBus(); c.i <== z; component d = PBus(); d.i <== c.o; o <== d.o.x; o2 <== d.t;", 1, 2),
    "unread": ("component c = PTwo(); c.p <== a; c.q <== b; o <== a; o2 <== b;", 3, 5),
    "half_read": ("component c = PTwo(); c.p <== a; c.q <== b; o <== c.s; o2 <== b;", 3, 5),
    "mixed_par": ("component c[2]; c[0] = parallel Two(); c[1] = Two(); for (var i = 0; i < 2; i++) { c[i].p <== a + i; c[i].q <== b; } var s = 0; for (var i = 0; i < 2; i++) { s += c[i].s + 2*c[i].r; } o <== s; o2 <== c[0].r;", 2, 3),
    "mixed_par2": ("component c[3]; c[2] = parallel Two(); c[1] = Two(); c[0] = Two(); for (var i = 0; i < 3; i++) { c[i].p <== a + i; } for (var i = 0; i < 3; i++) { c[i].q <== i == 0 ? b : 2; } o <== c[2].s; o2 <== c[1].s + c[0].r;".replace("i == 0 ? b : 2", "b + i"), 2, 3),
    "mixed_tmpl": ("component c[2]; for (var i = 0; i < 2; i++) { c[i] = PN(i+1); for (var j = 0; j <= i; j++) { c[i].v[j] <== a + j; } } var s = 0; for (var i = 0; i < 2; i++) { for (var j = 0; j <= i; j++) { s += c[i].r[j]*(i+j+1); } s += c[i].t; } o <== s; o2 <== c[1].r[1];", 1, 2),
    "mixed_both": ("component c[2]; for (var i = 0; i < 2; i++) { if (i == 0) { c[i] = parallel N(2); } else { c[i] = N(1); } for (var j = 0; j < 2 - i; j++) { c[i].v[j] <== b + j; } } signal t[2]; t <== c[0].r; o <== t[1] + c[1].t; o2 <== c[1].r[0];", 2, 3),
    "noin": ("component c = PK(4); component d = PIf(0); d.p <== c.r; o <== d.r + c.r; o2 <== a;", 3, 4),
    "noin_arr": ("component c[3]; c[0] = PK(4); c[2] = PK(5); o <== c[0].r; o2 <== c[2].r*a;", 3, 4),
    "noout": ("component c = PNo(); c.p <== a; component d = PNo(); d.p <== b; o <== a; o2 <== b;", 3, 4),
    "nest": ("component c = PNest(); c.p <== a; o <== c.r; o2 <== c.s;", 2, 3),
    "nest_unread": ("component c = PNest(); c.p <== a; o <== a; o2 <== b;", 2, 3),
    "nest2": ("component c = PNest2(); c.p <== a; o <== c.r; o2 <== b;", 1, 2),
    "nest_two": ("component c = PNest(); component d = PNest(); c.p <== a; d.p <== b; o <== d.r; o2 <== c.s;", 0, 1),
    "seq_nest": ("component c = SeqNest(); c.p <== a; o <== c.r; o2 <== b;", 2, 3),
    "par_seq_nest": ("component c = parallel SeqNest(); c.p <== a; o <== c.r; o2 <== b;", 1, 2),
    "run_if": ("component c = PRun(); c.p <== a; o <== c.s; o2 <== c.r;", 3, 4),
    "dyn": ("component c = PDyn(); c.i <== a; o <== c.r[0]; o2 <== c.s + c.r[1];", 2, 4),
    "run_read": ("component c = PTwo(); c.p <== a; c.q <== b; var k = 0; if (a > 1) { k = c.s; } else { k = b; } o <-- k; o2 <-- a > 1 ? c.r : 0;", 3, 4),
    "idx_read": ("component c[2]; for (var i = 0; i < 2; i++) { c[i] = PIf(i); c[i].p <== v[i]; } var s = 0; var i = 0; while (i < 2) { s += c[1-i].r*(i+1); i += 1; } o <== s; o2 <== b;", 2, 3),
    "four": ("component c[4]; for (var i = 0; i < 4; i++) { c[i] = PIf(i); c[i].p <== a + i; } o <== c[3].r + c[0].r; o2 <== c[2].s;", 0, 1),
    "same_out": ("component c = PTwo(); c.p <== a; c.q <== b; o <== c.r*c.r + c.r; o2 <== c.r;", 3, 4),
    "assert_ok": ("component c = PAs(); c.p <== a; component d = PIf(0); d.p <== b; o <== c.r; o2 <== d.r;", 1, 2),
    "2d": ("component c[1][2]; for (var i = 0; i < 2; i++) { c[0][i] = PIf(i); c[0][i].p <== v[i]; } o <== c[0][1].r; o2 <== c[0][0].r;", 2, 3),
}
CASES["empty"] = ("signal z[0]; component c = PZ(0); c.q <== a; c.p <== z; signal k[0]; k <== c.r; o <== c.s; o2 <== b;", 3, 4)
CASES["empty_first"] = ("signal z[0]; component c = PZ(0); c.p <== z; c.q <== a; signal k[0]; k <== c.r; component d = PZ(0); d.p <== c.r; d.q <== c.s; o <== d.s; o2 <== c.s;", 2, 3)
CASES["empty_arr"] = ("component c[2]; component d[2]; for (var i = 0; i < 2; i++) { c[i] = PZ(i); c[i].q <== a; for (var j = 0; j < i; j++) { c[i].p[j] <== b; } } for (var i = 0; i < 2; i++) { d[i] = PZ(i); d[i].q <== c[i].s; d[i].p <== c[i].r; } o <== d[0].s; o2 <== d[1].r[0] + d[1].s;", 0, 1)
CASES["empty_mixed"] = ("component c[2]; for (var i = 0; i < 2; i++) { if (i == 0) { c[i] = parallel Z(0); } else { c[i] = Z(1); } } signal z[2][1]; z[0] <== [3]; z[1] <== [b]; signal e[0]; c[0].p <== e; c[1].p <== z[1]; for (var i = 0; i < 2; i++) { c[i].q <== a; } o <== c[0].s; o2 <== c[1].s + c[1].r[0];", 2, 3)
# arrays of instances of two sizes (small and capital letters), parallel (p, P) or not (s, S), with holes (-), in a loop
MIX = {"p": ("parallel N(1)", 1), "s": ("N(1)", 1), "P": ("parallel N(2)", 2), "S": ("N(2)", 2), "-": ("", 0)}
MIX_QUICK = ["psS", "spP", "Psp", "sSP", "pPs", "SPp", "ppS", "sss", "Pss", "p-s", "-sp", "pps", "s-Ps", "-pSs"]
for _m in list(itertools.product("psPS-", repeat=3)) + ["s-Ps", "-pSs", "p-s-", "P-sp", "s-pp", "pPsS", "SsPp", "-P-S"]:
    if set(_m) == {"-"}:
        continue
    CASES["mix_" + "".join(_m)] = ("component c[%d]; var n[%d] = [%s]; %s for (var i = 0; i < %d; i++) { for (var j = 0; j < n[i]; j++) { c[i].v[j] <== a + i + j; } } var s = 0; for (var i = %d; i >= 0; i--) { if (n[i] > 0) { s += c[i].t*(i + 1) + c[i].r[n[i] - 1]; } } o <== s; o2 <== b;" % (
        len(_m), len(_m), ", ".join(str(MIX[x][1]) for x in _m), " ".join("c[%d] = %s;" % (i, MIX[x][0]) for i, x in enumerate(_m) if x != "-"), len(_m), len(_m) - 1), 1, 1)
PMAIN = {"pmain", "pmain_nest"}
CASES["pmain"] = (CASES["one"][0], 3, 4)
CASES["pmain_nest"] = (CASES["nest"][0], 2, 3)
FAILS = {"assert_ok": {"a": 3, "b": 2, "v[0]": 1, "v[1]": 2}}


def source(name):
    return LIB + "template %sM() { signal input a; signal input b; signal input v[2]; signal output o; signal output o2; %s }\ncomponent main = M();\n" % (
        "parallel " if name in PMAIN else "", CASES[name][0])


def explore(exe, datname, inp, out, want, bound, maxth, limit):
    r = subprocess.run([exe, datname, inp, out, want, str(bound), str(maxth), str(limit)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=3000)
    return r.stdout.decode("utf-8", "replace").strip()


def job(a):
    name, prime, maxes, bound = a
    p = circom.prime_of(prime)
    src = source(name)
    prog = ref.parse(src)
    d = circom.scratch()
    bad, runs, points, nodes, values, threads = [], 0, 0, 0, 0, 0
    try:
        r = circom.run(BIN, src, ["--O0", "--c", "--r1cs", "--sym", "--prime", prime], d, timeout=100)
        if not r.ok:
            return [("%s %s: rejected" % (prime, name), {"stderr": r.err[-600:], "source": src})], 0, 0, 0, 0, 0
        sym = circom.read_sym(d + "/m.sym")
        try:
            exe, small = cxxrun.build_sched(d, "m")
        except cxxrun.CxxError as e:
            return [("%s %s: the C++ code does not compile" % (prime, name), {"error": str(e), "source": src})], 0, 0, 0, 0, 0
        dat = d + "/m_cpp/m"
        cases = [({"a": 4, "b": 5, "v[0]": 2, "v[1]": 7}, False)]
        if name in FAILS:
            cases.append((FAILS[name], True))
        for flat, mustfail in cases:
            json.dump(circheck.json_inputs(flat), open(d + "/in.json", "w"))
            want = "FAIL"
            if not mustfail:
                res = explore(exe, dat, d + "/in.json", d + "/w0", "ANY", 0, 32, 1)
                if res.startswith("BAD") or not os.path.exists(d + "/w0"):
                    bad.append(("%s %s: %s" % (prime, name, res.split(" schedule=")[0][4:]), {"source": src, "input": flat, "result": res}))
                    continue
                w = circom.read_wtns(d + "/w0")[1]
                n, diff = circheck.differences(ref.witness(prog, p, flat).values, sym, w, prog.templates)
                values += n
                if diff:
                    bad.append(("%s %s: %s" % (prime, name, diff[0]), {**diff[1], "source": src, "input": flat}))
                    continue
                want = d + "/w0"
            for mx in (maxes if small else [32]):
                res = explore(exe, dat, d + "/in.json", d + "/w", want, bound if not mustfail else min(bound, 1), mx, 10 ** 8)
                if res.startswith("OK"):
                    f = dict(x.split("=") for x in res.split()[1:])
                    runs += int(f["runs"])
                    points += int(f["points"])
                    nodes += int(f["nodes"])
                    threads = max(threads, int(f["threads"]))
                else:
                    bad.append(("%s %s with at most %d threads: %s" % (prime, name, mx, res.split(" schedule=")[0][4:]), {"source": src, "input": flat, "result": res, "max_threads": mx, "preemption_bound": bound}))
        return bad, runs, points, nodes, values, threads
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN
    ck = Check("C19")
    BIN = build.circom()
    jobs = []
    for n, (_, q, t) in CASES.items():
        if n.startswith("mix_") and not ck.thorough and n[4:] not in MIX_QUICK:
            continue
        jobs.append((n, "bn128", [1, 2, 3, 32], t if ck.thorough else q))
        if ck.thorough or n in ("one", "nest", "whole", "mixed_par", "mixed_tmpl", "fun", "noin", "pmain"):
            jobs.append((n, "goldilocks", [1, 32], t if ck.thorough else min(q, 1)))
    for bad, runs, points, nodes, values, threads in pmap(job, jobs):
        ck.add(traces_validated_against_impl=runs, transitions=points, states=nodes, signal_values=values)
        ck.cov["max_threads_seen"] = max(threads, ck.cov.get("max_threads_seen", 0))
        for k, d in bad:
            ck.violation(k, d)
    ck.cov["programs"] = len(jobs)
    ck.cov["rule"] = "a state is a node of the tree of scheduling decisions of a program with a limit of threads; transitions counts the decisions taken, replays included; every interleaving is an execution of the emitted code"
    ck.sample({"program": CASES["nest"][0]})
    ck.finish()
