"""C09: at every simplification level the computed witness has the reference values and satisfies the R1CS."""
from mc import build, circheck, circom, circuits, sizes
from mc.par import pmap
from mc.report import Check

BIN = None
COUNT = [["--O0"], ["--O0", "--sanity_check", "0"]]  # with the run-time checks, the inputs that remain are always counted
LEVELS = [["--O0"], ["--O1"], ["--O2"]]


def inputs(p):
    return [{"a": a % p, "b": b % p, "v[0]": c % p, "v[1]": e % p} for a, b, c, e in ((3, 5, 2, 7), (0, 0, 0, 0), (7, -1, 9, -4), (10, 2**70, 0, 1))]


def job(a):
    bodies, prime, levels, backend = a
    p = circom.prime_of(prime)
    bad, st = circheck.compare(BIN, circuits.source(bodies), inputs(p), prime, levels, backend)
    if bad and len(bodies) > 1:
        h = len(bodies) // 2
        x = job((bodies[:h], prime, levels, backend))
        y = job((bodies[h:], prime, levels, backend)) if not x[0] else ([], (0, 0, 0), 0)
        if x[0] or y[0]:
            return x[0] + y[0], st, len(bodies)
    return [("%s %s %s: %s" % (prime, backend, k, bodies[0] if len(bodies) == 1 else len(bodies)), {**d, "source": circuits.source(bodies), "prime": prime}) for k, d in bad[:2]], st, len(bodies)


def size(a):
    (kind, n, src, ins), levels, backend = a
    p = circom.prime_of("bn128")
    bad, st = circheck.compare(BIN, src, [{k: v % p for k, v in i.items()} for i in ins], "bn128", levels, backend)
    return [("size %s %s %d: %s" % (backend, kind, n, k), {**d, "source": src}) for k, d in bad[:1]], st, 1


def work(a):
    return size(a[1]) if a[0] == "size" else job(a[1])


def run(pid, backend):
    global BIN
    ck = Check(pid)
    BIN = build.circom()
    if ck.thorough:
        cs = [circuits.body(c) for c in circuits.choices()]
    else:
        cs = [circuits.body(c) for c in circuits.cover(3 if backend == "wasm" else 2)]
    levels = LEVELS + ([["--O2round", "1"], ["--O1", "--use_old_simplification_heuristics"], ["--O2", "--use_old_simplification_heuristics"]] if ck.thorough else [])
    if backend == "cxx" and not ck.thorough:
        levels = [["--O0"], ["--O2"]]
    bs = 24 if backend == "wasm" else 40
    jobs = [(cs[i:i + bs], "bn128", levels, backend) for i in range(0, len(cs), bs)]
    jobs += [(cs[i:i + bs], "goldilocks", levels[1:2] if not ck.thorough else levels, backend) for i in range(0, len(cs), bs * (1 if ck.thorough else 6))]
    ts = [b + " o <== x; w <== v;" for b in circuits.triggers(backend == "cxx" and not ck.thorough)]
    if backend == "wasm" or ck.thorough:
        hs = list(circuits.hetero(1)) + list(circuits.hetero(2) if ck.thorough else circuits.hetero(2, shapes=("up", "holes", "poly"), fills=("at_once", "none")))
    else:
        hs = list(circuits.hetero(1, fills=("unknown", "in_parts", "none_back"))) + list(circuits.hetero(2, shapes=("square",), fills=("at_once", "none")))
    ts += [b + " o <== x; w <== v;" for b in hs]
    ck.cov["arrays_of_components"] = len(hs)
    bt = 96
    jobs += [(ts[i:i + bt], "bn128", (LEVELS[:1] if backend == "wasm" else COUNT) if not ck.thorough else levels + COUNT[1:], backend) for i in range(0, len(ts), bt)]
    ck.cov["orders_of_inputs"] = len(ts) - len(hs)
    zs = [b + " o <== x; w <== v;" for b in circuits.zero()]
    bz = 20
    jobs += [(zs[i:i + bz], "bn128", LEVELS if backend == "wasm" else COUNT, backend) for i in range(0, len(zs), bz)]
    ck.cov["zero_length_arrays"] = len(zs)
    ts += zs
    ms = [b + " o <== x; w <== v;" for b in circuits.mapped()]
    bm = 4 if backend == "wasm" else 8
    jobs += [(ms[i:i + bm], "bn128", LEVELS[:1], backend) for i in range(0, len(ms), bm)]
    ck.cov["components_with_dimensions"] = len(ms)
    ts += ms
    sz = sizes.cases(ck.thorough, backend == "cxx" and not ck.thorough)
    ck.cov["sizes"] = len(sz)
    jobs = [("size", (c, (LEVELS[0::2] if not ck.thorough else levels) if backend == "wasm" else LEVELS[:1], backend)) for c in sz] + [("job", j) for j in jobs]
    for bad, st, n in pmap(work, jobs):
        ck.add(traces_validated_against_impl=st[0], signal_values=st[1], constraints_evaluated=st[2])
        for k, d in bad:
            ck.violation(k, d)
    ck.cov["circuits"] = len(cs)
    ck.cov["states"] = (len(cs) + len(ts)) * len(inputs(7)) + sum(len(c[3]) for c in sz)
    ck.cov["transitions"] = ck.cov["signal_values"] + ck.cov["constraints_evaluated"]
    ck.cov["rule"] = "a state is (circuit, input); transitions counts the signal values compared with the reference and the constraints evaluated on the witness; a trace is one generated witness"
    ck.sample({"circuit": cs[-1]})
    ck.finish()


def main():
    run("C09", "wasm")
