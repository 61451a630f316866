"""Constraint systems over the signals a, b (inputs), x, y (intermediate) and o (output), enumerated."""
import itertools

VARS = ["a", "b", "x", "y", "o"]
KIND = {"a": "input", "b": "input", "x": "", "y": "", "o": "output"}

SHAPES = [
    "x === a", "y === x", "o === y", "x === a + b", "y === 2*x + 1", "x + y === b", "o === x - y",
    "x === 1", "y === 2", "o === 0", "0 === a - b", "x + y + o === 1", "2*x === 2*y", "y === a + 1",
    "x*y === o", "x*x === a", "a*b === x", "y*y === y", "x*b === 0", "(x+1)*(y+a) === o", "x*x === 2*x - 1", "(a+b)*o === x + y",
    "x*(y - 1) === 0", "x === y*o + 1",
]


def sets(size, shapes=SHAPES):
    for n in range(1, size + 1):
        yield from itertools.combinations(shapes, n)


def sequences(size, shapes=SHAPES):
    for n in range(1, size + 1):
        yield from itertools.permutations(shapes, n)


KINDS = {"i": "input", "p": "input", "v": "", "o": "output"}


def with_kinds(systems, kinds):
    """the systems with other kinds of signals: p public input, i private input, v intermediate, o output"""
    for k in kinds:
        for s in systems:
            yield ("@" + k,) + s


EQUALITIES = ["%s === %s" % (a, b) for a, b in itertools.combinations(VARS, 2)]


def equality_graphs(size):
    for n in range(2, size + 1):
        yield from itertools.combinations(EQUALITIES, n)


def flat_source(batch):
    """every system in the main template, with its own signals"""
    L = ["pragma circom 2.0.0;", "template M() {"]
    kinds = [dict(zip(VARS, s[0][1:])) if s[0][0] == "@" else dict(zip(VARS, "iivvo")) for s in batch]
    public = []
    for i, k in enumerate(kinds):
        for v in VARS:
            L.append("signal %s %s%d;" % (KINDS[k[v]], v, i))
            if k[v] == "p":
                public.append("%s%d" % (v, i))
    for i, sys in enumerate(batch):
        for v in VARS:
            if kinds[i][v] in "vo":
                L.append("%s%d <-- 0;" % (v, i))
        for c in sys:
            if c[0] == "@":
                continue
            L.append("".join(ch + str(i) if ch in "abxyo" else ch for ch in c) + ";")
    L += ["}", "component main%s = M();" % (" {public [%s]}" % ", ".join(public) if public else "")]
    return "\n".join(L) + "\n"


def names_flat(i):
    return ["main.%s%d" % (v, i) for v in VARS]


def comp_source(batch, reverse=False):
    """every system in its own component (or two nested ones), wired to signals of main"""
    L = ["pragma circom 2.0.0;"]
    for i, sys in enumerate(batch):
        h = len(sys) // 2
        L.append("template I%d() { signal input a; signal input b; signal input y; signal output x; x <-- 0; %s }" % (i, " ".join(c.replace("o", "b") + ";" for c in sys[:h])))
        L.append("template S%d() { signal input a; signal input b; signal output o; signal x; signal y; o <-- 0; x <-- 0; y <-- 0; component c = I%d(); c.a <== a; c.b <== b; c.y <== y; %s }" % (i, i, " ".join(c.replace("x", "c.x") + ";" for c in sys[h:])))
    L.append("template M() {")
    n = len(batch)
    for i in range(n):
        L.append("signal input a%d; signal input b%d; signal output o%d;" % (i, i, i))
    for i in reversed(range(n)) if reverse else range(n):
        L.append("component c%d = S%d(); c%d.a <== a%d; c%d.b <== b%d; o%d <== c%d.o;" % (i, i, i, i, i, i, i, i))
    L += ["}", "component main = M();"]
    return "\n".join(L) + "\n"


def owner_comp(name):
    """index of the system a signal belongs to"""
    r = name.split(".", 1)[1]
    h = r.split(".")[0]
    return int(h[1:])


def owner_flat(name):
    return int(name.split(".", 1)[1][1:])


# Clusters of 350 linear constraints or more are simplified by another heuristic: the same systems, attached to that many
# constraints that define padding signals.
PAD = 352
LINEAR = ["y === 2*x + 1 + a", "x + y === b", "o === x - y + 1", "x + y + o === 1", "x + 2*y + b === a + o", "x === a + b + t3", "t351 === x + y", "t5 + t7 === o + y", "x*y === o", "x*x === a", "(x+1)*(y+a) === o"]
R = range
PADS = {
    "chain": ["t%d === t%d + a + x" % (i, i - 1) for i in R(1, PAD)] + ["t0 === a + 2*b + 1"],
    "star": ["t%d === a + %d*x + b" % (i, i) for i in R(PAD)],
    "back": ["t%d === 2*t%d - b" % (i + 1, i) for i in R(PAD - 2, -1, -1)] + ["t0 === y + a + 1"],
    "pairs": sum((["t%d + t%d === a + x + y" % (i, i + 1), "t%d === t%d + b + %d" % (i, i + 1, i)] for i in R(0, PAD - 2, 2)), []) + ["t350 === t0 + a + x", "t351 === t350 + y + a"],
    "fib": ["t%d === t%d + t%d" % (i, i - 1, i - 2) for i in R(2, PAD)] + ["t0 === a + x + y", "t1 === b + x + o"],
}


def big_source(batch):
    """batch: [(pad, core constraints, core first?)]; every system in its own component"""
    L = ["pragma circom 2.0.0;"]
    for i, (pad, core, first) in enumerate(batch):
        body = " ".join(x + ";" for x in (list(core) + PADS[pad] if first else PADS[pad] + list(core)))
        t = " ".join("signal t%d; t%d <-- 0;" % (j, j) for j in range(PAD))
        L.append("template S%d() { signal input a; signal input b; signal output o; signal x; signal y; o <-- 0; x <-- 0; y <-- 0; %s %s }" % (i, t, body))
    L.append("template M() {")
    for i in range(len(batch)):
        L.append("signal input a%d; signal input b%d; signal output o%d; component c%d = S%d(); c%d.a <== a%d; c%d.b <== b%d; o%d <== c%d.o;" % ((i,) * 11))
    L += ["}", "component main = M();"]
    return "\n".join(L) + "\n"


def big_systems(size, both=False):
    for pad in PADS:
        for n in range(1, size + 1):
            for core in itertools.combinations(LINEAR, n):
                for first in ([True, False] if both else [len(core[0]) % 2 == 0]):
                    yield (pad, core, first)
