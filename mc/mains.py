"""Main templates: every sequence of declarations up to a length, with every list of public inputs."""
import itertools

LIB = """pragma circom 2.2.0;
bus P() { signal x; signal y[2]; }
template Sub() { signal input i; signal output o; signal m; m <== i*i; o <== m + 1; }
"""
# name: (declaration, statements, inputs)
ITEMS = {
    "a": ("signal input a;", "", True),
    "b": ("signal input b[2];", "", True),
    "d": ("input P() d;", "", True),
    "z": ("signal input z[0];", "", True),
    "o": ("signal output o;", "o <== K*K;", False),
    "q": ("signal output q[2];", "q[0] <== K + 1; q[1] <== K*3;", False),
    "e": ("output P() e;", "e.x <== K*K; e.y[0] <== K; e.y[1] <== 7;", False),
    "m": ("signal m;", "m <== K*(K+1);", False),
    "l": ("signal l[2];", "l[0] <== K + 2; l[1] <== l[0]*2;", False),
    "s": ("component s = Sub();", "s.i <== K;", False),
    "g": ("P() g;", "g.x <== K; g.y[1] <== 2; g.y[0] <== K*K;", False),
}
VALUE = {"a": "a", "b": "b[1]", "d": "(d.x + d.y[1])", "z": None}


def templates(length, items=None):
    for n in range(1, length + 1):
        for seq in itertools.permutations(items or ITEMS, n):
            yield seq


def publics(seq, all_orders=False):
    ins = [i for i in seq if ITEMS[i][2]]
    for n in range(len(ins) + 1):
        for c in (itertools.permutations(ins, n) if all_orders else itertools.combinations(ins, n)):
            yield c


def source(seq, public):
    used = [VALUE[i] for i in seq if ITEMS[i][2] and VALUE[i]]
    K = used[0] if used else "5"
    decl = " ".join(ITEMS[i][0] for i in seq)
    st = " ".join(ITEMS[i][1] for i in seq).replace("K", K)
    if len(used) > 2:
        st += " %s*%s === %s;" % (used[0], used[1], used[2])
    pub = "{public [%s]}" % ", ".join(public) if public else ""
    return LIB + "template M() { %s %s }\ncomponent main %s = M();\n" % (decl, st, pub)
