"""C24: tags are inherited, keep their values and are required at inputs as documented.

Model: the state of a program is, per signal, bus field and component input, which positions are assigned and the tags with
their values. All sequences of statements up to a length, followed by one observation (a tag read, or an input that requires a
tag, with or without a value), are executed in the model and compiled: the compiler accepts exactly those that the model does."""
import itertools
import shutil
from mc import build, circom
from mc.par import pmap
from mc.report import Check

BIN = None


class Err(Exception):
    pass


class Dont(Exception):
    """the documentation does not say"""


class Node:
    """A signal, bus, or array of them; its tags are those of all its positions"""
    def __init__(self, size, tags=(), fields=None, copies=1):
        self.size, self.declared, self.val, self.inherited = size * copies, set(tags), {}, {}
        self.byuser, self.init, self.per = set(), False, size
        self.cells = set()
        self.fields = {n: Node(*f, copies=size * copies) for n, f in (fields or {}).items()}
        self.partial = False

    def complete(self):
        return len(self.cells) == self.size

    def tags(self):
        """what an expression reading it carries: (tags, fields)"""
        out = {}
        for t in self.declared:
            v = self.val.get(t)
            out[t] = v if t in self.byuser or self.complete() else None
        if self.complete():
            out.update(self.inherited)
        return out, {n: f.tags() for n, f in self.fields.items()}

    def inherit(self, tags, cells):
        tags, fields = tags
        for t in self.declared - self.byuser:
            new = tags.get(t)
            if self.init and self.val.get(t) != new:
                new = None
            self.val[t] = new
        if self.init:
            self.inherited = {t: v for t, v in self.inherited.items() if t in tags and tags[t] == v}
        else:
            self.inherited = {t: v for t, v in tags.items() if t not in self.declared}
        self.init = True
        self.cells |= cells
        for n, f in self.fields.items():
            k = f.per
            f.inherit(fields.get(n, ({}, {})), {c * k + i for c in cells for i in range(k)})

    def mark(self, cells):
        if self.cells & cells:
            raise Err("assigned twice")
        for n, f in self.fields.items():
            k = f.per
            f.mark({c * k + i for c in cells for i in range(k)})

    def assigned(self, cells):
        if self.fields:
            return all(f.assigned({c * f.per + i for c in cells for i in range(f.per)}) for f in self.fields.values())
        return cells <= self.cells

    def read(self, t):
        if t not in self.declared:
            raise Err("not a tag")
        if self.val.get(t) is None or not (t in self.byuser or self.complete()):
            raise Err("no value")
        return self.val[t]

    def write(self, t, v):
        if t not in self.declared:
            raise Err("not a tag")
        if self.partial and not self.init:
            raise Dont()
        if self.init:
            raise Err("tag after value")
        if self.val.get(t) is not None:
            raise Err("tag twice")
        self.val[t] = v
        self.byuser.add(t)


def given(size, tags, fields=None):
    """a node whose value and tags are there from the start: tags is {t: value}; fields {name: (size, {t: value})}"""
    n = Node(size, tags, {k: (s, tuple(t)) for k, (s, t) in (fields or {}).items()})
    n.inherit((tags, {k: (t, {}) for k, (s, t) in (fields or {}).items()}), set(range(size)))
    return n


def join(parts):
    tags = dict(parts[0][0])
    for p, _ in parts[1:]:
        tags = {t: v for t, v in tags.items() if t in p and p[t] == v}
    return tags, {n: join([p[1][n] for p in parts]) for n in parts[0][1]}


NO = ({}, {})


class Input:
    """the tagged inputs of a component: the first assignment gives the values of the tags, the others have the same"""
    def __init__(self, size, req, body=None, fields=None):
        self.size, self.req, self.got, self.cells, self.body = size, req, None, set(), body
        self.fields = fields or {}

    def assign(self, cells, tags):
        tags = (tags[0], tags[1])
        now = {t: tags[0].get(t, Err) for t in self.req}
        sub = {n: {t: tags[1].get(n, NO)[0].get(t, Err) for t in r} for n, r in self.fields.items()}
        if Err in now.values() or any(Err in s.values() for s in sub.values()):
            raise Err("missing tag")
        if self.got is None:
            self.got = (now, sub)
            if self.body:
                self.body(now, sub)
        elif self.got != (now, sub):
            raise Err("different value")
        if self.cells & cells:
            raise Err("assigned twice")
        self.cells |= cells


def need(value, tags):
    if tags.get("t") != value:
        raise Err("other value")


def req(value=None):
    return lambda now, sub: None if value is None else need(value, now)


# ------------------------------------------------------------------------------------------------ signals

HEAD = """pragma circom 2.2.0;
template Req() { signal input {t} in; }
template Val(n) { signal input {t} in; assert(in.t == n); }
template Two() { signal input {w, t} in; }
template Arr(n) { signal input {t} in[2]; assert(in.t == n); }
template Any(n) { signal input {t} in[2]; var h = in[0]; Val(n)(in[1]); Req()(h); }
template Prod(n) { signal input in; signal output {t} out; out.t = n; out <== in; }
template None() { signal input in; signal output {t} out; out <== in; }
template Hid(n) { signal input in; signal output out; signal {t} x; x.t = n; x <== in; out <== x; }
template Thru() { signal input {t} in; signal output {t} out; out <== in; }
template Part(n) { signal input in; signal output {t} out[2]; signal {t} m; m.t = n; m <== in; out[0] <== m; out[1] <== in; }
template Both(n) { signal input in; signal output {t} out[2]; signal {t} m; m.t = n; m <== in; out[0] <== m; out[1] <== m; }
bus B() { signal {t} x; signal y[2]; }
bus D() { B() {g} z[2]; signal k; }
template BReq() { input B() {g} in; }
template BVal(n, m) { input B() {g} in; assert(in.g == n); assert(in.x.t == m); }
template BAny() { input B() in; }
template BX(m) { input B() in; assert(in.x.t == m); }
template BProd(n, m) { signal input in; output B() {g} out; out.g = n; out.x.t = m; out.x <== in; out.y[0] <== in; out.y[1] <== in; }
template BThru() { input B() {g} in; output B() {g} out; out <== in; }
"""


class World:
    def __init__(self):
        P = lambda v: given(1, {"t": v})
        self.n = {"a": given(1, {}), "s": Node(1, ["t"]), "u": Node(1), "v": Node(2, ["t", "w"]), "k": Node(2), "p": P(5), "q": P(None), "h": given(1, {}), "two": given(2, {"t": None}), "both": given(2, {"t": 5}),
                  "x": None, "c": Input(2, ["t"], req(3)), "d": Input(1, ["t", "w"]), "e": Input(1, ["t"]), "f": Input(2, [])}
        B = {"x": (1, ["t"]), "y": (2,)}
        self.n.update({"b": Node(1, ["g"], B), "o": Node(1, [], B), "r": Node(2, ["g"], B),
                       "bp": given(1, {"g": 7}, {"x": (1, {"t": 8}), "y": (2, {})}), "bq": given(1, {"g": 6}, {"x": (1, {"t": 8}), "y": (2, {})}),
                       "bc": Input(1, ["g"], None, {"x": ["t"], "y": []})})
        self.var = NO

    # expressions: returns tags
    def ev(self, e):
        k = e[0]
        if k == "none":
            for x in e[1:]:
                self.ev(x)
            return NO
        if k == "var":
            return self.var
        if k == "list":
            return join([self.ev(x) for x in e[1:]])
        if k == "thru":
            t = self.ev(e[1])
            if "t" not in t[0]:
                raise Err("missing tag")
            return {"t": t[0]["t"]}, {}
        if k == "bthru":
            t = self.ev(e[1])
            if "g" not in t[0]:
                raise Err("missing tag")
            return {"g": t[0]["g"]}, {"x": ({"t": t[1]["x"][0].get("t")}, {}), "y": NO}
        n, cells, path = self.at(e)
        if not n.assigned(cells):
            raise Err("not assigned")
        return n.tags()

    def at(self, e):
        """("at", name, cells, field, cells): the node and its cells"""
        n = self.n[e[1]]
        cells = set(range(n.size)) if e[2] is None else set(e[2])
        if len(e) > 3:
            f = n.fields[e[3]]
            cells = {c * f.per + i for c in cells for i in (range(f.per) if e[4] is None else e[4])}
            return f, cells, n
        return n, cells, None

    def run(self, st):
        k = st[0]
        if k == "tag":
            n, _, parent = self.at(st[1])
            n.write(st[2], st[3])
        elif k == "is":
            n, _, parent = self.at(st[1])
            if n.read(st[2]) != st[3]:
                raise Err("false")
        elif k == "asg":
            tags = self.ev(st[2])
            n, cells, parent = self.at(st[1])
            if len(st) > 3:
                tags = NO
            n.mark(cells)
            n.inherit(tags, cells)
            if parent is not None:
                parent.partial = True
                # the bus has its value when its fields do: what its own tags are then is not documented
        elif k == "setvar":
            self.var = self.ev(st[1])
        elif k == "in":
            tags = self.ev(st[3])
            self.n[st[1]].assign(set(st[2]), NO if len(st) > 4 else tags)
        elif k == "anon":
            Input(9, st[1], st[2], st[3] if len(st) > 4 else None).assign({0}, self.ev(st[-1]))
        elif k == "no":
            raise Err("static")
        elif k == "seq":
            for x in st[1:]:
                self.run(x)


def at(*x):
    return ("at",) + x


S, U, V, K, P, Q, A, H, C2, C5 = (at(n, None) for n in ("s", "u", "v", "k", "p", "q", "a", "h", "two", "both"))
V0, V1, K0, K1 = at("v", [0]), at("v", [1]), at("k", [0]), at("k", [1])
X = ("var",)
SIG_DECL = "signal {t} s; signal u; signal {t, w} v[2]; signal k[2]; var x = 0; component p = Prod(5); p.in <== a; component q = None(); q.in <== a; component h = Hid(3); h.in <== a; component two = Part(5); two.in <== a; component both = Both(5); both.in <== a;"
SIG_BODY = [
    ("s.t = 3;", ("tag", S, "t", 3)), ("s.t = 5;", ("tag", S, "t", 5)), ("s <== a;", ("asg", S, A)), ("s <== u;", ("asg", S, U)), ("s <== p.out;", ("asg", S, P)), ("s <== q.out;", ("asg", S, Q)), ("s <-- p.out;", ("asg", S, P, 0)), ("s <== v[0];", ("asg", S, V0)),
    ("u <== s;", ("asg", U, S)), ("u <== p.out;", ("asg", U, P)), ("u <-- p.out;", ("asg", U, P, 0)), ("u <== x;", ("asg", U, X)), ("u <== s + 0;", ("asg", U, ("none", S))), ("(p.out) ==> u;", ("asg", U, P)), ("u <== v[1];", ("asg", U, V1)), ("u <== h.out;", ("asg", U, H)), ("u <== k[1];", ("asg", U, K1)),
    ("v.t = 3;", ("tag", V, "t", 3)), ("v.w = 4;", ("tag", V, "w", 4)), ("v[0] <== s;", ("asg", V0, S)), ("v[1] <== s;", ("asg", V1, S)), ("v[1] <== u;", ("asg", V1, U)), ("v[0] <== p.out;", ("asg", V0, P)), ("v <== k;", ("asg", V, K)), ("v <== [s, p.out];", ("asg", V, ("list", S, P))), ("for (var i = 0; i < 2; i++) { v[i] <== p.out; }", ("seq", ("asg", V0, P), ("asg", V1, P))),
    ("v <== two.out;", ("asg", V, C2)), ("k <== both.out;", ("asg", K, C5)),
    ("k[0] <== s;", ("asg", K0, S)), ("k[1] <== p.out;", ("asg", K1, P)), ("k[1] <== s;", ("asg", K1, S)), ("k[0] <== p.out;", ("asg", K0, P)), ("k[1] <== a;", ("asg", K1, A)), ("k <== [s, s];", ("asg", K, ("list", S, S))), ("k <== v;", ("asg", K, V)), ("k <== [u, p.out];", ("asg", K, ("list", U, P))), ("k[0] <-- p.out;", ("asg", K0, P, 0)), ("k[0] <== u;", ("asg", K0, U)),
    ("x = s;", ("setvar", S)), ("x = p.out;", ("setvar", P)), ("x = 1;", ("setvar", ("none",))), ("x = p.out * 2;", ("setvar", ("none", P))), ("x = u;", ("setvar", U)),
    ("u <== Thru()(s);", ("asg", U, ("thru", S))), ("s <== Thru()(u);", ("asg", S, ("thru", U))), ("v[1] <== Thru()(p.out);", ("asg", V1, ("thru", P))),
]
def observe(text, e, two=True):
    out = [("Req()(%s);" % text, ("anon", ["t"], req(), e)), ("Val(3)(%s);" % text, ("anon", ["t"], req(3), e)), ("Val(5)(%s);" % text, ("anon", ["t"], req(5), e))]
    return out + [("Two()(%s);" % text, ("anon", ["t", "w"], req(), e))] if two else out


SIG_OBS = [("assert(s.t == 3);", ("is", S, "t", 3)), ("assert(s.t == 5);", ("is", S, "t", 5)), ("assert(v.t == 3);", ("is", V, "t", 3)), ("assert(v.t == 5);", ("is", V, "t", 5)), ("assert(v.w == 4);", ("is", V, "w", 4))]
SIG_OBS += observe("s", S, False) + observe("u", U, False) + observe("v[0]", V0) + observe("k[1]", K1) + observe("x", X, False) + [("Arr(3)(k);", ("anon", ["t"], req(3), K)), ("Any(5)(k);", ("anon", ["t"], req(5), K)), ("Any(3)(v);", ("anon", ["t"], req(3), V)), ("Any(3)([u, s]);", ("anon", ["t"], req(3), ("list", U, S)))]
# components whose inputs are assigned in several statements
CMP_DECL = SIG_DECL + " component c = Arr(3); component d = Two(); component e = Thru(); component f = Arr2(); s.t = 3; s <== a; v.t = 3; v.w = 4;"
def comp_body():
    out = []
    for n, txt, sz in (("c", "c.in", 2), ("f", "f.in", 2), ("d", "d.in", 1), ("e", "e.in", 1)):
        for src, e in (("s", S), ("p.out", P), ("a", A), ("q.out", Q), ("u", U)) + ((("v[0]", V0),) if n == "d" else ()):
            for i in range(sz) if sz > 1 else [None]:
                out.append(("%s%s <== %s;" % (txt, "" if i is None else "[%d]" % i, src), ("in", n, [i or 0], e)))
    out += [("c.in <== [s, s];", ("in", "c", [0, 1], ("list", S, S))), ("c.in <== [s, p.out];", ("in", "c", [0, 1], ("list", S, P))), ("c.in <== k;", ("in", "c", [0, 1], K)), ("c.in[0] <-- s;", ("in", "c", [0], S, 0)), ("e.in <-- s;", ("in", "e", [0], S, 0)), ("k <== [s, s];", ("asg", K, ("list", S, S))),
            ("u <== s;", ("asg", U, S)), ("v[0] <== s;", ("asg", V0, S)), ("v <== [s, s];", ("asg", V, ("list", S, S))), ("f.in[0] <-- a;", ("in", "f", [0], A, 0)), ("f.in <== v;", ("in", "f", [0, 1], V))]
    return out
CMP_END = [("c", 2), ("d", 1), ("e", 1), ("f", 2)]
# buses
Bb, Bo, Br, Bp, Bq = (at(n, None) for n in ("b", "o", "r", "bp", "bq"))
R0, R1 = at("r", [0]), at("r", [1])
bx, ox, rx, by, oy = at("b", None, "x", None), at("o", None, "x", None), at("r", None, "x", None), at("b", None, "y", None), at("o", None, "y", None)
by0, r0x, r1x = at("b", None, "y", [0]), at("r", [0], "x", None), at("r", [1], "x", None)
BUS_DECL = "signal {t} s; signal u; B() {g} b; B() o; B() {g} r[2]; s.t = 3; s <== a; component p = Prod(5); p.in <== a; component bp = BProd(7, 8); bp.in <== a; component bq = BProd(6, 8); bq.in <== a;"
BUS_PRE = [("tag", S, "t", 3), ("asg", S, A)]
YA = ("list", A, A)
BUS_BODY = [
    ("b.g = 6;", ("tag", Bb, "g", 6)), ("b.x.t = 3;", ("tag", bx, "t", 3)), ("r.g = 7;", ("tag", Br, "g", 7)), ("r.x.t = 5;", ("tag", rx, "t", 5)), ("o.x.t = 3;", ("tag", ox, "t", 3)),
    ("b.x <== a;", ("asg", bx, A)), ("b.x <== s;", ("asg", bx, S)), ("b.x <== p.out;", ("asg", bx, P)), ("b.x <-- s;", ("asg", bx, S, 0)), ("b.y <== [a, a];", ("asg", by, YA)), ("b.y[0] <== s;", ("asg", by0, S)), ("b.x <== bp.out.x;", ("asg", bx, at("bp", None, "x", None))), ("u <== b.x;", ("asg", U, bx)), ("u <== o.y[0];", ("asg", U, at("o", None, "y", [0]))),
    ("b <== bp.out;", ("asg", Bb, Bp)), ("b <== bq.out;", ("asg", Bb, Bq)), ("b <== o;", ("asg", Bb, Bo)), ("o <== b;", ("asg", Bo, Bb)), ("o <== bp.out;", ("asg", Bo, Bp)), ("b <-- bp.out;", ("asg", Bb, Bp, 0)), ("o <-- bp.out;", ("asg", Bo, Bp, 0)),
    ("o.x <== s;", ("asg", ox, S)), ("o.y <== [s, s];", ("asg", oy, ("list", S, S))), ("o.y <== [p.out, s];", ("asg", oy, ("list", P, S))),
    ("r[0] <== b;", ("asg", R0, Bb)), ("r[1] <== bp.out;", ("asg", R1, Bp)), ("r[0] <== bp.out;", ("asg", R0, Bp)), ("r[1] <== bq.out;", ("asg", R1, Bq)), ("r <== [b, bp.out];", ("asg", Br, ("list", Bb, Bp))), ("r[0].x <== s;", ("asg", r0x, S)), ("r[1].x <== s;", ("asg", r1x, S)), ("r[1] <== o;", ("asg", R1, Bo)), ("b <== r[1];", ("asg", Bb, R1)), ("o <== r[0];", ("asg", Bo, R0)),
    ("b <== BThru()(o);", ("asg", Bb, ("bthru", Bo))), ("o <== BThru()(b);", ("asg", Bo, ("bthru", Bb))), ("r[0] <== BThru()(bp.out);", ("asg", R0, ("bthru", Bp))),
]
BF = {"x": ["t"], "y": []}
def bval(g, t):
    return lambda now, sub: (need(g, {"t": now["g"]}), need(t, sub["x"]))
BUS_OBS = [("assert(b.g == 6);", ("is", Bb, "g", 6)), ("assert(b.g == 7);", ("is", Bb, "g", 7)), ("assert(b.x.t == 3);", ("is", bx, "t", 3)), ("assert(b.x.t == 8);", ("is", bx, "t", 8)), ("assert(r.g == 7);", ("is", Br, "g", 7)), ("assert(r.x.t == 5);", ("is", rx, "t", 5)), ("assert(r.x.t == 8);", ("is", rx, "t", 8)), ("assert(o.x.t == 3);", ("is", ox, "t", 3)), ("assert(o.x.t == 8);", ("is", ox, "t", 8))]
for n_, e_ in (("b", Bb), ("o", Bo), ("r[1]", R1)):
    BUS_OBS += [("BReq()(%s);" % n_, ("anon", ["g"], None, BF, e_)), ("BVal(7, 8)(%s);" % n_, ("anon", ["g"], bval(7, 8), BF, e_)), ("BVal(6, 3)(%s);" % n_, ("anon", ["g"], bval(6, 3), BF, e_)), ("BX(3)(%s);" % n_, ("anon", [], lambda now, sub: need(3, sub["x"]), BF, e_)), ("BX(8)(%s);" % n_, ("anon", [], lambda now, sub: need(8, sub["x"]), BF, e_))]
for n_, e_ in (("b.x", bx), ("o.y[0]", at("o", None, "y", [0])), ("r[0].x", r0x), ("u", U)):
    BUS_OBS += observe(n_, e_, False)
# statements that are wrong whatever the state
STATIC = ["assert(u.t == 1);", "u.t = 1;", "s.w = 1;", "v[0].t = 1;", "assert(v[0].t == 1);", "p.out.t = 1;", "assert(p.in.t == 1);", "s.t = a;", "if (a == 1) { s.t = 3; }", "s.t <== 3;", "s.t <-- 3;", "x.t = 1;"]

FAMILIES = {
    "signals": (SIG_DECL, [], SIG_BODY, SIG_OBS), "buses": (BUS_DECL, BUS_PRE, BUS_BODY, BUS_OBS),
    "components": (CMP_DECL, [("tag", S, "t", 3), ("asg", S, A), ("tag", V, "t", 3), ("tag", V, "w", 4)], comp_body(), []),
}
HEAD += "template Arr2() { signal input in[2]; }\n"


def model(fam, seq, obs):
    """(accepted, the body failed)"""
    w = World()
    for st in FAMILIES[fam][1]:
        w.run(st)
    try:
        for st in seq:
            w.run(st[1])
    except Err:
        return False, True
    try:
        if obs:
            w.run(obs[1])
        if fam == "components":
            for n, size in CMP_END:
                if len(w.n[n].cells) != size:
                    return False, False
    except Err:
        return False, False
    return True, False


def source(fam, text):
    return HEAD + "template M() { signal input a; %s\n%s\n}\ncomponent main = M();\n" % (FAMILIES[fam][0], text)


def job(a):
    fam, text, exp = a
    d = circom.scratch()
    try:
        r = circom.run(BIN, source(fam, text), ["--r1cs"], d)
        if r.panicked or r.ok != exp:
            return exp, ("%s: %s" % ("panic" if r.panicked else "accepted" if r.ok else "rejected", text), {"source": source(fam, text), "model": "accepts" if exp else "rejects", "stderr": r.err[-500:]})
        return exp, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def programs(fam, n, step, rej):
    """all sequences of n statements that the model executes, with every observation; those that fail, once.
    step, rej: only one program in step, one in rej of those rejected in the observation"""
    _, _, body, obs = FAMILIES[fam]
    k = 0
    for seq in itertools.product(body, repeat=n):
        if n > 2 and len({s[0] for s in seq}) < n:
            continue
        try:
            acc, failed = model(fam, seq, None)
        except Dont:
            continue
        text = " ".join(s[0] for s in seq)
        if failed:
            k += 1
            if n < 2 or k % (3 * step) == 0:
                # the failure has to come from the last statement, the others are in shorter sequences
                yield fam, text, False
            continue
        if fam == "components":
            k += 1
            if k % step == 0:
                yield fam, text, acc
            continue
        for o in obs:
            k += 1
            if k % step:
                continue
            try:
                acc = model(fam, seq, o)[0]
            except Dont:
                continue
            if acc or k % rej == 0 or n < 2:
                yield fam, text + " " + o[0], acc


def full_components():
    """all ways of giving the inputs of the four components, each from every source"""
    srcs = [("s", S), ("p.out", P), ("a", A), ("q.out", Q), ("v[0]", V0)]
    for x in itertools.product(srcs, repeat=5):
        sts = [("v[0] <== s;", ("asg", V0, S))] + [("%s <== %s;" % (t, s[0]), ("in", n, c, s[1])) for (t, n, c), s in zip((("c.in[1]", "c", [1]), ("c.in[0]", "c", [0]), ("d.in", "d", [0]), ("e.in", "e", [0]), ("f.in", "f", [0])), x)]
        sts[-1] = ("f.in <== [%s, a];" % x[4][0], ("in", "f", [0, 1], ("list", x[4][1], A)))
        yield "components", " ".join(s[0] for s in sts), model("components", sts, None)[0]


def main():
    global BIN
    ck = Check("C24")
    BIN = build.circom()
    jobs = [("signals", t, False) for t in STATIC] + list(full_components())
    for fam, steps in (("signals", (1, 1, 24 if not ck.thorough else 1)), ("buses", (1, 1, 16 if not ck.thorough else 1)), ("components", (1, 1) if not ck.thorough else (1, 1, 1))):
        for n, step in enumerate(steps, 1):
            jobs += programs(fam, n, step, 1 if ck.thorough else 7)
    acc = 0
    for e, bad in pmap(job, jobs, chunksize=32):
        acc += e
        ck.add(transitions=1, accepted=int(e), rejected=int(not e), traces_validated_against_impl=1)
        if bad:
            ck.violation(*bad)
    ck.cov["states"] = len(jobs)
    ck.cov["rule"] = "a state is a program; a transition its compilation, compared with its execution in the model of the tags"
    ck.sample({"program": source(*jobs[-1][:2]), "model_accepts": jobs[-1][2]})
    ck.finish()
