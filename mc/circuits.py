"""Circuits built from every combination of ways of defining their signals."""
import re
import itertools

LIB = """
template Mul() { signal input p; signal input q; signal output r; r <== p*q; }
template Add(k) { signal input p; signal output r; r <== p + k; }
template Const(k) { signal output r; r <== k; }
template Two() { signal input p; signal input q; signal output r; signal output s; r <== p + 2*q; s <== p*q; }
template Pair() { signal input p; signal input q; signal output r[2]; r[0] <== p - q; r[1] <== p*q; }
template Sum(n) { signal input v[n]; signal output r; signal acc[n+1]; acc[0] <== 0; for (var i = 0; i < n; i++) { acc[i+1] <== acc[i] + v[i]*(i+1); } r <== acc[n]; }
template Nest(n) { signal input v[n]; signal output r[n]; component c[n]; for (var i = 0; i < n; i++) { c[i] = Add(i*n); c[i].p <== v[i]; } component m[n]; for (var i = 0; i < n; i++) { m[i] = Mul(); m[i].p <== c[i].r; m[i].q <== c[n-1-i].r; r[i] <== m[i].r + i; } }
template Nested(d) { signal input p; signal output r; if (d == 0) { r <== p*p; } else { component n = Nested(d-1); n.p <== p + d; r <== n.r + p; } }
bus P() { signal x; signal y; }
bus PQ(n) { P() u[n]; signal z; }
template BusT() { input P() i; output P() o; o.x <== i.x*i.y; o.y <== i.x + 1; }
template BusA(n) { input PQ(n) i; output PQ(n) o; for (var j = 0; j < n; j++) { o.u[j].x <== i.u[n-1-j].y; o.u[j].y <== i.u[j].x*i.z; } o.z <== i.z + 1; }
template IsZero() { signal input p; signal output r; signal inv; inv <-- p != 0 ? 1/p : 0; r <== 1 - p*inv; p*r === 0; }
template Bits(n) { signal input p; signal output r[n]; var s = 0; var e = 1; for (var i = 0; i < n; i++) { r[i] <-- (p >> i) & 1; r[i]*(r[i] - 1) === 0; s += r[i]*e; e = e*2; } }
template Mix(n) { signal input v[n]; signal input k; signal output r[n]; signal output t; for (var i = 0; i < n; i++) { r[i] <== v[i]*k + i; } t <== k + n; }
template MixBus(n) { input PQ(n) i; signal input k; output PQ(n+1) o; signal output t; for (var j = 0; j < n; j++) { o.u[j].x <== i.u[j].x + k; o.u[j].y <== i.u[n-1-j].y*2; } o.u[n].x <== n; o.u[n].y <== i.z; o.z <== i.z*k; t <== k*k; }
bus Wide() { signal f[3]; signal g0; signal g1; signal g2; signal g3; signal g4; signal g5; signal g6; signal g7; signal g8; P() g9; signal g10; }
template WideT(n) { input Wide() i[n]; output Wide() o; o.f <== i[n-1].f; o.g0 <== i[0].g1; o.g1 <== i[0].g0; o.g2 <== i[0].g2*2; o.g3 <== 3; o.g4 <== i[0].g4; o.g5 <== i[n-1].g6; o.g6 <== n; o.g7 <== i[0].g7; o.g8 <== i[0].g9.y; o.g9 <== i[n-1].g9; o.g10 <== i[0].g10*i[0].g8; }
template parallel ParM() { signal input p; signal input q; signal output r; r <== p*q + 1; }
template Cube() { signal input v[2][2][2]; signal output r[2][2]; for (var i = 0; i < 2; i++) { for (var j = 0; j < 2; j++) { r[i][j] <== v[i][j][0]*v[j][i][1]; } } }
template Par(t, k) { signal input p; signal output r; var s = k; for (var i = 0; i < 3; i++) { s += t[i]*(i+1); } r <== p*s + t[2]; }
template NoOut() { signal input p; signal s; s <== p*p; }
template Empty() { }
template Sel(n) { signal input v[n]; signal input i; signal output r; r <-- v[i % n]; signal z; z <-- i % n; }
template Fac(n) { signal input v[n]; signal output r; if (n == 1) { r <== v[0]; } else { component f = Fac(n-1); for (var i = 0; i < n-1; i++) { f.v[i] <== v[i+1]; } r <== f.r*v[0]; } }
template Tri() { signal input p; signal input q[2]; signal output r; signal s; s <== p*q[0]; r <== s + 3*q[1]; }
function ident(x) { return x; }
function rev(v) { return [v[1], v[0]]; }
function tab(n) { var t[3] = [n, n+1, n*n]; return t; }
function tri(n) { var s = 0; for (var i = 0; i <= n; i++) { s += i; } return s; }
"""

X = [
    "signal x <== a*b;",
    "signal x; x <== a + 2*b - 3;",
    "signal x; x <-- a > b ? a : b; (x-a)*(x-b) === 0;",
    "signal x; component m = Mul(); m.p <== a; m.q <== v[0]; x <== m.r;",
    "signal x; component k[2]; for (var i = 0; i < 2; i++) { k[i] = Add(i+1); k[i].p <== v[i]; } x <== k[0].r + k[1].r*2;",
    "signal x <== Mul()(a, v[1]);",
    "signal x <== Mul()(q <== b, p <== v[0]);",
    "signal x; P() p; p.x <== a; p.y <== b; x <== p.x*p.y + p.x;",
    "signal x; var s = 1; for (var i = 0; i < 2; i++) { s = s*3 + v[i]; } x <== s;",
    "signal x; component h; if (K == 1) { h = Add(5); } else { h = Add(tri(4)); } h.p <== a; x <== h.r;",
    "signal x; component n = Nest(2); n.v <== v; x <== n.r[1];",
    "signal x; (x, _) <== Two()(a, b);",
    "signal x; component z = Const(4); x <== z.r + a;",
    "signal t[2][2]; t[0] <== v; t[1][0] <== t[0][1]*a; t[1][1] <== 3; signal x <== t[1][0] + t[1][1];",
    "component m = Mul(); m.q <== b; signal u <== a*a; m.p <== u; signal x; x <== m.r;",
    "component bp = BusT(); P() p2; p2.x <== a; p2.y <== b; bp.i <== p2; signal x <== bp.o.x + bp.o.y;",
    "PQ(2) g; for (var i = 0; i < 2; i++) { g.u[i].x <== v[i]; g.u[i].y <== a + i; } g.z <== b; component ba = BusA(2); ba.i <== g; signal x <== ba.o.u[0].x + ba.o.u[1].y + ba.o.z;",
    "component nd = Nested(2); nd.p <== a; signal x; x <== nd.r;",
    "signal x; a + b ==> x;",
    # components with different instances in one array, read and written through computed positions
    "component c[3]; for (var i = 0; i < 3; i++) { c[i] = Mix(i+1); for (var j = 0; j <= i; j++) { c[i].v[j] <== a + j; } c[i].k <== b + i; } signal x <== c[2].r[1] + c[1].r[1]*2 + c[0].t;",
    "component c[3]; for (var i = 0; i < 3; i++) { c[i] = Mix(3-i); } for (var i = 0; i < 3; i++) { c[i].k <== v[0]; for (var j = 0; j < 3-i; j++) { c[i].v[2-i-j] <== v[j%2]; } } var s = 0; for (var i = 0; i < 3; i++) { for (var j = 0; j < 3-i; j++) { s += c[i].r[j]*(i+2*j+1); } s += c[i].t; } signal x <== s;",
    "component c[2]; for (var i = 0; i < 2; i++) { c[i] = Mix(2-i); } c[0].k <== 2; c[1].k <== a; c[0].v <== v; c[1].v <== [b]; signal x <== c[0].r[0] - c[1].r[0];",
    "component c[2]; for (var i = 0; i < 2; i++) { c[i] = MixBus(i+1); for (var j = 0; j <= i; j++) { c[i].i.u[j].x <== a + j; c[i].i.u[j].y <== b*(j+1); } c[i].i.z <== v[i]; c[i].k <== i + a; } signal x <== c[0].o.u[1].y + c[1].o.u[2].x + c[1].o.u[0].y*2 + c[1].o.z + c[0].t;",
    "component c[2]; PQ(2) g; for (var i = 0; i < 2; i++) { g.u[i].x <== v[i]; g.u[i].y <== a + i; } g.z <== b; c[1] = MixBus(2); c[1].i <== g; c[1].k <== a; c[0] = MixBus(3); c[0].i <== c[1].o; c[0].k <== c[1].t; signal x <== c[0].o.u[3].y + c[0].o.u[0].x*3;",
    "component c[2][2]; for (var i = 0; i < 2; i++) { for (var j = 0; j < 2; j++) { c[i][j] = Add(i+2*j); c[i][j].p <== v[j] + i; } } signal x <== c[0][1].r + 2*c[1][0].r + 3*c[1][1].r;",
    "component c[2][3]; for (var i = 0; i < 2; i++) { for (var j = 0; j < 3; j++) { c[i][j] = Mul(); c[i][j].p <== v[i] + j; } } for (var j = 2; j >= 0; j--) { for (var i = 0; i < 2; i++) { c[i][j].q <== a + i; } } signal x <== c[0][2].r + 2*c[1][1].r + 5*c[1][2].r;",
    # wide buses
    "Wide() g[2]; for (var i = 0; i < 2; i++) { for (var j = 0; j < 3; j++) { g[i].f[j] <== a + i*3 + j; } g[i].g0 <== b; g[i].g1 <== a*b; g[i].g2 <== v[i]; g[i].g3 <== 1; g[i].g4 <== 2; g[i].g5 <== 3; g[i].g6 <== v[1-i]; g[i].g7 <== 5; g[i].g8 <== a; g[i].g9.x <== b + i; g[i].g9.y <== b*2; g[i].g10 <== 7; } component w1[2]; w1[0] = WideT(2); w1[0].i <== g; w1[1] = WideT(1); w1[1].i[0] <== w1[0].o; signal x <== w1[1].o.f[2] + w1[1].o.g9.x*2 + w1[0].o.g10 + w1[1].o.g2;",
    "P() p[2]; p[0].x <== a; p[0].y <== b; p[1] <== p[0]; P() q[2]; q <== p; signal x <== q[1].x*q[0].y + p[1].y;",
    "P() p; p.x <== a; p.y <== b; P() q <== BusT()(p); signal x <== q.x + q.y*3;",
    "P() p; (p) <== BusT()(BusT()(i <== pp)); signal x <== p.x*2 + p.y;".replace("pp)", "p0)").replace("P() p;", "P() p0; p0.x <== v[0]; p0.y <== a; P() p;"),
    # arrays
    "signal t[2][2][2]; for (var i = 0; i < 8; i++) { t[i\\4][(i\\2)%2][i%2] <== a + i*b; } component cu = Cube(); cu.v <== t; signal x <== cu.r[0][1] + 3*cu.r[1][0] + cu.r[1][1];",
    "component cu = Cube(); for (var i = 0; i < 2; i++) { for (var j = 0; j < 2; j++) { cu.v[i][j] <== [v[i] + j, a]; } } signal x <== cu.r[0][0] + 2*cu.r[1][0];",
    "component cu = Cube(); cu.v[1] <== [[a, b], [1, 2]]; cu.v[0][1][1] <== 5; cu.v[0][1][0] <== v[0]; cu.v[0][0] <== v; signal s2[2][2]; s2 <== cu.r; signal x <== s2[0][1] + s2[1][1];",
    "signal t[3][2]; t[2] <== v; t[0] <== [a, b]; t[1][1] <== t[0][0]*t[2][1]; t[1][0] <== 1; signal x <== t[1][1] + t[2][0];",
    "component pq[2]; pq[1] = Pair(); pq[0] = Pair(); pq[0].q <== b; pq[0].p <== a; pq[1].p <== pq[0].r[1]; pq[1].q <== pq[0].r[0]; signal t[2]; t <== pq[1].r; signal x <== t[0] - t[1];",
    "component su = Sum(2); su.v <== v; component n2 = Nest(2); n2.v[1] <== su.r; n2.v[0] <== a; signal x <== n2.r[0] + n2.r[1];",
    # functions and values
    "signal t[2]; t <-- rev(v); t[0] === v[1]; t[1] === v[0]; signal x <== t[0] + 2*t[1];",
    "component su = Sum(2); su.v <-- rev(v); signal x <== su.r;",
    "component c[2]; for (var i = 0; i < 2; i++) { c[i] = Mix(2-i+1); } c[0].v <-- tab(a); c[0].k <-- rev(v)[0] * 1;".replace("rev(v)[0] * 1", "tri(3)") + " c[1].v <-- rev(v); c[1].k <== b; signal x <== c[0].r[2] + c[1].r[1];",
    "component pm = Par(tab(2), 5); pm.p <== a; component pn = Par([1, 2, 3], tri(2)); pn.p <== pm.r; signal x <== pn.r;",
    "component se = Sel(2); se.v <== v; se.i <== 3; signal x <== se.r + a;",
    "signal x; var k = 0; if (a > b) { k = v[0]; } else { if (a == b) { k = 5; } else { k = v[1]*a; } } x <-- k;",
    "signal x; x <-- v[a > b ? 1 : 0]; signal xx; xx <-- (a > b) ? a*a : b;",
    "component fa = Fac(3); fa.v[2] <== a; for (var i = 0; i < 2; i++) { fa.v[i] <== v[i]; } signal x <== fa.r;",
    # no outputs, no inputs, nothing
    "component no = NoOut(); no.p <== a; component em = Empty(); component ks[2]; for (var i = 0; i < 2; i++) { ks[i] = Const(7*i+1); } signal x <== ks[0].r + ks[1].r*a;",
    "component ks[2]; ks[1] = Const(4); signal x; component ad = Add(1); ad.p <== ks[1].r; x <== ad.r + b;",
    "_ <== Two()(a, b)".replace("_ <==", "(_, _) <==") + "; signal x; (_, x) <== Two()(q <== a, p <== v[1]);",
    "signal x, y0; (x, y0) <== (a*b, v[0] + 1); signal z0[2]; z0 <== [y0, x];",
    # parallel
    "component pp = ParM(); pp.p <== a; pp.q <== b; signal x <== pp.r;",
    "component pp = parallel Mul(); pp.q <== a; pp.p <== v[0]; component p3[2]; for (var i = 0; i < 2; i++) { p3[i] = parallel Add(i); p3[i].p <== pp.r; } signal x <== p3[1].r*2 + p3[0].r;",
    "signal x <== parallel Mul()(a, v[1]);",
    # order of the inputs of components that depend on each other
    "component c1 = Two(); component c2 = Two(); c2.q <== b; c1.p <== a; c1.q <== v[0]; c2.p <== c1.s; signal x <== c2.r + c2.s;",
    "component c[3]; for (var i = 0; i < 3; i++) { c[i] = Two(); if (i == 0) { c[i].p <== a; } else { c[i].p <== c[i-1].r; } c[i].q <== v[i%2]; } signal x <== c[2].s + c[1].r;",
    "component c[3]; for (var i = 0; i < 3; i++) { c[i] = Two(); c[i].q <== v[i%2]; } for (var i = 2; i >= 0; i--) { if (i == 2) { c[i].p <== a; } else { c[i].p <== c[i+1].r; } } signal x <== c[0].s + c[1].r;",
    "component c1 = Two(); component c2 = Mul(); c1.p <== a; if (K == 1) { c1.q <== b; } else { c1.q <== v[0]; } c2.p <== c1.r; c2.q <== c1.s; signal x <== c2.r;",
]
Y = [
    "signal y <== x*x;",
    "signal y; y <== x + a;",
    "component iz = IsZero(); iz.p <== x; signal y <== iz.r + K;",
    "component m2 = Mul(); m2.p <== x; m2.q <== x; signal y <== m2.r;",
    "signal y <== Sum(3)([x, a, b]);",
    "signal y; y <-- x & 1; y*(y-1) === 0;",
    "component bt = Bits(3); bt.p <== x; signal y <== bt.r[0] + 2*bt.r[1] + 4*bt.r[2];",
    "signal y; if (K < 2) { y <== x*3; } else { var qv = x; qv = qv + a; y <== qv; }",
]
O = [
    "o <== x + y;",
    "o <== x*y;",
    "o <== Mul()(x, Mul()(y, a));",
    "signal z1 <== y; signal z2 <== z1; o <== z2;",
    "component l = Add(1); l.p <== y; o <== l.r; o === y + 1;",
    "o <== 5;",
]
W = [
    "w <== v;",
    "w[0] <== x; w[1] <== y;",
    "for (var i = 0; i < 2; i++) { w[i] <== v[1-i]*x; }",
    "w <== Pair()(x, y);",
    "component pr = Pair(); pr.p <== y; pr.q <== 2; w <== pr.r;",
]


# orders and places in which the inputs of a component are assigned
PIECES = [("p", "a", "b + 1"), ("q[0]", "v[0]", "a + 2"), ("q[1]", "b", "v[1]")]


def wrapped(kind, cs, u):
    """the assignments cs = [(target, value, other value)] in one of the places"""
    f = lambda op, k, rev=False: " ".join("%s %s %s;" % (c[0], op, c[k]) for c in (reversed(cs) if rev else cs))
    return {
        0: lambda: f("<==", 1),
        1: lambda: f("<--", 1),
        2: lambda: "if (K == 1) { %s } else { %s }" % (f("<==", 1), f("<==", 2, True)),
        3: lambda: "for (var i%d = 0; i%d < 1; i%d++) { %s }" % (u, u, u, f("<==", 1)),
        4: lambda: "if (a > b) { %s } else { %s }" % (f("<--", 1), f("<--", 2, True)),
        5: lambda: "if (K == 1) { %s } if (K != 1) { %s }" % (f("<==", 1), f("<==", 2, True)),
        6: lambda: " ".join("%s <-- ident(%s);" % (c[0], c[1]) for c in cs),
        7: lambda: "if (a > b) { if (K == 1) { %s } else { %s } } else { %s }" % (f("<--", 1), f("<--", 2), f("<--", 2, True)),
    }[kind]()


def triggers(small=False):
    kinds = range(8)
    for addr in range(4):
        for pi, perm in enumerate(itertools.permutations(PIECES)):
            if (addr or small) and pi not in (0, 3):
                continue
            for comp in ((1, 1, 1), (1, 2), (2, 1), (3,)):
                for ks in itertools.product(kinds, repeat=len(comp)):
                    if small and len(ks) == 3 and addr and len(set(ks)) != 2:
                        continue
                    out, i = [], 0
                    name = ["c", "c[1]", "c[j]", "c[j]"][addr]
                    for u, (n, k) in enumerate(zip(comp, ks)):
                        out.append(wrapped(k, [(name + "." + t, x, y) for t, x, y in perm[i:i + n]], u))
                        i += n
                    body = " ".join(out)
                    if addr == 0:
                        yield "component c = Tri(); %s signal x <== c.r;" % body
                    elif addr == 1:
                        yield "component c[2]; c[0] = Tri(); c[1] = Tri(); c[0].p <== a; %s c[0].q <== v; signal x <== c[1].r + 2*c[0].r;" % body
                    elif addr == 2:
                        yield "component c[2]; for (var j = 0; j < 2; j++) { c[j] = Tri(); %s } signal x <== c[1].r + 2*c[0].r;" % body
                    else:
                        yield "component c[2]; c[0] = Tri(); c[1] = Tri(); c[0].q <== v; var j = 1; %s c[0].p <== c[1].r; signal x <== c[0].r;" % body


# arrays of components whose instances differ, and the ways of reading them in loops
HETERO_LIB = """
template H(n) { signal input v[n]; signal input k; signal output r[n]; signal output t; for (var i = 0; i < n; i++) { r[i] <== v[i]*k + i; } t <== k + v[n-1]; }
template G(n) { signal output r[n]; signal output t; for (var i = 0; i < n; i++) { r[i] <== i*n + 1; } t <== n; }
template J(n) { input PQ(n) i; signal input k; output PQ(n) o; for (var j = 0; j < n; j++) { o.u[j].x <== i.u[n-1-j].y*k; o.u[j].y <== i.u[j].x; } o.z <== i.z + k + n; }
template HL(n) { signal input v[n]; signal input k; signal output r[n]; signal output t; log("H", n, k); for (var i = 0; i < n; i++) { r[i] <== v[i]*k + i; } t <== k + v[n-1]; log(t); }
template GL(n) { signal output r[n]; signal output t; log("G", n); for (var i = 0; i < n; i++) { r[i] <== i*n + 1; } t <== n; }
function lst(v, n) { var s = 0; for (var i = 0; i < n; i++) { s = s*3 + v[i]; } return s; }
"""
# shape: declaration, element, number of elements, step, size of the instance
SHAPES = {
    "same": ("c[3]", "c[i]", 3, 1, "2"), "up": ("c[3]", "c[i]", 3, 1, "i+1"), "down": ("c[3]", "c[i]", 3, 1, "3-i"), "mid": ("c[3]", "c[i]", 3, 1, "1+2*(i % 2)"),
    "holes": ("c[4]", "c[i+1]", 3, 2, "i+1"), "same_holes": ("c[5]", "c[i]", 4, 2, "2"), "square": ("c[2][2]", "c[i\\2][i%2]", 4, 1, "i%2+1"), "poly": ("c[3]", "c[i*i-i*(i-1)]", 3, 1, "3-i"), "same_square": ("c[2][2]", "c[i%2][i\\2]", 4, 1, "3"),
}
FILL = {
    "at_once": "LOOP { E = T(N); for (var j = 0; j < N; j++) { E.IN[j]IX <== v[j%2] + i; OTHER } E.k <== a + i; }",
    "backwards": "LOOP { E = T(N); } LOOPR { for (var j = N-1; j >= 0; j--) { E.IN[j]IX <== a + j; OTHER } E.k <== b + i; }",
    "last_first": "LOOPR { E = T(N); E.k <== v[i%2]; } LOOP { for (var j = 0; j < N; j++) { OTHER E.IN[j]IX <== b*(i+1); } }",
    "unknown": "LOOP { E = T(N); if (a > b) { E.k <-- 2; } else { E.k <-- b + 1; } } LOOP { for (var j = 0; j < N; j++) { E.IN[j]IX <-- j % 2 == 0 ? a : b; OTHER } }",
    "in_parts": "LOOP { E = T(N); for (var j = 0; j < N; j++) { if (j == N-1) { E.k <== 3; } OTHER E.IN[j]IX <== a; } }",
    "none": "LOOP { E = T(N); }", "none_back": "LOOPR { E = T(N); }",
}
READ = {
    "one": "s += E.OUT; ", "all": "for (var j = 0; j < N; j++) { s += E.R[j]RX*(j+1); } ", "var": "z = E.R; s += z[0] + 3*z[1] + 7*z[2]; ", "row": "m[i%2] = E.R; s += m[0][0] + 2*m[0][1] + m[1][0] + 5*m[1][2]; ",
    "sig": "q[i] <== E.OUT; s += q[i]; ", "cons": "q2[i][0] <== E.R[0]RX*E.OUT; q2[i][1] <== E.R[N-1]RX + q2[i][0]; s += q2[i][1]; ", "cond": "if (a > b) { s += E.OUT; } else { s = s*2 + E.R[0]RX; } ",
    "fun": "s += lst(E.R, N); ", "next": "d[i] = Add(i); d[i].p <== E.R[N-1]RX; s += d[i].r; ", "chain": "e[i] = H(N); e[i].v <== E.R; e[i].k <== E.OUT; s += e[i].t + e[i].r[0]*2; ",
    "tern": "s += E.OUT > 2 ? E.R[0]RX : E.OUT + 1; ", "index": "s += E.R[a > b ? 0 : N-1]RX; ", "bus": "ps[i] <== E.R[N-1]; s += ps[i].x + ps[i].y; ", "jchain": "f[i] = J(N); f[i].i <== E.o; f[i].k <== 2; s += f[i].o.u[0].x + f[i].o.z; ",
}
DECLS = {"var": "var z[3];", "row": "var m[2][3];", "sig": "signal q[4];", "cons": "signal q2[4][2];", "next": "component d[4];", "chain": "component e[4];", "bus": "P() ps[4];", "jchain": "component f[4];"}

REST = {"sig": "q[@] <== 0; ", "cons": "q2[@] <== [0, 0]; ", "bus": "ps[@].x <== 0; ps[@].y <== 0; "}


def hetero(depth, logs=False, shapes=None, fills=None):
    """bodies with the interface of X: every shape, template, way of filling, and up to `depth` reads in one loop"""
    for sh, (decl, el, n, step, size) in SHAPES.items():
        for t in "HGJ":
            for fn, fill in FILL.items():
                if shapes and sh not in shapes or fills and fn not in fills:
                    continue
                if (t == "G") != fn.startswith("none"):
                    continue
                for reads in [r for k in range(1, depth + 1) for r in itertools.permutations(READ, k)]:
                    if any(r in ("var", "row", "fun", "chain") for r in reads) and t == "J" or any(r in ("bus", "jchain") for r in reads) and t != "J":
                        continue
                    body = "component %s; var s = 0; %s %s LOOP { %s} %s signal x; x <-- s;" % (decl, " ".join(DECLS[r] for r in reads if r in DECLS), fill, "".join(READ[r] for r in reads), "".join(REST[r].replace("@", str(i)) for i in range(4) if i not in range(0, n, step) for r in reads if r in REST))
                    other = "E.i.u[j].y <== a + i*j; if (j == 0) { E.i.z <== 4; }" if t == "J" else ""
                    body = body.replace("OTHER", other)
                    for x, y in (("LOOPR", "for (var i = %d; i >= 0; i -= %d)" % ((n - 1) // step * step, step)), ("LOOP", "for (var i = 0; i < %d; i += %d)" % (n, step)), ("IN[j]IX", "i.u[j].x" if t == "J" else "v[j]"),
                                 ("OUT", "o.z" if t == "J" else "t"), ("E.R[", "E.o.u[" if t == "J" else "E.r["), ("E.R", "E.r"), ("]RX", "].x" if t == "J" else "]"), ("T(N)", t + ("L" if logs and t != "J" else "") + "(N)"), ("N", "(" + size + ")")):
                        body = body.replace(x, y)
                    body = re.sub(r"\bE\b", lambda _: el, body)
                    yield body


ZLIB = """
template Z0(n) { signal input p[n]; signal input q; signal output r[n]; signal output s; signal t[n]; t <== p; r <== t; s <== q*q + n; }
template ZL(n) { signal input q; signal input p[n]; signal output s; signal output r[n]; s <== q + n; r <== p; }
template ZB(n) { input P() p[n]; signal input q; output P() r[n]; signal output s; r <== p; s <== q + 1; }
template ZM(n, m) { signal input p[n][m]; signal input q; signal output r[n][m]; signal output s; r <== p; s <== q*2; for (var i = 0; i < n; i++) { r[i] === p[i]; } }
template ZN(n) { signal input p[n]; signal output s; s <== n + 7; }
bus BZ(n) { signal f[n]; signal g; P() h[n]; signal k; }
template ZBZ(n) { input BZ(n) i; output BZ(n) o; o <== i; }
template ZBP(n) { input BZ(n) i; output BZ(n) o; o.f <== i.f; o.k <== i.g; o.h <== i.h; o.g <== i.k*i.g; }
function fz(x, v) { var y = v + 1; return y; }
function fy(v, x) { var y = v + 2; var z = y*y; return z; }
function fr(x) { return x; }
function fm(x, k) { var l = k + 3; var y[2][0] = x; var m = l*k; return m + l; }
template ZV(n, m) { signal input p[n][m]; signal input q; signal output r[n][m]; signal output s; var v[n][m]; component c[n]; component d[n][m]; var z = 0;
 for (var i = 0; i < n; i++) { for (var j = 0; j < m; j++) { r[i][j] <== p[i][j]; v[i][j] = q + i; z += v[i][j]; d[i][j] = ZN(m); for (var k = 0; k < m; k++) { d[i][j].p[k] <== p[i][j]; } } c[i] = ZN(m); c[i].p <== p[i]; z += c[i].s; }
 if (n > 0 && m > 0) { z += p[0][0]; } s <== z + 1; }
function fs(x, n, k) { var s = k; for (var i = 0; i < n; i++) { s += x[i]; x[i] = 3; } return s; }
function fs2(x, n, k) { var s = k; for (var i = 0; i < n; i++) { s += x[k][i]; x[i][k] = 3; } return s; }
"""


def zero():
    """bodies with arrays of length zero: copies, inputs, outputs, bus fields, arguments and arrays of components some of which have them"""
    Z = []
    for s in ("signal y[0]; ", "var y[0]; ", "signal g0[2]; g0 <== [a, b]; signal y[0]; ", "var g0 = a; var y[0]; var g1 = b + 1; "):
        r = s.split()[0] == "var" or "var" in s
        post = " signal x; x <-- %s;" % ("fz(y, a)*10 + fy(b, y)" + (" + g0 + g1" if "g1" in s else ""))
        Z.append(s + post)
        Z.append(s + "var h0 = a*3; var h[0]; var h1 = a*5; h = y; signal x; x <-- h0 + h1*100%s;" % (" + g0 + g1" if "g1" in s else ""))
        Z.append(s + "var h0 = a*3; var h[0]; var h1 = a*5; h = fr(y); signal x; x <-- h0 + h1*100%s;" % (" + g0 + g1" if "g1" in s else ""))
        Z.append(s + "signal h0 <== a*a; signal h[0]; h <-- fr(y); signal h1 <== b; signal x <== h0 + h1*7;")
        for op in ("<==", "<--"):
            if op == "<==" and r: continue
            Z.append(s + "signal h0 <== a*a; signal h[0]; h %s y; signal h1 <== b; signal x <== h0 + h1*7;" % op)
            for t in ("Z0", "ZL"):
                for o in ("c.q <== a; c.p %s y;" % op, "c.p %s y; c.q <== a;" % op, "c.q <== a;"):
                    Z.append(s + "component c = %s(0); %s signal k0 <== b; signal k[0]; k <== c.r; signal k1 <== a; signal x <== c.s + k0 + k1*3;" % (t, o))
            Z.append(s + "component c = ZN(0); signal x <== c.s*a;")
            Z.append(s + "component c = ZN(0); c.p %s y; signal x <== c.s*a;" % op)
        if not r:
            Z.append(s + "signal h[0]; h <== y; h === y; signal h0 <== a; signal x <== h0*b;")
            Z.append(s + "signal h1[0]; signal x <== a*b; h1 <== y; assert(1 == 1); y === h1;")
            Z.append(s + "signal x, k[0]; (k, x) <== Z0(0)(y, a);")
            Z.append(s + "signal x; (_, x) <== Z0(0)(p <== y, q <== b);")
            Z.append(s + "signal x <== ZN(0)(y);")
    for sh in ("[2][0]", "[0][2]", "[0][0]"):
        n, m = sh[1:-1].split("][")
        Z.append("signal y%s; component c = ZM(%s, %s); c.q <== a; c.p <== y; signal k0 <== b; signal k%s; k <== c.r; signal k1 <== a; signal x <== c.s + k0 + k1*3;" % (sh, n, m, sh))
        Z.append("signal y%s; component c = ZM(%s, %s); c.p <== y; c.q <== a; signal k0 <== b; signal k%s; k <== c.r; k === y; signal k1 <== a; signal x <== c.s + k0 + k1*3;" % (sh, n, m, sh))
        Z.append("component c = ZM(%s, %s); c.q <== a; signal k0 <== b; signal k1 <== a; signal x <== c.s + k0 + k1*3;" % (n, m))
        Z.append("var g0 = a + 1; var y%s; var g1 = b + 2; var ww%s = y; var g2 = a + 3; y = ww; signal x; x <-- g0 + 100*g1 + 10000*g2;" % (sh, sh))
    Z.append("signal y[2][0]; component c = ZM(2, 0); c.q <== a; for (var i = 0; i < 2; i++) { c.p[i] <== y[1-i]; } signal k0 <== b; signal k[2][0]; signal k1 <== a; for (var i = 0; i < 2; i++) { k[i] <== c.r[i]; } signal x <== c.s + k0 + k1*3;")
    Z.append("var y[2][0]; var g1 = b; var ww[2][0]; for (var i = 0; i < 2; i++) { ww[i] = y[1-i]; } signal x; x <-- fm(ww, a) + g1;")
    Z.append("P() y[0]; component c = ZB(0); c.q <== a; c.p <== y; P() k[0]; P() k0; k0.x <== a; k0.y <== b; k <== c.r; signal x <== c.s + k0.x*k0.y;")
    Z.append("P() y[0]; component c = ZB(0); c.p <== y; c.q <== a; P() k[0]; P() k0; k0.x <== a; k0.y <== b; k <== c.r; k === y; signal x <== c.s + k0.x*k0.y;")
    Z.append("component c = ZB(0); c.q <== a; signal x <== c.s;")
    for t in ("ZBZ", "ZBP"):
        Z.append("BZ(0) y; y.g <== a; y.k <== b; component c = %s(0); c.i <== y; signal x <== c.o.g + c.o.k*3;" % t)
        Z.append("BZ(0) y; y.g <== a; y.k <== b; component c = %s(0); c.i.g <== a; c.i.k <== b; signal x <== c.o.g + c.o.k*3;" % t)
        Z.append("signal e[0]; P() eb[0]; BZ(0) y; y.g <== a; y.f <== e; y.k <== b; y.h <== eb; component c = %s(0); c.i.g <== a; c.i.f <== y.f; c.i.h <== y.h; c.i.k <== b; signal x <== c.o.g + c.o.k*3;" % t)
        Z.append("BZ(0) y[2]; for (var i = 0; i < 2; i++) { y[i].g <== a + i; y[i].k <== b; } component c[2]; for (var i = 0; i < 2; i++) { c[i] = %s(0); c[i].i <== y[1-i]; } signal x <== c[0].o.g + c[1].o.k*3;" % t)
        Z.append("component c[2]; for (var i = 0; i < 2; i++) { c[i] = %s(i); c[i].i.g <== a; c[i].i.k <== b; for (var j = 0; j < i; j++) { c[i].i.f[j] <== a; c[i].i.h[j].x <== j; c[i].i.h[j].y <== b; } } component d[2]; for (var i = 0; i < 2; i++) { d[i] = %s(i); d[i].i <== c[i].o; } signal x <== c[0].o.g + d[1].o.k*3 + d[0].o.g;" % (t, t))
        Z.append("component c[2]; for (var i = 0; i < 2; i++) { c[i] = %s(i); c[i].i.g <== a; c[i].i.k <== b; for (var j = 0; j < i; j++) { c[i].i.f[j] <== a; c[i].i.h[j].x <== j; c[i].i.h[j].y <== b; } } component d[2]; for (var i = 0; i < 2; i++) { d[i] = %s(i); d[i].i.f <== c[i].o.f; d[i].i.g <== c[i].o.k; d[i].i.h <== c[i].o.h; d[i].i.k <== c[i].o.g; } signal x <== c[0].o.g + d[1].o.k*3 + d[0].o.g;" % (t, t))
    for t in ("Z0", "ZL"):
      for order in ("c[i].q <== a; FILL", "FILL c[i].q <== b + i;"):
        fill = "for (var j = 0; j < i; j++) { c[i].p[j] <== v[j]; }"
        base = "component c[3]; for (var i = 0; i < 3; i++) { c[i] = %s(i); %s } " % (t, order.replace("FILL", fill))
        Z.append(base + "signal x <== c[0].s + 2*c[1].s + 3*c[2].s + c[2].r[1] + c[1].r[0];")
        Z.append(base + "component d[3]; for (var i = 0; i < 3; i++) { d[i] = %s(i); d[i].q <== c[i].s; d[i].p <== c[i].r; } signal x <== d[0].s + 2*d[1].s + 3*d[2].s + d[2].r[1] + d[1].r[0];" % t)
        Z.append(base + "component d[3]; for (var i = 0; i < 3; i++) { d[i] = %s(i); d[i].p <== c[i].r; d[i].q <== c[i].s; } signal x <== d[0].s + 2*d[1].s + 3*d[2].s + d[2].r[1] + d[1].r[0];" % t)
        Z.append(base + "component d[3]; for (var i = 2; i >= 0; i--) { d[i] = %s(i); d[i].p <== c[i].r; d[i].q <== c[i].s; } var w0 = a; var ww[2]; var w1 = b; for (var i = 0; i < 3; i++) { ww = d[i].r; w1 += ww[0]; w0 += ww[1]; } signal x; x <-- w0 + w1*100 + ww[1];" % t)
    for n in ("c", "d"):
        pre = "component c[3]; for (var i = 0; i < 3; i++) { c[i] = Z0(i); c[i].q <== a; for (var j = 0; j < i; j++) { c[i].p[j] <== v[j]; } } "
        Z.append(pre + "signal t[3]; for (var i = 0; i < 3; i++) { (_, t[i]) <== Z0(i)(c[i].r, c[i].s); } signal x <== t[0] + 2*t[1] + 3*t[2];" if n == "c" else pre + "signal t[3]; for (var i = 0; i < 3; i++) { (_, t[i]) <== Z0(i)(q <== c[i].s, p <== c[i].r); } signal x <== t[0] + 2*t[1] + 3*t[2];")
    for f in ("fs(y, 0, a)", "fs(y, 0, a) + fs([b, 2], 2, a)", "fs(y, 0, a)*fs2(z, 0, b)", "fs2(z, 0, b) + fs2(z2, 0, a)", "fs2([[1, a], [b, 2]], 2, 1) + fs2(z2, 0, a) + fs(y, 0, 1)"):
        Z.append("var y[0]; var z[0][2]; var z2[2][0]; signal x; x <-- " + f + ";")
        Z.append("signal y[0]; signal z[0][2]; signal z2[2][0]; signal x; x <-- " + f + ";")
    Z.append("component c[3][3]; var s = 0; for (var i = 0; i < 3; i++) { for (var j = 0; j < 3; j++) { c[i][j] = ZV(i, j); c[i][j].q <== a; for (var k = 0; k < i; k++) { for (var l = 0; l < j; l++) { c[i][j].p[k][l] <== k + 10*l; } } s += c[i][j].s*(i + 3*j + 1); } } signal x <== s;")
    return Z


# templates whose signals have several dimensions, also inside of buses: in arrays of different instances their places are computed at run time
MAPPED_LIB = """
bus EB(n) { signal f[2][n]; signal g; }
bus DB(n) { signal f[n][2]; signal g; P() h[2][n]; EB(n) e[n][2]; signal l[2][2][n]; EB(n) m; }
function idv(v) { return v; }
template S(n) { signal input v[n][2][n+1]; input DB(n) i[2]; signal output r[n][2][n+1]; output DB(n) o[2]; r <== v; o <== i; }
"""
X2 = "for (var x = 0; x < N; x++) { for (var y = 0; y < 2; y++) { %s } }"
MAPPED_V = ["D.v <== C.r;", "for (var x = 0; x < N; x++) { D.v[x] <== C.r[x]; }", "for (var x = 0; x < N; x++) { for (var y = 0; y < 2; y++) { D.v[x][y] <== C.r[x][y]; } }",
            "for (var x = 0; x < N; x++) { for (var y = 0; y < 2; y++) { for (var z = N; z >= 0; z--) { D.v[x][y][z] <== C.r[x][y][z]; } } }", X2 % "D.v[x][y] <-- idv(C.r[x][y]);", "for (var x = 0; x < N; x++) { D.v[x] <-- idv(C.r[x]); }", "D.v <-- idv(C.r);"]
MAPPED_F = ["D.f <== C.f;", "for (var x = 0; x < N; x++) { D.f[x] <== C.f[x]; }", X2 % "D.f[x][y] <== C.f[x][y];", "for (var x = 0; x < N; x++) { D.f[x] <-- idv(C.f[x]); }"]
MAPPED_H = ["D.h <== C.h;", "for (var y = 0; y < 2; y++) { D.h[y] <== C.h[y]; }", X2 % "D.h[y][x] <== C.h[y][x];", X2 % "D.h[y][x].x <== C.h[y][x].x; D.h[y][x].y <== C.h[y][x].y;"]
MAPPED_E = ["D.e <== C.e;", "for (var x = 0; x < N; x++) { D.e[x] <== C.e[x]; }", X2 % "D.e[x][y] <== C.e[x][y];", X2 % "D.e[x][y].g <== C.e[x][y].g; D.e[x][y].f <== C.e[x][y].f;",
            X2 % "D.e[x][y].g <== C.e[x][y].g; D.e[x][y].f[1] <== C.e[x][y].f[1]; D.e[x][y].f[0] <== C.e[x][y].f[0];", X2 % "D.e[x][y].g <== C.e[x][y].g; for (var u = 0; u < N; u++) { D.e[x][y].f[0][u] <== C.e[x][y].f[0][u]; D.e[x][y].f[1][u] <== C.e[x][y].f[1][u]; }"]
MAPPED_L = ["D.l <== C.l;", "for (var y = 0; y < 2; y++) { D.l[y] <== C.l[y]; }", "for (var y = 0; y < 2; y++) { D.l[y][0] <== C.l[y][0]; D.l[1-y][1] <== C.l[1-y][1]; }", X2 % "D.l[y][0][x] <== C.l[y][0][x]; D.l[y][1][x] <== C.l[y][1][x];", "for (var y = 0; y < 2; y++) { D.l[y][0] <-- idv(C.l[y][0]); D.l[y][1] <== C.l[y][1]; }"]
MAPPED_M = ["D.m <== C.m;", "D.m.f <== C.m.f; D.m.g <== C.m.g;", "D.m.g <== C.m.g; D.m.f[0] <== C.m.f[0]; D.m.f[1] <== C.m.f[1];", "D.m.g <== C.m.g; for (var u = 0; u < N; u++) { D.m.f[0][u] <== C.m.f[0][u]; D.m.f[1][u] <== C.m.f[1][u]; }"]
# every leaf of an instance, with a number of its own in q
MAPPED_ALL = ("for (var x = 0; x < N; x++) { for (var y = 0; y < 2; y++) { for (var z = 0; z <= N; z++) { @(V[x][y][z]) } } } for (var k = 0; k < 2; k++) { @(I[k].g) @(I[k].m.g) "
              + X2 % "@(I[k].f[x][y]) @(I[k].h[y][x].x) @(I[k].h[y][x].y) @(I[k].e[x][y].g) @(I[k].l[y][0][x]) @(I[k].l[y][1][x]) @(I[k].m.f[y][x]) for (var z = 0; z < N; z++) { @(I[k].e[x][y].f[0][z]) @(I[k].e[x][y].f[1][z]) }" + " }")
MAPPED_SHAPES = {k: SHAPES[k] for k in ("same", "up", "holes", "square")}


def mapped():
    """bodies that copy such components to others at every granularity and read them with known and unknown indexes"""
    def at(text, el, n, size):
        return re.sub(r"\bN\b", "(" + size + ")", text).replace("D.", "d" + el[1:] + ".").replace("C.", "c" + el[1:] + ".")
    for sh, (decl, el, n, step, size) in MAPPED_SHAPES.items():
        loop = "for (var i = 0; i < %d; i += %d) " % (n, step)
        fill = loop + "{ %s = S(N); " % el + re.sub(r"@\(([^)]*)\)", lambda m: m.group(1).replace("V[", "C.v[").replace("I[", "C.i[") + " <== a*q + b; q++;", MAPPED_ALL) + " } "
        read = loop + "{ " + re.sub(r"@\(([^)]*)\)", lambda m: "s += " + m.group(1).replace("V[", "D.r[").replace("I[", "D.o[") + "*q; q += 3;", MAPPED_ALL) + " } "
        unk = loop + "{ s += D.r[N-1][U][U] + 3*D.o[U].g + 5*D.o[U].f[0][U] + 7*D.o[1].h[U][N-1].y + 11*D.o[U].e[N-1][U].f[U][N-1] + 13*D.o[0].l[U][1-U][N-1] + 17*D.o[U].m.f[U][0] + D.o[1].e[0][U].g; } ".replace("U", "(a > b ? 0 : 1)")
        mids = [(v, "D.i <== C.o;" if k % 2 else "for (var k = 0; k < 2; k++) { D.i[k] <== C.o[k]; }") for k, v in enumerate(MAPPED_V)]
        for k in range(12):
            fields = [F[(k + k // len(F) * j) % len(F)] for j, F in enumerate((MAPPED_F, MAPPED_H, MAPPED_E, MAPPED_L, MAPPED_M))]
            if k % 2:
                fields.reverse()
            t = " ".join(["D.g <== C.g;"] + fields if k % 3 else fields + ["D.g <== C.g;"])
            mids.append((MAPPED_V[k % len(MAPPED_V)], "for (var k = 0; k < 2; k++) { " + t.replace("D.", "D.i[k].").replace("C.", "C.o[k].") + " }"))
        for j, (v, i) in enumerate(mids):
            body = "component %s; component d%s; var s = 0; var q = 1; " % (decl, decl[1:]) + fill + loop + "{ D = S(N); ".replace("D", "d" + el[1:]) + (v + " " + i if j % 2 else i + " " + v) + " } q = 1; " + (read if j % 3 else unk) + " signal x; x <-- s;"
            yield at(body, el, n, size)


def circuits(quick):
    for i, (x, y, o, w) in enumerate(itertools.product(X, Y, O, W)):
        if quick and (i % 3):
            continue
        yield " ".join([x, y, o, w])


def choices():
    return itertools.product(range(len(X)), range(len(Y)), range(len(O)), range(len(W)))


def body(c):
    return " ".join([X[c[0]], Y[c[1]], O[c[2]], W[c[3]]])


def cover(strength):
    """a subset of the combinations that has every combination of `strength` of the four choices"""
    sizes = [len(X), len(Y), len(O), len(W)]
    todo = set()
    for pos in itertools.combinations(range(4), strength):
        for vals in itertools.product(*[range(sizes[i]) for i in pos]):
            todo.add((pos, vals))
    out = []
    for c in choices():
        cov = {(pos, tuple(c[i] for i in pos)) for pos in itertools.combinations(range(4), strength)}
        if cov & todo and len(cov & todo) >= 1:
            todo -= cov
            out.append(c)
    return out


SMALL_INPUTS = [{"a": 3, "b": 5, "v[0]": 2, "v[1]": 7}, {"a": 9, "b": 4, "v[0]": 11, "v[1]": 1}]


def rotate(k):
    """every first choice with k combinations of the others, which takes each of those several times"""
    out = []
    for i in range(len(X)):
        for j in range(k):
            n = i * k + j
            out.append((i, n % len(Y), (n + n // len(Y)) % len(O), (n + n // 7) % len(W)))
    return out


def source(bodies, pub=""):
    zeros = re.search(r"\b(B?Z[A-Z0-9]+|f[zyrms]2?)\(", " ".join(bodies))
    L = ["pragma circom 2.2.0;", LIB + HETERO_LIB + (ZLIB if zeros else "") + (MAPPED_LIB if any(" S(" in b for b in bodies) else "")]
    n = len(bodies)
    for i, b in enumerate(bodies):
        L.append("template T%d(K) { signal input a; signal input b; signal input v[2]; signal output o; signal output w[2]; %s }" % (i, b))
    L.append("template M() { signal input a; signal input b; signal input v[2];")
    for i in range(n):
        L.append("signal output o%d; signal output w%d[2];" % (i, i))
    for i in range(n):
        L.append("component c%d = T%d(%d); c%d.a <== a; c%d.b <== b; c%d.v <== v; o%d <== c%d.o; w%d <== c%d.w;" % (i, i, 1 + i % 2, i, i, i, i, i, i, i))
    L += ["}", "component main %s= M();" % pub]
    return "\n".join(L) + "\n"
