"""The circuit that applies every operator to pairs of run-time values, in each internal representation."""
from . import field


def pairs(p, ops, al):
    """index list of (x, y) for binary operators; division-like operators get nonzero y only."""
    f = field.F(p)
    return [(x, y) for x in al for y in al]


def source(n, m):
    """n pairs, m unary values. one is an input that is set to 1: x*one is a value that went through a multiplication."""
    L = ["pragma circom 2.0.0;", "template Ops(n, m) {", "signal input one; signal input x[n]; signal input y[n]; signal input z[n]; signal input u[m];"]
    nb = len(field.BINOPS)
    nu = len(field.UNOPS)
    L.append("signal output o[4][%d][n]; signal output v[2][%d][m];" % (nb, nu))
    L.append("for (var i = 0; i < n; i++) {")
    for form, (a, b) in enumerate((("x[i]", "Y[i]"), ("x[i]*one", "Y[i]"), ("x[i]", "Y[i]*one"), ("x[i]*one", "Y[i]*one"))):
        for k, o in enumerate(field.BINOPS):
            yy = "z" if o in ("/", "\\", "%") else "y"
            aa, bb = a, b.replace("Y", yy)
            L.append("o[%d][%d][i] <-- (%s) %s (%s);" % (form, k, aa, o, bb))
    L.append("}")
    L.append("for (var i = 0; i < m; i++) {")
    for k, o in enumerate(field.UNOPS):
        L.append("v[0][%d][i] <-- %s(u[i]);" % (k, o))
        L.append("v[1][%d][i] <-- %s(u[i]*one);" % (k, o))
    L.append("}")
    L.append("}")
    L.append("component main = Ops(%d, %d);" % (n, m))
    return "\n".join(L) + "\n"


def inputs(al):
    """one run per value of x"""
    out = []
    for x in al:
        ps = [(x, y) for y in al]
        out.append((ps, {"one": "1", "x": [str(x) for x, _ in ps], "y": [str(y) for _, y in ps], "z": [str(y or 1) for _, y in ps], "u": [str(x) for x in al]}))
    return out


def expected(p, ps, al):
    """in witness order: o[4][nb][n] then v[2][nu][m]; yields (name, value)"""
    f = field.F(p)
    one = []
    for o in field.BINOPS:
        for x, y in ps:
            if o in ("/", "\\", "%"):
                y = y or 1
            one.append(((o, x, y), f.op(o, x, y)))
    un = []
    for o in field.UNOPS:
        for x in al:
            un.append(((o, x, None), f.un(o, x)))
    out = []
    for form in range(4):
        out += [((form,) + c, v) for c, v in one]
    for form in range(2):
        out += [((form,) + c, v) for c, v in un]
    return out
