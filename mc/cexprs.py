"""Constraint expressions over two signals: text, degree class by the language's rules, and value over a whole small field."""
import itertools
import numpy as np

N, L, Q, X = 0, 1, 2, 3          # known value, linear, quadratic, not allowed in a constraint


class E:
    __slots__ = ("t", "c", "v", "k")

    def __init__(self, t, c, v, k=None):
        self.t, self.c, self.v, self.k = t, c, v, k   # k: the constant, for N


def leaves(p):
    a = np.arange(p, dtype=np.int64).reshape(p, 1) + np.zeros((1, p), dtype=np.int64)
    b = a.T.copy()
    o = np.ones((p, p), dtype=np.int64)
    return [E("a", L, a), E("b", L, b), E("1", N, o, 1), E("2", N, 2 * o % p, 2 % p)]


def binary(op, x, y, p):
    """None: the expression is an error (division by a known zero)"""
    t = "(%s %s %s)" % (x.t, op, y.t)
    if op in "+-":
        v = (x.v + y.v if op == "+" else x.v - y.v) % p
        c = X if X in (x.c, y.c) or (x.c == Q and y.c == Q) else max(x.c, y.c)
    elif op == "*":
        v = x.v * y.v % p
        c = X if X in (x.c, y.c) else max(x.c, y.c) if N in (x.c, y.c) else Q if x.c == L and y.c == L else X
    elif op == "/":
        if y.c != N:
            return E(t, X, None)
        if y.k == 0:
            return None
        v = x.v * pow(y.k, -1, p) % p if x.v is not None else None
        c = x.c
    elif op == "**":
        if x.c == N and y.c == N:
            v = np.full((p, p), pow(x.k, y.k, p) if not (x.k == 0 and y.k == 0) else 1, dtype=np.int64)
            c = N
        elif x.c == L and y.c == N and y.k == 2:
            v = x.v * x.v % p
            c = Q
        else:
            return E(t, X, None)
    else:
        if x.c == N and y.c == N:
            raise ValueError
        return E(t, X, None)
    k = int(v.flat[0]) if c == N else None
    return E(t, c, v if c != X else None, k)


def neg(x, p):
    return E("(-%s)" % x.t, x.c, (-x.v) % p if x.v is not None else None, (-x.k) % p if x.c == N else None)


def level(es1, es2, ops, p):
    out = []
    for x in es1:
        for y in es2:
            for o in ops:
                if x.c == X or y.c == X:
                    continue
                e = binary(o, x, y, p)
                if e is not None:
                    out.append(e)
    return out


def family(p, deep):
    l0 = leaves(p)
    l1 = l0 + [neg(x, p) for x in l0[:3]] + level(l0, l0, ("+", "-", "*", "/", "**"), p)
    ok = [e for e in l1 if e.c != X]
    l2 = level(ok, ok, ("+", "-", "*", "/", "**"), p)
    other = []
    for o in ("&", "|", "^", "<<", ">>", "\\", "%", "<", "<=", "==", "!=", "&&", "||"):
        for x, y in (("a", "b"), ("a", "2"), ("2", "b")):
            other.append(E("(%s %s %s)" % (x, o, y), X, None))
    other += [E("(~a)", X, None), E("(!a)", X, None), E("(a == b ? a : b)", X, None), E("(1 == 2 ? a*b*a : b)", L, ok[1].v)]
    l3 = []
    if deep:
        acc = [e for e in l2 if e.c != X]
        few = l0 + [e for e in l1 if e.t in ("(a * b)", "(a + b)", "(a - 1)", "(2 * b)")]
        l3 = level(acc, few, ("+", "-", "*"), p) + level(few, acc, ("+", "-", "*"), p)
    return l1, l2, l3, other
