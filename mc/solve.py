"""Solution sets of small constraint systems over small fields, by complete enumeration."""
import numpy as np


def grid(p, k):
    """axis arrays of a k-dimensional grid over F_p"""
    out = []
    for i in range(k):
        sh = [1] * k
        sh[i] = p
        out.append(np.arange(p, dtype=np.int32).reshape(sh))
    return out


def lin(lc, axes, index, p):
    v = np.int32(lc.get(0, 0) % p)
    for w, c in lc.items():
        if w:
            v = v + np.int32(c) * axes[index[w]]
    return v % p


def solutions(cons, wires, p):
    """boolean array over the values of `wires` (in this order)"""
    k = len(wires)
    ax = grid(p, k)
    ix = {w: i for i, w in enumerate(wires)}
    mask = np.ones((p,) * k, dtype=bool)
    for A, B, C in cons:
        r = (lin(A, ax, ix, p) * lin(B, ax, ix, p) - lin(C, ax, ix, p)) % p == 0
        mask &= r
    return mask


def project(mask, keep):
    """keep: list of axes to keep, in order"""
    k = mask.ndim
    drop = tuple(i for i in range(k) if i not in keep)
    m = mask.any(axis=drop) if drop else mask
    return m


def enumerate_solutions(cons, wires, p, limit=4_000_000):
    """All solutions over `wires` as {wire: array} (rows are solutions): every value of every undetermined wire is
    branched on; wires that a constraint determines are computed. For systems with many determined wires."""
    inv = [0] + [pow(i, -1, p) for i in range(1, p)]
    val = {}
    n = 1
    vars_of = [sorted({w for lc in k for w in lc if w}) for k in cons]
    unk = [len(v) for v in vars_of]
    uses = {w: [] for w in wires}
    for i, v in enumerate(vars_of):
        for w in v:
            uses[w].append(i)
    ready = [i for i, u in enumerate(unk) if u <= 1]
    done = [False] * len(cons)
    free = sorted(wires, key=lambda w: -len(uses[w]))

    def ev(lc):
        v = np.zeros(n, dtype=np.int64) + lc.get(0, 0)
        for w, c in lc.items():
            if w:
                v = v + c * val[w]
        return v % p

    def keep(mask):
        nonlocal n
        if not mask.all():
            for w in val:
                val[w] = val[w][mask]
            n = int(mask.sum())

    def known(w):
        for i in uses[w]:
            unk[i] -= 1
            if unk[i] <= 1 and not done[i]:
                ready.append(i)

    while True:
        while ready:
            i = ready.pop()
            if done[i]:
                continue
            A, B, C = cons[i]
            if unk[i] == 0:
                done[i] = True
                keep((ev(A) * ev(B) - ev(C)) % p == 0)
            else:
                u = next(w for w in vars_of[i] if w not in val)
                if A.get(u, 0) or B.get(u, 0) or not C.get(u, 0):
                    continue
                done[i] = True
                c = C[u]
                rest = {w: x for w, x in C.items() if w != u}
                val[u] = (ev(A) * ev(B) - ev(rest)) * inv[c % p] % p
                known(u)
        nxt = next((w for w in free if w not in val), None)
        if nxt is None:
            break
        if n * p > limit:
            raise MemoryError("too many partial solutions")
        for w in val:
            val[w] = np.repeat(val[w], p)
        val[nxt] = np.tile(np.arange(p, dtype=np.int64), n)
        n *= p
        known(nxt)
    return val, n


def rows(val, n, order):
    if not order:
        return {()} if n else set()
    return set(map(tuple, np.stack([val[w] for w in order], axis=1).tolist()))
