"""C08 for every group and tensor (averages over arbitrarily many arbitrary operations) and for all tensors under fixed groups"""
import itertools
from pyvc.kit import contract
from contracts.c09_proof import group

M = "symmetry:Symmetry."
RANKS = [(0, 1), (1, 0), (1, 1), (0, 2), (2, 0), (1, 2), (2, 1)]


def transformed(K, g, h, t, rank, pseudo, idx):
    """element of the tensor after g acted on every index; h = g^-1"""
    d = g.shape[0]
    r = 0
    for src in itertools.product(range(d), repeat=len(idx)):
        x = t[src]
        for p, (a, b) in enumerate(zip(src, idx)):
            x = x * (h[b, a] if p < rank[0] else g[a, b])
        r = r + x
    return r * K.np.sign(K.np.linalg.det(g)) if pseudo else r


def regular(K, n, d):
    import numpy as np
    return np.eye(d) * np.sign(K.nrng.normal(size=(n, 1, 1))) + 0.2 * K.nrng.normal(size=(n, d, d))


def integer_groups():
    """finite groups of integer matrices (dimension, operations)"""
    def perms(d):
        for p in itertools.permutations(range(d)):
            for s in itertools.product([1, -1], repeat=d):
                yield tuple(tuple(s[i] if p[i] == j else 0 for j in range(d)) for i in range(d))

    def det(m):
        if len(m) == 1:
            return m[0][0]
        return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))

    def closure(gen):
        d = len(gen[0])
        mul = lambda a, b: tuple(tuple(sum(a[i][k] * b[k][j] for k in range(d)) for j in range(d)) for i in range(d))
        G = {tuple(tuple(int(i == j) for j in range(d)) for i in range(d))}
        while True:
            N = G | {mul(a, b) for a in gen for b in G}
            if N == G:
                return sorted(G)
            G = N
    cubic = [m for m in perms(3) if det(m) == 1]
    C2 = ((-1, 0, 0), (0, -1, 0), (0, 0, 1))
    C4 = ((0, -1, 0), (1, 0, 0), (0, 0, 1))
    C3 = ((0, 0, 1), (1, 0, 0), (0, 1, 0))
    hexa = ((1, -1, 0), (1, 0, 0), (0, 0, 1))     # sixfold axis in crystal coordinates
    return {
        "trivial": (3, closure([((1, 0, 0), (0, 1, 0), (0, 0, 1))])),
        "C2": (3, closure([C2])), "C4": (3, closure([C4])), "C3": (3, closure([C3])), "C6": (3, closure([hexa])),
        "D2": (3, closure([C2, ((1, 0, 0), (0, -1, 0), (0, 0, -1))])),
        "mirror": (3, closure([((-1, 0, 0), (0, 1, 0), (0, 0, 1))])),
        "O": (3, cubic),
        "square": (2, sorted(perms(2))), "C4 plane": (2, closure([((0, -1), (1, 0))])), "C6 plane": (2, closure([((1, -1), (1, 0))])),
        "line": (1, [((1,),)]),
    }


INTEGER = integer_groups()


def check_average(K, d):
    np = K.np
    inv = d % 2 == 1 and K.bool("inversion")
    s = group(K, d, inv, gen=regular)
    rank = K.choice("rank", RANKS if d < 3 else RANKS[:4])
    pseudo = K.bool("pseudo")
    G = s.S.shape[0]
    t = K.array("t", (d,) * sum(rank))
    if not K.sym:
        K.assume(min(abs(np.linalg.det(x)) for x in s.S) > 1e-2)
    r = s.symmetrize(t, rank, pseudo)
    idx = (K.choice("i", list(range(d))),) + (d - 1,) * (sum(rank) - 1)
    w = K.sum(G, lambda i: transformed(K, s.S[i], np.linalg.inv(s.S[i]), t, rank, pseudo, idx))
    if inv:
        w = w + K.sum(G, lambda i: transformed(K, -s.S[i], np.linalg.inv(-s.S[i]), t, rank, pseudo, idx))
    K.eq("average over the operations", r[idx], w / (G * (2 if inv else 1)), atol=1e-6)


for _d in (1, 2, 3):
    def _g(K, d=_d):
        check_average(K, d)
    _g.__name__ = "average_%dd" % _d
    contract("C08", covers=[M + "symmetrize", M + "get_symmetry_operations", M + "__len__"], proof=True, n=20)(_g)


def check_integer(K, name):
    """for every tensor: the result is invariant under every operation, invariant tensors stay, so it is a projection"""
    np = K.np
    d, ops = INTEGER[name]
    inv = d % 2 == 1 and not any(np_det(o) < 0 for o in ops) and K.bool("inversion")
    pseudo = K.bool("pseudo")
    cls = K.mod("symmetry").Symmetry
    s = cls.__new__(cls)
    s.S, s.inversion = np.array(ops) * 1.0, inv
    full = list(ops) + ([tuple(tuple(-x for x in row) for row in o) for o in ops] if inv else [])
    for rank in RANKS[:5] if len(ops) > 6 else RANKS:
        n = sum(rank)
        t = K.array("t%d%d" % rank, (d,) * n)
        r = s.symmetrize(t, rank, pseudo)
        for o in full if len(full) <= 6 else full[1::len(full) // 5]:
            g = np.array(o) * 1.0
            h = np.linalg.inv(g)
            for idx in itertools.product(range(d), repeat=n):
                K.eq("invariant", transformed(K, g, h, r, rank, pseudo, idx), r[idx], atol=1e-8)
        r2 = s.symmetrize(r, rank, pseudo)
        for idx in itertools.product(range(d), repeat=n):
            K.eq("idempotent", r2[idx], r[idx], atol=1e-8)
        if not pseudo and rank == (1, 1):
            K.eq("trace is kept", sum(r[i, i] for i in range(d)), sum(t[i, i] for i in range(d)), atol=1e-8)


for _name in sorted(INTEGER):
    def _f(K, name=_name):
        check_integer(K, name)
    _f.__name__ = "projection_" + _name.replace(" ", "_")
    contract("C08", covers=[M + "symmetrize"], proof=True, n=6)(_f)


def np_det(m):
    import numpy
    return numpy.linalg.det(numpy.array(m, dtype=float))
