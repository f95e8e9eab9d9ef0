"""C08 tensor symmetrisation"""
from pyvc.kit import contract

M = "symmetry:Symmetry."


def groups(K):
    import numpy as np
    S = K.mod("symmetry").Symmetry
    inv = K.rng.random() < 0.5
    k = K.rng.randrange(11)
    c = K.rng.choice([2, 3, 4, 6])
    s = [lambda: S.cubic(inv), lambda: S.cyclic(c, inv), lambda: S.dihedral(c, inv), lambda: S.mirror_x(inv), lambda: S.mirror3(inv), lambda: S.inv(), lambda: S.none(),
         lambda: S.o2(c), lambda: S.square(), lambda: S.mirror_x(inv, 2), lambda: S.perm3(inv)][k]()
    d = s.dim()
    if K.rng.random() < 0.3:
        B = np.eye(d) + 0.4 * K.nrng.normal(size=(d, d))
        if abs(np.linalg.det(B)) > 0.2:
            s = s.transform(B)
    return s


def act(g, t, rank, pseudo):
    """transform every index of t by g: covariant (left) with g^-1, contravariant (right) with g"""
    import numpy as np
    gi = np.linalg.inv(g)
    for a in range(rank[0]):
        t = np.moveaxis(np.tensordot(t, gi, axes=([a], [1])), -1, a)
    for a in range(rank[0], rank[0] + rank[1]):
        t = np.moveaxis(np.tensordot(t, g, axes=([a], [0])), -1, a)
    return t * (np.sign(np.linalg.det(g)) if pseudo else 1)


@contract("C08", covers=[M + "symmetrize"], n=150, budget=14)
def projection(K):
    import numpy as np
    s = groups(K)
    d = s.dim()
    tot = K.rng.choice([1, 2, 2, 3, 3, 4])
    left = K.rng.randint(0, tot)
    rank = (left, tot - left)
    pseudo = K.rng.random() < 0.4
    t = K.nrng.normal(size=(d,) * tot)
    t0 = t.copy()
    f = lambda x: s.symmetrize(x, rank, pseudo)
    r = f(t)
    K.same("argument unchanged", t, t0)
    K.ensure("shape", r.shape == t.shape)
    G = s.get_symmetry_operations()
    want = sum(act(g, t, rank, pseudo) for g in G) / len(G)
    K.eq("group average", r, want, atol=1e-8 * (1 + np.abs(want).max()))
    for g in G:
        K.eq("invariant under every operation", act(g, r, rank, pseudo), r, atol=1e-7 * (1 + np.abs(r).max()))
    K.eq("idempotent", f(r), r, atol=1e-7 * (1 + np.abs(r).max()))
    u = K.nrng.normal(size=t.shape)
    a, b = K.nrng.normal(size=2)
    K.eq("linear", f(a * t + b * u), a * r + b * f(u), atol=1e-7 * (1 + np.abs(r).max() + np.abs(f(u)).max()))
    if tot == 2 and not pseudo and rank == (1, 1):
        K.eq("the unit matrix is invariant", f(np.eye(d)), np.eye(d), atol=1e-8)
        K.eq("trace is kept", np.trace(r), np.trace(t), atol=1e-8)
    if not pseudo and tot % 2 == 1 and np.any(np.linalg.norm((G + np.eye(d)).reshape(len(G), -1), axis=1) < 1e-7):
        K.eq("odd tensors vanish with inversion", r, 0, atol=1e-8)


@contract("C08", covers=[M + "symmetrize"], n=20, budget=4)
def known_results(K):
    import numpy as np
    S = K.mod("symmetry").Symmetry
    t = K.nrng.normal(size=(3, 3))
    K.eq("cubic", S.cubic(K.rng.random() < 0.5).symmetrize(t), np.trace(t) / 3 * np.eye(3), atol=1e-9)
    r = S.cyclic(3, K.rng.random() < 0.5).symmetrize(t)
    K.eq("threefold axis", r, [[(t[0, 0] + t[1, 1]) / 2, (t[0, 1] - t[1, 0]) / 2, 0], [(t[1, 0] - t[0, 1]) / 2, (t[0, 0] + t[1, 1]) / 2, 0], [0, 0, t[2, 2]]], atol=1e-9)
    v = K.nrng.normal(size=3)
    K.eq("vector along the axis", S.cyclic(4, False).symmetrize(v, (0, 1)), [0, 0, v[2]], atol=1e-9)
    K.eq("vector along the axis", S.cyclic(4, False).symmetrize(v, (1, 0)), [0, 0, v[2]], atol=1e-9)
    K.eq("vector with inversion", S.cyclic(4, True).symmetrize(v, (0, 1)), 0, atol=1e-9)
    K.eq("pseudovector with inversion", S.cyclic(4, True).symmetrize(v, (0, 1), pseudo_tensor=True), [0, 0, v[2]], atol=1e-9)
    K.eq("scalar", S.cubic(True).symmetrize(2.5, (0, 0)), 2.5, atol=1e-12)
    K.eq("pseudoscalar", S.cubic(True).symmetrize(2.5, (0, 0), pseudo_tensor=True), 0, atol=1e-12)
    K.raises("rank must match", AssertionError, S.none().symmetrize, t, (1, 0))
