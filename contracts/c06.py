"""C06 groups and combinators"""
from pyvc.kit import contract

M = "symmetry:Symmetry."


def ops(s):
    """all operations, built from the documented attributes only"""
    import numpy as np
    return np.concatenate([s.S, -s.S]) if s.inversion else np.array(s.S)


def key(m):
    import numpy as np
    return tuple(np.round(np.asarray(m, dtype=float), 5).ravel() + 0.0)


def keyset(a):
    import numpy as np
    # robust against rounding boundaries: compare by distance where it matters
    return {key(x) for x in a}


def member(x, G, tol=1e-6):
    import numpy as np
    return np.min(np.linalg.norm(np.asarray(G) - x, axis=(1, 2))) < tol


def is_group(K, s, label=""):
    import numpy as np
    G = ops(s)
    d = G.shape[-1]
    K.ensure("identity first " + label, np.allclose(s.S[0], np.eye(d), atol=1e-7))
    K.ensure("len counts the operations " + label, len(s) == len(G), lambda: (len(s), len(G)))
    D = np.linalg.norm((G[:, None] - G[None]).reshape(len(G), len(G), -1), axis=-1)
    K.ensure("no duplicates " + label, np.all(D + np.eye(len(G)) > 1e-4))
    P = np.einsum("aij,bjk->abik", G, G).reshape(-1, d * d)
    F = G.reshape(len(G), -1)
    for i in range(0, len(P), 4000):
        n = np.min(np.linalg.norm(P[i:i + 4000, None] - F[None], axis=-1), axis=1)
        K.ensure("closed under multiplication " + label, np.all(n < 1e-6), lambda: float(n.max()))
    for g in G:
        K.ensure("closed under inversion of operations " + label, member(np.linalg.inv(g), G))
    K.eq("operations", s.get_symmetry_operations(), G, atol=1e-12)
    K.ensure("check() confirms the group " + label, len(G) > 100 or s.check())
    return G


def same_set(K, label, A, B):
    import numpy as np
    A, B = np.asarray(A), np.asarray(B)
    K.ensure(label + ": same number", len(A) == len(B), lambda: (len(A), len(B)))
    for a in A:
        K.ensure(label, member(a, B), lambda: a)


NAMES = ["none", "inv", "o1", "o2", "cyclic", "dihedral", "cubic", "perm3", "even_perm3", "mirror3", "mirror_x", "mirror_xy", "square", "icosahedral", "tetrahedral", "mirror_x2", "none2", "inv2", "mirror_x1"]


def named(K, k=None, inv=None, c=None):
    S = K.mod("symmetry").Symmetry
    if k is None:
        inv = K.bool("inv")
        c = K.int("count", 1, 8)
        k = K.choice("name", NAMES)
    t = {
        "none": lambda: (S.none(), 1), "inv": lambda: (S.inv(), 2), "o1": lambda: (S.o1(inv), 1 + inv),
        "none2": lambda: (S.none(2), 1), "inv2": lambda: (S.inv(2), 2), "mirror_x1": lambda: (S.mirror_x(False, 1), 2),
        "o2": lambda: (S.o2(c), c), "cyclic": lambda: (S.cyclic(c, inv), c * (1 + inv)), "dihedral": lambda: (S.dihedral(c, inv), 2 * c * (1 + inv)),
        "cubic": lambda: (S.cubic(inv), 24 * (1 + inv)), "perm3": lambda: (S.perm3(inv), 6 * (1 + inv)), "even_perm3": lambda: (S.even_perm3(inv), 6 * (1 + inv)),
        "mirror3": lambda: (S.mirror3(inv), 4 * (1 + inv)), "mirror_x": lambda: (S.mirror_x(inv), 2 * (1 + inv)), "mirror_xy": lambda: (S.mirror_xy(inv), 2 * (1 + inv)),
        "mirror_x2": lambda: (S.mirror_x(inv, 2), 2 * (1 + inv)), "square": lambda: (S.square(), 8),
        "icosahedral": lambda: (S.icosahedral(inv), 60 * (1 + inv)), "tetrahedral": lambda: (S.tetrahedral(inv), 12 * (1 + inv)),
    }[k]
    return k, inv, c, t


@contract("C06", covers=[M + "cubic", M + "cyclic", M + "dihedral", M + "icosahedral", M + "tetrahedral", M + "perm3", M + "even_perm3", M + "mirror3", M + "mirror_x", M + "mirror_xy", M + "square", M + "o1", M + "o2", M + "none", M + "inv"], n=1, budget=40, thorough=1)
def named_groups(K):
    """exhaustive over the names, the inversion flag and 1 <= n <= 12"""
    for k in NAMES:
        for inv in (False, True):
            for c in range(1, 13) if k in ("o2", "cyclic", "dihedral") else (1,):
                named_group(K, *named(K, k, inv, c))


def named_group(K, k, inv, c, t):
    import numpy as np
    s, order = t()
    K.ensure("order of %s" % k, len(s) == order, lambda: (len(s), order))
    G = is_group(K, s, k)
    K.eq("orthogonal", np.einsum("aij,akj->aik", G, G), np.broadcast_to(np.eye(s.dim()), G.shape), atol=1e-9)
    K.ensure("is_orthogonal", s.is_orthogonal())
    det = np.linalg.det(G)
    d = s.dim()
    if k in ("cyclic", "cubic", "mirror3", "icosahedral", "even_perm3", "tetrahedral", "mirror_xy") and not inv:
        K.eq("rotations only", det, 1.0, atol=1e-9)
    if k in ("o2",):
        K.eq("rotations only", det, 1.0, atol=1e-9)
        ang = 2 * np.pi / c
        K.ensure("contains the elementary rotation", member([[np.cos(ang), np.sin(ang)], [-np.sin(ang), np.cos(ang)]], G))
    if k in ("cyclic", "dihedral"):
        ang = 2 * np.pi / c
        K.ensure("contains the elementary rotation about z", member([[np.cos(ang), np.sin(ang), 0], [-np.sin(ang), np.cos(ang), 0], [0, 0, 1]], G))
        K.ensure("keeps the axis", np.allclose(np.abs(G[:, 2, 2]), 1))
    if k == "dihedral":
        K.ensure("contains the x mirror", member(np.diag([-1.0, 1, 1]), G))
    if k == "cubic":
        K.ensure("signed permutations", np.allclose(np.abs(G).sum(axis=1), 1) and np.allclose(np.abs(G).max(axis=1), 1))
    if k == "mirror3":
        K.ensure("sign changes", np.allclose(np.abs(G), np.eye(3)))
    if k == "perm3" and not inv:
        K.ensure("permutations", np.all(G >= 0))
    if k == "square":
        K.ensure("signed permutations of two axes", np.allclose(np.abs(G).sum(axis=1), 1))
    K.ensure("contains -1 exactly if the inversion was requested", k not in ("cyclic", "dihedral", "cubic", "perm3", "even_perm3", "mirror3", "icosahedral", "mirror_x", "mirror_xy") or member(-np.eye(3), G) == (inv or False), lambda: (k, inv))


@contract("C06", covers=["symmetry:Symmetry.__init__"], n=60, budget=6)
def inversion_flag(K):
    """the flag doubles the group exactly when -1 is not already contained"""
    import numpy as np
    S = K.mod("symmetry").Symmetry
    k, inv, c, t = named(K)
    K.assume(k != "icosahedral" or K.rng.random() < 0.2)
    s, order = t()
    G = ops(s)
    had = member(-np.eye(s.dim()), G)
    for flag in (False, True):
        p = S(list(G), inversion=flag)
        want = len(G) * (2 if flag and not had else 1)
        K.ensure("number of operations", len(p) == want and len(ops(p)) == want, lambda: (k, c, inv, flag, len(p), want))
        K.ensure("contains the given operations", all(member(g, ops(p)) for g in G))
        K.ensure("contains -1", member(-np.eye(s.dim()), ops(p)) == (had or flag))
        is_group(K, p)
    r = K.nrng.permutation(len(G) - 1) + 1
    p = S([G[0]] + [G[i] for i in r])
    K.ensure("equality does not depend on the order", p == s and s == p)
    K.raises("first operation must be the identity", ValueError, S, [2 * np.eye(3)] if len(G) == 1 else list(G[1:]))
    K.raises("volume preserving operations only", ValueError, S, [np.eye(3), np.diag([2.0, 1, 1])])


@contract("C06", covers=[M + "from_generator", M + "__mul__"], n=60, budget=14)
def generation(K):
    import numpy as np
    S = K.mod("symmetry").Symmetry
    r = K.nrng
    full = ops(S.cubic(True)) if K.rng.random() < 0.6 else ops(S.dihedral(int(r.choice([3, 5, 6])), True))
    if K.rng.random() < 0.2:
        full = ops(S.o2(int(r.integers(2, 9))) * S.mirror_x(False, 2))
    if K.rng.random() < 0.15:
        # high orders: long words are needed
        n = int(r.integers(9, 70))
        c, q = np.cos(2 * np.pi / n), np.sin(2 * np.pi / n)
        full = np.array([((c, -q), (q, c))] if K.rng.random() < 0.5 else [((c, -q, 0), (q, c, 0), (0, 0, 1.0))])
    # non-orthogonal conjugates as well
    T = np.eye(full.shape[-1])
    if K.rng.random() < 0.4:
        T = T + 0.4 * r.normal(size=T.shape)
        K.assume(abs(np.linalg.det(T)) > 0.2)
    full = np.array([T @ g @ np.linalg.inv(T) for g in full])
    gens = [full[i] for i in r.integers(len(full), size=int(r.integers(1, 4)))]
    if K.rng.random() < 0.3:
        gens = gens + [gens[0]]
    inv = K.rng.random() < 0.4
    p = S.from_generator(gens, inv)
    # independent closure
    H = [np.eye(len(T))]
    gg = gens + ([-np.eye(len(T))] if inv else [])
    i = 0
    while i < len(H):
        for g in gg:
            x = H[i] @ g
            if not member(x, H):
                H.append(x)
        i += 1
    same_set(K, "generated group", ops(p), H)
    is_group(K, p)
    # product
    a = S.from_generator(gens[:1], inv)
    b = S.from_generator(gens[-1:], False)
    c = a * b
    for x in list(ops(a)) + list(ops(b)):
        K.ensure("product contains both factors", member(x, ops(c)))
    is_group(K, c)
    K.ensure("product is not larger than generated", len(c) == len(S.from_generator([gens[0], gens[-1]], inv)))


@contract("C06", covers=[M + "transform", M + "dual", M + "transpose", M + "copy"], n=60, budget=8)
def combinators(K):
    import numpy as np
    k, inv, c, t = named(K)
    K.assume(k != "icosahedral" or K.rng.random() < 0.2)
    s, order = t()
    d = s.dim()
    G = ops(s)
    before = s.S.copy()
    B = np.eye(d) + 0.5 * K.nrng.normal(size=(d, d))
    K.assume(abs(np.linalg.det(B)) > 0.1 and np.linalg.cond(B) < 50)
    p = s.transform(B)
    same_set(K, "change of basis", ops(p), [B @ g @ np.linalg.inv(B) for g in G])
    is_group(K, p)
    q = p.dual()
    same_set(K, "dual", ops(q), [np.linalg.inv(g).T for g in ops(p)])
    is_group(K, q)
    q = p.transpose()
    same_set(K, "transpose", ops(q), [g.T for g in ops(p)])
    is_group(K, q)
    q = p.copy()
    same_set(K, "copy", ops(q), ops(p))
    q.S[0, 0, 0] = 7
    K.eq("copy is deep", p.S[0, 0, 0], 1.0, atol=1e-9)
    K.same("operand unchanged", s.S, before)
    if np.allclose(B, np.eye(d)):
        return
    r = s.transform(B).transform(np.linalg.inv(B))
    K.ensure("round trip", r == s and s == r)


@contract("C06", covers=[M + "__contains__", M + "__eq__", M + "__len__"], n=80, budget=10)
def membership(K):
    import numpy as np
    S = K.mod("symmetry").Symmetry
    r = K.nrng
    amb = [lambda: S.cubic(True), lambda: S.dihedral(6, True), lambda: S.dihedral(4, True), lambda: S.cubic(False)][r.integers(4)]()
    full = ops(amb)

    def sub():
        g = [full[i] for i in r.integers(len(full), size=int(r.integers(1, 3)))]
        return S.from_generator(g, K.rng.random() < 0.25)
    a, b = sub(), sub()
    if K.rng.random() < 0.4:
        b = S(list(b.S), b.inversion)
        G = list(ops(a))
        j = list(r.permutation(len(G) - 1) + 1)
        b = S([G[0]] + [G[i] for i in j])
    A, B = ops(a), ops(b)
    inc = all(member(x, A) for x in B)
    K.ensure("subgroup test", (b in a) == inc, lambda: (len(a), len(b), a.inversion, b.inversion, inc))
    K.ensure("equality", (a == b) == (inc and len(A) == len(B)), lambda: (len(a), len(b), inc))
    K.ensure("equality is symmetric", (a == b) == (b == a))
    K.ensure("contained in the ambient group", a in amb if not (a.inversion and not member(-np.eye(3), full)) else True)
    K.ensure("contains itself", a in a and a == a.copy())
    K.ensure("other dimension", not (a == S.none(2)))


@contract("C06", covers=[M + "subgroup", M + "conjugacy_classes"], n=30, budget=10)
def subgroups(K):
    import numpy as np
    S = K.mod("symmetry").Symmetry
    k = K.choice("g", [0, 1, 2, 3])
    s = [lambda: S.cubic(True), lambda: S.dihedral(6, False), lambda: S.mirror3(True), lambda: S.tetrahedral(True)][k]()
    p = s.subgroup(lambda m: np.linalg.det(m))
    same_set(K, "determinant one", ops(p), [g for g in ops(s) if np.linalg.det(g) > 0])
    is_group(K, p)
    cl = s.conjugacy_classes()
    K.ensure("classes partition the group", sum(len(c) for c in cl) == len(s))
    for c in cl:
        K.ensure("equal traces", np.ptp([np.trace(g) for g in c]) < 1e-6)
        for h in ops(s):
            for g in c[:1]:
                K.ensure("closed under conjugation", member(h @ g @ np.linalg.inv(h), np.array(c)))


@contract("C06", covers=[M + "space_group", M + "point_group", M + "strict_point_group", M + "ignore_translation", M + "remove_translation"], n=30, budget=5)
def projective(K):
    """space groups modulo lattice translations given as 4x4 matrices"""
    import numpy as np
    S = K.mod("symmetry").Symmetry
    t = np.zeros(3)
    R = np.diag([-1.0, -1, 1])
    screw = np.eye(4)
    screw[:3, :3] = R
    sp = S.space_group([np.eye(4), screw])
    K.ensure("projective flag", sp.projective and sp.space_dim() == 3 and sp.dim() == 4)
    same_set(K, "point group", ops(S.point_group([np.eye(4), screw])), [np.eye(3), R])
    same_set(K, "point group of 3x3", ops(S.point_group([np.eye(3), R])), [np.eye(3), R])
    same_set(K, "strict point group", ops(S.strict_point_group([np.eye(4), screw])), [np.eye(3), R])
    B = np.eye(3) + 0.3 * K.nrng.normal(size=(3, 3))
    K.assume(abs(np.linalg.det(B)) > 0.2)
    p = sp.transform(B)
    K.ensure("transform keeps the flag", p.projective)
    K.eq("transformed rotation part", p.S[1][:3, :3], B @ R @ np.linalg.inv(B), atol=1e-9)
