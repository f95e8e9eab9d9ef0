"""C14 unitary representations and symmetrisation of Hamiltonians"""
from pyvc.kit import contract

U = "unitary_representations:UnitaryRepresentation."
H = "hamiltonian_symmetry:HamiltonianSymmetry."


def hom(K, label, u):
    """the representation multiplies like its group"""
    import numpy as np
    S, D, n = np.array(u.sym.S, dtype=float), np.array(u.U), u.dim()
    K.ensure(label + ": one matrix per operation", D.shape == (len(S), n, n))
    prod = np.einsum("aij,bjk->abik", S, S)
    dist = np.abs(prod[:, :, None] - S[None, None]).max(axis=(-1, -2))
    j = dist.argmin(axis=-1)
    K.ensure(label + ": group is closed", np.take_along_axis(dist, j[..., None], -1).max() < 1e-6)
    K.eq(label + ": D(a) D(b) = D(ab)", np.einsum("aij,bjk->abik", D, D), D[j], atol=1e-7)
    K.eq(label + ": unitary", np.einsum("aji,ajk->aik", D.conj(), D), np.broadcast_to(np.eye(n), D.shape), atol=1e-8)
    K.eq(label + ": neutral element", D[0], np.eye(n), atol=1e-9)
    K.ensure(label + ": inv_split is a dimension", 0 <= u.inv_split <= n)
    if u.sym.inversion:
        P = parity(u)
        K.eq(label + ": inversion commutes", P @ D, D @ P, atol=1e-9)


def parity(u):
    import numpy as np
    return np.diag([1.0] * u.inv_split + [-1.0] * (u.dim() - u.inv_split))


def chars(u, S):
    """characters in the order of the operations S, with the one of the inversion at the end"""
    import numpy as np
    out = []
    for s in S:
        d = [float(np.abs(s - q).max()) for q in u.sym.S]
        i = int(np.argmin(d))
        assert d[i] < 1e-6
        out += [np.trace(u.U[i]), np.trace(u.U[i] @ parity(u))]
    return np.array(out)


def named(K, allow=None):
    UR = K.mod("unitary_representations").UnitaryRepresentation
    k = K.rng.randrange(6)
    b = lambda: K.rng.random() < 0.5
    return [UR.o3, UR.so3, UR.o3r, UR.o3ri, lambda: UR.d3(b()), lambda: UR.one_dim(b(), b())][k]()


@contract("C14", covers=[U + "o3", U + "so3", U + "o3r", U + "o3ri", U + "d3", U + "one_dim", U + "check", U + "__init__"], n=40, budget=8)
def named_representations(K):
    import contextlib
    import io
    import numpy as np
    UR = K.mod("unitary_representations").UnitaryRepresentation
    Sy = K.mod("symmetry").Symmetry
    for f, d, n in [(UR.o3, 3, 0), (UR.so3, 3, 3), (UR.o3r, 3, 3), (UR.o3ri, 3, 0)]:
        u = f()
        hom(K, f.__name__, u)
        K.ensure("dimension", u.dim() == d and u.inv_split == n)
        K.ensure("accepted by check", u.check())
    a, b, c = [K.rng.random() < 0.5 for _ in range(3)]
    u = UR.d3(a, b)
    hom(K, "d3", u)
    K.ensure("d3: inversion", u.sym.inversion == b and u.inv_split == (0 if a else 2) and len(u.sym.S) == 24)
    K.ensure("d3: accepted by check", u.check())
    u = UR.one_dim(a, b, c)
    hom(K, "one_dim", u)
    K.ensure("one_dim: inversion", u.sym.inversion == c and u.inv_split == (0 if b else 1))
    K.ensure("one_dim: faithful sign", bool(np.any(u.U < 0)) == a)
    # wrong representations are reported
    u = named(K).copy()
    i = K.rng.randrange(1, len(u.U))
    u.U[i] = -u.U[i]
    with contextlib.redirect_stdout(io.StringIO()):
        K.ensure("a wrong sign is reported by check", not u.check())
    m = UR(Sy.inv(3), 3)
    hom(K, "trivial", m)
    u = UR.so3()
    u.inv_split = K.rng.randint(1, 2)
    with contextlib.redirect_stdout(io.StringIO()):
        K.ensure("an inversion that does not commute is reported by check", not u.check())


def generators(K):
    """a generating set of a finite group in 2 or 3 dimensions"""
    import numpy as np
    r = K.nrng
    d = K.rng.choice([2, 3])

    def rot(n):
        c, s = np.cos(2 * np.pi / n), np.sin(2 * np.pi / n)
        m = np.eye(d)
        m[:2, :2] = [[c, -s], [s, c]]
        return m
    if d == 2:
        G = [[rot(K.rng.choice([2, 3, 4, 5, 6, 8]))], [np.diag([1.0, -1])], [rot(K.rng.choice([2, 3, 4, 6])), np.diag([1.0, -1])]][K.rng.randrange(3)]
    else:
        k = K.rng.randrange(5)
        C3 = np.array([[0., 0, 1], [1, 0, 0], [0, 1, 0]])
        G = [[rot(K.rng.choice([2, 3, 4, 5, 6]))], [rot(K.rng.choice([2, 3, 4, 6])), np.diag([1.0, -1, -1])], [C3], [C3, np.diag([-1.0, -1, 1])], [C3, rot(4)]][k]
        if K.rng.random() < 0.2:
            G = G + [np.diag([1.0, 1, -1])]
    if K.rng.random() < 0.5:
        B = np.eye(d) + 0.3 * r.normal(size=(d, d))
        if abs(np.linalg.det(B)) > 0.3:
            G = [B @ g @ np.linalg.inv(B) for g in G]
    G = [np.round(g, 12) + 0.0 if np.abs(g - np.round(g)).max() < 1e-12 else g for g in G]
    return G


def ortho(K, G):
    """orthogonal images of the generators: the matrices themselves (orthogonalised), their determinant, or the trivial one"""
    import numpy as np
    d = len(G[0])
    # invariant metric by averaging over the group
    S = closure(G)
    M = sum(s.T @ s for s in S) / len(S)
    L = np.linalg.cholesky(M).T
    Li = np.linalg.inv(L)
    kinds = []
    for _ in range(K.rng.randint(1, 3)):
        kinds.append(K.rng.randrange(3))
    mats = []
    Q, _ = np.linalg.qr(K.nrng.normal(size=(9, 9)))
    for g in G:
        b = [L @ g @ Li, np.array([[np.sign(np.linalg.det(g))]]), np.eye(1)]
        blocks = [b[k] for k in kinds]
        n = sum(len(x) for x in blocks)
        m = np.zeros((n, n))
        o = 0
        for x in blocks:
            m[o:o + len(x), o:o + len(x)] = x
            o += len(x)
        mats.append(m)
    n = len(mats[0])
    Q, _ = np.linalg.qr(K.nrng.normal(size=(n, n)))
    return [Q @ m @ Q.T for m in mats] if K.rng.random() < 0.5 else mats


def closure(G):
    import numpy as np
    S = [np.eye(len(G[0]))]
    i = 0
    while i < len(S):
        for g in G:
            p = S[i] @ g
            if not any(np.abs(p - q).max() < 1e-7 for q in S):
                S.append(p)
        i += 1
        assert len(S) < 250
    return S


@contract("C14", covers=[U + "from_generator"], n=120, budget=10)
def generated(K):
    import numpy as np
    UR = K.mod("unitary_representations").UnitaryRepresentation
    G = generators(K)
    D = ortho(K, G)
    S = closure(G)
    # the inversion is given separately in three dimensions
    K.assume(len(G[0]) == 2 or not any(np.abs(s + np.eye(3)).max() < 1e-6 for s in S))
    if K.rng.random() < 0.5:
        G, D = [np.eye(len(G[0]))] + G, [np.eye(len(D[0]))] + D
    if K.rng.random() < 0.3:
        G, D = G + [G[-1]], D + [D[-1]]
    inv = K.rng.random() < 0.5 and len(G[0]) == 3
    neg = K.rng.random() < 0.5
    form = K.rng.randrange(3)
    if form == 1:
        g, d = np.array(G), np.array(D)
    elif form == 2:
        g, d = [tuple(map(tuple, x)) for x in G], [tuple(map(tuple, x)) for x in D]
    else:
        g, d = [x.copy() for x in G], [x.copy() for x in D]
    u = UR.from_generator(g, d, inversion=inv, negate_inversion=neg)
    K.ensure("generates the whole group", len(u.sym.S) == len(S) and u.sym.inversion == inv)
    hom(K, "generated", u)
    K.ensure("inversion", u.inv_split == (0 if neg else u.dim()))
    K.same("generators unchanged", np.array(g), np.array(G))
    for a, b in zip(G, D):
        i = [i for i, s in enumerate(u.sym.S) if np.abs(s - a).max() < 1e-6]
        K.ensure("generator is contained once", len(i) == 1)
        K.eq("generator keeps its matrix", u.U[i[0]], b, atol=1e-8)
    # inconsistent images are rejected
    bad = [x.copy() for x in D]
    q = K.rng.randrange(len(bad))
    if np.abs(G[q] - np.eye(len(G[q]))).max() < 1e-9 or len(S) % 2 == 1:
        bad[q] = -bad[q]
        K.raises("images that are no representation are rejected", (AssertionError, ValueError), UR.from_generator, [x.copy() for x in G], bad, inversion=inv)


@contract("C14", covers=[U + "__add__", U + "__mul__", U + "copy", U + "match_sym", U + "permute", U + "dim"], n=120, budget=14)
def sums_and_products(K):
    import numpy as np
    UR = K.mod("unitary_representations").UnitaryRepresentation
    Sy = K.mod("symmetry").Symmetry
    a, b = named(K), named(K)
    if K.rng.random() < 0.5:
        a = a + named(K)
    if K.rng.random() < 0.3:
        a, b = b, a
    st = [(x.U.copy(), np.array(x.sym.S), x.inv_split) for x in (a, b)]

    def kept(label):
        for x, (m, s, i) in zip((a, b), st):
            K.same(label + ": operands unchanged", x.U, m)
            K.same(label + ": operand group unchanged", np.array(x.sym.S), s)
            K.ensure(label + ": operand inversion unchanged", x.inv_split == i)
    S = np.array(a.sym.S)
    ca, cb = chars(a, S), chars(b, S)
    s = a + b
    kept("sum")
    hom(K, "sum", s)
    K.eq("sum: characters add", chars(s, S), ca + cb, atol=1e-8)
    K.ensure("sum: dimension", s.dim() == a.dim() + b.dim())
    n = K.rng.randint(1, 3)
    m = a * (np.int64(n) if K.rng.random() < 0.5 else n)
    kept("multiple")
    hom(K, "multiple", m)
    K.eq("multiple: characters", chars(m, S), n * ca, atol=1e-8)
    p = a * b
    kept("product")
    hom(K, "product", p)
    K.ensure("product: dimension", p.dim() == a.dim() * b.dim())
    K.eq("product: characters multiply", chars(p, S), ca * cb, atol=1e-8)
    K.raises("unsupported factor", ValueError, lambda: a * "x")
    # same group in another order
    o = K.nrng.permutation(len(S) - 1) + 1
    o = np.concatenate([[0], o])
    q = Sy(S[o], True)
    c = a.copy()
    c.match_sym(q)
    hom(K, "reordered", c)
    K.eq("reordered: same order as the given group", np.array(c.sym.S), S[o], atol=0)
    K.eq("reordered: matrices moved along", c.U, np.array([a.U[[i for i in range(len(S)) if np.abs(a.sym.S[i] - x).max() < 1e-7][0]] for x in S[o]]), atol=0)
    K.raises("other group", ValueError, a.copy().match_sym, Sy.cyclic(4, True))
    K.raises("other inversion", ValueError, a.copy().match_sym, Sy(S, False))
    # basis permutation within the parities
    k = a.inv_split
    pm = np.concatenate([K.nrng.permutation(k), k + K.nrng.permutation(a.dim() - k)]).astype(int)
    c = a.copy()
    c.permute(pm.tolist())
    K.eq("permutation of the basis", c.U, a.U[:, pm][:, :, pm], atol=0)
    hom(K, "permuted", c)
    kept("permute")
    # both mixed: refused
    x = UR.o3() + UR.so3()
    y = UR.o3() + UR.so3()
    K.raises("sum of two mixed ones is refused", ValueError, lambda: x + y)
    K.raises("product of two mixed ones is refused", ValueError, lambda: x * y)


# ------------------------------------------------------------------ symmetrisation
def orbit_closed(K, S, inv, start, both=False):
    """neighbours closed under the group up to sign (both: exactly closed)"""
    import numpy as np
    out = []
    for r in start:
        for s in list(S):
            for v in ([s @ r, -(s @ r)] if both or inv else [s @ r]):
                hit = any(np.abs(v - q).max() < 1e-6 or (not both and np.abs(v + q).max() < 1e-6) for q in out)
                if not hit:
                    out.append(np.array(v))
    if inv and not both:
        out = [q * K.rng.choice([1, 1, -1]) for q in out]     # any half of the set
    out = [q for q in out if np.abs(q).max() < 1e-9] + [out[i] for i in K.nrng.permutation(len(out)) if np.abs(out[i]).max() > 1e-9]
    return np.array(out) + 0.0


def start(K, d):
    import numpy as np
    c = [np.eye(d)[0], np.ones(d), np.arange(1.0, d + 1)[::-1].copy(), np.array([1.0, 1.0, 0.0])[:d], np.array([0.0, 0.0, 1.0])[-d:], np.array([2.0, 0, 1])[:d]]
    return [np.zeros(d)] + [c[i] for i in K.nrng.choice(len(c), size=K.rng.randint(1, 2), replace=False)]


def find(nb, d):
    import numpy as np
    a = np.abs(nb - d).max(axis=1)
    if a.min() < 1e-5:
        return int(a.argmin()), False
    a = np.abs(nb + d).max(axis=1)
    if a.min() < 1e-5:
        return int(a.argmin()), True
    return None, None


def average(ops, pos, dims, nb, Hr):
    """reference: average of the blocks over complete orbits; ops: list of (s, [block matrices]); blocks with an incomplete orbit vanish"""
    import numpy as np
    off = np.concatenate([[0], np.cumsum(dims)]).astype(int)
    Hr = np.array(Hr, dtype=complex)
    Hr[0] = (Hr[0] + Hr[0].conj().T) / 2
    out = np.zeros_like(Hr)
    for i, r in enumerate(nb):
        for a in range(len(dims)):
            for b in range(len(dims)):
                A, B = slice(off[a], off[a + 1]), slice(off[b], off[b + 1])
                t = 0
                for s, us in ops:
                    j, mir = find(nb, s @ (r - pos[a] + pos[b]) + pos[a] - pos[b])
                    if j is None:
                        t = None
                        break
                    h = Hr[j].conj().T if mir else Hr[j]
                    t = t + us[a].conj().T @ h[A, B] @ us[b]
                if t is not None:
                    out[i, A, B] = t / len(ops)
    return out


def atomic(nb, Hr, pos, dims, k):
    """Hamiltonian with phases of the true distances"""
    import numpy as np
    x = np.concatenate([np.repeat(p[None], d, axis=0) for p, d in zip(pos, dims)])
    D = np.exp(2j * np.pi * (x @ k))
    h = np.array(Hr[0], dtype=complex)
    for r, m in zip(nb[1:], Hr[1:]):
        e = np.exp(2j * np.pi * np.dot(k, r)) * m
        h = h + e + e.conj().T
    return D.conj()[:, None] * h * D[None]


def hsgroup(K):
    import numpy as np
    Sy = K.mod("symmetry").Symmetry
    inv = K.rng.random() < 0.6
    k = K.rng.randrange(8)
    s = [lambda: Sy.cubic(inv), lambda: Sy.cyclic(K.rng.choice([2, 4]), inv), lambda: Sy.dihedral(K.rng.choice([2, 4]), inv), lambda: Sy.mirror_x(inv), lambda: Sy.o2(K.rng.choice([2, 4])),
         lambda: Sy.inv(K.rng.choice([1, 3])), lambda: Sy.square(), lambda: Sy.cyclic(3, inv)][k]()
    return s


@contract("C14", covers=[H + "symmetrize", H + "symmetrizer", H + "append", H + "append_s", H + "append_p", H + "append_d2", H + "append_d3", H + "apply", H + "copy", H + "dim"], n=60, budget=30)
def hamiltonian_symmetry(K):
    import numpy as np
    HS = K.mod("hamiltonian_symmetry").HamiltonianSymmetry
    UR = K.mod("unitary_representations").UnitaryRepresentation
    r = K.nrng
    sym = hsgroup(K)
    d = sym.dim()
    hs = HS(sym)
    cubic = len(sym.S) == 24
    place = [np.zeros(d), np.full(d, 0.5), np.array([0.5, 0, 0])[:d], np.array([0.5, 0.5, 0])[:d], r.uniform(-1, 1, size=d), -np.full(d, 0.5)]
    for i in range(K.rng.choice([1, 2, 2, 3]) if len(sym.S) < 20 else K.rng.choice([1, 2])):
        p = place[K.rng.choice([0, 0, 1, 2, 3, 4, 5])]
        k = K.rng.randrange(5)
        if k == 0 or k > 2 and not cubic:
            hs.append_s(p, "s")
        elif k == 1:
            hs.append_p(p, "p")
        elif k == 2:
            hs.append_d3(p, "d")
        elif k == 3:
            hs.append_d2(p, "d")
        else:
            hs.append(UR.one_dim(K.rng.random() < 0.5, K.rng.random() < 0.5, sym.inversion), p, "x")
    pos, dims = [np.array(p, dtype=float) for p in hs.pos], [u.dim() for u in hs.U]
    n = hs.dim()
    K.ensure("dimension is the sum", n == sum(dims))
    nb = orbit_closed(K, sym.S, sym.inversion, start(K, d))
    if len(nb) > 30:
        nb = orbit_closed(K, sym.S, sym.inversion, [np.zeros(d), np.eye(d)[0]])
    if K.rng.random() < 0.2 and len(nb) > 3:
        nb = nb[:-1]
    X = r.normal(size=(len(nb), n, n)) + 1j * r.normal(size=(len(nb), n, n))
    if K.rng.random() < 0.3:
        X = X.real.copy()
    X0 = X.copy()
    ops = []
    for i, s in enumerate(sym.S):
        ops.append((np.array(s, dtype=float), [u.U[i] for u in hs.U]))
        if sym.inversion:
            ops.append((-np.array(s, dtype=float), [u.U[i] * (1 if u.inv_split > 0 else -1) for u in hs.U]))
    want = average(ops, pos, dims, nb, X)
    f = hs.symmetrizer(nb)
    R = f(X)
    K.same("argument unchanged", X, X0)
    K.eq("symmetrizer is the group average", R, want, atol=1e-9)
    Q = hs.symmetrize(X, nb)
    K.same("argument unchanged", X, X0)
    K.eq("symmetrize is the group average", Q, want, atol=1e-9)
    K.eq("idempotent", f(R), R, atol=1e-9)
    K.eq("idempotent (direct)", hs.symmetrize(Q, nb), Q, atol=1e-9)
    c = hs.copy()
    K.eq("a copy is the same symmetry", c.symmetrizer(nb)(X), R, atol=1e-12)
    c.U[0].U[...] = 0
    c.pos[0][...] = 7
    K.eq("changing the copy does not change the original", hs.symmetrizer(nb)(X), R, atol=1e-12)
    k = r.normal(size=d)
    h = atomic(nb, R, pos, dims, k)
    off = np.concatenate([[0], np.cumsum(dims)]).astype(int)
    sel = K.rng.sample(range(len(ops)), min(len(ops), 8))
    lattice = [np.zeros((1, d))] * len(pos)
    flat = [np.zeros(d)] * len(pos)
    for q in sel:
        s, us = ops[q]
        k2 = np.linalg.inv(s).T @ k
        W = np.zeros((n, n), dtype=complex)
        for a in range(len(dims)):
            W[off[a]:off[a + 1], off[a]:off[a + 1]] = us[a]
        K.eq("U H(k) U^-1 = H(S k)", W @ h @ W.conj().T, atomic(nb, R, pos, dims, k2), atol=1e-8 * (1 + len(nb)))
        idx, iv = (q // 2, q % 2 == 1) if sym.inversion else (q, False)
        g = atomic(nb, R, flat, dims, k)
        g0 = g.copy()
        K.eq("apply gives the Hamiltonian at the transformed point", hs.apply(k, g, idx, inversion=iv), atomic(nb, R, flat, dims, k2), atol=1e-8 * (1 + len(nb)))
        K.same("apply keeps its argument", g, g0)


@contract("C14", covers=[U + "symmetrize", U + "symmetrizer"], n=60, budget=30)
def representation_symmetrize(K):
    """with inversion: Hermitian cosine/sine matrices"""
    import numpy as np
    r = K.nrng
    u = named(K)
    for _ in range(K.rng.randint(0, 2)):
        u = u + named(K) if u.dim() < 5 else u
    n, k = u.dim(), u.inv_split
    sym = u.sym
    nb = orbit_closed(K, sym.S, True, start(K, 3))
    if K.rng.random() < 0.15:
        nb = orbit_closed(K, sym.S, True, [np.zeros(3), np.array([2.0, 1.0, 3.0])])
    if K.rng.random() < 0.2:
        nb = np.concatenate([nb[1:2], nb[:1], nb[2:]])   # the origin does not need to be first
    o = int(np.abs(nb).sum(axis=1).argmin())
    C = r.normal(size=(len(nb), n, n)) + 1j * r.normal(size=(len(nb), n, n))
    C = C + C.conj().swapaxes(-1, -2)
    if K.rng.random() < 0.3:
        C = C.real.copy()
    C0 = C.copy()
    R = u.symmetrize(C, nb)
    K.same("argument unchanged", C, C0)
    f = u.symmetrizer(nb)
    Q = f(C)
    K.same("argument unchanged", C, C0)
    K.eq("both symmetrisers agree", R, Q, atol=1e-9)
    K.eq("idempotent", f(Q), Q, atol=1e-9)
    K.eq("idempotent (direct)", u.symmetrize(R, nb), R, atol=1e-9)
    K.eq("Hermitian", R, R.conj().swapaxes(-1, -2), atol=1e-9)

    def ham(C, q):
        x = 2 * np.pi * (nb @ q)
        w = np.ones((len(nb), n, n)) * np.cos(x)[:, None, None]
        w[:, :k, k:] = np.sin(x)[:, None, None]
        w[:, k:, :k] = np.sin(x)[:, None, None]
        return (w * C).sum(axis=0)
    P = parity(u)
    q = r.normal(size=3)
    h = ham(R, q)
    sc = 1e-9 * len(nb) * 10
    want = 0
    for s, m in zip(sym.S, u.U):
        s = np.array(s, dtype=float)
        K.eq("U H(k) U^-1 = H(S k)", m @ h @ m.conj().T, ham(R, s @ q), atol=sc)
        want = want + m.conj().T @ ham(C, s @ q) @ m / len(sym.S)
    K.eq("inversion", P @ h @ P, ham(R, -q), atol=sc)
    K.eq("Hamiltonian is the group average", h, want, atol=sc)
    K.eq("linear", f(2.0 * C - R), 2 * R - R, atol=1e-9 * 10)


@contract("C14", covers=[U + "symmetrize", U + "symmetrizer"], n=60, budget=12)
def representation_symmetrize_no_inversion(K):
    import numpy as np
    UR = K.mod("unitary_representations").UnitaryRepresentation
    r = K.nrng
    G = generators(K)
    S = closure(G)
    K.assume(len(S) <= 24 and len(S) > 1)
    K.assume(all(np.abs(s @ s.T - np.eye(len(s))).max() < 1e-9 for s in S))
    K.assume(len(G[0]) == 2 or not any(np.abs(s + np.eye(3)).max() < 1e-6 for s in S))
    D = ortho(K, G)
    u = UR.from_generator([np.eye(len(G[0]))] + G, [np.eye(len(D[0]))] + D, inversion=False)
    n, d = u.dim(), len(G[0])
    nb = orbit_closed(K, u.sym.S, False, start(K, d), both=True)
    C = r.normal(size=(len(nb), n, n)) + 1j * r.normal(size=(len(nb), n, n))
    C0 = C.copy()
    R = u.symmetrize(C, nb)
    K.same("argument unchanged", C, C0)
    want = np.zeros_like(C)
    for i, v in enumerate(nb):
        for s, m in zip(u.sym.S, u.U):
            j, mir = find(nb, s @ v)
            K.assume(j is not None and not mir)
            want[i] += m.conj().T @ C[j] @ m / len(u.U)
    K.eq("group average", R, want, atol=1e-9)
    f = u.symmetrizer(nb)
    Q = f(C)
    K.same("argument unchanged", C, C0)
    K.eq("both symmetrisers agree", Q, R, atol=1e-9)
    K.eq("idempotent", f(Q), Q, atol=1e-9)
    q = r.normal(size=d)
    ham = lambda C, q: (np.exp(2j * np.pi * (nb @ q))[:, None, None] * C).sum(axis=0)
    for s, m in zip(u.sym.S, u.U):
        K.eq("U H(k) U^-1 = H(S k)", m @ ham(R, q) @ m.conj().T, ham(R, np.linalg.inv(s).T @ q), atol=1e-8 * len(nb))


@contract("C14", covers=[H + "append_diamond_s", H + "append_diamond_p", H + "append_diamond_d3", H + "append", H + "get_band_name"], n=30, budget=8)
def appended_representations(K):
    import numpy as np
    HS = K.mod("hamiltonian_symmetry").HamiltonianSymmetry
    UR = K.mod("unitary_representations").UnitaryRepresentation
    Sy = K.mod("symmetry").Symmetry
    sym = Sy.cubic(K.rng.random() < 0.5)
    hs = HS(sym)
    z = np.zeros(3)
    hs.append_diamond_s(z, "s")
    hs.append_diamond_p(z, "p")
    hs.append_diamond_d3(z, "d")
    hs.append_s(z, "S")
    hs.append_p(z, "P")
    hs.append_d2(z, "D")
    hs.append_d3(z, "E")
    K.ensure("dimension", hs.dim() == 2 + 6 + 6 + 1 + 3 + 2 + 3)
    for u, name in zip(hs.U, hs.names):
        hom(K, "appended " + name, u)
        K.ensure("inversion is uniform", u.inv_split in (0, u.dim()))
        K.eq("operations in the order of the group", np.array(u.sym.S), np.array(sym.S), atol=0)
    K.raises("position has the wrong dimension", ValueError, hs.append_s, np.zeros(2), "x")
    if sym.inversion:
        K.raises("mixed inversion is refused", ValueError, hs.append, UR.o3() + UR.so3(), z)
    v = UR.one_dim(True, False, sym.inversion)
    m = v.U.copy()
    hs.append(v, z, "v")
    hs.U[-1].U[...] = 0
    K.same("the appended representation is copied", v.U, m)
