"""C07 orbits"""
from pyvc.kit import contract
from contracts.c06 import ops, member

M = "symmetry:Symmetry."


def lattice_group(K):
    """a group of integer matrices (keeps the lattice Z^d)"""
    S = K.mod("symmetry").Symmetry
    inv = K.rng.random() < 0.5
    k = K.rng.randrange(12)
    return [lambda: S.cubic(inv), lambda: S.cyclic(4, inv), lambda: S.cyclic(2, inv), lambda: S.dihedral(4, inv), lambda: S.mirror_x(inv), lambda: S.mirror3(inv), lambda: S.inv(), lambda: S.none(),
            lambda: S.square(), lambda: S.perm3(inv), lambda: S.mirror_x(inv, 2), lambda: S.tetrahedral(inv)][k]()


def any_group(K):
    import numpy as np
    S = K.mod("symmetry").Symmetry
    if K.rng.random() < 0.5:
        return lattice_group(K)
    inv = K.rng.random() < 0.5
    c = K.rng.choice([3, 5, 6])
    s = K.rng.choice([lambda: S.cyclic(c, inv), lambda: S.dihedral(c, inv), lambda: S.o2(c)])()
    if K.rng.random() < 0.4:
        B = np.eye(s.dim()) + 0.4 * K.nrng.normal(size=(s.dim(), s.dim()))
        if abs(np.linalg.det(B)) > 0.3:
            s = s.transform(B)
    return s


def wrap(x):
    import numpy as np
    x = np.asarray(x) % 1.0
    x = np.where(x > 1 - 1e-7, 0.0, x)
    return np.where(x > 0.5 - 1e-7, x - 1, x)


def uniq(pts, tol=1e-6):
    import numpy as np
    out = []
    for p in pts:
        if not out or np.min(np.linalg.norm(np.array(out) - p, axis=-1)) > tol:
            out.append(p)
    return np.array(out)


def orbit(G, k, cell=False):
    import numpy as np
    o = np.einsum("aij,j->ai", G, k)
    return uniq(wrap(o) if cell else o)


def points(K, G, n, cell=False):
    """pairwise inequivalent points, with special positions and coordinates apart by more than the grouping tolerances"""
    import numpy as np
    r = K.nrng
    d = G.shape[-1]
    out, used = [], np.zeros((0, d))
    for _ in range(n):
        p = r.choice([0.0, 0.5, -0.5, 0.25, 0.125, 0.3, -0.3, 1 / 3, 0.0625], size=d)
        if r.random() < 0.4:
            p = np.round(r.random(d) - 0.5, 3)
        if r.random() < 0.3:
            p[:] = p[0]
        if not cell and r.random() < 0.3:
            p = p * r.choice([2.0, 4.0, 10.0])
        o = orbit(G, p, cell)
        if len(used) and np.min(np.linalg.norm(used[:, None] - o[None], axis=-1)) < 1e-3:
            continue
        if len(o) > 1 and np.min(np.linalg.norm(o[:, None] - o[None], axis=-1) + 9 * np.eye(len(o))) < 2e-4:
            continue
        out.append(p)
        used = np.concatenate([used, o])
    return np.array(out)


def match(K, label, A, B):
    """index of every A in B; both without duplicates and the same set"""
    import numpy as np
    A, B = np.asarray(A), np.asarray(B)
    K.ensure(label + ": number of points", len(A) == len(B), lambda: (len(A), len(B)))
    D = np.linalg.norm(A[:, None] - B[None], axis=-1)
    j = np.argmin(D, axis=1)
    K.ensure(label + ": same points", np.all(D[np.arange(len(A)), j] < 1e-6), lambda: A[np.argmax(D.min(axis=1))])
    K.ensure(label + ": no duplicates", len(set(j.tolist())) == len(A))
    return j


@contract("C07", covers=[M + "realize_symmetric", M + "realize_symmetric_data"], n=120, budget=14)
def expansion(K):
    import numpy as np
    cell = K.rng.random() < 0.5
    s = lattice_group(K) if cell else any_group(K)
    G = ops(s)
    pts = points(K, G, K.rng.randint(1, 12), cell)
    K.assume(len(pts) > 0)
    want, src = [], []
    for i, p in enumerate(pts):
        o = orbit(G, p, cell)
        want.extend(o)
        src.extend([i] * len(o))
    p0 = pts.copy()
    arg = pts.tolist() if K.rng.random() < 0.3 else pts
    full, order = s.realize_symmetric(arg, unit_cell=cell)
    j = match(K, "orbit points", full, want)
    K.ensure("source index", np.array_equal(order, np.array(src)[j]))
    K.same("points unchanged", pts, p0)
    img = np.einsum("aij,nj->ani", G, full).reshape(-1, full.shape[-1])
    img = wrap(img) if cell else img
    K.ensure("closed under the group", np.all(np.min(np.linalg.norm(img[:, None] - full[None], axis=-1), axis=1) < 1e-6))
    if cell:
        K.ensure("inside of the unit cell", np.all(full >= -0.5) and np.all(full < 0.5), lambda: full)
    data = K.nrng.normal(size=(len(pts),) + K.rng.choice([(), (2,), (2, 3)]))
    f2, d2 = s.realize_symmetric_data(arg, data.tolist() if K.rng.random() < 0.3 else data, unit_cell=cell)
    j = match(K, "orbit points with data", f2, want)
    K.eq("data copied to every orbit point", d2, data[np.array(src)[j]], atol=0)
    # reversed input: same set
    f3, d3 = s.realize_symmetric_data(pts[::-1], data[::-1], unit_cell=cell)
    j = match(K, "order of the given points", f3, want)
    K.eq("order of the given points: data", d3, data[np.array(src)[j]], atol=0)
    # several copies of a point: no duplicates, data averaged
    extra = np.concatenate([pts, [G[-1] @ pts[0]]])
    dd = np.concatenate([data, data[:1] + 2.0])
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f4, d4 = s.realize_symmetric_data(extra, dd, unit_cell=cell, average_bad_duplicates=True)
    j = match(K, "bad duplicates are removed", f4, want)
    mean = data.copy()
    mean[0] = mean[0] + 1.0
    K.eq("bad duplicates are averaged", d4, mean[np.array(src)[j]], atol=1e-12)


@contract("C07", covers=[M + "realize_symmetric", M + "r_class_size"], n=60, budget=5)
def expansion_scaled(K):
    """the orbit does not depend on the length scale of the points"""
    import numpy as np
    s = any_group(K)
    G = ops(s)
    p = K.nrng.choice([0.0, 0.5, -0.5, 0.25, 0.3, 1 / 3], size=G.shape[-1])
    if K.rng.random() < 0.5:
        p = K.nrng.normal(size=G.shape[-1])
    o = orbit(G, p, False)
    K.assume(len(o) < 2 or np.min(np.linalg.norm(o[:, None] - o[None], axis=-1) + 9 * np.eye(len(o))) > 1e-2)
    f = 10.0 ** K.rng.uniform(-3.5, 3.5)
    full, order = s.realize_symmetric(np.array([p * f]))
    K.ensure("number of points", len(full) == len(o) and len(order) == len(o), lambda: (p, f, len(full), len(o)))
    D = np.linalg.norm(full[:, None] / f - o[None], axis=-1)
    K.ensure("same points", np.all(D.min(axis=0) < 1e-6) and np.all(D.min(axis=1) < 1e-6))
    K.ensure("one source", np.all(order == 0))
    K.eq("size of the class", s.r_class_size(np.array([p])), [len(o)], atol=1e-12)


@contract("C07", covers=[M + "reduce_symmetric_data", M + "realize_symmetric_data", M + "k_weight", M + "r_class_size"], n=80, budget=20)
def round_trip(K):
    import numpy as np
    s = lattice_group(K)
    r = K.nrng
    mode = K.rng.random()
    d = s.dim()
    G = ops(s)
    if mode < 0.5:                       # grid symmetric about the origin (with the origin or shifted by half a step)
        N = K.rng.randint(1, 8 if d == 3 else 16)
        if K.rng.random() < 0.15:
            N = 12 if d == 3 else 30
        a = (np.arange(N) - (N - 1) / 2) / max(N, 1)
        full = np.stack(np.meshgrid(*[a] * d, indexing="ij"), axis=-1).reshape(-1, d)
        if N % 2 == 0 and K.rng.random() < 0.5:
            a = np.arange(-N // 2, N // 2 + 1) / N
            full = np.stack(np.meshgrid(*[a] * d, indexing="ij"), axis=-1).reshape(-1, d)
    else:
        pts = points(K, G, K.rng.randint(1, 14))
        K.assume(len(pts) > 0)
        full = np.concatenate([orbit(G, p) for p in pts])
    full = full[r.permutation(len(full))]
    w = r.normal(size=d)
    val = np.array([np.mean(np.cos(3 * np.einsum("aij,j->ai", G, p) @ w)) for p in full])
    if K.rng.random() < 0.5:
        val = np.stack([val, 1 + val ** 2], axis=-1)
    k0, v0 = full.copy(), val.copy()
    red, rv = s.reduce_symmetric_data(full, val)
    K.same("points unchanged", full, k0)
    K.same("data unchanged", val, v0)
    D = np.linalg.norm(red[:, None] - full[None], axis=-1)
    K.ensure("representatives are given points", np.all(D.min(axis=1) < 1e-12))
    K.eq("data of the representatives", rv, val[D.argmin(axis=1)], atol=0)
    img = np.einsum("aij,nj->ani", G, red)
    for i in range(len(red)):
        o = np.linalg.norm(img[:, i, None] - red[None], axis=-1).min(axis=0) < 1e-6
        K.ensure("one representative per orbit", o.sum() == 1, lambda: (len(G), red[i], red[o]))
    back, bv = s.realize_symmetric_data(red, rv)
    j = match(K, "expanded again", back, full)
    K.eq("expanded again: data", bv, val[j], atol=1e-6)
    size = s.r_class_size(red)
    K.eq("class sizes", size, [len(orbit(G, p)) for p in red], atol=1e-9)
    K.eq("class sizes sum to the full set", np.sum(size), len(full), atol=1e-6)
    # asymmetric data is reported
    nontriv = [i for i in range(len(full)) if len(orbit(G, full[i])) > 1]
    if nontriv:
        bad = val.copy()
        bad[K.rng.choice(nontriv)] += 0.01
        K.raises("asymmetric data is reported", ValueError, s.reduce_symmetric_data, full, bad)
        u, _ = s.reduce_symmetric_data(full, bad, checked=False)
        K.ensure("unchecked reduction", len(u) == len(red))


@contract("C07", covers=[M + "k_weight", M + "realize_symmetric"], n=120, budget=10)
def weights(K):
    """1/k_weight operations keep the point modulo the lattice"""
    import numpy as np
    s = lattice_group(K)
    d = s.dim()
    G = ops(s)
    pts = points(K, G, K.rng.randint(1, 12), True)
    K.assume(len(pts) > 0)
    w = s.k_weight(pts)
    stab = np.array([sum(np.all(np.abs(wrap(g @ p - p)) < 1e-6) for g in G) for p in pts])
    K.eq("weight is one over the number of operations keeping the point", w, 1 / stab, atol=1e-12)
    n = np.array([len(orbit(G, p, True)) for p in pts])
    K.eq("weight counts the orbit", w * len(s), n, atol=1e-9)
    full, order = s.realize_symmetric(pts, unit_cell=True)
    K.eq("weights sum to the size of the full set", np.sum(w) * len(s), len(full), atol=1e-7)
    K.eq("weight of the origin", s.k_weight([[0.0] * d]), 1 / len(s), atol=1e-12)
    N = K.rng.randint(1, 6)
    g = wrap(np.stack(np.meshgrid(*[np.arange(N) / N] * d, indexing="ij"), axis=-1).reshape(-1, d))
    rep = []
    seen = np.zeros(len(g), dtype=bool)
    for i, p in enumerate(g):
        if not seen[i]:
            rep.append(p)
            seen |= np.linalg.norm(orbit(G, p, True)[:, None] - g[None], axis=-1).min(axis=0) < 1e-6
    K.eq("weights of a reduced grid sum to the grid", np.sum(s.k_weight(rep)) * len(s), N ** d, atol=1e-6)
    f, o = s.realize_symmetric(rep, unit_cell=True)
    match(K, "reduced grid expands to the grid", f, g)


@contract("C07", covers=[M + "complete_neighbors", M + "check_neighbors"], n=120, budget=12)
def neighbors(K):
    import numpy as np
    s = any_group(K)
    G = np.swapaxes(ops(s), 1, 2)
    d = s.dim()
    r = K.nrng
    base = r.integers(-2, 3, size=(K.rng.randint(1, 4), d)).astype(float)
    if r.random() < 0.3:
        base = np.round(base * r.choice([0.5, 0.25, 1.7]), 3)
    sel = []
    for b in base:                     # inequivalent, also up to sign
        if all(np.linalg.norm(np.concatenate([G @ b, -(G @ b)]) - c, axis=-1).min() > 1e-3 for c in sel):
            sel.append(b)
    if K.rng.random() < 0.7 and not any(np.linalg.norm(b) < 1e-9 for b in sel):
        sel = [np.zeros(d)] + sel
    sel = np.array(sel)
    out, order = s.complete_neighbors(sel, return_order=True)
    K.ensure("same without order", np.allclose(s.complete_neighbors(sel), out, atol=0))
    out = np.array(out)
    K.ensure("one source index for each", len(order) == len(out))
    pm = np.concatenate([out, -out])
    for b in sel:
        K.ensure("given neighbors are contained up to sign", np.linalg.norm(pm - b, axis=-1).min() < 1e-6, lambda: b)
    img = np.einsum("aij,nj->ani", G, out)
    K.ensure("closed under the transposed group up to sign", np.all(np.linalg.norm(img[:, :, None] - pm[None, None], axis=-1).min(axis=-1) < 1e-5))
    D = np.minimum(np.linalg.norm(out[:, None] - out[None], axis=-1), np.linalg.norm(out[:, None] + out[None], axis=-1))
    K.ensure("one of each pair", np.all(D + np.eye(len(out)) > 1e-5))
    nr = np.linalg.norm(out, axis=-1)
    K.ensure("sorted by length", np.all(np.diff(nr) >= -1e-9))
    want = uniq(np.concatenate([np.einsum("aij,j->ai", G, b) for b in sel]))
    want = [v for i, v in enumerate(want) if not any(np.linalg.norm(v + u) < 1e-6 for u in want[:i])]
    K.ensure("nothing else is added", len(out) == len(want), lambda: (len(out), len(want)))
    for o, i in zip(out, order):
        im = G @ sel[i]
        K.ensure("source index", np.linalg.norm(np.concatenate([im, -im]) - o, axis=-1).min() < 1e-5)
    if d == 3 and s.is_orthogonal():
        s.check_neighbors(out)
        s.check_neighbors(out[r.permutation(len(out))])
        orb = [len(orbit(G, o)) for o in out]
        big = [i for i in range(len(out)) if sum(np.linalg.norm(np.concatenate([G @ out[i], -(G @ out[i])]) - o, axis=-1).min() < 1e-6 for o in out) > 1]
        if big:
            i = K.rng.choice(big)
            K.raises("missing neighbor is reported", ValueError, s.check_neighbors, np.delete(out, i, axis=0))
            K.raises("duplicate neighbor is reported", ValueError, s.check_neighbors, np.concatenate([out, out[i:i + 1]]))


@contract("C07", covers=["symmetry:neighbor_function", "symmetry:try_neighbor_function"], n=120, budget=6)
def point_matching(K):
    import numpy as np
    m = K.mod("symmetry")
    r = K.nrng
    d = K.rng.choice([1, 2, 3])
    P = np.unique(r.integers(-3, 4, size=(K.rng.randint(1, 12), d)), axis=0).astype(float)
    P = P[r.permutation(len(P))]
    err = K.rng.choice([1e-4, 1e-2, 0.1])
    f = m.neighbor_function(P, err) if err != 1e-4 or r.random() < 0.5 else m.neighbor_function(P)
    g = m.try_neighbor_function(P, err)
    for _ in range(8):
        x = r.integers(-3, 4, size=d).astype(float) if r.random() < 0.5 else P[r.integers(len(P))] * r.choice([1, -1])
        e = r.normal(size=d)
        e = e / np.linalg.norm(e) * err * r.choice([0.0, 0.5, 0.9, 1.1, 3.0])
        q = x + e
        a, b = np.linalg.norm(P - q, axis=-1), np.linalg.norm(P + q, axis=-1)
        if a.min() < err * 0.99:
            want = (int(a.argmin()), False)
        elif a.min() > err * 1.01 and b.min() < err * 0.99:
            want = (int(b.argmin()), True)
        else:
            want = None
        if want is None:
            K.ensure("unknown position", tuple(g(q)) == (None, None))
            K.raises("unknown position is reported", ValueError, f, q)
        else:
            K.ensure("index and mirror", (int(f(q)[0]), bool(f(q)[1])) == want, lambda: (q, f(q), want))
            K.ensure("index and mirror (without error)", (int(g(q)[0]), bool(g(q)[1])) == want)


@contract("C07", covers=[M + "find_classes"], n=80, budget=6)
def classes(K):
    """equivalence classes of the points of a list (which need not contain whole orbits)"""
    import numpy as np
    s = any_group(K)
    G = ops(s)
    d = s.dim()
    r = K.nrng
    reps = points(K, G, K.rng.randint(1, 4))
    P = np.concatenate([orbit(G, p) for p in reps])
    own = np.concatenate([[i] * len(orbit(G, p)) for i, p in enumerate(reps)])
    pm = r.permutation(len(P))[:K.rng.choice([len(P), max(1, len(P) // 2), 60])]
    P, own = P[pm], own[pm]
    P0 = P.copy()
    c = s.find_classes(P.tolist() if K.rng.random() < 0.3 else P)
    K.same("points unchanged", P, P0)
    want = {}
    for i, o in enumerate(own):
        want.setdefault(int(o), []).append(i)
    K.ensure("classes are the equivalent points, under the first of them", {int(a): sorted(int(x) for x in b) for a, b in c.items()} == {b[0]: b for b in want.values()}, lambda: (c, want))
