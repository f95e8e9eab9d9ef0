"""C13 supercells and neighbour editing"""
from pyvc.kit import contract
from contracts.c09 import book, herm
from contracts.c10 import model, state, unchanged

A = "tight_binding_asym:AsymTightBindingModel."
F = "tight_binding_asym:HermitianFourierSeries."
B = "bandstructure:BandStructureModel."


@contract("C13", covers=[A + "supercell", B + "supercell"], n=100, budget=14)
def supercell(K):
    import numpy as np
    from contracts.models import series, overlap
    r = K.nrng
    d = K.rng.choice([1, 2, 3])
    n = K.rng.choice([1, 2, 3])
    nb, H = series(K, d, n, K.rng.randint(1, 4), cut=K.rng.choice([1.0, 1.5, 2.3]))
    asym = K.rng.random() < 0.6
    S = overlap(K, nb, n) if asym and K.rng.random() < 0.4 else None
    m = K.rng.random()
    Ao = np.eye(d) if m < 0.4 else (np.diag(1 + r.random(d)) if m < 0.6 else np.eye(d) * 2 + 0.5 * r.normal(size=(d, d)))
    while True:
        L = r.integers(-2, 3, size=(d, d))
        if K.rng.random() < 0.3:
            L = np.diag(r.integers(1, 4, size=d))
        det = abs(round(np.linalg.det(L)))
        if 0 < det <= 6:
            break
    nbc = nb @ Ao.T
    t, b = K.mod("tight_binding_asym"), K.mod("bandstructure")
    Sy = K.mod("symmetry").Symmetry
    if asym:
        o = t.AsymTightBindingModel(t.HermitianFourierSeries(nbc, H.copy()), None if S is None else t.HermitianFourierSeries(nbc, S))
        kw = {}
    else:
        o = b.BandStructureModel.init_tight_binding(Sy.none(d), nbc, n, cos_reduced=K.rng.random() < 0.5, exp=K.rng.random() < 0.5)
        o.set_params_complex(H.astype(complex))
        kw = {} if K.rng.random() < 0.3 else dict(cos_reduced=K.rng.random() < 0.5, exp=K.rng.random() < 0.5)
    st = state(o)
    s = o.supercell(Ao, Ao @ L, **kw)
    unchanged(K, "model unchanged", o, st)
    K.ensure("number of bands", s.band_count() == n * det, lambda: (s.band_count(), n, det))
    # representatives of the reciprocal supercell lattice modulo the reciprocal lattice
    R = int(np.abs(L).sum()) + 1
    G = np.stack(np.meshgrid(*[np.arange(-R, R + 1)] * d, indexing="ij"), axis=-1).reshape(-1, d)
    G = G[np.argsort(np.abs(G).sum(axis=1), kind="stable")]
    x = (G @ np.linalg.inv(L)) % 1.0
    x[x > 1 - 1e-7] = 0
    reps = []
    for v in x:
        if not any(np.all(np.abs(v - w) < 1e-6) for w in reps):
            reps.append(v)
    K.ensure("test: number of folded points", len(reps) == det)
    shift = np.array(reps) @ np.linalg.inv(Ao)
    k = r.normal(size=(3, d))
    if K.rng.random() < 0.2:
        k[0] = 0
    want = np.sort(np.concatenate([o.bands(k + v) for v in shift], axis=-1), axis=-1)
    sc = 1 + np.abs(H).sum()
    K.eq("folded bands", s.bands(k), want, atol=1e-7 * sc)
    K.raises("not a supercell", AssertionError, o.supercell, Ao, Ao @ (L + 0.5))


def fresh(K):
    import numpy as np
    from contracts.models import series
    t = K.mod("tight_binding_asym")
    d = K.rng.choice([1, 2, 3])
    n = K.rng.choice([1, 2, 3])
    nb, H = series(K, d, n, K.rng.randint(1, 7), cut=3.0)
    if K.rng.random() < 0.3:
        nb = nb @ (np.eye(d) + 0.3 * K.nrng.normal(size=(d, d)))
    H = H * 10.0 ** K.nrng.integers(-6, 1, size=(len(H), 1, 1))
    if K.rng.random() < 0.2:
        H[0] = 0
    return t.HermitianFourierSeries(nb, H.copy()), nb, H


def subset(K, label, s, nb, H, keep):
    """the series holds exactly the neighbors in `keep`, each with its own matrix"""
    import numpy as np
    K.ensure(label + ": number of neighbors", len(s.neighbors) == len(keep) == len(s.H_r), lambda: (len(s.neighbors), len(keep)))
    left = set(keep)
    for v, h in zip(s.neighbors, s.H_r):
        i = [j for j in left if np.array_equal(nb[j], v)]
        K.ensure(label + ": kept neighbors", len(i) == 1, lambda: (v, keep))
        K.ensure(label + ": matrix stays with its neighbor", np.array_equal(H[i[0]], h))
        left.discard(i[0])
    K.ensure(label + ": on-site matrix first", np.all(s.neighbors[0] == 0))


@contract("C13", covers=[F + "add_neighbors", F + "limit_neighbors", F + "limit_neighbor_count", F + "cleanup_neighbors"], n=200, budget=8)
def editing(K):
    import contextlib
    import io
    import numpy as np
    s, nb, H = fresh(K)
    d, n = nb.shape[1], H.shape[1]
    r = K.nrng
    k = r.normal(size=(3, d))
    f = s.f(k)
    length = np.linalg.norm(nb, axis=-1)
    norm = np.sqrt((np.abs(H) ** 2).sum(axis=(1, 2)))
    c = s.copy()
    L = float(r.choice(np.concatenate([length, [0.5, 1.7, 2.0, 100.0, 0.0]])))
    K.ensure("number removed by length", c.limit_neighbors(L) == np.sum(length > L + 1e-8))
    subset(K, "length", c, nb, H, [i for i in range(len(nb)) if length[i] <= L + 1e-8])
    K.raises("negative length", AssertionError, c.limit_neighbors, -1.0)
    # lengths on the limit up to rounding are kept
    c = s.copy()
    q = float(r.choice([0.1, 0.3, 1 / 3, 0.7, 1.1, 1e-3]))
    c.neighbors = nb * q
    sq = np.round((nb ** 2).sum(axis=-1) * 4) / 4
    if np.allclose(sq, (nb ** 2).sum(axis=-1), atol=1e-12):
        m2 = r.choice(sq)
        L = float(np.sqrt(m2) * q)
        K.ensure("neighbors on the limit are kept", c.limit_neighbors(L) == np.sum(sq > m2))
    c = s.copy()
    m = int(r.integers(1, len(nb) + 3))
    rem = c.limit_neighbor_count(m)
    K.ensure("number removed by count", rem == max(0, len(nb) - m) and len(c.neighbors) == min(m, len(nb)))
    keep = [i for i in range(len(nb)) if any(np.array_equal(nb[i], v) for v in c.neighbors)]
    subset(K, "count", c, nb, H, keep)
    K.ensure("the shortest are kept", all(length[i] <= length[j] + 1e-12 for i in keep for j in range(len(nb)) if j not in keep))
    c = s.copy()
    N = float(r.choice(np.concatenate([norm, [1e-3, 1.0, 0.0, 1e9]])))
    if np.any(np.abs(norm - N) < 1e-9 * N) and N in norm:
        N = N * (1 - 1e-9)
    want = [i for i in range(len(nb)) if i == 0 or norm[i] >= N]
    K.ensure("number removed by norm", c.cleanup_neighbors(N) == len(nb) - len(want))
    subset(K, "norm", c, nb, H, want)
    # exactly at the threshold: not smaller, so it is kept
    c = s.copy()
    i = int(r.integers(len(nb)))
    c.H_r[...] = 0
    c.H_r[i, 0, 0] = 0.5
    c.cleanup_neighbors(0.5)
    K.ensure("norm exactly at the threshold is kept", any(np.array_equal(nb[i], v) for v in c.neighbors) and len(c.neighbors) == (1 if i == 0 else 2))
    # adding
    c = s.copy()
    new = [v for v in r.integers(-4, 5, size=(K.rng.randint(1, 4), d)).astype(float) + (0.5 if r.random() < 0.3 else 0)]
    new = [v for i, v in enumerate(new) if not any(np.linalg.norm(v - w) < 1e-3 for w in list(nb) + new[:i])]
    if new:
        c.add_neighbors(np.array(new) if K.rng.random() < 0.5 else new)
        K.ensure("neighbors are appended", np.array_equal(c.neighbors, np.concatenate([nb, new])))
        K.ensure("coefficients are appended with zero", np.array_equal(c.H_r, np.concatenate([H, np.zeros((len(new), n, n))])))
        K.eq("adding keeps the Hamiltonian", c.f(k), f, atol=1e-12 * (1 + np.abs(H).sum()))
        K.eq("adding keeps the derivative", c.df(k), s.df(k), atol=1e-10 * (1 + np.abs(H).sum()))
        e = c.copy()
        K.raises("duplicates in a list are refused", ValueError, e.add_neighbors, [new[0] + 7.25, nb[int(r.integers(len(nb)))]])
        K.ensure("refused lists change nothing", np.array_equal(e.neighbors, c.neighbors) and np.array_equal(e.H_r, c.H_r))
    with contextlib.redirect_stdout(io.StringIO()):
        e = s.copy()
        e.add_neighbors([nb[int(r.integers(len(nb)))]])
    K.ensure("a single duplicate changes nothing", np.array_equal(e.neighbors, nb) and np.array_equal(e.H_r, H))
