"""C11 re-parametrisation"""
from pyvc.kit import contract
from contracts.c09 import book, herm
from contracts.c10 import model, state, unchanged

A = "tight_binding_asym:AsymTightBindingModel."
B = "bandstructure:BandStructureModel."


@contract("C11", covers=[A + "normalize"], n=120, budget=8)
def normalize(K):
    import numpy as np
    m, nb, H, nbs, S = model(K, kind="asym")
    d, n = nb.shape[1], H.shape[1]
    if K.rng.random() < 0.3:
        m.H.H_r[...] = 0
        m.H.H_r[0] = np.diag(K.nrng.normal(size=n))
        m.H.H_r[1] = K.nrng.normal(size=(n, n))
    k = K.nrng.normal(size=(4, d))
    k[0] = 0
    e = m.bands(k)
    nb0 = m.H.neighbors.copy()
    m.normalize()
    sc = 1 + np.abs(e).max()
    K.eq("bands", m.bands(k), e, atol=1e-8 * sc)
    K.same("neighbors", m.H.neighbors, nb0)
    K.eq("on-site matrix is Hermitian", m.H.H_r[0], herm(m.H.H_r[0]), atol=1e-9 * sc)
    f, _, _ = book(m.H.neighbors, m.H.H_r, np.zeros((1, d)))
    K.eq("Hamiltonian at k=0 is diagonal", f[0], np.diag(np.diag(f[0])), atol=1e-8 * sc)
    K.eq("the diagonal holds the bands at k=0", np.sort(np.diag(f[0]).real), e[0], atol=1e-8 * sc)
    s, _, _ = book(m.S.neighbors, m.S.H_r, np.zeros((1, d)))
    K.eq("overlap at k=0 is the identity", s[0], np.eye(n), atol=1e-9)
    h1 = m.H.H_r.copy()
    m.normalize()
    K.eq("bands after normalising twice", m.bands(k), e, atol=1e-8 * sc)
    K.eq("coefficient norms are kept", np.linalg.norm(m.H.H_r, axis=(1, 2)), np.linalg.norm(h1, axis=(1, 2)), atol=1e-8 * sc * 10)


@contract("C11", covers=[B + "normalize"], n=120, budget=6)
def normalize_reduced(K):
    import numpy as np
    bs = K.mod("bandstructure")
    from contracts.c09 import groups
    from contracts.models import series
    dim = K.rng.choice([1, 2, 3])
    n = K.rng.choice([1, 2, 3, 4])
    nb, _ = series(K, dim, n, K.rng.randint(1, 4), cut=1.5)
    sym = groups(K, dim)
    red, exp = K.bool("cos_reduced"), K.bool("exp")
    K.assume(not (exp and sym.inversion))
    m = bs.BandStructureModel.init_tight_binding(sym, nb, n, cos_reduced=red, exp=exp)
    P = K.nrng.normal(size=m.params.shape) + 1j * K.nrng.normal(size=m.params.shape)
    if K.rng.random() < 0.3:
        P[1:] *= K.nrng.random(P[1:].shape) < 0.5
    P[0] = P[0] + herm(P[0])
    m.params = P.copy()
    k = K.nrng.normal(size=(4, dim))
    e = m.bands(k)
    sc = 1 + np.abs(e).max()
    m.normalize()
    K.eq("bands", m.bands(k), e, atol=1e-8 * sc)
    K.eq("on-site matrix is diagonal and ascending", m.params[0], np.diag(np.sort(np.diag(m.params[0]).real)), atol=1e-8 * sc)
    if not exp:
        K.eq("Hermitian coefficients", m.params, herm(m.params), atol=1e-9 * sc)
    m.normalize()
    K.eq("bands after normalising twice", m.bands(k), e, atol=1e-8 * sc)


@contract("C11", covers=[A + "permute", B + "permute", A + "transform", B + "transform"], n=120, budget=6)
def permute_and_transform(K):
    import numpy as np
    m, nb, H, nbs, S = model(K)
    d, n = nb.shape[1], H.shape[1]
    r = K.nrng
    k = r.normal(size=(4, d))
    e = m.bands(k)
    sc = 1 + np.abs(e).max()
    st = state(m)
    p = r.permutation(n)
    m.permute(p.tolist() if K.rng.random() < 0.5 else p)
    K.eq("permutation keeps the bands", m.bands(k), e, atol=1e-9 * sc)
    a = state(m)
    K.eq("permutation acts on rows and columns", a[0], st[0][:, p][:, :, p], atol=0)
    K.eq("neighbors stay", a[1], st[1], atol=0)
    if S is not None:
        K.eq("permutation acts on the overlap", a[2], st[2][:, p][:, :, p], atol=0)
    T = np.eye(d) + 0.5 * r.normal(size=(d, d))
    m.transform(T.tolist() if K.rng.random() < 0.3 else T)
    K.eq("transformed neighbors are evaluation at the transformed k", m.bands(k), _bands(m, st, k @ T, nb, nbs, S, p), atol=1e-8 * sc * 10)
    K.eq("neighbors are transformed", m.neighbors if hasattr(m, "params") else m.H.neighbors, st[1] @ T.T, atol=1e-12)


def _bands(m, st, k, nb, nbs, S, p):
    import numpy as np
    o = m.copy()
    if hasattr(o, "params"):
        import scipy.linalg as sl
        H = o.params_complex()
        f = book(nb, H, k)[0]
        return np.array([sl.eigvalsh(x) for x in f])
    o.H.neighbors = st[1]
    o.S.neighbors = st[3]
    return o.bands(k)


def orbit_book(sym, exp, nb, H, k):
    """H_0 + sum_i sum_s (e^{2 pi i k s r_i} H_i + h.c.), with the cosine only if the inversion is part of the terms"""
    import numpy as np
    f = 0
    for s in sym.S:
        f = f + _terms(nb @ np.transpose(s), H, k, exp or not sym.inversion)
    return f + H[0]


def _terms(nb, H, k, full):
    import numpy as np
    x = 2 * np.pi * (k @ nb[1:].T)
    f = np.einsum("...r,rij->...ij", np.exp(1j * x) if full else np.cos(x), H[1:])
    return f + herm(f)


@contract("C11", covers=[B + "params_complex", B + "set_params_complex", A + "params_complex", A + "set_from_complex"], n=250, budget=8)
def conversion(K):
    """complex coefficients: read, write, other parametrisation, other class"""
    import numpy as np
    from contracts.models import series
    from contracts.c09 import groups
    bs, tb = K.mod("bandstructure"), K.mod("tight_binding_asym")
    Sy = K.mod("symmetry").Symmetry
    r = K.nrng
    dim = K.rng.choice([1, 2, 3])
    n = K.rng.choice([1, 2, 3, 4])
    nb, H = series(K, dim, n, K.rng.randint(1, 5), cut=1.5)
    if K.rng.random() < 0.1:
        nb, H = nb[:1], H[:1]
    sym = Sy.none(dim) if K.bool("trivial") else groups(K, dim)
    inv = sym.inversion
    red, exp = K.bool("cos_reduced"), K.bool("exp")
    H = H.astype(complex)
    if inv:
        H = (H + herm(H)) / 2
    m = bs.BandStructureModel.init_tight_binding(sym, nb, n, cos_reduced=red, exp=exp)
    H0 = H.copy()
    m.set_params_complex(H)
    K.same("given coefficients unchanged", H, H0)
    p = m.params.copy()
    k = r.normal(size=(4, dim))
    f = m.f(k)
    want = orbit_book(sym, exp, nb, H, k)
    sc = 1 + np.abs(H).sum() * len(sym.S)
    K.eq("Hamiltonian is the Fourier sum of the coefficients", f, want, atol=1e-9 * sc)
    got = m.params_complex()
    K.eq("coefficients are read back", got, H, atol=1e-9 * sc)
    K.same("reading does not change the parameters", m.params, p)
    m.set_params_complex(got)
    K.eq("writing back keeps the parameters", m.params, p, atol=1e-9 * sc)
    K.eq("writing back keeps the bands", m.bands(k), np.linalg.eigvalsh(want), atol=1e-8 * sc)
    K.raises("number of coefficients must match", ValueError, m.set_params_complex, np.concatenate([H, H[:1]]))
    # other parametrisation
    o = bs.BandStructureModel.init_tight_binding(sym, nb, n, cos_reduced=not red, exp=exp if K.rng.random() < 0.5 else not exp)
    o.set_params_complex(got)
    K.eq("other parametrisation has the same bands", o.bands(k), np.linalg.eigvalsh(want), atol=1e-8 * sc)
    K.eq("and the same coefficients", o.params_complex(), H, atol=1e-9 * sc)
    # parameters as they come from fitting or normalising (Hermitian cosine/sine matrices)
    P = r.normal(size=m.params.shape) + 1j * r.normal(size=m.params.shape)
    P[0] = P[0] + herm(P[0])
    if not exp:
        P = (P + herm(P)) / 2
    m.params = P
    f = m.f(k)
    C = m.params_complex()
    sc = 1 + np.abs(P).sum() * len(sym.S)
    K.eq("coefficients of any parameters describe the Hamiltonian", f, orbit_book(sym, exp, nb, C, k), atol=1e-9 * sc)
    e = m.bands(k)
    m.set_params_complex(C)
    K.eq("writing back any parameters keeps the bands", m.bands(k), e, atol=1e-8 * sc)
    if len(sym.S) == 1 and not inv:
        a = tb.AsymTightBindingModel(tb.HermitianFourierSeries(nb, H))
        a.set_from_complex(C)
        K.eq("set_from_complex stores the coefficients", a.params_complex(), C, atol=0)
        K.eq("the other class has the same bands", a.bands(k), e, atol=1e-8 * sc)
        b = bs.BandStructureModel.init_tight_binding(sym, nb, n, cos_reduced=K.rng.random() < 0.5, exp=K.rng.random() < 0.5)
        b.set_params_complex(a.params_complex())
        K.eq("and back", b.bands(k), e, atol=1e-8 * sc)
