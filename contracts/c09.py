"""C09 Fourier series"""
from pyvc.kit import contract

A = "tight_binding_asym:HermitianFourierSeries."
B = "bandstructure:BandStructureModel."


def kpts(K, dim):
    import numpy as np
    r = K.nrng
    sh = K.rng.choice([(), (1,), (3,), (5,), (2, 3)])
    k = r.normal(size=sh + (dim,)) * r.choice([0.3, 1.0, 20.0])
    if r.random() < 0.3:
        k = np.round(k * 2) / 2
    if r.random() < 0.1:
        k = k * 0
    return k


def herm(m):
    import numpy as np
    return np.conj(np.swapaxes(m, -1, -2))


def book(nb, H, k):
    """value, gradient and Hessian of H_0 + sum_i (H_i e^{2 pi i k r_i} + h.c.) at every k"""
    import numpy as np
    k = np.asarray(k, dtype=float)
    ph = 2j * np.pi * nb[1:]
    e = np.exp(2j * np.pi * (k @ nb[1:].T))
    f = np.einsum("...r,rij->...ij", e, H[1:])
    d = np.einsum("...r,rx,rij->...xij", e, ph, H[1:])
    dd = np.einsum("...r,rx,ry,rij->...xyij", e, ph, ph, H[1:])
    return f + herm(f) + H[0], d + herm(d), dd + herm(dd)


def data(K, real=False):
    from contracts.models import series
    dim = K.rng.choice([1, 2, 3, 3])
    n = K.rng.choice([1, 2, 3, 5])
    nb, H = series(K, dim, n, K.rng.randint(1, 5), cut=K.rng.choice([1.0, 1.5, 2.3]))
    if K.rng.random() < 0.1:
        nb, H = nb[:1], H[:1]
    if K.rng.random() < 0.3:
        T = K.nrng.normal(size=(dim, dim))
        nb = nb @ T
    return nb, H


@contract("C09", covers=[A + "f", A + "df", A + "ddf", A + "f_i", A + "df_i", A + "ddf_i", A + "__init__", A + "copy"], n=150, budget=10)
def series_and_derivatives(K):
    import numpy as np
    m = K.mod("tight_binding_asym")
    nb, H = data(K)
    nb0, H0 = nb.copy(), H.copy()
    s = m.HermitianFourierSeries(nb.tolist() if K.rng.random() < 0.3 else nb, H)
    k = kpts(K, nb.shape[1])
    kin = k.tolist() if K.rng.random() < 0.3 else k.copy()
    k0 = k.copy()
    f, d, dd = s.f(kin), s.df(kin), s.ddf(kin)
    F, D, DD = book(nb, H, k)
    c = 1e-9 * (1 + np.abs(H).sum()) * (1 + np.abs(k).max())
    q = 1 + 7 * np.abs(nb).max()
    K.ensure("shapes", f.shape == F.shape and d.shape == D.shape and dd.shape == DD.shape, lambda: (f.shape, d.shape, dd.shape))
    K.eq("Fourier sum", f, F, atol=c)
    K.eq("first derivative", d, D, atol=c * q)
    K.eq("second derivative", dd, DD, atol=c * q * q)
    K.eq("Hermitian", f, herm(f), atol=c)
    K.eq("derivative Hermitian", d, herm(d), atol=c * q)
    K.eq("second derivative Hermitian", dd, herm(dd), atol=c * q * q)
    K.eq("mixed derivatives symmetric", dd, np.swapaxes(dd, -3, -4), atol=c * q * q)
    K.same("k unchanged", np.asarray(kin), k0)
    K.same("coefficients unchanged", s.H_r, H0)
    K.same("neighbors unchanged", s.neighbors, nb0)
    if k.ndim == 2:
        for i in range(len(k)):
            K.eq("one by one", f[i], s.f(k[i]), atol=c)
            K.eq("one by one in a list", f[i], s.f([k[i]])[0], atol=c)
            K.eq("one by one: derivative", d[i], s.df(k[i]), atol=c * q)
            K.eq("one by one: second derivative", dd[i], s.ddf(k[i]), atol=c * q * q)
    for i in range(len(nb)):
        e = np.exp(2j * np.pi * (k @ nb[i]))
        K.eq("exponential", s.f_i(k, i), e, atol=c)
        K.eq("gradient of the exponential", s.df_i(k, i), 2j * np.pi * e[..., None] * nb[i], atol=c * q)
        K.eq("Hessian of the exponential", s.ddf_i(k, i), -4 * np.pi ** 2 * e[..., None, None] * nb[i][:, None] * nb[i], atol=c * q * q)
    t = s.copy()
    t.H_r += 1
    t.neighbors += 1
    K.same("copy is independent", s.H_r, H0)
    K.same("copy is independent (neighbors)", s.neighbors, nb0)


@contract("C09", covers=[A + "__add__", A + "direct_sum", A + "unit_matrix", "linalg:_direct_sum", "linalg:direct_sum"], n=100, budget=6)
def block_sum(K):
    import numpy as np
    m = K.mod("tight_binding_asym")
    la = K.mod("linalg")
    nb, H = data(K)
    n2 = K.rng.choice([1, 2, 4])
    r = K.nrng
    H2 = r.normal(size=(len(nb), n2, n2)) + (1j * r.normal(size=(len(nb), n2, n2)) if r.random() < 0.6 else 0)
    H2[0] = (H2[0] + herm(H2[0])) / 2
    a, b = m.HermitianFourierSeries(nb, H), m.HermitianFourierSeries(nb, H2)
    H0, H20 = H.copy(), H2.copy()
    k = kpts(K, nb.shape[1])
    n = H.shape[1]
    F1, F2 = book(nb, H, k), book(nb, H2, k)
    for s in (a + b, a.direct_sum(b)):
        for g, x, y in zip((s.f(k), s.df(k), s.ddf(k)), F1, F2):
            c = 1e-9 * (1 + np.abs(x).max() + np.abs(y).max()) * (1 + np.abs(k).max())
            K.eq("first block", g[..., :n, :n], x, atol=c)
            K.eq("second block", g[..., n:, n:], y, atol=c)
            K.ensure("no coupling", np.all(g[..., :n, n:] == 0) and np.all(g[..., n:, :n] == 0))
    K.same("first operand unchanged", a.H_r, H0)
    K.same("second operand unchanged", b.H_r, H20)
    u = m.HermitianFourierSeries.unit_matrix(nb, n)
    K.eq("unit matrix", u.f(k), np.broadcast_to(np.eye(n), k.shape[:-1] + (n, n)), atol=1e-12)
    K.eq("unit matrix: derivative", u.df(k), 0, atol=1e-12)
    X, Y = r.normal(size=(2, 3)), r.normal(size=(1, 2)) * (1j if r.random() < 0.5 else 1)
    w = la.direct_sum(X, Y)
    K.eq("direct sum of matrices", w, np.block([[X, np.zeros((2, 2))], [np.zeros((1, 3)), Y]]), atol=0)
    w = la.direct_sum(X, Y, X)
    K.ensure("direct sum of three", w.shape == (5, 8) and np.array_equal(w[3:, 5:], X) and np.array_equal(w[2:3, 3:5], Y) and np.count_nonzero(w) == 14)


def groups(K, d):
    S = K.mod("symmetry").Symmetry
    o = [lambda: S.none(d), lambda: S.none(d), lambda: S.inv(d), lambda: S.inv(d)]
    if d == 3:
        o += [lambda: S.cubic(True), lambda: S.cyclic(4, False), lambda: S.mirror3(False), lambda: S.cyclic(3, True)]
    if d == 2:
        o += [lambda: S.square(), lambda: S.o2(3)]
    return K.rng.choice(o)()


@contract("C09", covers=[B + "f", B + "df", B + "ddf", B + "init_tight_binding", "bandstructure:_get_tight_binding_coeff_funcs"], n=150, budget=12)
def reduced_series(K):
    """sum over the stored operations of cosine/sine or exponential terms, optionally minus their value at k=0"""
    import numpy as np
    bs = K.mod("bandstructure")
    nb, _ = data(K)
    d = nb.shape[1]
    sym = groups(K, d)
    red, exp = K.bool("cos_reduced"), K.bool("exp")
    n = K.rng.choice([1, 2, 3])
    m = bs.BandStructureModel.init_tight_binding(sym, nb, n, cos_reduced=red, exp=exp)
    N = len(nb)
    terms = N if exp or sym.inversion else 2 * N - 1
    K.ensure("number of terms", m.params.shape == (terms, n, n), lambda: m.params.shape)
    r = K.nrng
    P = r.normal(size=(terms, n, n)) + 1j * r.normal(size=(terms, n, n))
    P[0] = (P[0] + herm(P[0])) / 2
    m.params = P.copy()
    k = kpts(K, d)
    P0, nb0 = P.copy(), nb.copy()
    kin = k.tolist() if K.rng.random() < 0.3 else k.copy()
    f, df, ddf = m.f(kin), m.df(kin), m.ddf(kin)
    sh = k.shape[:-1]
    F = np.zeros(sh + (n, n), dtype=complex)
    D = np.zeros(sh + (d, n, n), dtype=complex)
    DD = np.zeros(sh + (d, d, n, n), dtype=complex)
    for i in range(1, terms):
        v = nb[i] if i < N else nb[i - N + 1]
        for s in sym.S:
            q = 2 * np.pi * (s @ v)
            x = k @ q
            if exp:
                w, w1, w2 = np.exp(1j * x) - (1 if red else 0), 1j * np.exp(1j * x), -np.exp(1j * x)
            elif i < N:
                w, w1, w2 = np.cos(x) - (1 if red else 0), -np.sin(x), -np.cos(x)
            else:
                w, w1, w2 = np.sin(x), np.cos(x), -np.sin(x)
            F += w[..., None, None] * P[i]
            D += w1[..., None, None, None] * q[:, None, None] * P[i]
            DD += w2[..., None, None, None, None] * (q[:, None] * q)[..., None, None] * P[i]
    F, D, DD = F + herm(F) + P[0], D + herm(D), DD + herm(DD)
    c = 1e-9 * (1 + np.abs(P).sum() * len(sym.S)) * (1 + np.abs(k).max())
    q = 1 + 7 * np.abs(nb).max() * 2
    K.eq("value", f, F, atol=c)
    K.eq("first derivative", df, D, atol=c * q)
    K.eq("second derivative", ddf, DD, atol=c * q * q)
    K.eq("Hermitian", f, herm(f), atol=c)
    K.eq("mixed derivatives symmetric", ddf, np.swapaxes(ddf, -3, -4), atol=c * q * q)
    K.same("parameters unchanged", m.params, P0)
    K.same("neighbors unchanged", m.neighbors, nb0)
    if red:
        K.eq("reduced form: on-site matrix is the value at k=0", m.f(np.zeros(d)), P[0], atol=c)
    if k.ndim == 2:
        for i in range(len(k)):
            K.eq("one by one", f[i], m.f(k[i]), atol=c)
            K.eq("one by one: derivative", df[i], m.df(k[i]), atol=c * q)
            K.eq("one by one: second derivative", ddf[i], m.ddf(k[i]), atol=c * q * q)


T = "tight_binding:TightBindingModel."


def sym_model(K, d=None, n=None):
    """TightBindingModel with random Hermitian parameters -> (model, nb, params, value/derivative reference)"""
    import numpy as np
    t = K.mod("tight_binding")
    U = K.mod("unitary_representations").UnitaryRepresentation
    S = K.mod("symmetry").Symmetry
    nb, _ = data(K)
    if d is not None and nb.shape[1] != d:
        from contracts.models import series
        nb, _ = series(K, d, 1, K.rng.randint(1, 5))
    d = nb.shape[1]
    inv = K.bool("inversion")
    n = n or K.rng.choice([1, 2, 3, 4])
    inv = inv and d % 2 == 1         # in even dimensions -1 is an ordinary operation
    u = U(S.inv(d) if inv else S.none(d), n)
    if inv:
        u.inv_split = K.rng.randint(0, n)
    N = len(nb)
    terms = N if inv else 2 * N - 1
    P = np.array([np.asarray(x) for x in (K.nrng.normal(size=(terms, n, n)) + 1j * K.nrng.normal(size=(terms, n, n)))])
    P = (P + herm(P)) / 2
    m = t.TightBindingModel(u, nb, P)
    Q = P.copy()
    b = np.zeros((n, n), dtype=bool)
    if inv:
        s = u.inv_split
        b[:s, s:] = b[s:, :s] = True
        Q[0][b] = 0

    def ref(k):
        k = np.asarray(k, dtype=float)
        sh = k.shape[:-1]
        F = np.zeros(sh + (n, n), dtype=complex) + Q[0]
        D = np.zeros(sh + (d, n, n), dtype=complex)
        DD = np.zeros(sh + (d, d, n, n), dtype=complex)
        for i in range(1, terms):
            v = nb[i] if i < N else nb[i - N + 1]
            q = 2 * np.pi * v
            x = k @ q
            for odd in (False, True):
                A = np.where(b, Q[i], 0) if odd else np.where(b, 0, Q[i])
                if not inv:
                    if odd != (i >= N):
                        continue
                    A = Q[i]
                w = (np.sin(x), np.cos(x), -np.sin(x)) if odd else (np.cos(x) - 1, -np.sin(x), -np.cos(x))
                F += w[0][..., None, None] * A
                D += w[1][..., None, None, None] * q[:, None, None] * A
                DD += w[2][..., None, None, None, None] * (q[:, None] * q)[..., None, None] * A
        return F, D, DD
    return m, nb, P, Q, ref


@contract("C09", covers=[T + x for x in ("__init__", "f_i", "df_i", "ddf_i", "f", "df", "ddf")], n=100, budget=8)
def symmetric_series(K):
    """TightBindingModel: value at k=0 plus cosine-1 and sine terms (with inversion: cosine in the blocks of equal parity, sine in between)"""
    import numpy as np
    m, nb, P, Q, ref = sym_model(K)
    P0, nb0 = P.copy(), nb.copy()
    d = nb.shape[1]
    k = K.nrng.normal(size=(K.rng.randint(1, 5), d)) * K.rng.choice([0.3, 1.0, 10.0])
    if K.rng.random() < 0.3:
        k = np.round(k)
        k[0] = 0
    kin = k.astype(int) if np.all(k == np.round(k)) else k.copy()
    f, df, ddf = m.f(kin), m.df(kin), m.ddf(kin)
    F, D, DD = ref(k)
    c = 1e-9 * (1 + np.abs(P).sum()) * (1 + np.abs(k).max())
    q = 1 + 7 * np.abs(nb).max()
    K.eq("value", f, F, atol=c)
    K.eq("first derivative", df, D, atol=c * q)
    K.eq("second derivative", ddf, DD, atol=c * q * q)
    K.eq("Hermitian", f, herm(f), atol=c)
    K.eq("value at k=0", m.f(np.zeros((1, d)))[0], Q[0], atol=1e-12)
    for i in range(len(k)):
        K.eq("one by one", f[i:i + 1], m.f(kin[i:i + 1]), atol=c)
        K.eq("one by one: derivative", df[i], m.df(kin[i]), atol=c * q)
        K.eq("one by one: second derivative", ddf[i], m.ddf(kin[i]), atol=c * q * q)
    K.same("parameters of the caller unchanged", P, P0)
    K.same("stored parameters unchanged", m.params, Q)
    K.same("neighbors unchanged", nb, nb0)
