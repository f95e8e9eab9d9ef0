"""C11 for every number of bands, neighbours, operations and k-points"""
from pyvc.kit import contract
from contracts.c09_proof import model_of, points, group
from contracts.c10_proof import asym, at

A = "tight_binding_asym:AsymTightBindingModel."
B = "bandstructure:BandStructureModel."


def order(K, n):
    """any list of orbital indices (a permutation when the code runs)"""
    return K.array("order", (n,), "i", lo=0, hi=n - 1, gen=lambda K: K.nrng.permutation(n))


@contract("C11", covers=[A + "permute"], proof=True, pi=True, n=40)
def permute_asym(K):
    m, nb, nbs, d, n = asym(K)
    k = points(K, d)
    f, s = m.H.f(k), m.S.f(k)
    p = order(K, n)
    m.permute(p)
    q, (a, b) = K.index("q", k.shape[0]), at(K, n)
    K.eq("Hamiltonian in the permuted basis", m.H.f(k)[q, a, b], f[q, p[a], p[b]])
    K.eq("overlap in the permuted basis", m.S.f(k)[q, a, b], s[q, p[a], p[b]])


@contract("C11", covers=[B + "permute"], proof=True, pi=True, n=40)
def permute_parametrised(K):
    m, d, n = model_of(K)
    k = points(K, d)
    f = m.f(k)
    p = order(K, n)
    m.permute(p)
    q, (a, b) = K.index("q", k.shape[0]), at(K, n)
    K.eq("Hamiltonian in the permuted basis", m.f(k)[q, a, b], f[q, p[a], p[b]])


@contract("C11", covers=[A + "transform"], proof=True, pi=True, n=40)
def transform_asym(K):
    m, nb, nbs, d, n = asym(K)
    k = points(K, d)
    M = K.array("T", (d, d))
    f, s = m.H.f(k @ M), m.S.f(k @ M)
    m.transform(M)
    q, (a, b) = K.index("q", k.shape[0]), at(K, n)
    K.eq("Hamiltonian at the transformed k-point", m.H.f(k)[q, a, b], f[q, a, b])
    K.eq("overlap at the transformed k-point", m.S.f(k)[q, a, b], s[q, a, b])


@contract("C11", covers=[B + "transform"], proof=True, pi=True, n=40)
def transform_parametrised(K):
    """(operations act on the neighbours in the coordinates of the model, so only the trivial group is moved along)"""
    np = K.np
    d = K.choice("d", [1, 2, 3])
    cls = K.mod("symmetry").Symmetry
    sym = cls.__new__(cls)
    sym.S, sym.inversion = np.eye(d)[None], False
    nb = np.concatenate([np.zeros((1, d)), K.array("r", (K.int("N", 0, hic=3), d))])
    n = K.int("n", 1, hic=3)
    m = K.mod("bandstructure").BandStructureModel.init_tight_binding(sym, nb, n, cos_reduced=K.bool("reduced"), exp=K.bool("exp"))
    T = m.params.shape[0] - 1
    a = K.array("re0", (n, n)) + 1j * K.array("im0", (n, n))
    m.params = np.concatenate([(a + np.conj(a.T))[None], K.array("re", (T, n, n)) + 1j * K.array("im", (T, n, n))])
    k = points(K, d)
    M = K.array("T", (d, d))
    f = m.f(k @ M)
    m.transform(M)
    q, (a, b) = K.index("q", k.shape[0]), at(K, n)
    K.eq("Hamiltonian at the transformed k-point", m.f(k)[q, a, b], f[q, a, b])


@contract("C11", covers=[A + "params_complex", A + "set_from_complex"], proof=True, pi=True, n=20)
def coefficients_asym(K):
    np = K.np
    m, nb, nbs, d, n = asym(K, overlap=False)
    i, (a, b) = K.index("i", nb.shape[0]), at(K, n)
    C = m.params_complex()
    K.eq("coefficients", C[i, a, b], m.H.H_r[i, a, b])
    X = K.array("x", (nb.shape[0], n, n)) + 1j * K.array("y", (nb.shape[0], n, n))
    x = X[i, a, b]
    m.set_from_complex(X)
    K.eq("written coefficients", m.params_complex()[i, a, b], x)
    m.H.H_r += 1
    K.eq("argument not aliased", X[i, a, b], x)


def fourier(K, m, C, k, a, b):
    """H_0 + sum_i sum_s (e^{2 pi i k S_s r_i} C_i + h.c.), the cosine alone when the inversion completes the star"""
    np = K.np
    nb, S = m.neighbors, m.sym.S

    def w(i):
        x = lambda s: 2 * np.pi * np.sum(k * (S[s] @ nb[i + 1]))
        return K.sum(S.shape[0], lambda s: np.cos(x(s)) if m.sym.inversion and not m.exp else np.exp(1j * x(s)))
    return C[0, a, b] + K.sum(nb.shape[0] - 1, lambda i: w(i) * C[i + 1, a, b] + np.conj(w(i) * C[i + 1, b, a]))


@contract("C11", covers=[B + "params_complex"], proof=True, pi=True, n=40)
def read_coefficients(K):
    """the coefficients which are read describe the Hamiltonian, for the Hermitian parameters of every real form"""
    np = K.np
    m, d, n = model_of(K)
    if not m.exp:
        m.params = (m.params + np.conj(np.swapaxes(m.params, -1, -2))) / 2
    k = K.array("k", (d,))
    a, b = at(K, n)
    f = m.f(k)
    C = m.params_complex()
    K.eq("Hamiltonian is the Fourier sum of the coefficients", f[a, b], fourier(K, m, C, k, a, b))
    i = K.index("i", m.neighbors.shape[0])
    x = C[i, a, b]
    C += 1
    K.eq("parameters not aliased", m.f(k)[a, b], f[a, b])
    K.eq("reading again", m.params_complex()[i, a, b], x)


@contract("C11", covers=[B + "set_params_complex", B + "params_complex"], proof=True, pi=True, n=40)
def write_coefficients(K):
    np = K.np
    m, d, n = model_of(K)
    nb = m.neighbors
    N = nb.shape[0] - 1
    x = K.array("h0", (n, n)) + 1j * K.array("g0", (n, n))
    X = K.array("h", (N, n, n)) + 1j * K.array("g", (N, n, n))
    if m.sym.inversion and not m.exp:
        X = X + np.conj(np.swapaxes(X, -1, -2))
    X = np.concatenate([(x + np.conj(x.T))[None], X])
    i, (a, b) = K.index("i", N + 1), at(K, n)
    k = K.array("k", (d,))
    x0 = X[i, a, b]
    m.set_params_complex(X)
    K.eq("argument unchanged", X[i, a, b], x0)
    f = m.f(k)
    K.eq("Hamiltonian is the Fourier sum of the coefficients", f[a, b], fourier(K, m, X, k, a, b))
    K.eq("coefficients are read back", m.params_complex()[i, a, b], x0)
    m.params += 1
    K.eq("argument not aliased", X[i, a, b], x0)
