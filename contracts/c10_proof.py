"""C10 for every number of bands, neighbours and k-points.

The eigenvalue problem itself is the contract of LAPACK (values and vectors are functions of the matrices);
proved is which matrices it is given, what is made of its result and how the model algebra changes the matrices."""
from pyvc.kit import contract
from contracts.c09_proof import symbolic, model_of, points

A = "tight_binding_asym:AsymTightBindingModel."
B = "bandstructure:BandStructureModel."
L = "linalg:"


def asym(K, name="", nb=None, n=None, overlap=None, nbs=None):
    """(model, d, n): arbitrary Hermitian series H and overlap series S with their own numbers of neighbours"""
    np = K.np
    m = K.mod("tight_binding_asym")
    nb, H, d, n, N = symbolic(K, name, nb, n)
    if overlap is None:
        overlap = K.bool("overlap")
    if not overlap:
        return m.AsymTightBindingModel(m.HermitianFourierSeries(nb, H)), nb, nbs, d, n
    if nbs is None:
        nbs = np.concatenate([np.zeros((1, d)), K.array("rs", (K.int("M", 0, hic=3), d))])
    M = nbs.shape[0] - 1
    a = K.array("s0" + name, (n, n), gen=small(n)) + 1j * K.array("t0" + name, (n, n), gen=small(n))
    S0 = np.eye(n) + a + np.conj(a.T)
    S = K.array("s" + name, (M, n, n), gen=small(n, M)) + 1j * K.array("t" + name, (M, n, n), gen=small(n, M))
    return m.AsymTightBindingModel(m.HermitianFourierSeries(nb, H), m.HermitianFourierSeries(nbs, np.concatenate([S0[None], S]))), nb, nbs, d, n


def small(n, M=None):
    def g(K):
        sh = (n, n) if M is None else (M, n, n)
        return K.nrng.normal(size=sh) * 0.1 / n / (1 if M is None else 4 * max(M, 1))
    return g


def at(K, n):
    return K.index("a", n), K.index("b", n)


@contract("C10", covers=[A + "__mul__", A + "copy"], proof=True, pi=True, n=30)
def scale_asym(K):
    m, nb, nbs, d, n = asym(K)
    k = points(K, d)
    f, s = m.H.f(k), m.S.f(k)
    x = K.real("factor", 0.1)
    p = m * x
    q, (a, b) = K.index("q", k.shape[0]), at(K, n)
    K.eq("Hamiltonian is scaled", p.H.f(k)[q, a, b], f[q, a, b] * x)
    K.eq("overlap stays", p.S.f(k)[q, a, b], s[q, a, b])
    p.H.H_r += 1
    p.S.H_r += 1
    K.eq("operand unchanged", m.H.f(k)[q, a, b], f[q, a, b])
    K.eq("overlap of the operand unchanged", m.S.f(k)[q, a, b], s[q, a, b])
    c = m.copy()
    K.eq("copy", c.H.f(k)[q, a, b], f[q, a, b])
    K.eq("copy: overlap", c.S.f(k)[q, a, b], s[q, a, b])
    c.H.H_r += 1
    c.S.H_r += 1
    c.H.neighbors *= 2
    c.S.neighbors *= 2
    K.eq("copy is independent", m.H.f(k)[q, a, b], f[q, a, b])
    K.eq("copy is independent: overlap", m.S.f(k)[q, a, b], s[q, a, b])


@contract("C10", covers=[A + "__add__", "tight_binding_asym:HermitianFourierSeries.__add__"], proof=True, pi=True, n=30)
def merge_asym(K):
    np = K.np
    ov = K.bool("overlap")
    m1, nb, nbs, d, n1 = asym(K, overlap=ov)
    m2, _, _, _, n2 = asym(K, "2", nb=nb, n=K.int("n2", 1, hic=3), overlap=ov, nbs=nbs)
    k = points(K, d)
    q = K.index("q", k.shape[0])
    a, b, u, v = K.index("a", n1), K.index("b", n1), K.index("u", n2), K.index("v", n2)
    x, y = (m1.H.f(k), m1.S.f(k)), (m2.H.f(k), m2.S.f(k))
    s = m1 + m2
    for i, name in enumerate(("Hamiltonian", "overlap")):
        f = (s.H if i == 0 else s.S).f(k)
        K.ensure(name + " size", K.both(f.shape[1] == n1 + n2, f.shape[2] == n1 + n2))
        K.eq(name + ": first block", f[q, a, b], x[i][q, a, b])
        K.eq(name + ": second block", f[q, n1 + u, n1 + v], y[i][q, u, v])
        K.eq(name + ": no coupling", f[q, a, n1 + v], 0)
        K.eq(name + ": no coupling", f[q, n1 + u, b], 0)
    K.eq("first operand unchanged", m1.H.f(k)[q, a, b], x[0][q, a, b])
    K.eq("second operand unchanged", m2.H.f(k)[q, u, v], y[0][q, u, v])


@contract("C10", covers=[B + "__add__", B + "__mul__", B + "copy"], proof=True, pi=True, n=40)
def algebra_parametrised(K):
    np = K.np
    m, d, n = model_of(K)
    k = points(K, d)
    q, (a, b) = K.index("q", k.shape[0]), at(K, n)
    f = m.f(k)
    x = K.real("shift")
    one = np.where(a == b, 1.0, 0.0)
    s = m + x
    K.eq("shift adds a multiple of the identity", s.f(k)[q, a, b], f[q, a, b] + x * one)
    K.eq("operand unchanged by the shift", m.f(k)[q, a, b], f[q, a, b])
    p = m * x
    K.eq("scaling", p.f(k)[q, a, b], f[q, a, b] * x)
    K.eq("operand unchanged by the scaling", m.f(k)[q, a, b], f[q, a, b])
    c = m.copy()
    K.eq("copy", c.f(k)[q, a, b], f[q, a, b])
    for o in (s, p, c):
        o.params += 1
    K.eq("results do not alias the operand", m.f(k)[q, a, b], f[q, a, b])


@contract("C10", covers=[B + "__add__"], proof=True, pi=True, n=40)
def merge_parametrised(K):
    np = K.np
    m1, d, n1 = model_of(K)
    m2, d, n2 = model_of(K, "2", like=m1)
    k = points(K, d)
    q = K.index("q", k.shape[0])
    a, b, u, v = K.index("a", n1), K.index("b", n1), K.index("u", n2), K.index("v", n2)
    x, y = m1.f(k), m2.f(k)
    f = (m1 + m2).f(k)
    K.ensure("size", K.both(f.shape[1] == n1 + n2, f.shape[2] == n1 + n2))
    K.eq("first block", f[q, a, b], x[q, a, b])
    K.eq("second block", f[q, n1 + u, n1 + v], y[q, u, v])
    K.eq("no coupling", f[q, a, n1 + v], 0)
    K.eq("no coupling", f[q, n1 + u, b], 0)
    K.eq("first operand unchanged", m1.f(k)[q, a, b], x[q, a, b])
    K.eq("second operand unchanged", m2.f(k)[q, u, v], y[q, u, v])


STUB = {}


def find_stub(orig):
    """contract of try_neighbor_function (C07): the index of r, or of -r, or nothing; the vectors which are
    looked up were built with the known answer"""
    def try_neighbor_function(neighbors, err=1e-4):
        def find(r):
            STUB["calls"] += 1
            return STUB["answers"][STUB["calls"] - 1]
        return find
    return try_neighbor_function


def add_stub(orig):
    """contract of add_neighbors for one vector which is not there yet (C13)"""
    def add_neighbors(self, neighbors):
        np, (r,) = STUB["np"], neighbors
        n = self.H_r.shape[1]
        self.neighbors = np.concatenate([self.neighbors, r[None]])
        self.H_r = np.concatenate([self.H_r, np.zeros((1, n, n))])
    return add_neighbors


def shift(K, extra):
    """extra: number of neighbours of the overlap besides 0"""
    np = K.np
    STUB.update(np=np, calls=0, answers=[(0, False)])
    nb, H, d, n, N = symbolic(K)
    t = K.mod("tight_binding_asym")
    if extra is None:
        m = t.AsymTightBindingModel(t.HermitianFourierSeries(nb, H))
    else:
        rs = [np.zeros(d)]
        for j in range(extra):
            how = K.choice("how%d" % j, ["there", "mirrored", "missing"])
            if how == "missing":
                rs.append(K.array("rs%d" % j, (d,)))
                STUB["answers"].append((None, None))
            else:
                i = K.index("i%d" % j, N) + 1
                rs.append(nb[i] if how == "there" else -nb[i])
                STUB["answers"].append((i, how == "mirrored"))
            K.assume(np.sum(rs[-1] ** 2) > 1e-3)
        m, _, _, d, n = asym(K, nb=nb, n=n, overlap=True, nbs=np.array(rs))
    k = points(K, d)
    q, (a, b) = K.index("q", k.shape[0]), at(K, n)
    f, s = m.H.f(k), m.S.f(k)
    x = K.real("shift")
    o = m + x
    K.eq("shift adds a multiple of the overlap", o.H.f(k)[q, a, b], f[q, a, b] + x * s[q, a, b])
    K.eq("overlap stays", o.S.f(k)[q, a, b], s[q, a, b])
    o.H.H_r += 1
    o.S.H_r += 1
    o.H.neighbors *= 2
    K.eq("operand unchanged", m.H.f(k)[q, a, b], f[q, a, b])
    K.eq("overlap of the operand unchanged", m.S.f(k)[q, a, b], s[q, a, b])


OV = {"symmetry:try_neighbor_function": find_stub, "tight_binding_asym:HermitianFourierSeries.add_neighbors": add_stub}


@contract("C10", covers=[A + "__add__"], proof=True, pi=True, n=30, overrides=OV)
def shift_orthogonal(K):
    shift(K, None)


@contract("C10", covers=[A + "__add__"], proof=True, pi=True, n=30, overrides=OV)
def shift_overlap(K):
    shift(K, 1)


@contract("C10", covers=[A + "__add__"], proof=True, pi=True, n=30, overrides=OV)
def shift_overlap_two(K):
    shift(K, 2)


def expect(K, M, ev, i, N):
    """real part of ev_i^+ M ev_i"""
    np = K.np
    return np.real(K.sum(N, lambda a: K.sum(N, lambda b: np.conj(ev[a, i]) * M[a, b] * ev[b, i])))


@contract("C10", covers=[B + "bands", B + "bands_grad", B + "__call__", L + "eigh_grad"], proof=True, pi=True, n=40)
def gradients_parametrised(K):
    """the gradients are the expectation values of dH/dk in the eigenvectors of H (Hellmann-Feynman); dH/dk is C09"""
    np = K.np
    m, d, n = model_of(K)
    k = points(K, d)
    q, i = K.index("q", k.shape[0]), K.index("i", n)
    la, ev = np.linalg.eigh(m.f(k))
    D = m.df(k)
    e, g = m.bands_grad(k)
    K.ensure("shapes", K.both(K.both(e.shape[0] == k.shape[0], e.shape[1] == n), K.both(g.shape[0] == k.shape[0], K.both(g.shape[1] == d, g.shape[2] == n))))
    K.eq("bands are the eigenvalues", m.bands(k)[q, i], la[q, i])
    K.eq("call gives the bands", m(k)[q, i], la[q, i])
    K.eq("bands next to the gradients", e[q, i], la[q, i])
    K.eq("bands of one point", m.bands(k[q][None])[0, i], la[q, i])
    for c in range(d):
        K.eq("gradient", g[q, c, i], expect(K, D[q, c], ev[q], i, n), atol=1e-6)


@contract("C10", covers=[A + "bands", A + "bands_grad", A + "__call__", L + "geigh", L + "geigvalsh", L + "geigh_grad", L + "eigh_grad"], proof=True, pi=True, n=40)
def gradients_asym(K):
    """generalised problem: the gradients are the expectation values of dH/dk - E dS/dk in the eigenvectors"""
    np = K.np
    m, nb, nbs, d, n = asym(K)
    k = points(K, d)
    q, i = K.index("q", k.shape[0]), K.index("i", n)
    H, S = m.H.f(k), m.S.f(k)
    D, O = m.H.df(k), m.S.df(k)
    # (an overlap within 1e-8 of the unit matrix everywhere is deliberately treated as orthogonal)
    K.assume(K.either(np.linalg.norm(S - np.eye(n)) >= 1e-8, np.linalg.norm(O) >= 1e-8))
    la, ev = K.mod("linalg").geigh(H, S)
    e, g = m.bands_grad(k)
    K.ensure("shapes", K.both(K.both(e.shape[0] == k.shape[0], e.shape[1] == n), K.both(g.shape[0] == k.shape[0], K.both(g.shape[1] == d, g.shape[2] == n))))
    K.eq("bands next to the gradients", e[q, i], la[q, i], atol=1e-9)
    for c in range(d):
        w = expect(K, D[q, c], ev[q], i, n) - la[q, i] * expect(K, O[q, c], ev[q], i, n)
        K.eq("gradient", g[q, c, i], w, atol=1e-5)
