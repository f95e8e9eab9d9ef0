"""C09 for every number of neighbours, bands and k-points and all their values"""
from pyvc.kit import contract

A = "tight_binding_asym:HermitianFourierSeries."


def symbolic(K, name="", nb=None, n=None):
    """(neighbors, H_r) with N-1 >= 0 arbitrary neighbours besides 0, n bands and a Hermitian on-site matrix"""
    np = K.np
    d = K.choice("d", [1, 2, 3]) if nb is None else nb.shape[1]
    n = K.int("n" + name, 1, hic=3) if n is None else n
    N = K.int("N", 0, hic=4) if nb is None else nb.shape[0] - 1
    if nb is None:
        nb = np.concatenate([np.zeros((1, d)), K.array("r", (N, d))])
    a = K.array("re0" + name, (n, n)) + 1j * K.array("im0" + name, (n, n))
    H0 = a + np.conj(a.T)
    H = K.array("re" + name, (N, n, n)) + 1j * K.array("im" + name, (N, n, n))
    H = np.concatenate([H0[None], H])
    return nb, H, d, n, N


@contract("C09", covers=[A + "f", A + "f_i", A + "__init__"], proof=True, pi=True, n=40)
def value(K):
    np = K.np
    nb, H, d, n, N = symbolic(K)
    s = K.mod("tight_binding_asym").HermitianFourierSeries(nb, H)
    m = K.int("m", 1, hic=3)
    k = K.array("k", (m, d))
    f = s.f(k)
    q, a, b = K.index("q", m), K.index("a", n), K.index("b", n)
    x = lambda i: np.exp(2j * np.pi * np.sum(k[q] * nb[i + 1]))
    K.eq("Fourier sum", f[q, a, b], H[0, a, b] + K.sum(N, lambda i: x(i) * H[i + 1, a, b] + np.conj(x(i) * H[i + 1, b, a])))
    K.eq("Hermitian", f[q, a, b], np.conj(f[q, b, a]))
    K.eq("one by one", f[q, a, b], s.f(k[q])[a, b])


@contract("C09", covers=[A + "df", A + "df_i", A + "ddf", A + "ddf_i"], proof=True, pi=True, n=40)
def derivatives(K):
    """component by component derivatives of the proved value"""
    np = K.np
    nb, H, d, n, N = symbolic(K)
    s = K.mod("tight_binding_asym").HermitianFourierSeries(nb, H)
    m = K.int("m", 1, hic=3)
    k = K.array("k", (m, d))
    df, ddf = s.df(k), s.ddf(k)
    q, a, b = K.index("q", m), K.index("a", n), K.index("b", n)
    x = lambda i: np.exp(2j * np.pi * np.sum(k[q] * nb[i + 1]))
    for c in range(d):
        w = lambda i: 2j * np.pi * nb[i + 1, c] * x(i)
        K.eq("first derivative", df[q, c, a, b], K.sum(N, lambda i: w(i) * H[i + 1, a, b] + np.conj(w(i) * H[i + 1, b, a])))
        K.eq("first derivative Hermitian", df[q, c, a, b], np.conj(df[q, c, b, a]))
        K.eq("one by one: first derivative", df[q, c, a, b], s.df(k[q])[c, a, b])
        for e in range(d):
            v = lambda i: -4 * np.pi ** 2 * nb[i + 1, c] * nb[i + 1, e] * x(i)
            K.eq("second derivative", ddf[q, c, e, a, b], K.sum(N, lambda i: v(i) * H[i + 1, a, b] + np.conj(v(i) * H[i + 1, b, a])))
            K.eq("second derivative Hermitian", ddf[q, c, e, a, b], np.conj(ddf[q, c, e, b, a]))
            K.eq("mixed derivatives symmetric", ddf[q, c, e, a, b], ddf[q, e, c, a, b])
            K.eq("one by one: second derivative", ddf[q, c, e, a, b], s.ddf(k[q])[c, e, a, b])




@contract("C09", covers=[A + "f_i", A + "df_i", A + "ddf_i"], proof=True, pi=True, n=40)
def exponentials(K):
    """df_i and ddf_i are the partial derivatives of f_i"""
    np = K.np
    nb, H, d, n, N = symbolic(K, n=1)
    s = K.mod("tight_binding_asym").HermitianFourierSeries(nb, H)
    i = K.index("i", N + 1)
    k = [K.real("k%d" % c, -3, 3) for c in range(d)]
    for c in range(d):
        at = lambda x: k[:c] + [x] + k[c + 1:]
        K.deriv("df_i is the gradient of f_i", lambda x: s.f_i(np.array(at(x)), i), k[c], s.df_i(np.array(k), i)[c], tol=1e-3)
        for e in range(d):
            K.deriv("ddf_i is the gradient of df_i", lambda x: s.df_i(np.array(at(x)), i)[e], k[c], s.ddf_i(np.array(k), i)[c, e], tol=1e-2)


@contract("C09", covers=[A + "__add__", A + "direct_sum", "linalg:direct_sum", "linalg:_direct_sum"], proof=True, pi=True, n=40)
def block_diagonal(K):
    np = K.np
    nb, H, d, n, N = symbolic(K)
    nb, H2, d, n2, N = symbolic(K, "2", nb)
    m = K.mod("tight_binding_asym")
    a, b = m.HermitianFourierSeries(nb, H), m.HermitianFourierSeries(nb, H2)
    k = K.array("k", (d,))
    x, y = a.f(k), b.f(k)
    i, j, u, v = K.index("a", n), K.index("b", n), K.index("u", n2), K.index("v", n2)
    for s in (a + b, a.direct_sum(b)):
        f = s.f(k)
        K.ensure("size", K.both(f.shape[0] == n + n2, f.shape[1] == n + n2))
        K.eq("first block", f[i, j], x[i, j])
        K.eq("second block", f[n + u, n + v], y[u, v])
        K.eq("no coupling", f[i, n + v], 0)
        K.eq("no coupling", f[n + u, j], 0)


@contract("C09", covers=[A + "unit_matrix", A + "copy"], proof=True, pi=True, n=40)
def unit_and_copy(K):
    np = K.np
    nb, H, d, n, N = symbolic(K)
    m = K.mod("tight_binding_asym")
    k = K.array("k", (d,))
    i, j = K.index("a", n), K.index("b", n)
    u = m.HermitianFourierSeries.unit_matrix(nb, n)
    K.eq("unit matrix", u.f(k)[i, j], np.where(i == j, 1.0, 0.0))
    c = K.index("c", d)
    K.eq("unit matrix: derivative", u.df(k)[c, i, j], 0)
    s = m.HermitianFourierSeries(nb, H)
    f0 = s.f(k)
    t = s.copy()
    K.eq("copy has the same value", t.f(k), f0)
    t.H_r += 1
    t.neighbors += 1
    K.eq("copy is independent", s.f(k), f0)

B = "bandstructure:BandStructureModel."


def group(K, d, inversion, gen=None):
    """a Symmetry with an arbitrary number of arbitrary operations"""
    cls = K.mod("symmetry").Symmetry
    s = cls.__new__(cls)
    G = K.int("ops", 1, hic=3)
    s.S = K.array("S", (G, d, d), gen=None if gen is None else lambda K: gen(K, G, d))
    s.inversion = inversion
    return s


def parametrised(K, form):
    """(model, parameters, coefficient functions, number of terms): the i-th coefficient function is sum_s w(2 pi k.S_s r_i)"""
    np = K.np
    d = K.choice("d", [1, 2, 3])
    red = K.bool("reduced")
    N = K.int("N", 0, hic=3)
    nb = np.concatenate([np.zeros((1, d)), K.array("r", (N, d))])
    sym = group(K, d, form == "cos")
    n = K.int("n", 1, hic=3)
    m = K.mod("bandstructure").BandStructureModel.init_tight_binding(sym, nb, n, cos_reduced=red, exp=form == "exp")
    T = N * 2 if form == "cos sin" else N
    a = K.array("re0", (n, n)) + 1j * K.array("im0", (n, n))
    P = np.concatenate([(a + np.conj(a.T))[None], K.array("re", (T, n, n)) + 1j * K.array("im", (T, n, n))])
    K.ensure("number of terms", m.params.shape[0] == T + 1)
    m.params = P

    def w(i, order, x):
        """order-th derivative of the i-th function (i from 0, the constant one not counted)"""
        if form == "exp":
            return [np.exp(1j * x) - (1 if red else 0), 1j * np.exp(1j * x), -np.exp(1j * x)][order]
        c = [np.cos(x) - (1 if red else 0), -np.sin(x), -np.cos(x)][order]
        if form == "cos":
            return c
        return np.where(i < N, c, [np.sin(x), np.cos(x), -np.sin(x)][order])

    def r(i, s):
        v = np.where(i < N, nb[np.where(i < N, i + 1, 0)], nb[np.where(i < N, 0, i + 1 - N)]) if form == "cos sin" else nb[i + 1]
        return sym.S[s] @ v
    return m, P, w, r, T, n, d, sym.S.shape[0]


def check_parametrised(K, order, form):
    np = K.np
    m, P, w, r, T, n, d, G = parametrised(K, form)
    ks = K.array("k", (K.int("m", 1, hic=3), d))
    q = K.index("q", ks.shape[0])
    k = ks[q]
    a, b = K.index("a", n), K.index("b", n)
    fun = (m.f, m.df, m.ddf)[order]
    f, f1 = fun(ks)[q], fun(k)
    pi2 = 2 * np.pi
    import itertools
    for c in itertools.combinations_with_replacement(range(d), order):
        def W(i):
            def t(s):
                v = r(i, s)
                x = w(i, order, pi2 * np.sum(k * v))
                for e in c:
                    x = x * pi2 * v[e]
                return x
            return K.sum(G, t)
        x = f[c + (a, b)]
        K.eq("sum of the terms", x, (P[0, a, b] if order == 0 else 0) + K.sum(T, lambda i: W(i) * P[i + 1, a, b] + np.conj(W(i) * P[i + 1, b, a])))
        K.eq("Hermitian", x, np.conj(f[c + (b, a)]))
        K.eq("one by one", x, f1[c + (a, b)])
        if order == 2 and c[0] != c[1]:
            K.eq("mixed derivatives symmetric", x, f[c[::-1] + (a, b)])
            K.eq("one by one", x, f1[c[::-1] + (a, b)])


def define():
    names, forms = ("value", "gradient", "hessian"), ("exp", "cos", "cos sin")
    covers = [B + "init_tight_binding", "bandstructure:_get_tight_binding_coeff_funcs"]
    for order in range(3):
        for form in forms:
            def parametrised_contract(K, order=order, form=form):
                check_parametrised(K, order, form)
            parametrised_contract.__name__ = "parametrised_%s_%s" % (names[order], form.replace(" ", "_"))
            contract("C09", covers=covers + [B + ("f", "df", "ddf")[order]], proof=True, pi=True, n=20)(parametrised_contract)


define()


def points(K, d):
    return K.array("k", (K.int("m", 1, hic=3), d))


def model_of(K, name="", like=None, n=None, dims=(1, 2, 3)):
    """(model, d, n): BandStructureModel in any parametrisation with arbitrary neighbours, operations and parameters"""
    np = K.np
    bs = K.mod("bandstructure")
    if like is None:
        d = K.choice("d", list(dims))
        form = K.choice("form", ["exp", "cos", "cos sin"])
        red = K.bool("reduced")
        nb = np.concatenate([np.zeros((1, d)), K.array("r", (K.int("N", 0, hic=3), d))])
        sym, exp = group(K, d, form == "cos"), form == "exp"
    else:
        sym, nb, red, exp = like.sym, like.neighbors, like.cos_reduced, like.exp
        d = nb.shape[1]
    n = K.int("n" + name, 1, hic=3) if n is None else n
    m = bs.BandStructureModel.init_tight_binding(sym, nb, n, cos_reduced=red, exp=exp)
    T = m.params.shape[0] - 1
    a = K.array("re0" + name, (n, n)) + 1j * K.array("im0" + name, (n, n))
    m.params = np.concatenate([(a + np.conj(a.T))[None], K.array("re" + name, (T, n, n)) + 1j * K.array("im" + name, (T, n, n))])
    return m, d, n
