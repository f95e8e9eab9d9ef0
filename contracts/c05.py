"""C05 thermal smearing"""
from pyvc.kit import contract

D = "density_of_states:"


def w(u, beta):
    """-d/de 1/(1+exp(beta u)) at u"""
    import numpy as np
    return beta / (4 * np.cosh(np.clip(beta * u / 2, -300, 300)) ** 2)


def exact(x, es, st, beta, flat=True):
    """integral of the piecewise linear function against w(e - x), by Gauss-Legendre on every piece"""
    import numpy as np
    g, gw = np.polynomial.legendre.leggauss(24)
    tot = 0.0
    occ = lambda u: 1 / (1 + np.exp(np.clip(beta * u, -700, 700)))       # Fermi function
    for a, b, ya, yb in zip(es[:-1], es[1:], st[:-1], st[1:]):
        m = int(np.ceil(max(1.0, min(80 / beta, b - a) * beta / 2)))
        lo, hi = max(a, x - 40 / beta), min(b, x + 40 / beta)
        if hi <= lo:
            continue
        q = np.linspace(lo, hi, m + 1)
        for p, r in zip(q[:-1], q[1:]):
            e = (p + r) / 2 + g * (r - p) / 2
            tot += np.sum(gw * (ya + (yb - ya) * (e - a) / (b - a)) * w(e - x, beta)) * (r - p) / 2
    if flat:
        tot += st[0] * (1 - occ(es[0] - x)) + st[-1] * occ(es[-1] - x)
    return tot


def samples(K):
    import numpy as np
    r = K.nrng
    n = int(r.integers(2, 9))
    es = np.sort(r.normal(size=n) * 10 ** r.uniform(-1.5, 1))
    es = es[0] + np.concatenate([[0], np.cumsum(np.maximum(np.diff(es), 1e-3))])
    st = r.normal(size=n) * 3
    kind = r.integers(4)
    if kind == 0:
        st = np.sort(np.abs(st))
    elif kind == 1:
        st = np.round(st)
    elif kind == 2:
        st = np.full(n, st[0])
    beta = float(10 ** r.uniform(-1, 2.5))
    x = float(r.uniform(es[0] - 3, es[-1] + 3)) if r.random() < 0.6 else float(es[r.integers(n)] + r.normal() / beta)
    return es, st, beta, x


@contract("C05", covers=[D + "convolve_df"], n=150, budget=8)
def convolution_exact(K):
    import numpy as np
    m = K.mod("density_of_states")
    es, st, beta, x = samples(K)
    sc = 1 + np.abs(st).max()
    e0, s0 = es.copy(), st.copy()
    K.eq("flat extrapolation", m.convolve_df(x, es, st, beta) - 0.0, exact(x, es, st, beta, True), atol=1e-8 * sc)
    K.eq("flat extrapolation (named)", m.convolve_df(x, es, st, beta, extrapolation="flat"), exact(x, es, st, beta, True), atol=1e-8 * sc)
    K.eq("no extrapolation", m.convolve_df(x, es, st, beta, extrapolation=None), exact(x, es, st, beta, False), atol=1e-8 * sc)
    E, N = float(es[-1] + abs(K.nrng.normal())), float(K.nrng.uniform(0, 5))
    occ = 1 / (1 + np.exp(np.clip(beta * (E - x), -700, 700)))
    K.eq("extrapolation point", m.convolve_df(x, es, st, beta, extrapolation_point=(E, N)), exact(x, es, st, beta, False) + N * occ, atol=1e-8 * (sc + N))
    K.eq("extrapolation point is ignored without extrapolation", m.convolve_df(x, es, st, beta, extrapolation=None, extrapolation_point=(E, N)), exact(x, es, st, beta, False), atol=1e-8 * sc)
    two = np.stack([st, 2 * st - 1, st * 0 + 1])
    K.eq("several counts at once", m.convolve_df(x, es, two, beta), [m.convolve_df(x, es, v, beta) for v in two], atol=1e-12 * sc)
    K.eq("constant count", m.convolve_df(x, es, st * 0 + 1, beta), 1.0, atol=1e-9)
    K.same("samples unchanged", es, e0)
    K.same("counts unchanged", st, s0)


@contract("C05", covers=[D + "convolve_ddf"], n=150, budget=8)
def convolution_derivative(K):
    import numpy as np
    m = K.mod("density_of_states")
    es, st, beta, x = samples(K)
    E, N = float(es[-1] + abs(K.nrng.normal())), float(K.nrng.uniform(0, 5))
    sc = (1 + np.abs(st).max() + N) * beta
    h = 2e-3 / beta
    for kw in ({}, {"extrapolation": "flat"}, {"extrapolation": None}, {"extrapolation_point": (E, N)}, {"extrapolation": None, "extrapolation_point": (E, N)}):
        f = lambda y: m.convolve_df(y, es, st, beta, **kw)
        g = lambda y: m.convolve_ddf(y, es, st, beta, **kw)
        n = (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)
        K.eq("derivative %s" % (kw,), g(x), n, atol=2e-7 * sc)
    two = np.stack([st, 2 * st - 1, st * 0 + 1])
    K.eq("several counts at once", m.convolve_ddf(x, es, two, beta), [m.convolve_ddf(x, es, v, beta) for v in two], atol=1e-12 * sc)
    K.eq("constant count has no derivative", m.convolve_ddf(x, es, st * 0 + 1, beta), 0.0, atol=1e-9 * sc)


@contract("C05", covers=[D + "int_poly", D + "_int_df", D + "_int_xdf", D + "_int_xxdf"], n=200, budget=6)
def closed_form(K):
    import numpy as np
    ip = K.mod("density_of_states").int_poly
    r = K.nrng
    a, b, c = r.normal(size=3) * 10 ** r.uniform(-1, 1, size=3)
    if r.random() < 0.4:
        a, b, c = np.eye(3)[r.integers(3)]
    x0, x1, x2 = r.uniform(-12, 12, size=3)
    if r.random() < 0.2:
        x0 = 0.0
    if r.random() < 0.2:
        x1 = float(r.choice([-60, 45, 800, -800]))
    g, gw = np.polynomial.legendre.leggauss(40)

    def ref(p, q):
        lo, hi = np.clip([p, q], -60, 60)
        s, qs = 0, np.linspace(lo, hi, 25)
        for u, v in zip(qs[:-1], qs[1:]):
            x = (u + v) / 2 + g * (v - u) / 2
            s += np.sum(gw * (a * x * x + b * x + c) * w(x, 1.0)) * (v - u) / 2
        return s
    K.eq("integral", ip(x0, x1, a, b, c), ref(x0, x1), atol=1e-10 * (1 + abs(a) + abs(b) + abs(c)))
    K.eq("empty interval", ip(x0, x0, a, b, c), 0.0, atol=1e-13 * (1 + abs(a) + abs(b) + abs(c)))
    K.eq("additive", ip(x0, x1, a, b, c) + ip(x1, x2, a, b, c), ip(x0, x2, a, b, c), atol=1e-11 * (1 + abs(a) + abs(b) + abs(c)))
    K.eq("orientation", ip(x1, x0, a, b, c), -ip(x0, x1, a, b, c), atol=1e-11 * (1 + abs(a) + abs(b) + abs(c)))
    X = np.array([x0, x1, x2])
    K.eq("arrays", ip(X, X + 1, a, b, c), [ip(float(v), float(v) + 1, a, b, c) for v in X], atol=1e-11 * (1 + abs(a) + abs(b) + abs(c)))


def moments(n):
    """moments of w(x, 1): 1, 0, pi^2/3, 0, 7 pi^4/15, ... (by numerical quadrature, independent)"""
    import numpy as np
    x = np.linspace(-90, 90, 360001)
    return [float(np.sum(x ** k * w(x, 1.0)) * (x[1] - x[0])) for k in range(n)]


@contract("C05", covers=[D + "gauss_5_df", D + "gauss_7_df"], n=12, budget=6)
def gauss_df(K):
    import numpy as np
    m = K.mod("density_of_states")
    mu, beta = float(K.nrng.normal() * 3), float(10 ** K.nrng.uniform(-1, 2))
    for f, order in ((m.gauss_5_df, 9), (m.gauss_7_df, 13)):
        mo = moments(order + 1)
        K.eq("weights sum to 1", f(lambda x: np.ones(np.shape(x)), mu, beta), 1.0, atol=1e-13)
        for k in range(order + 1):
            scale = np.sqrt(mo[k] if k % 2 == 0 else mo[k - 1] * (mo[k + 1] if k + 1 < len(mo) else 50 * mo[k - 1]))
            K.eq("moment %d" % k, f(lambda x: ((x - mu) * beta) ** k, mu, beta), mo[k], atol=3e-12 * max(1, scale ** 2) * 10)
        c = K.nrng.normal(size=4)
        got = f(lambda x: c[0] + c[1] * x + c[2] * x ** 2 + c[3] * x ** 3, mu, beta)
        v = np.pi ** 2 / 3 / beta ** 2
        K.eq("cubic", got, c[0] + c[1] * mu + c[2] * (mu ** 2 + v) + c[3] * (mu ** 3 + 3 * mu * v), tol=1e-11, atol=1e-11 * (1 + abs(mu) + 1 / beta) ** 3)
        got = f(lambda x: np.stack([x, 0 * x + 1, x * x], axis=-1), mu, beta)
        K.eq("vector valued integrands", got, [mu, 1, mu ** 2 + v], atol=1e-11 * (1 + abs(mu) + 1 / beta) ** 2)
        got = f(lambda x: np.stack([x, 0 * x + 1, x * x, x * 2], axis=-1).reshape(-1, 2, 2), mu, beta)
        K.eq("matrix valued integrands", got, [[mu, 1], [mu ** 2 + v, 2 * mu]], atol=1e-11 * (1 + abs(mu) + 1 / beta) ** 2)


@contract("C05", covers=[D + "gauss_4_f", D + "gauss_6_f"], n=12, budget=6)
def gauss_f(K):
    import numpy as np
    m = K.mod("density_of_states")
    mu, beta = float(K.nrng.normal() * 3), float(10 ** K.nrng.uniform(-1, 2))
    x = (np.arange(400000) + 0.5) * (120 / 400000)
    wx = 2 / (1 + np.exp(x)) * (120 / 400000)
    for f, order in ((m.gauss_4_f, 7), (m.gauss_6_f, 11)):
        K.eq("constant", f(lambda x: np.ones(np.shape(x)), mu, beta), 2 * np.log(2) / beta, tol=1e-12, atol=1e-12 / beta)
        for k in range(1, order + 1):
            ref = 0.0 if k % 2 else float(np.sum(x ** k * wx)) / beta
            sc = max(1.0, float(np.sum(x ** k * wx))) / beta
            K.eq("moment %d" % k, f(lambda e: ((e - mu) * beta) ** k, mu, beta), ref, atol=2e-8 * sc)
        got = f(lambda e: np.stack([0 * e + 1, e], axis=-1), mu, beta)
        K.eq("vector valued integrands", got, [2 * np.log(2) / beta, 2 * np.log(2) / beta * mu], atol=1e-11 * (1 + abs(mu)) / beta)


@contract("C05", covers=[D + "DensityOfStates.energy"], n=6, budget=18)
def thermal_energy(K):
    """total energy by the closed forms against a direct quadrature of the sampled count"""
    import numpy as np
    from .c04 import make
    f, d = make(K, bands=int(K.nrng.integers(1, 3)), N=8, smear="cubes")
    kB = 8.61733326214518e-5
    n = d.model_bandcount()
    lo, hi = d.energy_range()
    mu = float(K.nrng.uniform(lo, hi))
    x = np.unique(np.concatenate([np.linspace(a, b, 1200) for a, b in d.bands_range]))
    s = np.array([d.states_below(e) for e in x])
    xm, ds = (x[1:] + x[:-1]) / 2, np.diff(s)
    K.eq("T=0", d.energy(mu, 0.0), 2 * np.sum(ds[xm < mu] * xm[xm < mu]), atol=0.02 * n)
    K.eq("spin factor", d.energy(mu, 0.0, spin_factor=1) * 2, d.energy(mu, 0.0), atol=1e-10)
    T = float(K.nrng.uniform(200, 1500))
    occ = 1 / (1 + np.exp(np.clip((xm - mu) / (kB * T), -700, 700)))
    K.eq("T>0", d.energy(mu, T, N=1500), 2 * np.sum(ds * xm * occ), atol=0.03 * n)
    K.eq("T>0 (default sampling)", d.energy(mu, T), 2 * np.sum(ds * xm * occ), atol=0.3 * n)


@contract("C05", covers=[D + "DensityOfStates.heat_capacity"], n=4, budget=25)
def heat_capacity(K):
    """the temperature derivative of the energy at a fixed number of electrons, against finite differences of the
    energy and the chemical potential computed from the sampled count"""
    import numpy as np
    kB = 8.61733326214518e-5
    nb = int(K.nrng.integers(1, 3))
    c, o = K.nrng.normal(size=(nb, 4)), K.nrng.normal(size=nb) * 0.5

    def f(k):
        k = 2 * np.pi * np.asarray(k)
        x = np.stack([np.cos(k[..., 0]), np.cos(k[..., 1]), np.cos(k[..., 2]), np.cos(k[..., 0] + k[..., 1])], axis=-1)
        return np.sort(o + x @ c.T, axis=-1)
    d = K.mod("density_of_states").DensityOfStates(f, N=8)
    x = np.unique(np.concatenate([np.linspace(a, b, 1200) for a, b in d.bands_range]))
    s = np.array([d.states_below(e) for e in x])
    xm, ds = (x[1:] + x[:-1]) / 2, np.diff(s)
    electrons, T = float(K.nrng.uniform(0.2, nb - 0.2)), float(K.nrng.uniform(1500, 6000))

    def occ(mu, T):
        return 1 / (1 + np.exp(np.clip((xm - mu) / (kB * T), -700, 700)))

    def energy(T):
        a, b = x[0] - 5, x[-1] + 5
        for _ in range(70):
            m = (a + b) / 2
            a, b = (m, b) if np.sum(ds * occ(m, T)) < electrons else (a, m)
        return 2 * np.sum(ds * xm * occ(a, T))
    h = 0.01 * T
    want = (energy(T + h) - energy(T - h)) / (2 * h)
    got = d.heat_capacity(electrons, T, N=700)
    K.eq("derivative of the energy at fixed electrons", got, want, atol=0.08 * abs(want) + 4e-7)
    K.eq("spin factor", d.heat_capacity(electrons, T, N=40, spin_factor=1) * 2, d.heat_capacity(electrons, T, N=40), atol=1e-12)
    K.same("T=0", d.heat_capacity(electrons, 0.0), 0.0)
