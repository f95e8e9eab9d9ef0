"""C17 transport integrals"""
from pyvc.kit import contract

B = "bulk_properties:"
KI = B + "KIntegral."


class Cubic:
    """periodic bands e_n(k) = c_n + sum_R a_nR cos(2 pi k R + p_nR) with exact derivatives (bands apart, so that the order never changes)"""

    def __init__(self, R, a, p, c):
        self.R, self.a, self.p, self.c = R, a, p, c

    def _x(self, k):
        import numpy as np
        return 2 * np.pi * (np.asarray(k) @ self.R.T)[:, None, :] + self.p[None]

    def __call__(self, k):
        import numpy as np
        return self.c + (self.a * np.cos(self._x(k))).sum(-1)

    def bands_grad(self, k):
        import numpy as np
        g = -2 * np.pi * np.einsum("kbr,rd->kdb", self.a * np.sin(self._x(k)), self.R)
        return self(k), g

    def bands_grad_hess(self, k):
        import numpy as np
        b, g = self.bands_grad(k)
        h = -4 * np.pi**2 * np.einsum("kbr,rd,re->kdeb", self.a * np.cos(self._x(k)), self.R, self.R)
        return b, g, h


def metal(K, N=None):
    """(model, density of states, electrons): a metal"""
    import numpy as np
    r = K.nrng
    dosm = K.mod("density_of_states")
    nb = K.rng.randint(1, 2)
    R = np.concatenate([np.eye(3), r.integers(-1, 2, size=(2, 3))]).astype(float)
    a = r.normal(size=(nb, 5)) * 0.3
    a[:, :3] += 0.5 * np.sign(a[:, :3])
    c = np.arange(nb) * 10.0
    m = Cubic(R, a, r.uniform(-3, 3, size=(nb, 5)), c)
    A = np.eye(3)
    kw = {}
    d = dosm.DensityOfStates(m, N=N or K.rng.choice([6, 8, 9]), **kw)
    n = K.rng.randrange(nb) + r.uniform(0.15, 0.85)
    return m, d, n


def lattice(K):
    import numpy as np
    A = np.eye(3) * K.nrng.uniform(2, 6) + K.nrng.normal(size=(3, 3))
    if K.rng.random() < 0.4:
        A[:, 0] *= -1
    K.assume(abs(np.linalg.det(A)) > 1)
    return A


def tensor3(K, name, sym=True):
    """(3, 3) matrix of symbols"""
    x = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(i if sym else 0, 3):
            v = K.real("%s%d%d" % (name, i, j), -9, 9)
            x[i][j] = v
            if sym:
                x[j][i] = v
    return x


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


@contract("C17", covers=[B + "conductivity", B + "peltier", B + "seebeck", B + "electronic_thermal_conductivity"], proof=True, n=60)
def relations(K):
    """j_e = L0 E + L1 x, j_Q = L1 E + L2 x with x = (-grad T)/T"""
    np = K.np
    b = K.mod("bulk_properties")
    x0, x1, x2 = tensor3(K, "a"), tensor3(K, "b"), tensor3(K, "c")
    K.assume(K.either(det3(x0) > 1, det3(x0) < -1))
    T = K.real("T", 1, 2000)
    L = np.array([x0, x1, x2])
    g = [K.real("g%d" % i, -9, 9) for i in range(3)]
    G = np.array(g)
    sc = 1e-9 if K.sym else 1e-9 * 1e5
    s, P, S, kappa = b.conductivity(L), b.peltier(L), b.seebeck(L, T), b.electronic_thermal_conductivity(L, T)
    K.eq("conductivity", s, L[0], atol=0)
    # no temperature gradient: heat flow is P times the current
    K.eq("Peltier: j_Q = P j_e", P @ L[0], L[1], atol=sc)
    # no current: the field is S grad T
    K.eq("Seebeck: L0 S T = L1", L[0] @ S * T, L[1], atol=sc)
    K.eq("Kelvin: P = T S^T", P, (S * T).T, atol=sc)
    # no current: heat flow
    E = S @ G
    K.eq("no current flows", L[0] @ E - (L[1] @ G) / T, np.zeros(3), atol=sc)
    K.eq("heat flow without current", L[1] @ E - (L[2] @ G) / T, -(kappa @ G), atol=sc * 10)


@contract("C17", covers=[B + "conductivity", B + "peltier", B + "seebeck", B + "electronic_thermal_conductivity", B + "hall_coefficients"], n=60)
def relations_batched(K):
    import numpy as np
    b = K.mod("bulk_properties")
    r = K.nrng
    nT = K.rng.randint(1, 4)
    L = r.normal(size=(3, nT, 3, 3))
    L = L + L.swapaxes(-1, -2)
    L[0] = np.einsum("tij,tkj->tik", L[0], L[0]) + 0.2 * np.eye(3)
    T = float(r.uniform(1, 1000))
    L0 = L.copy()
    for i in range(nT):
        inv = np.linalg.inv(L[0, i])
        K.eq("conductivity", b.conductivity(L)[i], L[0, i], atol=0)
        K.eq("Peltier", b.peltier(L)[i], L[1, i] @ inv, atol=1e-8)
        K.eq("Seebeck", b.seebeck(L, T)[i], inv @ L[1, i] / T, atol=1e-8)
        K.eq("thermal", b.electronic_thermal_conductivity(L, T)[i], (L[2, i] - L[1, i] @ inv @ L[1, i]) / T, atol=1e-7)
    s3 = r.normal(size=(nT, 3, 3, 3))
    h = b.hall_coefficients(L[0], s3)
    for i in range(nT):
        inv = np.linalg.inv(L[0, i])
        # E_j = R_ijk j_i B_k: to first order in the field the current of E is j again
        want = np.zeros((3, 3, 3))
        for a in range(3):
            for c in range(3):
                for k in range(3):
                    want[:, :, k] += inv[a][None, :] * inv[:, c][:, None] * s3[i, a, c, k]
        K.eq("Hall", h[i], want, atol=1e-7)
    K.same("arguments unchanged", L, L0)


@contract("C17", covers=[B + "_integration_points", B + "_integration_weights"], n=80, budget=8)
def quadrature(K):
    import math
    import warnings
    import numpy as np
    b = K.mod("bulk_properties")
    kB = K.mod("density_of_states").k_B
    r = K.nrng
    N = K.rng.choice([1, 3, 5, 7, 9, 11, 13])
    Ef = float(r.uniform(-3, 3))
    nT = K.rng.randint(1, 3)
    T = sorted(float(10 ** r.uniform(*K.rng.choice([(1, 3.3), (2.3, 2.9)]))) for _ in range(nT))
    if nT > 1 and K.rng.random() < 0.3:
        T[0] = T[-1] * 0.7
    e = b._integration_points(Ef, min(T), max(T), N)
    K.ensure("number of points", len(e) == N and bool(np.all(np.isfinite(e))))
    if nT > 1:
        # the code says "sometimes unstable" for a range of temperatures: pairs of points can coincide
        K.assume(bool(np.all(np.diff(e) > 1e-3 * kB * min(T))))
    K.ensure("increasing", bool(np.all(np.diff(e) > 0)))
    K.ensure("centred", bool(np.abs((e - Ef) + (e - Ef)[::-1]).max() <= 1e-6 * kB * max(T) * N + 1e-12 * abs(Ef)))
    beta = 1 / (kB * np.array(T))
    mu = Ef + (kB * np.array(T)) * r.uniform(-0.3, 0.3, size=nT) * (K.rng.random() < 0.7)
    x0 = e.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x, w = b._integration_weights(e, beta, mu, -1e9, 1e9, rtol=-1e30)
    K.same("points unchanged", e, x0)
    K.ensure("all points used", len(x) == N and w.shape == (nT, N))
    for j in range(nT):
        u = (x - mu[j]) * beta[j]
        for n in range(N):
            # moments of -df/de: int u^n e^u/(1+e^u)^2 du
            I = [1.0, 0, math.pi**2 / 3, 0, 7 * math.pi**4 / 15, 0, 31 * math.pi**6 / 21, 0, 127 * math.pi**8 / 15, 0, 2555 * math.pi**10 / 33, 0, 1414477 * math.pi**12 / 1365][n]
            scale = (np.abs(w[j]) * np.abs(u) ** n).sum() + abs(I)
            K.ensure("moment %d" % n, abs((w[j] * u ** n).sum() - I) <= 1e-6 * scale + 1e-14 * N * np.abs(w[j]).sum() * math.factorial(n) * max(1, beta[j] ** n), lambda: (n, (w[j] * u ** n).sum(), I))
    # only points inside the bands stay, in order, with their weights
    lo, hi = sorted(r.uniform(e[0] - 0.1, e[-1] + 0.1, size=2))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        y, v = b._integration_weights(e, beta, mu, lo, hi, rtol=-1e30)
    s = (x > lo) & (x < hi)
    K.eq("points in the bands", y, x[s], atol=0)
    K.eq("their weights", v, w[:, s], atol=0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        y, v = b._integration_weights(e, beta, mu, -1e9, 1e9)
    lost = 1 - v.sum(axis=1)
    K.ensure("dropped points are negligible", bool(np.all(np.abs(lost) < 1e-4 * N * N * np.abs(w).max())))
    for i, q in enumerate(x):
        if not np.any(np.abs(y - q) < 1e-12):
            K.ensure("only small weights are dropped", bool(np.all(w[:, i] <= 1e-4 * N * w.max(axis=1) + 1e-12)))
    # zero temperature: all weight at the chemical potential
    x, w = b._integration_weights(e, np.array([1e20]), np.array([e[N // 2]]), -1e9, 1e9)
    K.ensure("zero temperature", len(x) == 1 and x[0] == e[N // 2] and w.shape == (1, 1) and w[0, 0] == 1)


def surfaces(K, m, d, kint):
    """reference for the integrals over the energy surfaces: list of (e, k, v, h, weight)"""
    import numpy as np
    out = []
    for e in kint.e_smpl:
        k, bi, w, _ = d.fermi_surface_samples(e, improved_points=False, improved_weights=False, normalize=None)
        _, g, h = m.bands_grad_hess(k)
        i = np.arange(len(k))
        v = g[i, :, bi]
        out.append((e, k, v, h[i, :, :, bi], w / (1e-8 + np.linalg.norm(v, axis=-1))))
    return out


@contract("C17", covers=[KI + "__init__", KI + "precompute", KI + "integrate_df", KI + "integrate_df_A", KI + "transport_coefficients", KI + "drude_factor", KI + "conductivity_hall_tensor", KI + "hall_coefficient_metal_cubic"], n=30, budget=25)
def integrator(K):
    import warnings
    import numpy as np
    b = K.mod("bulk_properties")
    r = K.nrng
    m, d, n = metal(K)
    nT = K.rng.choice([1, 1, 2, 3])
    T = sorted(float(r.uniform(50, 900)) for _ in range(nT))
    if K.rng.random() < 0.3:
        T[0] = 0.0
    kw = {"N": K.rng.choice([1, 3, 5, 7])} if K.rng.random() < 0.7 and T[-1] > 0 else {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            kint = b.KIntegral(d, n, T, **kw)
        except ZeroDivisionError:
            K.assume(False)
    K.assume(kint.metal)
    kB = K.mod("density_of_states").k_B
    K.eq("temperatures", kint.beta * kB * np.array(T), np.array(T) > 0, atol=1e-9)
    S = surfaces(K, m, d, kint)
    W = kint.integration_weights
    K.ensure("weights of all temperatures", W.shape == (nT, len(kint.e_smpl)))
    mom = K.rng.randint(0, 3)
    hess = K.rng.random() < 0.5
    g = (lambda e, v, h, k: e * v[:, 0] ** 2 + h[:, 0, 1] + np.cos(2 * np.pi * k[:, 2])) if hess else (lambda e, v, k: e * v[:, 0] ** 2 + np.cos(2 * np.pi * k[:, 2]))
    I = kint.integrate_df(g, hessians=hess, moments=mom)
    K.ensure("shape", I.shape == (mom + 1, nT))

    def ref(f, a, j):
        t = 0
        for i, (e, k, v, h, w) in enumerate(S):
            q = f(e, v, h, k)
            t = t + W[j, i] * (e - kint.mu[j]) ** a * (q * w.reshape((-1,) + (1,) * (q.ndim - 1))).sum(axis=0)
        return t

    def size(f, a, j):
        t = 0
        for i, (e, k, v, h, w) in enumerate(S):
            q = f(e, v, h, k)
            t = t + abs(W[j, i]) * abs(e - kint.mu[j]) ** a * (np.abs(q) * w.reshape((-1,) + (1,) * (q.ndim - 1))).sum(axis=0).max()
        return t + 1e-300
    # the quadrature weights of close surfaces can cancel
    wild = max(1.0, max(size(lambda e, v, h, k: np.einsum("na,nb->nab", v, v), a, j) / np.abs(ref(lambda e, v, h, k: np.einsum("na,nb->nab", v, v), a, j)).max() for a in (0, 2) for j in range(nT) if T[j] > 0 or a == 0))
    K.assume(wild < 1e4)
    g4 = g if hess else (lambda e, v, h, k: g(e, v, k))
    want = np.array([[ref(g4, a, j) for j in range(nT)] for a in range(mom + 1)])
    for a in range(mom + 1):
        for j in range(nT):
            K.eq("integral over the energy surfaces", I[a, j], want[a, j], atol=1e-8 * size(g4, a, j))
    # transport coefficients
    A = lattice(K)
    A0 = A.copy()
    V = abs(np.linalg.det(A)) * 1e-30
    q, hbar = 1.602176634e-19, 1.054571817e-34
    vel = A * 1e-10 * q / (2 * np.pi * hbar)     # m/s per eV
    spin = K.rng.choice([1, 2])
    c = float(r.uniform(0.5, 2))
    tau = [None, lambda k: np.full(len(k), c), lambda k: 1 + 0.2 * np.cos(k @ np.array([1.0, 2.0, 0.5])), c][K.rng.randrange(4)]
    Binv = 2 * np.pi * np.linalg.inv(A)           # rows are the reciprocal vectors

    def tk(k):
        return np.ones(len(k)) if tau is None else np.full(len(k), c) if isinstance(tau, float) else np.asarray(tau(k @ Binv))
    K.ensure("vectors are reciprocal", np.abs(Binv @ A - 2 * np.pi * np.eye(3)).max() < 1e-9)
    L = kint.transport_coefficients(A, spin_factor=spin, tau=tau)
    K.ensure("shape", L.shape == (3, nT, 3, 3))
    for a in range(3):
        for j in range(nT):
            f = lambda e, v, h, k: tk(k)[:, None, None] * np.einsum("na,nb->nab", v @ vel.T, v @ vel.T)
            t = spin * q ** (2 - a) / V * ref(f, a, j) * q ** (a - 1)
            s = np.abs(t).max() + spin * q ** (2 - a) / V * size(f, a, j) * q ** (a - 1) + 1e-300
            K.eq("L%d" % a, L[a, j] / s, t / s, atol=1e-6)
            K.eq("symmetric", L[a, j] / s, L[a, j].T / s, atol=1e-9)
    for j in range(nT):
        if W[j].min() >= 0:
            ev = np.linalg.eigvalsh(L[0, j])
            K.le("positive semidefinite", 0, ev.min() / (abs(ev).max() + 1e-300), tol=1e-9)
            ev = np.linalg.eigvalsh(L[2, j])
            K.le("L2 positive semidefinite", 0, ev.min() / (abs(ev).max() + 1e-300), tol=1e-9)
            # electronic heat conductivity as well (Cauchy-Schwarz)
            if T[j] > 0 and np.linalg.cond(L[0, j]) < 1e6:
                kap = b.electronic_thermal_conductivity(L[:, j], T[j])
                ev = np.linalg.eigvalsh((kap + kap.T) / 2)
                K.le("heat conductivity positive semidefinite", 0, ev.min() / (abs(L[2, j]).max() / T[j] + 1e-300), tol=1e-7)
    D = kint.drude_factor(A, spin_factor=spin)
    L1 = kint.transport_coefficients(A, spin_factor=spin, max_a=0)
    K.eq("Drude factor", D / np.abs(D).max(), L1[0] / np.abs(D).max(), atol=1e-9)
    s2, s3 = kint.conductivity_hall_tensor(A, spin_factor=spin, tau=tau)
    K.eq("conductivity of the Hall calculation", s2 / np.abs(s2).max(), L[0] / np.abs(s2).max(), atol=1e-9)
    eps = np.zeros((3, 3, 3))
    for i, j, k in [(0, 1, 2), (1, 2, 0), (2, 0, 1)]:
        eps[i, j, k], eps[i, k, j] = 1, -1
    met = vel / q                                   # m/s per J
    for j in range(nT):
        def f(e, v, h, k):
            vv = v @ vel.T
            M = np.einsum("ai,bj,nij->nab", vel, met * (1e-10 / 1e-10), h) if False else np.einsum("ai,bj,nij->nab", vel, A * 1e-10 / (2 * np.pi * hbar), h)
            # sigma_abk = eps_kcd v_a v_d M_bc
            return tk(k)[:, None, None, None] ** 2 * np.einsum("kcd,na,nd,nbc->nabk", eps, vv, vv, M)
        t = spin * q ** 3 / q / V * ref(f, 0, j)
        s = np.abs(t).max() + spin * q ** 3 / q / V * size(f, 0, j) + 1e-300
        K.eq("third rank conductivity", s3[j] / s, t / s, atol=1e-6)
    # covariance under rotations of the crystal
    Q, _ = np.linalg.qr(r.normal(size=(3, 3)))
    L2 = kint.transport_coefficients(Q @ A, spin_factor=spin)
    L3 = kint.transport_coefficients(A, spin_factor=spin)
    s = np.abs(L3).max(axis=(1, 2, 3), keepdims=True) + 1e-300
    K.eq("rotated crystal", L2 / s, np.einsum("ab,xtbc,dc->xtad", Q, L3, Q) / s, atol=1e-8)
    K.same("lattice unchanged", A, A0)


@contract("C17", covers=[KI + "integrate_df", KI + "transport_coefficients"], n=10, budget=5)
def insulator(K):
    """no carriers at zero temperature"""
    import numpy as np
    b = K.mod("bulk_properties")
    m, d, n = metal(K)
    n = 1.0
    K.assume(len(m.c) == 2)
    kint = b.KIntegral(d, n, [0.0])
    K.ensure("has a gap", not kint.metal and kint.bandgap > 0)
    L = kint.transport_coefficients(lattice(K))
    K.ensure("same shape as for a metal", L.shape == (3, 1, 3, 3))
    K.eq("no conductivity", L, 0 * L, atol=0)
    K.raises("semiconductors are not implemented", NotImplementedError, b.KIntegral, d, n, [300.0])
    K.raises("negative temperatures are refused", AssertionError, b.KIntegral, d, n, [-1.0])


@contract("C17", covers=[B + "FreeElectrons.__call__", B + "FreeElectrons.bands_grad", B + "FreeElectrons.bands_grad_hess", B + "FreeElectrons.__init__"], n=80)
def free_electrons(K):
    import numpy as np
    b = K.mod("bulk_properties")
    r = K.nrng
    n = K.rng.randint(1, 6)
    G = [[(0, 0, 0)], r.integers(-2, 3, size=(n, 3)).tolist(), r.normal(size=(n, 3)), np.unique(r.integers(-1, 2, size=(n, 3)), axis=0)][K.rng.randrange(4)]
    G = np.asarray(G)
    lim = K.rng.choice([None, None, 1, 2, 9])
    m = b.FreeElectrons(G, lim) if K.rng.random() < 0.8 or len(G) > 1 else b.FreeElectrons()
    if len(G) == 1 and np.any(G != 0):
        m = b.FreeElectrons(G, lim)
    nk = K.rng.randint(1, 5)
    k = r.normal(size=(nk, 3))
    k0 = k.copy()
    e = np.sort(3.80998211 * np.linalg.norm(2 * np.pi * (k[:, None] - G[None].astype(float)), axis=-1) ** 2, axis=-1)
    c = min(len(G), m.limit_count or len(G))
    e = e[:, :c]
    E = m(k)
    K.ensure("shape", E.shape == (nk, c))
    K.eq("bands", E, e, atol=1e-9 * (1 + e.max()))
    b1, g1 = m.bands_grad(k)
    b2, g2, h2 = m.bands_grad_hess(k)
    K.eq("bands of the gradient call", b1, E, atol=1e-9 * (1 + e.max()))
    K.eq("bands of the Hessian call", b2, E, atol=1e-9 * (1 + e.max()))
    K.ensure("shapes", g1.shape == (nk, 3, c) and g2.shape == (nk, 3, c) and h2.shape == (nk, 3, 3, c))
    K.eq("gradients agree", g1, g2, atol=1e-9)
    # 1/2 m v^2: the gradient determines the energy of a free electron
    fac = 3.80998211 * (2 * np.pi) ** 2
    K.eq("|grad|^2 = 4 fac e", (g1 ** 2).sum(axis=1), 4 * fac * E, atol=1e-8 * (1 + e.max()) * fac)
    K.eq("Hessian", h2, np.broadcast_to(2 * fac * np.eye(3)[None, :, :, None], h2.shape), atol=1e-9)
    if c == 1 or np.min(np.diff(E, axis=1)) > 0.5:
        h = 1e-5
        for i in range(3):
            q = np.eye(3)[i] * h
            K.eq("gradient", g1[:, i], (m(k + q) - m(k - q)) / (2 * h), atol=1e-4 * (1 + np.abs(g1).max()))
            K.eq("Hessian is the derivative", h2[:, :, i], (m.bands_grad(k + q)[1] - m.bands_grad(k - q)[1]) / (2 * h), atol=1e-3 * fac)
    K.same("points unchanged", k, k0)
