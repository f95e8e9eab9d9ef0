"""C19 fitting"""
from pyvc.kit import contract
from contracts.c09 import herm

A = "tight_binding_asym:AsymTightBindingModel."
B = "bandstructure:BandStructureModel."
L = "logger:OptimisationLogger."


def spread(K, nb, n, size=0.3, real=False):
    """coefficients of bands that are well separated everywhere: on-site steps of 3, couplings with norm < 1"""
    import numpy as np
    r = K.nrng
    H = (r.normal(size=(len(nb), n, n)) + (0 if real else 1j) * r.normal(size=(len(nb), n, n)))
    H[0] = (H[0] + herm(H[0])) / 2
    for i in range(len(nb)):
        H[i] *= size / len(nb) / max(1e-3, np.linalg.norm(H[i], 2))
    H[0] += np.diag(3.0 * np.arange(n) + r.normal())
    return H


def lattice(K, dim=None, hi=4):
    from contracts.models import half_lattice
    import numpy as np
    dim = dim or K.rng.choice([1, 2, 3])
    full = half_lattice(dim, 1.5)
    m = min(K.rng.randint(0, hi), len(full) - 1)
    nb = full[[0] + (1 + K.nrng.permutation(len(full) - 1)[:m]).tolist()] + 0.0
    if K.rng.random() < 0.3:
        nb = nb @ (np.eye(dim) + 0.3 * K.nrng.normal(size=(dim, dim)))
    return nb


def samples(K, nb, extra=0, columns=None):
    """k-points for which the coefficient functions are independent and well conditioned"""
    import numpy as np
    m = (2 * len(nb) if columns is None else columns) + extra
    k = K.nrng.uniform(-0.5, 0.5, size=(m, nb.shape[1]))
    F = np.exp(2j * np.pi * k @ nb.T)
    F = np.concatenate([F, np.conj(F[:, 1:])], axis=1)
    s = np.linalg.svd(F, compute_uv=False)
    K.assume(s[-1] > 0.05 * s[0])
    return k


def build(K, nb, H, S=None, kind=None):
    """a model with the given coefficients and the way its parameters are read"""
    import numpy as np
    kind = kind or K.rng.choice(["asym", "asym", "bs"])
    if kind == "asym":
        t = K.mod("tight_binding_asym")
        if S is None:
            return t.AsymTightBindingModel(t.HermitianFourierSeries(nb.copy(), H.copy()))
        return t.AsymTightBindingModel(t.HermitianFourierSeries(nb.copy(), H.copy()), S=t.HermitianFourierSeries(nb.copy(), S.copy()))
    b = K.mod("bandstructure")
    sy = K.mod("symmetry").Symmetry
    m = b.BandStructureModel.init_tight_binding(sy.none(nb.shape[1]), nb, H.shape[1], cos_reduced=K.rng.random() < 0.4, exp=K.rng.random() < 0.5)
    m.set_params_complex(H.astype(complex))
    return m


def coeffs(m):
    import numpy as np
    return np.array(m.H.H_r if hasattr(m, "H") else m.params_complex())


def duplicate(m):
    """an independent model with the same coefficients"""
    if hasattr(m, "H"):
        return type(m)(m.H.copy(), S=m.S.copy())
    return m.copy()


def fit(K, m, way, k, ref, w, off, n, log=False, kw=None):
    """run one of the optimisers"""
    kw = dict(kw or {})
    if hasattr(m, "H"):
        if way == "cg":
            return m.optimize_cg(k, ref, w, off, n, log=log, **kw)
        return m.optimize(k, 1.0, ref, w, off, n, log=log, **kw)
    if way == "cg":
        return m.optimize_cg(k, 1.0, ref, w, off, n, log=log, **kw)
    return m.optimize(k, kw.pop("kw", 1.0), ref, w, off, n, log=log, **kw)


def case(K, overlap=True):
    """(model, way, k, ref, weights, offset, options, neighbors, overlap?)"""
    import numpy as np
    from contracts.models import overlap as ov
    r = K.nrng
    nb = lattice(K)
    n = K.rng.choice([1, 2, 3, 4])
    H = spread(K, nb, n, size=K.rng.choice([0.3, 0.3, 2.0]))
    kind = K.rng.choice(["asym", "asym", "bs"])
    S = ov(K, nb, n) if overlap and kind == "asym" and K.rng.random() < 0.3 else None
    m = build(K, nb, H, S, kind)
    k = samples(K, nb, K.rng.randint(0, 6))
    off = K.rng.choice([0, 0, K.rng.randint(0, n - 1)])
    q = K.rng.randint(1, n - off)
    ref = np.array(m.bands(k))[:, off:off + q]
    w = K.rng.choice([1.0, 2.0, "list"])
    if w == "list":
        w = r.uniform(0.1, 2, size=q)
        if K.rng.random() < 0.4:
            w = w.tolist()
    way = K.rng.choice(["cg", "gd"])
    kw = {}
    if way == "cg":
        kw["precond"] = K.rng.random() < 0.5
        if K.rng.random() < 0.5:
            kw["max_cg_iterations"] = K.rng.choice([1, 3, 20])
    else:
        kw["use_pinv"] = K.rng.random() < 0.6
        if K.rng.random() < 0.3:
            kw["learning_rate"] = 0.5
        if K.rng.random() < 0.3:
            kw["max_accel_global"] = 2.0
    return m, way, k, ref, w, off, kw, nb, S


def near(K, label, a, b, rel, atol):
    import numpy as np
    K.eq(label, np.asarray(a, dtype=float), np.asarray(b, dtype=float), atol=atol + rel * (float(np.abs(b).max()) if np.size(b) else 0.0))


ALL = [A + "optimize", A + "optimize_cg", B + "optimize", B + "optimize_cg", A + "error", A + "loss", B + "error", B + "loss", A + "normalize", B + "normalize"]


@contract("C19", covers=ALL + [L + "add_data", L + "last_loss", L + "iteration_count"], n=80, budget=12)
def fitting_run(K):
    """frame, well-formed result, and a log that tells the truth"""
    import contextlib
    import io
    import numpy as np
    m, way, k, ref, w, off, kw, nb, S = case(K)
    q = ref.shape[1]
    ref = ref + K.nrng.normal(size=ref.shape) * K.rng.choice([1e-3, 0.1, 0.5])
    ref = np.sort(ref, axis=1)
    if way == "gd" and K.rng.random() < 0.3:
        kw["batch_div"] = 2
    thr = K.rng.choice([1e-3, 1e-2, 0.0])
    kw["convergence_threshold"] = thr
    n = K.rng.choice([0, 1, 3, 7])
    wf = np.broadcast_to(np.ravel(w), (q,)).astype(float)
    k0, r0, w0 = k.copy(), ref.copy(), np.array(w)
    start = duplicate(m)
    first = m.loss(k, ref, wf, off)
    G = K.mod("logger").OptimisationLogger
    own = K.rng.random() < 0.3
    log = G(print_loss=False, verbose=False) if own else False
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        g = fit(K, m, way, k, ref, w, off, n, log, kw)
    K.ensure("log=False prints nothing", out.getvalue() == "")
    K.ensure("the given logger is used", g is log if own else isinstance(g, G))
    K.same("k-points unchanged", k, k0)
    K.same("reference bands unchanged", ref, r0)
    K.same("weights unchanged", np.array(w), w0)
    ne = m.H.neighbors if hasattr(m, "H") else m.neighbors
    K.same("lattice vectors unchanged", np.array(ne), nb)
    p = m.H.H_r if hasattr(m, "H") else m.params
    c = 1e-9 * (1 + np.abs(p).max())
    K.ensure("shape kept", p.shape[1:] == (m.band_count() if hasattr(m, "band_count") else p.shape[-1],) * 2)
    K.ensure("coefficients are numbers", np.isfinite(p).all())
    K.eq("on-site matrix Hermitian", p[0], herm(p[0]), atol=c)
    Hk = m.H.f(k) if hasattr(m, "H") else m.f(k)
    K.eq("H(k) Hermitian", Hk, herm(Hk), atol=c)
    if hasattr(m, "H") and S is None:
        Sk = m.S.f(k)
        K.eq("the overlap stays the unit matrix", Sk, np.broadcast_to(np.eye(p.shape[-1]), Sk.shape), atol=1e-9)
    elif hasattr(m, "H"):
        z = np.zeros((1, nb.shape[1]))
        K.eq("overlap is one at the origin", m.S.f(z)[0], np.eye(p.shape[-1]), atol=1e-9)
        # the overlap only changes its basis: spectra of S(0)^-1 S(k) are kept
        s0, s1 = start.S.f(z)[0], m.S.f(z)[0]
        e0 = np.sort(np.linalg.eigvals(np.linalg.solve(s0, start.S.f(k))).real, axis=-1)
        e1 = np.sort(np.linalg.eigvals(np.linalg.solve(s1, m.S.f(k))).real, axis=-1)
        K.eq("overlap is not fitted", e1, e0, atol=1e-7)
    e, me = m.error(k, ref, wf, off)
    near(K, "last entry of the log is the loss of the fitted model", g.last_loss(), m.loss(k, ref, wf, off), 1e-8, 1e-10)
    near(K, "and its error", e, g.last_loss(), 1e-8, 1e-10)
    d = np.asarray(m.bands(k))[:, off:off + q] - ref
    near(K, "weighted mean square deviation", e, np.sqrt(((d * wf) ** 2).sum() / len(k)), 1e-8, 1e-9)
    K.eq("maximal deviations", g.stream[-1][2], np.abs(d).max(axis=0), atol=1e-8)
    near(K, "first entry of the log is the loss of the start model", g.loss[0], first, 1e-7, 1e-9)
    it = list(g.iterations)
    K.ensure("iterations are counted up to the limit", len(it) == len(g.loss) >= 1 and it[0] in (0, n) and all(x <= y for x, y in zip(it, it[1:])) and it[-1] <= n and g.iteration_count() == it[-1], lambda: (it, n))
    if n == 0:
        K.eq("no iterations keep the bands", m.bands(k), start.bands(k), atol=1e-7)
    if kw.get("batch_div", 1) == 1:
        K.ensure("every iteration is in the log", it == list(range(len(it))), lambda: it)
        for a, b_ in zip(g.loss[:-2], g.loss[1:-1]):
            K.ensure("goes on while the loss changes", b_ > 0 and abs(a / b_ - 1) >= thr * 0.999, lambda: (g.loss, thr))
        if it[-1] < n:
            a, b_ = (float("inf") if len(it) == 1 else g.loss[-2]), g.loss[-1]
            K.ensure("stops early only when converged", b_ < 1e-9 or abs(a / b_ - 1) < thr * 1.001 + 1e-9, lambda: (g.loss, thr))
        if len(it) > 1:
            j = K.rng.randrange(len(it) - 1)
            o = duplicate(start)
            h = fit(K, o, way, k, ref, w, off, j, False, kw)
            near(K, "a shorter run gives the loss logged by the longer one", h.last_loss(), g.loss[j], 1e-6, 1e-9 * (1 + first))
            near(K, "and the same history", np.array(h.loss[:-1]), np.array(g.loss[:j]), 1e-6, 1e-9 * (1 + first))


@contract("C19", covers=ALL, n=80, budget=10)
def solution_is_kept(K):
    """data the model already reproduces do not change it"""
    import numpy as np
    m, way, k, ref, w, off, kw, nb, S = case(K)
    before = np.array(m.bands(k))
    x = K.nrng.uniform(-1, 1, size=(7, nb.shape[1]))
    bx = np.array(m.bands(x))
    g = fit(K, m, way, k, ref, w, off, K.rng.choice([1, 2, 5]), False, kw)
    K.eq("bands at the samples", m.bands(k), before, atol=1e-6)
    K.eq("bands everywhere", m.bands(x), bx, atol=1e-6)
    K.le("loss stays zero", g.last_loss(), 1e-6)


@contract("C19", covers=[A + "optimize", B + "optimize"], n=80, budget=10)
def descent(K):
    """without momentum and with all bands given the loss never increases (Hoffman-Wielandt)"""
    import numpy as np
    nb = lattice(K)
    n = K.rng.choice([1, 2, 3, 5])
    kind = K.rng.choice(["asym", "asym", "bs"])
    m = build(K, nb, spread(K, nb, n, K.rng.choice([0.3, 3.0, 10.0])), None, kind)
    k = K.nrng.uniform(-0.5, 0.5, size=(K.rng.randint(1, 14), nb.shape[1]))
    if K.rng.random() < 0.6:
        k = samples(K, nb, K.rng.randint(0, 6))
    F = np.exp(2j * np.pi * k @ nb.T)
    s = np.linalg.svd(F, compute_uv=False)
    K.assume(s[-1] > 0.03 * s[0])
    ref = np.sort(K.nrng.normal(size=(len(k), n)) * 3, axis=1)
    pinv = kind == "bs" or K.rng.random() < 0.5
    kw = {"use_pinv": pinv, "max_accel_global": 1.0, "convergence_threshold": 0.0, "learning_rate": K.rng.choice([1.0, 1.0, 0.3])}
    if kind == "bs":
        # cos/sin parametrisations: independent on the samples as well
        c = np.array([m.f_i(k, i) for i in range(len(m.params))]).T
        t = np.linalg.svd(c, compute_uv=False)
        K.assume(t[-1] > 0.03 * t[0])
        kw["kw"] = K.rng.choice([1.0, 3.0])
    g = fit(K, m, "gd", k, ref, K.rng.choice([1.0, 1.7]), 0, 8, False, kw)
    for a, b in zip(g.loss, g.loss[1:]):
        K.le("loss does not increase", b, a * (1 + 1e-6) + 1e-9)
    if len(k) == 1 and kw["learning_rate"] == 1.0:
        K.eq("one k-point is met in one step", m.bands(k), ref, atol=1e-6)


def design(m, k, nb):
    """the real functions a one-band model is a combination of"""
    import numpy as np
    x = 2 * np.pi * k @ nb[1:].T
    F = np.concatenate([np.ones((len(k), 1)), np.cos(x), np.sin(x)], axis=1)
    if hasattr(m, "H"):
        return F / np.real(m.S.f(k)[:, 0])
    return F


@contract("C19", covers=ALL, n=80, budget=12)
def least_squares(K):
    """a single band depends linearly on the parameters: the fit is the least squares solution"""
    import numpy as np
    from contracts.models import overlap as ov
    nb = lattice(K)
    kind = K.rng.choice(["asym", "asym", "bs"])
    way = K.rng.choice(["cg", "cg", "gd"])
    S = ov(K, nb, 1) if kind == "asym" and way == "cg" and K.rng.random() < 0.4 else None
    m = build(K, nb, spread(K, nb, 1, 1.0), S, kind)
    k = samples(K, nb, K.rng.randint(0, 8) + (6 * len(nb) if way == "gd" else 0))
    ref = K.nrng.normal(size=(len(k), 1)) * 2
    w = K.rng.choice([1.0, 2.5])
    F = design(m, k, nb)
    if way == "cg":
        kw = {"precond": K.rng.random() < 0.6, "max_cg_iterations": 60, "convergence_threshold": 0.0}
        g = fit(K, m, way, k, ref, w, 0, 6, False, kw)
    else:
        kw = {"use_pinv": True, "max_accel_global": 1.0, "convergence_threshold": 0.0}
        g = fit(K, m, way, k, ref, w, 0, 150, False, kw)
    x = np.linalg.lstsq(F, ref, rcond=None)[0]
    best = np.sqrt(((F @ x - ref) ** 2).sum() / len(k)) * w
    K.eq("bands are the projection of the data", m.bands(k), F @ x, atol=1e-4)
    K.le("smallest possible loss", g.last_loss(), best * (1 + 1e-6) + 1e-4)


@contract("C19", covers=ALL, n=60, budget=12)
def recovery(K):
    """bands of a model next to the start model are found"""
    import numpy as np
    from contracts.models import overlap as ov
    nb = lattice(K)
    n = K.rng.choice([2, 3, 4])
    kind = K.rng.choice(["asym", "asym", "bs"])
    H = spread(K, nb, n, 0.3)
    S = ov(K, nb, n) if kind == "asym" and K.rng.random() < 0.4 else None
    P = spread(K, nb, n, 0.3)
    P[0] -= np.diag(np.diag(P[0]))
    eps = 1e-3
    m, t = build(K, nb, H, S, kind), build(K, nb, H + eps * P, S, kind)
    k = samples(K, nb, 2 * len(nb) + K.rng.randint(0, 6))
    off = K.rng.randint(0, n - 1)
    q = K.rng.randint(1, n - off)
    ref = np.array(t.bands(k))[:, off:off + q]
    w = K.rng.choice([1.0, "list"])
    if w == "list":
        w = K.nrng.uniform(0.5, 1.5, size=q)
    first = m.loss(k, ref, np.broadcast_to(w, (q,)), off)
    K.assume(first > 1e-6)
    g = fit(K, m, "cg", k, ref, w, off, 8, False, {"precond": K.rng.random() < 0.6, "max_cg_iterations": 60, "convergence_threshold": 0.0, "loss_threshold": 1e-10})
    K.le("data are reproduced", g.last_loss(), 0.02 * first)


@contract("C19", covers=ALL + [A + "randomize", B + "randomize"], n=60, budget=8)
def zeros_are_kept(K):
    import numpy as np
    nb = lattice(K)
    n = K.rng.choice([2, 3, 4])
    kind = K.rng.choice(["asym", "asym", "bs"])
    H = spread(K, nb, n, 0.3)
    if kind == "asym":
        c = K.rng.randint(1, n - 1)
        mask = np.zeros((n, n), dtype=bool)
        mask[:c, :c] = mask[c:, c:] = True
    else:
        mask = np.eye(n, dtype=bool)
    H = np.where(mask, H, 0)
    m = build(K, nb, H, None, kind)
    k = samples(K, nb, K.rng.randint(0, 6))
    ref = np.sort(np.array(m.bands(k)) + 0.1 * K.nrng.normal(size=(len(k), n)), axis=1)
    way = K.rng.choice(["cg", "gd"])
    fit(K, m, way, k, ref, 1.0, 0, 4, False, {"keep_zeros": True})
    p = m.H.H_r if kind == "asym" else m.params
    K.eq("zeros are kept", np.where(mask, 0, p), 0 * p, atol=1e-9)
    # the same for random changes
    t = build(K, nb, H, None, kind)
    np.random.seed(K.rng.randrange(2 ** 31))
    z = (t.H.H_r if kind == "asym" else t.params)
    z = np.abs(z) == 0
    old = np.array(t.H.H_r if kind == "asym" else t.params)
    s = K.rng.choice([0.0, 0.01, 1.0])
    t.randomize(s, keep_zeros=True)
    p = t.H.H_r if kind == "asym" else t.params
    K.ensure("randomize keeps zeros", np.all(p[z] == 0))
    if s == 0:
        K.same("no randomisation", np.array(p), old.astype(p.dtype))
    elif (~z).any():
        K.ensure("randomize changes the rest", np.all(p[np.abs(old) > 1e-7] != old[np.abs(old) > 1e-7]))
        K.le("by about the given amount", np.abs(p - old).max(), 8 * s)


@contract("C19", covers=[A + "randomize"], n=40, budget=4)
def randomisation(K):
    import numpy as np
    t = K.mod("tight_binding_asym")
    nb = lattice(K)
    n = K.rng.choice([1, 2, 3])
    H = spread(K, nb, n, 0.3, real=K.rng.random() < 0.4)
    own = K.rng.random() < 0.5
    if own:
        m = t.AsymTightBindingModel(t.HermitianFourierSeries(nb, H.copy()))
    else:
        m = t.AsymTightBindingModel.new(nb, n)
        H = np.zeros((len(nb), n, n))
    S0 = np.array(m.S.H_r)
    np.random.seed(K.rng.randrange(2 ** 31))
    both = K.rng.random() < 0.5
    zeros = K.rng.random() < 0.3
    m.randomize(0.1, keep_zeros=zeros, randomize_S=both)
    if zeros:
        K.ensure("zeros kept", np.all(m.H.H_r[H == 0] == 0) and np.all(m.S.H_r[S0 == 0] == 0))
    else:
        K.ensure("every coefficient changes", np.all(m.H.H_r != H))
        K.ensure("overlap changes if asked for", np.all(m.S.H_r != S0) if both else np.all(m.S.H_r == S0))
    K.le("by about the given amount", max(np.abs(m.H.H_r - H).max(), np.abs(m.S.H_r - S0).max()), 1.0)
    K.same("lattice vectors unchanged", m.H.neighbors, nb)


@contract("C19", covers=[B + "optimize", B + "optimize_cg", B + "normalize"], n=40, budget=15)
def symmetric_fit(K):
    """with a symmetrizer the fitted model has the symmetry"""
    import numpy as np
    S = K.mod("symmetry").Symmetry
    HS = K.mod("hamiltonian_symmetry").HamiltonianSymmetry
    b = K.mod("bandstructure")
    d, sym = K.rng.choice([(1, S.inv(1)), (2, S.square()), (2, S.inv(2)), (3, S.cubic(True)), (3, S.inv(3))])
    h = HS(sym)
    h.append_s((0,) * d, "s")
    n = 1
    if K.rng.random() < 0.6:
        h.append_p((0,) * d, "p")
        n += d
    nb = sym.complete_neighbors([(0,) * d, (1,) + (0,) * (d - 1)] + ([(1, 1) + (0,) * (d - 2)] if d > 1 and K.rng.random() < 0.3 else []))
    nb = np.asarray(nb, dtype=float)
    f = h.symmetrizer(nb)
    H = spread(K, nb, n, 0.5)
    H = f(H)
    m = b.BandStructureModel.init_tight_binding(S.none(d), nb, n, cos_reduced=False, exp=True)
    m.params = H.astype(complex)
    m.symmetrizer = f
    k = K.nrng.uniform(-0.5, 0.5, size=(2 * len(nb) + 3, d))
    ref = np.sort(np.array(m.bands(k)) + 0.2 * K.nrng.normal(size=(len(k), n)), axis=1)
    way = K.rng.choice(["cg", "gd"])
    first = m.loss(k, ref, np.ones(n), 0)
    g = fit(K, m, way, k, ref, 1.0, 0, 3, False, {"use_pinv": K.rng.random() < 0.5} if way == "gd" else {"precond": False})
    c = 1e-9 * (1 + np.abs(m.params).max())
    K.eq("parameters are symmetric", f(np.array(m.params)), m.params, atol=10 * c)
    near(K, "first loss", g.loss[0], first, 1e-7, 1e-9)
    x = K.nrng.uniform(-1, 1, size=(3, d))
    e = m.bands(x)
    for s in sym.S[:24]:
        K.eq("bands have the symmetry", m.bands(x @ np.asarray(s).T), e, atol=1e-6)
    K.eq("inversion", m.bands(-x), e, atol=1e-6)


@contract("C19", covers=[B + "init_tight_binding_from_ref", B + "init_from_ref"], n=40, budget=5)
def start_from_reference(K):
    import numpy as np
    b = K.mod("bandstructure").BandStructureModel
    S = K.mod("symmetry").Symmetry
    nb = lattice(K)
    d = nb.shape[1]
    q = K.rng.choice([1, 2, 4])
    k = K.nrng.uniform(-0.5, 0.5, size=(K.rng.randint(1, 6), d))
    g = K.rng.randrange(len(k))
    k[g] = 0
    ref = np.sort(K.nrng.normal(size=(len(k), q)), axis=1) * 4
    k0, r0, n0 = k.copy(), ref.copy(), nb.copy()
    add = K.rng.randint(0, 3)
    off = K.rng.randint(0, add)
    m = b.init_tight_binding_from_ref(S.none(d), nb, k, ref, off, add, cos_reduced=K.rng.random() < 0.5, exp=K.rng.random() < 0.5)
    K.same("k-points unchanged", k, k0)
    K.same("reference bands unchanged", ref, r0)
    K.same("lattice vectors unchanged", nb, n0)
    K.ensure("number of bands", m.band_count() == q + add and m.params[0].shape == (q + add, q + add))
    K.eq("on-site energies are the reference bands at the origin", np.diagonal(m.params[0])[off:off + q], ref[g], atol=1e-12)
    want = np.diag(np.concatenate([[ref[g][0]] * off, ref[g], [ref[g][-1]] * (add - off)]))
    K.eq("added bands lie at the ends", m.params[0], want, atol=1e-12)
    K.eq("couplings are Hermitian", m.params, herm(m.params), atol=1e-12)
    K.le("and small", np.abs(np.asarray(m.params)[1:]).max() if len(m.params) > 1 else 0.0, 0.02)


@contract("C19", covers=["tight_binding_asym:autofit_asym"], n=4, budget=40, thorough=2)
def automatic_fit(K):
    import os
    import tempfile
    import numpy as np
    t = K.mod("tight_binding_asym")
    S = K.mod("symmetry").Symmetry
    d = K.rng.choice([1, 2])
    sym = S.inv(1) if d == 1 else S.square()
    src = [(0,), (1,), (2,), (3,)] if d == 1 else [(0, 0), (1, 0), (1, 1), (2, 0)]
    full = sym.complete_neighbors(src)
    nb = np.asarray(full, dtype=float)
    n = K.rng.choice([1, 2])
    H = spread(K, nb, n, 0.3, real=True)
    H = (H + herm(H)) / 2
    m = t.AsymTightBindingModel(t.HermitianFourierSeries(nb, H))
    k = K.nrng.uniform(-0.5, 0.5, size=(160, d))
    k[4] = 0
    ref = np.array(m.bands(k))
    below, above = K.rng.choice([(0, 0), (0, 0), (1, 0), (0, 1)])
    k0, r0 = k.copy(), ref.copy()
    np.random.seed(K.rng.randrange(2 ** 31))
    start = K.rng.choice([1, 2])
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            o = t.autofit_asym("x", src, k, ref, [1.0] * n, sym, start_neighbors_count=start, add_bands_below=below, add_bands_above=above, randomize=K.rng.random() < 0.5, restarts=1)
            files = sorted(os.listdir(tmp))
            back = t.AsymTightBindingModel.load("asym_x_4.json") if "asym_x_4.json" in files else None
        finally:
            os.chdir(cwd)
    K.same("k-points unchanged", k, k0)
    K.same("reference bands unchanged", ref, r0)
    K.ensure("number of bands", o.H.H_r.shape[1] == n + below + above)
    K.ensure("all shells are used", len(o.H.neighbors) == len(full) and all(min(np.linalg.norm(np.asarray(o.H.neighbors) - s * v, axis=1).min() for s in (1, -1)) < 1e-9 for v in nb), lambda: o.H.neighbors)
    K.ensure("check points are saved", set(files) == {"asym_x_start.json"} | {"asym_x_%d.json" % i for i in range(start + 1, 5)}, lambda: files)
    K.eq("the last one is the result", back.bands(k), o.bands(k), atol=1e-7)
    l = o.loss(k, ref, np.ones(n), below)
    K.le("the fit is much better than constant bands", l, 0.3 * np.sqrt(((ref - ref.mean(axis=0)) ** 2).sum() / len(k)) + 1e-6)


@contract("C19", covers=[L + "__init__", L + "add_data", L + "add_message", L + "abort", L + "iteration_count", L + "last_loss"], n=60, budget=4)
def logging(K):
    """any sequence of entries is kept in order"""
    import numpy as np
    G = K.mod("logger").OptimisationLogger
    g = G(print_loss=K.rng.random() < 0.6, update_line=K.rng.random() < 0.5, verbose=K.rng.random() < 0.5)
    g.count = K.rng.random() < 0.3
    K.ensure("empty", g.iteration_count() == -1)
    want, losses, its = [], [], []
    ab = False
    for _ in range(K.rng.randint(1, 12)):
        x = K.rng.random()
        if x < 0.7:
            i = K.rng.randint(0, 9)
            n = K.rng.randint(1, 4)
            e = np.abs(K.nrng.normal(size=n)) * K.rng.choice([0, 1, 1, 1e-12, 1e9])
            if K.rng.random() < 0.3:
                e[0] = 0
            l = float(np.sqrt((e ** 2).sum()))
            g.add_data(i, l, e)
            want.append((i, l, e))
            losses.append(l)
            its.append(len(its) if g.count else i)
        elif x < 0.95 or ab:
            g.add_message("m")
            want.append("m")
        else:
            g.abort()
            ab = True
            want.append("aborted")
    K.ensure("all entries in order", len(g.stream) == len(want) and all(a is b or a == b if isinstance(b, str) else a[0] == b[0] and a[1] == b[1] and a[2] is b[2] for a, b in zip(g.stream, want)))
    K.ensure("losses", g.loss == losses and g.iterations == its, lambda: (g.iterations, its))
    if losses:
        K.ensure("last loss", g.last_loss() == losses[-1] and g.iteration_count() == its[-1])
    K.ensure("aborted flag", g.aborted == ab)
    if ab:
        K.raises("aborted twice", ValueError, g.abort)
