"""C03 state counts"""
from pyvc.kit import contract

D = "density_of_states:"
SMEAR = ["cubes", "tetras", "spheres"]


def make_dos(K, bands=None, N=None, smear=None, A=None):
    import numpy as np
    from .models import band_model
    dosm = K.mod("density_of_states")
    r = K.nrng
    if A is None and r.random() < 0.4:
        A = np.eye(3) + 0.3 * r.normal(size=(3, 3))
        if np.linalg.det(A) < 0.2:
            A = np.diag(r.uniform(0.7, 2.0, size=3))
    m = band_model(K, bands, A)
    kw = {}
    kw["smearing"] = smear or SMEAR[int(r.integers(3))]
    kw["N"] = N or int(r.integers(3, 9))
    if r.random() < 0.25:
        kw["midpoint"] = True
    elif r.random() < 0.25:
        kw["wrap"] = False
    if A is not None:
        kw["A"] = A
    return m, dosm.DensityOfStates(m, **kw), kw


def energies(d, K, m=12):
    import numpy as np
    br = np.array(d.bands_range)
    lo, hi = br.min(), br.max()
    w = hi - lo + 1e-3
    e = list(K.nrng.uniform(lo - 0.1 * w, hi + 0.1 * w, size=m))
    for a, b in d.bands_range:
        e += [a, b, np.nextafter(a, -9e9), np.nextafter(a, 9e9), np.nextafter(b, 9e9), (a + b) / 2]
    return np.sort(np.array(e))


@contract("C03", covers=[D + "DensityOfStates.states_below", D + "DensityOfStates.states_below_band", D + "DensityOfStates.density"], n=14, budget=14)
def counts_bounded_monotone(K):
    import numpy as np
    m, d, kw = make_dos(K)
    nb = len(d.bands_range)
    K.ensure("one range per band", nb == d.bands.shape[-1] == d.model_bandcount(), lambda: (nb, d.bands.shape))
    for i, (a, b) in enumerate(d.bands_range):
        K.eq("band minimum", a, d.bands[..., i].min(), atol=1e-12)
        K.eq("band maximum", b, d.bands[..., i].max(), atol=1e-12)
    e0, e1 = d.energy_range()
    K.eq("lowest energy", e0, d.bands.min(), atol=1e-9)
    K.eq("highest energy", e1, d.bands.max(), atol=1e-9)
    last = None
    for e in energies(d, K):
        s = d.states_below(e)
        K.le("states >= 0", 0, s, tol=1e-6)
        K.le("states <= bands", s, nb, tol=1e-6)
        K.le("density >= 0", 0, d.density(e), tol=1e-7)
        if last is not None:
            K.le("monotone", last, s, tol=2e-5)
        last = s
        for i in range(nb):
            b = d.states_below_band(e, i)
            K.le("band states >= 0", 0, b, tol=1e-6)
            K.le("band states <= 1", b, 1, tol=1e-6)
    K.same("nothing below the lowest energy", d.states_below(e0 - 1e-9), 0)
    K.same("nothing below far below", d.states_below(e0 - 100), 0)
    K.same("all states above the highest energy", d.states_below(e1 + 1e-9), nb)
    K.same("all states far above", d.states_below(e1 + 100), nb)
    K.same("no density outside", [d.density(e0 - 1), d.density(e1 + 1)], [0, 0])


@contract("C03", covers=[D + "DensityOfStates.states_density", D + "DensityOfStates.density_bands", D + "DensityOfStates.cut_band_indices"], n=14, budget=12)
def query_agreement(K):
    import numpy as np
    m, d, kw = make_dos(K)
    nb = len(d.bands_range)
    for e in energies(d, K):
        s, g = d.states_below(e), d.density(e)
        sb = [d.states_below_band(e, i) for i in range(nb)]
        gb = [d.density_band(e, i) for i in range(nb)]
        K.eq("states are the sum of the band states", s, sum(sb), atol=1e-9)
        K.eq("density is the sum of the band densities", g, sum(gb), tol=1e-9)
        K.eq("density_bands", d.density_bands(e), gb, tol=1e-12)
        p = d.states_density(e)
        K.eq("combined query: states", p[0], s, atol=1e-8)
        K.eq("combined query: density", p[1], g, tol=1e-8)
        cut = list(d.cut_band_indices(e))
        want = [i for i, (a, b) in enumerate(d.bands_range) if a < e < b]
        K.ensure("cut bands are exactly those whose range strictly contains the energy", cut == want, lambda: (cut, want))
        for i in range(nb):
            a, b = d.bands_range[i]
            if a < e < b:
                # fraction of the cells, by an independent evaluation of the sampled band
                K.eq("band states are the mean cell fraction", sb[i], np.mean(d.smearing[i].volume(e)), atol=1e-9)
                K.eq("band density is the mean cell density", gb[i], np.mean(d.smearing[i].dvolume(e)), tol=1e-9)
            else:
                K.same("band empty or full outside its range", sb[i], 1.0 if e >= b else 0.0)
                K.same("no density outside the range", gb[i], 0.0)


@contract("C03", covers=[D + "DensityOfStates.__init__"], n=8, budget=12)
def sampled_bands(K):
    """the object samples the given model on the grid it documents"""
    import numpy as np
    m, d, kw = make_dos(K)
    N, wrap, mid = kw["N"], kw.get("wrap", True), kw.get("midpoint", False)
    A = kw.get("A", np.eye(3))
    ax = np.linspace(-0.5, 0.5, N, endpoint=False) + (0.5 / N if mid else 0) if wrap or mid else np.linspace(-0.5, 0.5, N + 1)
    c = np.stack(np.meshgrid(ax, ax, ax, indexing="ij"), axis=-1)
    K.eq("grid points", d.k_smpl @ A, c, atol=1e-9)
    K.eq("sampled bands", d.bands, m(d.k_smpl.reshape(-1, 3)).reshape(c.shape[:-1] + (-1,)), atol=1e-9)
    # each smearing object sees its own band on this grid
    sm = K.mod("smearing")
    e = float(np.mean(d.bands))
    B = np.linalg.inv(A).T
    for i in range(d.model_bandcount()):
        v = d.bands[..., i]
        ref = {"cubes": lambda: sm.CubesSmearing(d.k_smpl.copy(), A=A, values=v, wrap=wrap), "tetras": lambda: sm.TetraSmearing(values=v, wrap=wrap, B=B), "spheres": lambda: sm.SphereSmearing(d.k_smpl, values=v, B=B, wrap=wrap)}[kw["smearing"]]()
        K.eq("smearing of band", d.smearing[i].volume(e), ref.volume(e), atol=1e-9)


@contract("C03", covers=[D + "DensityOfStates.states_below", D + "DensityOfStates.density"], n=3, budget=15)
def free_band_count(K):
    """simple-cubic band: the count converges to the number of k-points below the energy"""
    import numpy as np
    dosm = K.mod("density_of_states")
    t = K.nrng.uniform(0.5, 2, size=3)
    f = lambda k: (2 * (t * np.cos(2 * np.pi * np.asarray(k))).sum(axis=-1))[..., None]
    ax = (np.arange(60) + 0.5) / 60
    g = np.stack(np.meshgrid(ax, ax, ax, indexing="ij"), axis=-1)
    v = f(g)[..., 0]
    for s in SMEAR:
        d = dosm.DensityOfStates(f, N=16, smearing=s)
        for e in K.nrng.uniform(v.min(), v.max(), size=4):
            K.eq("count (%s)" % s, d.states_below(e), np.mean(v < e), atol=0.012)
            h = 0.15
            K.eq("density (%s)" % s, np.mean([d.density(e + x) for x in np.linspace(-h, h, 9)]), np.mean(np.abs(v - e) < h) / (2 * h), atol=0.035)


@contract("C03", covers=[D + "DensityOfStates.__init__"], n=6, budget=15)
def gradient_variants(K):
    """analytic gradients / refined band ranges keep the same laws"""
    import numpy as np
    from .models import series
    tb = K.mod("tight_binding_asym")
    dosm = K.mod("density_of_states")
    nb, H = series(K, 3, int(K.nrng.integers(1, 4)), 3, cut=1.0)
    H = H + 0j
    H[0] += np.diag(np.arange(len(H[0])) * 2.0)
    m = tb.AsymTightBindingModel(tb.HermitianFourierSeries(nb, H))
    for kw in ({"smearing": "cubes"}, {"smearing": "cubes", "use_gradients": True}, {"smearing": "spheres", "use_gradients": True}, {"smearing": "tetras"}):
        d = dosm.DensityOfStates(m, N=6, **kw)
        n = d.model_bandcount()
        for i, (a, b) in enumerate(d.bands_range):
            K.le("refined minimum is not above the sampled one", a, d.bands[..., i].min(), tol=1e-7)
            K.le("refined maximum is not below the sampled one", d.bands[..., i].max(), b, tol=1e-7)
        last = 0
        lo, hi = d.energy_range()
        for e in np.linspace(lo - 0.1, hi + 0.1, 9):
            s, g = d.states_density(e)
            K.le("states >= 0", 0, s, tol=1e-6)
            K.le("states <= bands", s, n, tol=1e-6)
            K.le("monotone", last, s, tol=1e-5)
            K.le("density >= 0", 0, g, tol=1e-6)
            last = s
        K.same("empty below", d.states_below(lo - 1e-6), 0)
        K.same("full above", d.states_below(hi + 1e-6), n)


@contract("C03", covers=[D + "DensityOfStates.full_curve"], n=6, budget=10)
def full_curve(K):
    import numpy as np
    m, d, kw = make_dos(K)
    N = int(K.nrng.integers(2, 12))
    e, s, g = d.full_curve(N=N)
    K.ensure("energies ascending", np.all(np.diff(e) > 0))
    K.eq("range", [e[0], e[-1]], d.energy_range() if d.energy_range()[1] == max(b for a, b in d.bands_range) else [e[0], max(b for a, b in d.bands_range)], atol=1e-12)
    for i in range(0, len(e), 3):
        K.eq("states", s[i], d.states_below(e[i]), atol=1e-8)
        K.eq("density", g[i], d.density(e[i]), tol=1e-8)
    for a, b in d.bands_range:
        K.ensure("band edges sampled", np.min(np.abs(e - a)) < 1e-12 and np.min(np.abs(e - b)) < 1e-12)
    T = float(K.nrng.uniform(50, 3000))
    e, s, g = d.full_curve(N=N, T=T)
    K.le("smeared states >= 0", 0, s, tol=1e-6)
    K.le("smeared states <= bands", s, d.model_bandcount(), tol=1e-6)
    K.le("smeared states monotone", s[:-1], s[1:], tol=2e-5)
    K.le("smeared density >= 0", 0, g, tol=1e-6)


@contract("C03", covers=[D + "DensityOfStates.k_resolved_density"], n=6, budget=10)
def k_resolved(K):
    import numpy as np
    dosm = K.mod("density_of_states")
    m, d, kw = make_dos(K)
    lo, hi = d.energy_range()
    mu = float(K.nrng.uniform(lo, hi))
    v = d.k_resolved_density(mu, 0.0)
    K.eq("T=0: sum of the cell densities", v, sum(s.dvolume(mu) for s in d.smearing), tol=1e-9)
    T = float(10 ** K.nrng.uniform(2, 3.7))
    v = d.k_resolved_density(mu, T, N=15)
    K.ensure("one value per cell", v.shape == d.smearing[0].volume(mu).shape)
    K.le("density >= 0", 0, v, tol=1e-6)
    beta = 1 / (dosm.k_B * T)
    es = dosm._samples(lo, hi, mu, beta, 15)
    st = np.stack([sum(s.volume(e) for s in d.smearing) for e in es], axis=-1)
    h = 1e-4 / beta
    num = (dosm.convolve_df(mu + h, es, st, beta) - dosm.convolve_df(mu - h, es, st, beta)) / (2 * h)
    K.eq("derivative of the smeared state count", v, num, tol=1e-4)
