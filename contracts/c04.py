"""C04 Fermi energy, gap, chemical potential"""
from pyvc.kit import contract

D = "density_of_states:"


def make(K, gapped=None, bands=None, N=None, smear=None):
    """DoS of simple known bands: separable cosines with chosen offsets"""
    import numpy as np
    dosm = K.mod("density_of_states")
    r = K.nrng
    n = bands or int(r.integers(1, 5))
    t = r.uniform(0.05, 0.5, size=n) * r.choice([-1, 1], size=n)
    if gapped is None:
        gapped = r.random() < 0.5
    off = np.cumsum(np.concatenate([[r.normal()], r.uniform(6.5, 9, size=n - 1) * 1.0])) * 1.0 if gapped else np.sort(r.normal(size=n)) * 0.8
    if gapped:
        t = np.abs(t) * 1.0
    tr = r.uniform(0.5, 1.0, size=3)

    def f(k):
        c = (np.cos(2 * np.pi * np.asarray(k)) * tr).sum(axis=-1)[..., None]
        return np.sort(off + t * c * 2, axis=-1)
    kw = {"N": N or int(r.integers(6, 11)), "smearing": smear or ["cubes", "tetras", "spheres"][int(r.integers(3))]}
    return f, dosm.DensityOfStates(f, **kw)


def edges(d):
    return [(float(a), float(b)) for a, b in d.bands_range]


@contract("C04", covers=[D + "DensityOfStates.fermi_energy", D + "DensityOfStates.bandgap"], n=40, budget=12)
def gap_and_edges(K):
    import numpy as np
    f, d = make(K)
    # make some band edges touch or cross exactly
    n = d.model_bandcount()
    e = edges(d)
    for n_el in range(1, n):
        a, b = e[n_el - 1][1], e[n_el][0]
        for el in (n_el, float(n_el), np.float64(n_el)):
            if a < b:
                K.eq("gap middle", d.fermi_energy(el), (a + b) / 2, atol=1e-12)
                K.eq("gap size", d.bandgap(el), b - a, atol=1e-12)
            else:
                K.same("no gap", d.bandgap(el), 0.0)
        K.same("no gap for a fraction", d.bandgap(n_el + float(K.nrng.uniform(0.01, 0.99))), 0.0)
        K.same("no gap for a small fraction", d.bandgap(n_el - 1e-7), 0.0)
    K.same("empty", d.fermi_energy(0), e[0][0])
    K.same("full", d.fermi_energy(n), e[-1][1])
    K.same("empty", d.fermi_energy(0.0), e[0][0])
    K.same("full", d.fermi_energy(float(n)), e[-1][1])
    K.raises("too many electrons", AssertionError, d.fermi_energy, n + 0.1)
    K.raises("negative electrons", AssertionError, d.fermi_energy, -0.1)


@contract("C04", covers=[D + "DensityOfStates.fermi_energy", D + "DensityOfStates.bandgap"], n=30, budget=8)
def degenerate_bands(K):
    """exactly equal bands, separated from others"""
    import numpy as np
    dosm = K.mod("density_of_states")
    r = K.nrng
    n = int(r.integers(2, 6))
    lev = np.cumsum(r.choice([0.0, 0.0, 7.0], size=n))
    t = 0.5 * r.uniform(0.2, 1)

    def f(k):
        return np.sort(lev + t * np.cos(2 * np.pi * np.asarray(k)).sum(axis=-1)[..., None], axis=-1)
    d = dosm.DensityOfStates(f, N=6, smearing=K.rng.choice(["cubes", "tetras", "spheres"]))
    e = edges(d)
    for i in range(1, n):
        if lev[i] == lev[i - 1]:
            K.same("no gap between equal bands", d.bandgap(i), 0.0)
            K.eq("Fermi energy between equal bands", d.states_below(d.fermi_energy(i)), float(i), atol=1e-5)
        else:
            K.eq("gap above equal bands", d.bandgap(i), e[i][0] - e[i - 1][1], atol=1e-12)
            K.eq("gap middle above equal bands", d.fermi_energy(i), (e[i][0] + e[i - 1][1]) / 2, atol=1e-12)


@contract("C04", covers=[D + "DensityOfStates.fermi_energy", D + "DensityOfStates.bandgap"], n=30, budget=8)
def touching_bands(K):
    """exactly equal edges and inverted edges are no gap"""
    import numpy as np
    f, d = make(K, gapped=True, bands=3)
    br = [list(x) for x in d.bands_range]
    i = int(K.nrng.integers(1, 3))
    if K.rng.random() < 0.5:
        br[i][0] = br[i - 1][1]
    else:
        br[i][0] = br[i - 1][1] - float(K.nrng.uniform(0.001, 0.1))
    d.bands_range = [tuple(x) for x in br]
    K.same("no gap when the edges touch or overlap", d.bandgap(i), 0.0)
    d.bands_range[i] = (br[i - 1][1] + 1e-9, br[i][1])
    K.eq("tiny gap", d.bandgap(i), 1e-9, atol=1e-12)
    K.eq("tiny gap: middle", d.fermi_energy(i), br[i - 1][1] + 5e-10, atol=1e-12)


@contract("C04", covers=[D + "DensityOfStates.fermi_energy"], n=60, budget=18)
def fills_the_requested_states(K):
    import numpy as np
    f, d = make(K)
    n = d.model_bandcount()
    els = list(K.nrng.uniform(0, n, size=5)) + [K.nrng.uniform(0, 0.02), n - K.nrng.uniform(0, 0.02), K.rng.randint(0, n), round(float(K.nrng.uniform(0, n)), 1)]
    for el in els:
        el = float(min(max(el, 0), n))
        tol = float(10 ** K.nrng.uniform(-10, -6))
        try:
            ef = d.fermi_energy(el, tol=tol)
        except (ValueError, ArithmeticError):
            continue
        lo, hi = d.energy_range()
        slope = max(1.0, d.density(ef))
        K.eq("states below the Fermi energy", d.states_below(ef), el, atol=1e-6 + 20 * tol * slope)
        K.ensure("inside the energy range", lo - 1e-6 <= ef <= hi + 1e-6, lambda: (lo, ef, hi))


@contract("C04", covers=[D + "DensityOfStates.fermi_energy"], n=25, budget=14)
def usually_converges(K):
    """with the default number of steps the search succeeds away from band edges"""
    import numpy as np
    f, d = make(K, bands=1, N=8)
    el = float(K.nrng.uniform(0.1, 0.9))
    ef = d.fermi_energy(el)
    K.eq("states", d.states_below(ef), el, atol=1e-6)
    K.raises("too few steps raise", ValueError, d.fermi_energy, float(K.nrng.uniform(0.55, 0.8)), tol=1e-300, maxsteps=1)


def count(d, mu, T):
    """electron count by an independent quadrature of states_below * (-df/de)"""
    import numpy as np
    kB = 8.61733326214518e-5
    lo, hi = d.energy_range()
    kT = kB * T
    x = np.unique(np.clip(np.concatenate([np.linspace(lo, hi, 700), mu + kT * np.linspace(-40, 40, 900)] + [[a, b] for a, b in d.bands_range]), lo, hi))
    if len(x) < 2:
        return float(d.states_below(mu))
    s = np.array([d.states_below(e) for e in x])
    F = lambda e: np.logaddexp(0, (e - mu) / kT) * kT - (e - mu)    # antiderivative of the occupation, up to sign
    occ = lambda e: 1 / (1 + np.exp(np.clip((e - mu) / kT, -700, 700)))
    # exact integral of the piecewise linear count: sum of slopes times integral of the occupation
    sl = np.diff(s) / np.diff(x)
    integ = -(F(x[1:]) - F(x[:-1])) - 0.0
    integ = kT * (np.logaddexp(0, -(x[:-1] - mu) / kT) - np.logaddexp(0, -(x[1:] - mu) / kT))
    return float(s[0] * occ(x[0]) + np.sum(sl * integ))


@contract("C04", covers=[D + "DensityOfStates.chemical_potential", D + "secant"], n=24, budget=22)
def chemical_potential_count(K):
    import numpy as np
    f, d = make(K, smear=["cubes", "spheres"][K.rng.randrange(2)])
    n = d.model_bandcount()
    el = float(K.nrng.uniform(0.15, n - 0.15)) if K.rng.random() < 0.7 or n == 1 else float(K.rng.randint(1, n - 1))
    try:
        ef = d.fermi_energy(el)
    except (ValueError, ArithmeticError):
        K.assume(False)
    T = sorted(10 ** K.nrng.uniform(1, 4.3, size=int(K.nrng.integers(1, 5))))
    if K.rng.random() < 0.5:
        T = [0.0] + T
    if K.rng.random() < 0.3:
        K.nrng.shuffle(T)
    mu = d.chemical_potential(el, T, N=300)
    K.ensure("one value per temperature", len(mu) == len(T))
    for t, m in zip(T, mu):
        if t <= 0:
            K.same("T<=0 gives the Fermi energy", m, ef)
        else:
            K.eq("electron count at T=%g" % t, count(d, m, t), el, atol=2e-4 * n)
    if len(T) > 1 and K.rng.random() < 0.5:
        one = [float(d.chemical_potential(el, [t], N=300)[0]) for t in T]
        for t, m, o in zip(T, mu, one):
            if t > 0:
                K.eq("batched and single agree in count at T=%g" % t, count(d, m, t), count(d, o, t), atol=2e-4 * n)


@contract("C04", covers=[D + "DensityOfStates.chemical_potential"], n=8, budget=15)
def chemical_potential_fine_grid(K):
    """many close temperatures: the stored sample distribution must follow the temperature"""
    import numpy as np
    f, d = make(K, bands=1, gapped=True, N=8, smear="cubes")
    el = float(K.nrng.uniform(0.15, 0.45))
    T0 = float(K.nrng.uniform(40, 120))
    T = T0 * 1.03 ** np.arange(90)
    if K.rng.random() < 0.4:
        T = T[::-1]
    mu = d.chemical_potential(el, T, N=120)
    for i in (0, 20, 45, 70, 88, 89):
        K.eq("electron count at T=%g" % T[i], count(d, mu[i], T[i]), el, atol=1e-4)
    K.eq("negative temperatures give the Fermi energy", d.chemical_potential(el, [-5.0, 0.0]), [d.fermi_energy(el)] * 2, atol=0)


@contract("C04", covers=[D + "secant"], n=80, budget=4)
def secant_solves(K):
    import numpy as np
    secant = K.mod("density_of_states").secant
    r = K.nrng
    c = r.uniform(0.5, 3)
    s = r.choice([-1.0, 1.0])
    d = r.uniform(0, 0.4)
    f = lambda x: s * (c * x + d * np.sin(x)) + 0.3
    y = float(r.normal())
    tol = float(10 ** r.uniform(-12, -5))
    x = secant(y, f, float(r.normal()), float(r.normal()) + 3, tol=tol)
    K.eq("solves f(x) = y", f(x), y, atol=tol + 1e-12)
    x = secant(f(0.5), f, 0.5, 0.7)
    K.eq("a start value that solves the equation", f(x), f(0.5), atol=1e-12)
    x = secant(f(0.5), f, 0.9, 0.5)
    K.eq("a start value that solves the equation", f(x), f(0.5), atol=1e-12)


@contract("C04", covers=[D + "DensityOfStates.seebeck"], n=5, budget=14)
def seebeck(K):
    """temperature derivative of the chemical potential at a fixed number of electrons"""
    import numpy as np
    kB = 8.61733326214518e-5
    nb = int(K.nrng.integers(1, 3))
    c, o = K.nrng.normal(size=(nb, 4)), K.nrng.normal(size=nb) * 0.5

    def f(k):
        k = 2 * np.pi * np.asarray(k)
        x = np.stack([np.cos(k[..., 0]), np.cos(k[..., 1]), np.cos(k[..., 2]), np.cos(k[..., 0] + k[..., 1])], axis=-1)
        return np.sort(o + x @ c.T, axis=-1)
    d = K.mod("density_of_states").DensityOfStates(f, N=8)
    x = np.unique(np.concatenate([np.linspace(a, b, 1000) for a, b in d.bands_range]))
    s = np.array([d.states_below(e) for e in x])
    xm, ds = (x[1:] + x[:-1]) / 2, np.diff(s)
    electrons = float(K.nrng.uniform(0.2, nb - 0.2))

    def mu(T):
        a, b = x[0] - 5, x[-1] + 5
        for _ in range(60):
            m = (a + b) / 2
            a, b = (m, b) if np.sum(ds / (1 + np.exp(np.clip((xm - m) / (kB * T), -700, 700)))) < electrons else (a, m)
        return a
    Ts = np.sort(K.nrng.uniform(1500, 6000, size=int(K.nrng.integers(1, 4))))
    want = np.array([(mu(1.01 * T) - mu(0.99 * T)) / (0.02 * T) for T in Ts])
    if K.rng.random() < 0.5:
        Ts, want = np.concatenate([[0.0], Ts]), np.concatenate([[0.0], want])
    keep = Ts.copy()
    got = d.seebeck(electrons, Ts, N=200)
    K.ensure("one value per temperature", np.shape(got) == np.shape(Ts))
    K.same("temperatures unchanged", Ts, keep)
    for T, g, v in zip(Ts, got, want):
        K.eq("derivative of the chemical potential", g, v, atol=0.04 * abs(v) + 4e-7)
    K.eq("list of temperatures, smaller sampling", d.seebeck(electrons, list(Ts)), got, atol=0.1 * np.abs(want).max() + 2e-6)
