"""C01 cell-cut volume fractions"""
from pyvc.kit import contract

SM = "smearing:"


def grad(K, name):
    def g(k):
        r = k.rng
        if r.random() < 0.25:
            return r.choice([0.0, 0.0, 1.0, -1.0, 1e-3, 1e-6, 2.0])
        return r.choice([1e-4, 0.1, 1, 1, 10, 1e3]) * r.gauss(0, 1)
    return K.real(name, gen=g)


def unit_inputs(K):
    """what cube_precomp guarantees: clamped normalised moduli"""
    ax = K.real("ax", 1e-4, 1.0)
    ay = K.real("ay", 1e-4, 1.0)
    az = K.real("az", 1e-4, 1.0)
    if K.sym:
        K.assume(ax * ax + ay * ay + az * az <= 1 + 4e-8)
        K.assume(ax * ax + ay * ay + az * az >= 1 - 1e-9)
    else:
        import numpy as np
        n = np.sqrt(ax * ax + ay * ay + az * az)
        ax, ay, az = [max(1e-4, float(x / n)) for x in (ax, ay, az)]
    norm = K.real("norm", 1e-3)
    K.assume(norm > 0)
    return ax, ay, az, norm


@contract("C01", covers=[SM + "cube_precomp"], proof=True, n=100)
def cube_precomp_contract(K):
    ax, ay, az = grad(K, "ax"), grad(K, "ay"), grad(K, "az")
    f = K.mod("smearing").cube_precomp
    nx, ny, nz, n = f(K.np.asarray(ax), K.np.asarray(ay), K.np.asarray(az))
    for q in (nx, ny, nz):
        K.ensure("clamped below", q >= 1e-4)
        K.ensure("at most one", q <= 1)
    K.ensure("norm positive", n > 0)
    s2 = ax * ax + ay * ay + az * az
    K.le("norm is the gradient modulus", s2, n * n, tol=1e-9 * (1 + abs(s2)) if not K.sym else 0)
    rel = 0 if K.sym else 1e-12
    K.ensure("component times norm is at least the modulus (x)", nx * n >= abs(ax) * (1 - rel))
    K.ensure("component times norm is at least the modulus (y)", ny * n >= abs(ay) * (1 - rel))
    K.ensure("component times norm is at least the modulus (z)", nz * n >= abs(az) * (1 - rel))
    if not K.sym:
        s = s2 ** 0.5
        for q, a in ((nx, ax), (ny, ay), (nz, az)):
            K.eq("normalised component", q, max(1e-4, abs(a) / (s + 1e-40)), atol=1e-10)


def _vol(K, which):
    ax, ay, az, norm = unit_inputs(K)
    a0 = K.real("x") * norm
    sm = K.mod("smearing")
    if which == "volume":
        f = lambda a: sm.cube_cut_volume(K.np.asarray(a), ax, ay, az, norm)
    else:
        f = lambda a: sm.cube_cut_volume_dvolume(K.np.asarray(a), ax, ay, az, norm)[0]
    return ax, ay, az, norm, a0, f


def _bounds(K, which):
    ax, ay, az, norm, a0, f = _vol(K, which)
    v = f(a0)
    h = (ax + ay + az) / 2 * norm
    if a0 > h:
        K.eq("full above the band", v, 1, atol=1e-9)
    elif a0 < -h:
        K.eq("empty below the band", v, 0, atol=1e-9)
    else:
        K.le("volume >= 0", 0, v, tol=1e-9)
        K.le("volume <= 1", v, 1, tol=1e-9)


@contract("C01", covers=[SM + "cube_cut_volume"], proof=True, n=150)
def cube_volume_bounds(K):
    _bounds(K, "volume")


@contract("C01", covers=[SM + "cube_cut_volume_dvolume"], proof=True, n=150)
def cube_pair_volume_bounds(K):
    _bounds(K, "pair")


def _compl(K, which):
    ax, ay, az, norm, a0, f = _vol(K, which)
    if a0 > 0:
        K.eq("complement", f(-a0), 1 - f(a0), atol=1e-9)
    elif a0 < 0:
        K.eq("complement", f(-a0), 1 - f(a0), atol=1e-9)


@contract("C01", covers=[SM + "cube_cut_volume"], proof=True, n=80)
def cube_volume_complement(K):
    _compl(K, "volume")


@contract("C01", covers=[SM + "cube_cut_volume_dvolume"], proof=True, n=80)
def cube_pair_complement(K):
    _compl(K, "pair")


@contract("C01", covers=[SM + "cube_cut_dvolume", SM + "cube_cut_volume_dvolume"], proof=True, n=150)
def cube_density_nonnegative(K):
    """with C02 (density = derivative of the continuous volume) this makes the volume monotone"""
    ax, ay, az, norm = unit_inputs(K)
    a0 = K.real("x") * norm
    sm = K.mod("smearing")
    K.le("density >= 0", 0, sm.cube_cut_dvolume(K.np.asarray(a0), ax, ay, az, norm), tol=1e-9)
    K.le("density >= 0 (pair)", 0, sm.cube_cut_volume_dvolume(K.np.asarray(a0), ax, ay, az, norm)[1], tol=1e-9)


def _exact(K, which):
    """the volume fraction of {u in the centred unit cube: a0/norm + a.u > 0} by inclusion-exclusion over the eight corners"""
    ax, ay, az, norm, a0, f = _vol(K, which)
    x = a0 / norm
    if not K.sym and K.rng.random() < 0.5:
        h = (ax + ay + az) / 2
        x = min(h, 0.866) * (1 - 10.0 ** K.nrng.uniform(-4, 0)) * K.rng.choice([1, -1])
        a0 = x * norm
    K.assume(4 * x * x < 2.9999)
    h = (ax + ay + az) / 2
    K.assume(x <= h)
    K.assume(-x <= h)
    p = lambda y: (y if y > 0 else 0) ** 3
    y = x if x < 0 else -x
    # below the centre: corners -h..., at most the corners h, h-ax, h-ay, h-az and one h-ax-ay (etc.) are above
    s = p(y + h) - p(y + h - ax) - p(y + h - ay) - p(y + h - az) + p(y + h - ax - ay) + p(y + h - ax - az) + p(y + h - ay - az)
    s = s / (6 * ax * ay * az)
    K.eq("volume fraction of the half space in the cell", f(a0), s if x < 0 else 1 - s, atol=1e-7)


@contract("C01", covers=[SM + "cube_cut_volume"], proof=True, n=300, timeout=60)
def cube_volume_exact(K):
    _exact(K, "volume")


@contract("C01", covers=[SM + "cube_cut_volume_dvolume"], proof=True, n=300, timeout=60)
def cube_pair_exact(K):
    _exact(K, "pair")


@contract("C01", covers=[SM + "unit_sphere_cut"], proof=True, n=150)
def sphere_bounds(K):
    ax, ay, az = grad(K, "ax"), grad(K, "ay"), grad(K, "az")
    a0 = K.real("a0")
    f = K.mod("smearing").unit_sphere_cut
    v, dv = f(a0, ax, ay, az)
    K.le("volume >= 0", 0, v, tol=1e-12)
    K.le("volume <= 1", v, 1, tol=1e-12)
    K.le("density >= 0", 0, dv, tol=1e-12)
    w, _ = f(-a0, ax, ay, az)
    K.eq("complement", w, 1 - v, atol=1e-9)
    s2 = ax * ax + ay * ay + az * az
    if a0 > 0:
        if a0 * a0 > s2 * 0.38484 + 1e-20:
            K.eq("full above the band", v, 1, atol=1e-12)
    if a0 < 0:
        if a0 * a0 > s2 * 0.38484 + 1e-20:
            K.eq("empty below the band", v, 0, atol=1e-12)


@contract("C01", covers=[SM + "unit_sphere_cut"], proof=True, n=80)
def sphere_monotone(K):
    ax, ay, az = grad(K, "ax"), grad(K, "ay"), grad(K, "az")
    a0 = K.real("a0")
    b0 = a0 + K.real("step", 0)
    f = K.mod("smearing").unit_sphere_cut
    K.le("monotone", f(a0, ax, ay, az)[0], f(b0, ax, ay, az)[0], tol=1e-12)


# ----------------------------------------------------------------- concrete
def batch(K):
    """a batch of linear bands: offsets and gradients of every kind"""
    import numpy as np
    r = K.nrng
    n = 120
    g = r.normal(size=(3, n)) * 10.0 ** r.uniform(-3, 2, size=n)
    g[:, :6] = np.eye(3)[:, [0, 1, 2, 0, 1, 2]] * np.array([1, 1, 1, -2, 1e-3, 30.0])
    g[:, 6] = 0
    g[0, 7:12] = 0
    g[1, 10:15] = 0
    g[2, 14:17] = 0
    g[1, 17:20] = g[0, 17:20]
    g[2, 19:21] = -g[0, 19:21]
    g[:, 21] = g[0, 21]
    g[1, 22] = g[0, 22] * (1 + 1e-9)
    g[2, 23] = g[1, 23] + 1e-12
    g[:, 24] *= 1e6
    return g


def exact_cube(a0, g):
    """P(a0 + g.u > 0) for u uniform in the unit cube centred at 0: exact rational inclusion-exclusion"""
    from fractions import Fraction as F
    import itertools
    g = [abs(F(float(x))) for x in g]
    a0 = F(float(a0))
    nz = [x for x in g if x != 0]
    d = len(nz)
    if d == 0:
        return F(1) if a0 > 0 else F(0) if a0 < 0 else F(1, 2)
    tot = F(0)
    for s in itertools.product((0, 1), repeat=d):
        # volume where sum nz*u01 > t, t = sum/2 - a0
        t = sum(nz) / 2 + a0 - sum(x for x, b in zip(nz, s) if b)
        if t > 0:
            tot += (-1) ** sum(s) * t ** d
    p = F(1)
    for x in nz:
        p *= x
    f = 1
    for k in range(2, d + 1):
        f *= k
    return tot / (p * f)


@contract("C01", covers=[SM + "cube_cut_volume", SM + "cube_precomp", SM + "cube_cut_volume_dvolume"], n=4)
def cube_exact_volume(K):
    import numpy as np
    sm = K.mod("smearing")
    g = batch(K)
    n = g.shape[1]
    s = np.abs(g).sum(axis=0) / 2
    a0 = s * K.nrng.uniform(-1.3, 1.3, size=n)
    a0[::7] = 0
    a0[6] = [0.0, 0.3, -0.2][K.rng.randrange(3)]
    args = (a0.copy(),) + tuple(x.copy() for x in g)
    pre = sm.cube_precomp(*g)
    keep = [np.array(x) for x in pre]
    v = sm.cube_cut_volume(a0, *pre)
    v2, d2 = sm.cube_cut_volume_dvolume(a0, *pre)
    sm.cube_cut_dvolume(a0, *pre)
    K.same("offset array not modified", a0, args[0])
    for x, y in zip(g, args[1:]):
        K.same("gradient array not modified", x, y)
    for x, y in zip(pre, keep):
        K.same("precomputed array not modified", x, y)
    K.same("second evaluation", sm.cube_cut_volume(a0, *pre), v)
    ex = np.array([float(exact_cube(a, x)) for a, x in zip(a0, g.T)])
    K.eq("exact cut volume", v, ex, atol=4e-4)
    K.eq("exact cut volume (pair)", v2, ex, atol=4e-4)
    gen = np.min(np.abs(g), axis=0) / (np.sqrt((g ** 2).sum(axis=0)) + 1e-300) > 1.01e-4
    K.eq("exact cut volume of generic cells", v[gen], ex[gen], atol=1e-7)
    K.eq("exact cut volume of generic cells (pair)", v2[gen], ex[gen], atol=1e-7)


def tetra_args(K):
    import numpy as np
    g = batch(K)
    n = g.shape[1]
    lo = np.minimum(g.min(axis=0), 0)
    hi = np.maximum(g.max(axis=0), 0)
    # a0 + g.u over the unit tetrahedron ranges over [a0+lo, a0+hi]
    t = K.nrng.uniform(-0.3, 1.3, size=n)
    a0 = -(lo + (hi - lo) * t)
    return g, a0, t


def exact_tetra(a0, g):
    """volume fraction where a0+g.u > 0 in the unit tetrahedron, by the vertex formula in rationals"""
    from fractions import Fraction as F
    v = sorted([F(float(a0))] + [F(float(a0)) + F(float(x)) for x in g])
    # fraction below 0: V = 1 - below;  vertices values v0<=v1<=v2<=v3
    e = F(0)

    def below(v):
        a, b, c, d = v
        if e <= a:
            return F(0)
        if e >= d:
            return F(1)
        if e <= b:
            return (e - a) ** 3 / ((b - a) * (c - a) * (d - a))
        if e <= c:
            # standard Bloechl formula
            ba, ca, da, cb, db = b - a, c - a, d - a, c - b, d - b
            x = e - b
            return (ba ** 2 + 3 * ba * x + 3 * x ** 2 - (ca + db) / (cb * db) * x ** 3) / (ca * da)
        return 1 - (d - e) ** 3 / ((d - a) * (d - b) * (d - c))
    if len(set(v)) < 4:
        # split ties consistently by a tiny perturbation
        sc = max(abs(x) for x in v) or F(1)
        v = [x + sc * F(i, 10 ** 13) for i, x in enumerate(v)]
    return 1 - below(v)


@contract("C01", covers=[SM + "unit_tetra_cut_volume", SM + "tetra_cut_volume"], n=4)
def tetra_exact_volume(K):
    import numpy as np
    sm = K.mod("smearing")
    g, a0, t = tetra_args(K)
    keep = [a0.copy()] + [x.copy() for x in g]
    v = 6 * sm.unit_tetra_cut_volume(a0, *g)
    sm.unit_tetra_cut_dvolume(a0, *g)
    for x, y in zip([a0] + list(g), keep):
        K.same("arguments not modified", x, y)
    K.same("second evaluation", 6 * sm.unit_tetra_cut_volume(a0, *g), v)
    K.le("volume >= 0", 0, v, tol=1e-6)
    K.le("volume <= 1", v, 1, tol=1e-6)
    ex = np.array([float(exact_tetra(a, x)) for a, x in zip(a0, g.T)])
    flat = np.abs(g).sum(axis=0) == 0
    K.eq("exact cut volume", v[~flat], ex[~flat], atol=2e-6)
    w = 6 * sm.unit_tetra_cut_volume(-a0, *(-g))
    K.eq("complement", w[~flat], 1 - v[~flat], atol=2e-6)
    v4 = np.stack([a0, a0 + g[0], a0 + g[1], a0 + g[2]])
    p = K.nrng.permutation(4)
    w = 6 * sm.tetra_cut_volume(*v4[p])
    K.eq("independent of the vertex order", w[~flat], v[~flat], atol=2e-6)
    for eps in (1e-3, 1e-6):
        K.le("monotone", v, 6 * sm.unit_tetra_cut_volume(a0 + eps * np.abs(g).max(axis=0), *g), tol=1e-6)
    flatv = 6 * sm.unit_tetra_cut_volume(np.array([0.5, -0.5]), *np.zeros((3, 2)))
    K.eq("flat cell", flatv, [1, 0], atol=1e-9)


@contract("C01", covers=[SM + "cube_tetra_cut_volume", SM + "cube_tetra_cut_dvolume"], n=12)
def tetra_cube_volume(K):
    import numpy as np
    sm = K.mod("smearing")
    n = 60
    a = K.nrng.normal(size=(8, n))
    lin = K.rng.random() < 0.5
    if lin:
        g = K.nrng.normal(size=(3, n))
        a0 = K.nrng.normal(size=n) * 0.7
        # corner index bits: bit0 -> axis 0, bit1 -> axis 1, bit2 -> axis 2
        a = np.array([a0 + sum(g[j] * (((i >> j) & 1) - 0.5) for j in range(3)) for i in range(8)])
    keep = a.copy()
    v = sm.cube_tetra_cut_volume(a)
    K.same("corner array not modified", a, keep)
    K.le("volume >= 0", 0, v, tol=1e-6)
    K.le("volume <= 1", v, 1, tol=1e-6)
    K.eq("complement", sm.cube_tetra_cut_volume(-a), 1 - v, atol=1e-5)
    K.le("monotone", v, sm.cube_tetra_cut_volume(a + 0.01), tol=1e-6)
    K.eq("full", sm.cube_tetra_cut_volume(a + 100), 1, atol=1e-9)
    K.eq("empty", sm.cube_tetra_cut_volume(a - 100), 0, atol=1e-9)
    K.le("density >= 0", 0, sm.cube_tetra_cut_dvolume(a), tol=1e-6)
    if lin:
        ex = np.array([float(exact_cube(x, y)) for x, y in zip(a0, g.T)])
        K.eq("exact for linear bands", v, ex, atol=1e-5)


@contract("C01", covers=[SM + "cube_cut_volume", SM + "unit_sphere_cut"], n=6)
def cut_monotone_batch(K):
    import numpy as np
    sm = K.mod("smearing")
    g = batch(K)
    s = np.abs(g).sum(axis=0) / 2 + 1e-12
    pre = sm.cube_precomp(*g)
    last = None
    for t in np.linspace(-1.2, 1.2, 49):
        a0 = s * t
        v = sm.cube_cut_volume(a0, *pre)
        v2 = sm.cube_cut_volume_dvolume(a0, *pre)[0]
        sp = sm.unit_sphere_cut(a0, *g)[0]
        te = 6 * sm.unit_tetra_cut_volume(a0, *g)
        cur = (v, v2, sp, te)
        for nm, q in zip(("cube", "cube pair", "sphere", "tetra"), cur):
            K.le(nm + " >= 0", 0, q, tol=1e-6)
            K.le(nm + " <= 1", q, 1, tol=1e-6)
        if last is not None:
            for nm, q, l in zip(("cube", "cube pair", "sphere", "tetra"), cur, last):
                K.le(nm + " monotone", l, q, tol=1e-6)
        if abs(t) > 1.05:
            K.eq("cube outside the band", v, float(t > 0), atol=1e-4)
            K.eq("cube pair outside the band", v2, float(t > 0), atol=1e-4)
        last = cur


@contract("C01", covers=[SM + "CubesSmearing", SM + "TetraSmearing", SM + "SphereSmearing"], n=10)
def smearing_objects_volume(K):
    import numpy as np
    from .c02 import grid
    sm = K.mod("smearing")
    pos, A, B, vals, wrap, shape = grid(K)
    keep = (pos.copy(), A.copy(), vals.copy())
    objs = [sm.CubesSmearing(pos.copy(), A, vals, wrap=wrap), sm.TetraSmearing(vals, wrap, B), sm.SphereSmearing(pos, B, vals, wrap=wrap)]
    K.same("values not modified", vals, keep[2])
    lo, hi = vals.min(), vals.max()
    last = [None] * 3
    for e in np.linspace(lo - 0.1, hi + 0.1, 15):
        for i, o in enumerate(objs):
            v = o.volume(e)
            v1 = o.volume(e)
            K.same("evaluating twice gives the same", v, v1)
            K.le("volume >= 0", 0, v, tol=1e-6)
            K.le("volume <= 1", v, 1, tol=1e-6)
            if last[i] is not None:
                K.le("monotone", last[i], v, tol=1e-6)
            last[i] = v
            if e < lo and i == 1:
                K.eq("empty below", v, 0, atol=1e-4)
            if e > hi and i == 1:
                K.eq("full above", v, 1, atol=1e-4)
            w = o.dvolume(e)
            K.le("density >= 0", 0, w, tol=1e-6)
            K.same("density twice", w, o.dvolume(e))
    K.same("values not modified by queries", vals, keep[2])
