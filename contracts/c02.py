"""C02 density is the derivative of the volume; corner gathering"""
from pyvc.kit import contract
from .c01 import grad, unit_inputs, batch, tetra_args, SM


ORDERS = ["xyz", "xzy", "yxz", "yzx", "zxy", "zyx"]


def cube_regions(K, ax, ay, az, u, order):
    """case distinction for the proof: order of the moduli (one contract per order, together
    they cover every input), and the piece of the piecewise cubic the energy lies in"""
    if not K.sym:
        return
    d = {"x": ax, "y": ay, "z": az}
    a, b, c = [d[k] for k in order]
    K.assume(a <= b)
    K.assume(b <= c)
    w = u if u > 0 else -u
    if w >= 3 ** .5 / 2 or w >= (a + b + c) / 2 or w >= (-a + b + c) / 2 or w >= (a - b + c) / 2:
        return
    if w >= (a + b - c) / 2:
        if w >= (c - a - b) / 2:
            return


def _cube_derivative(K, order):
    ax, ay, az, norm = unit_inputs(K)
    x = K.real("x")
    sm = K.mod("smearing")
    if not K.sym:
        x = x * norm
        brk = [(sx * ax + sy * ay + sz * az) / 2 * norm for sx in (1, -1) for sy in (1, -1) for sz in (1, -1)]
        K.assume(min(abs(x - b) for b in brk + [0.0]) > 1e-4 * norm and min(ax, ay, az) > 5e-3)
        f = lambda t: sm.cube_cut_volume(K.np.asarray(t), ax, ay, az, norm)
        K.deriv("density = d volume", f, x, sm.cube_cut_dvolume(K.np.asarray(x), ax, ay, az, norm), h=2e-5 * norm)
        return
    # x: energy in units of the gradient modulus
    K.assume(K.np.logical_or(x > 0, x < 0))
    cube_regions(K, ax, ay, az, x, order)
    f = lambda t: sm.cube_cut_volume(K.np.asarray(t * norm), ax, ay, az, norm)
    K.deriv("density = d volume", f, x, sm.cube_cut_dvolume(K.np.asarray(x * norm), ax, ay, az, norm) * norm)


def _cube_pair(K, order):
    ax, ay, az, norm = unit_inputs(K)
    x = K.real("x")
    cube_regions(K, ax, ay, az, x, order)
    a0 = x * norm
    sm = K.mod("smearing")
    v, d = sm.cube_cut_volume_dvolume(K.np.asarray(a0), ax, ay, az, norm)
    K.eq("volume", v, sm.cube_cut_volume(K.np.asarray(a0), ax, ay, az, norm), atol=1e-9)
    K.eq("density", d, sm.cube_cut_dvolume(K.np.asarray(a0), ax, ay, az, norm), tol=1e-9)


for _o in ORDERS:
    contract("C02", covers=[SM + "cube_cut_volume", SM + "cube_cut_dvolume"], proof=True, n=20, paths=400, name="cube_derivative_" + _o)(lambda K, _o=_o: _cube_derivative(K, _o))
    contract("C02", covers=[SM + "cube_cut_volume_dvolume"], proof=True, n=20, paths=400, name="cube_pair_agrees_" + _o)(lambda K, _o=_o: _cube_pair(K, _o))


@contract("C02", covers=[SM + "unit_sphere_cut"], proof=True, n=100)
def sphere_derivative(K):
    ax, ay, az = grad(K, "ax"), grad(K, "ay"), grad(K, "az")
    a0 = K.real("a0")
    f = K.mod("smearing").unit_sphere_cut
    s2 = ax * ax + ay * ay + az * az
    K.assume(s2 > 1e-12)
    if not K.sym:
        n = s2 ** 0.5
        K.assume(abs(abs(a0) - 0.6203504908 * n) > 1e-3 * n)
        K.deriv("density = d volume", lambda t: f(t, ax, ay, az)[0], a0, f(a0, ax, ay, az)[1], h=1e-4 * n)
    else:
        n = K.np.sqrt(s2)
        r = 0.620350490899
        K.assume(K.np.logical_or(abs(a0) > (r + 1e-9) * n, abs(a0) < (r - 1e-9) * n))
        bool(a0 > 0)
        bool(abs(a0) > r * n)
        K.deriv("density = d volume", lambda t: f(t, ax, ay, az)[0], a0, f(a0, ax, ay, az)[1], rel=1e-14)


@contract("C02", covers=[SM + "unit_tetra_cut_volume", SM + "unit_tetra_cut_dvolume", SM + "tetra_cut_dvolume"], n=6)
def tetra_derivative(K):
    import numpy as np
    sm = K.mod("smearing")
    g, a0, t = tetra_args(K)
    n = np.sqrt((g ** 2).sum(axis=0))
    srt = np.sort(np.concatenate([np.zeros((1, g.shape[1])), g]), axis=0)
    gap = np.min(np.diff(srt, axis=0), axis=0) / (n + 1e-300)
    brk = np.min(np.abs(a0 + np.concatenate([np.zeros((1, g.shape[1])), g])), axis=0) / (n + 1e-300)
    ok = (gap > 0.03) & (brk > 1e-3)
    K.assume(np.any(ok))
    g, a0, n = g[:, ok], a0[ok], n[ok]
    h = 2e-4 * n
    f = lambda x: sm.unit_tetra_cut_volume(x, *g)
    num = (8 * (f(a0 + h) - f(a0 - h)) - (f(a0 + 2 * h) - f(a0 - 2 * h))) / (12 * h)
    d = sm.unit_tetra_cut_dvolume(a0, *g)
    K.eq("density = d volume", d * n, num * n, atol=2e-4)
    v4 = np.stack([a0, a0 + g[0], a0 + g[1], a0 + g[2]])
    K.eq("arbitrary tetrahedron", sm.tetra_cut_dvolume(*v4) * n, d * n, atol=1e-6)


def grid(K, even=False, mn=2):
    """random rectilinear grid data"""
    import numpy as np
    r = K.nrng
    shape = tuple(int(r.integers(mn, 6)) for _ in range(3))
    if even:
        shape = tuple(2 * int(r.integers(1, 4)) for _ in range(3))
    wrap = bool(r.random() < 0.6)
    if even and not wrap:
        shape = tuple(2 * int(r.integers(1, 3)) + 1 for _ in range(3))
    A = np.eye(3) if r.random() < 0.4 else r.normal(size=(3, 3)) + 2 * np.eye(3)
    B = np.linalg.inv(A).T
    ax = [np.arange(n) / (n if wrap else max(1, n - 1)) for n in shape]
    c = np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1)
    pos = c @ B.T                    # reciprocal coordinates; positions @ A = crystal coordinates
    kind = r.integers(3)
    if kind == 0:
        vals = r.normal(size=shape)
    elif kind == 1:
        vals = np.cos(2 * np.pi * c[..., 0]) + 0.7 * np.cos(2 * np.pi * c[..., 1] + 0.4) + 0.3 * np.sin(2 * np.pi * c[..., 2])
    else:
        vals = c @ np.array([1.0, -2.0, 0.5]) + 0.3
    return pos, A, B, vals, wrap, shape


def corners(vals, wrap):
    """[dx,dy,dz] -> value at the (wrapped) neighbour"""
    import numpy as np
    n = vals.shape
    out = {}
    for dx in (0, 1):
        for dy in (0, 1):
            for dz in (0, 1):
                i = np.ix_([(x + dx) % n[0] for x in range(n[0])], [(y + dy) % n[1] for y in range(n[1])], [(z + dz) % n[2] for z in range(n[2])])
                v = vals[i]
                out[dx, dy, dz] = v if wrap else v[:-1, :-1, :-1]
    return out


@contract("C02", covers=[SM + "CubesSmearing.__init__", SM + "SphereSmearing.__init__", SM + "TetraSmearing.__init__"], n=30)
def corner_gathering(K):
    import numpy as np
    sm = K.mod("smearing")
    pos, A, B, vals, wrap, shape = grid(K)
    c = corners(vals, wrap)
    mean = sum(c.values()) / 8
    g = [sum((1 if k[a] else -1) * v for k, v in c.items()) / 4 for a in range(3)]
    cu = sm.CubesSmearing(pos.copy(), A, vals, wrap=wrap)
    sp = sm.SphereSmearing(pos, B, vals, wrap=wrap)
    te = sm.TetraSmearing(vals, wrap, B)
    e = float(K.nrng.uniform(vals.min() - 0.1, vals.max() + 0.1))
    pre = sm.cube_precomp(*g)
    K.eq("cube volumes use mean and mean differences of the corners", cu.volume(e), sm.cube_cut_volume(e - mean, *pre), atol=1e-7)
    K.eq("cube densities", cu.dvolume(e), sm.cube_cut_dvolume(e - mean, *pre), tol=1e-6)
    p = cu.volume_dvolume(e)
    K.eq("cube pair volume", p[0], cu.volume(e), atol=1e-9)
    K.eq("cube pair density", p[1], cu.dvolume(e), tol=1e-9)
    w = sm.unit_sphere_cut(e - mean, *g)
    K.eq("sphere volumes", sp.volume(e), w[0], atol=1e-9)
    K.eq("sphere densities", sp.dvolume(e), w[1], tol=1e-9)
    p = sp.volume_dvolume(e)
    K.eq("sphere pair volume", p[0], w[0], atol=1e-9)
    K.eq("sphere pair density", p[1], w[1], tol=1e-9)
    t8 = [c[i & 1, (i >> 1) & 1, i >> 2] for i in range(8)]
    K.eq("tetrahedron volumes", te.volume(e), sm.cube_tetra_cut_volume(np.array([e - x for x in t8])), atol=1e-9)
    K.eq("tetrahedron densities", te.dvolume(e), sm.cube_tetra_cut_dvolume(np.array([e - x for x in t8])), tol=1e-9)
    p = te.volume_dvolume(e)
    K.eq("tetra pair volume", p[0], te.volume(e), atol=1e-12)
    K.eq("tetra pair density", p[1], te.dvolume(e), tol=1e-12)
    n = tuple(s if wrap else s - 1 for s in shape)
    for o in (cu, sp, te):
        K.ensure("one value per cell", np.shape(o.volume(e)) == n, lambda: (np.shape(o.volume(e)), n))


@contract("C02", covers=[SM + "CubesSmearing", SM + "SphereSmearing", SM + "TetraSmearing"], n=10)
def object_derivative(K):
    """integrated: the volume difference over an energy interval is the integral of the density"""
    import numpy as np
    sm = K.mod("smearing")
    pos, A, B, vals, wrap, shape = grid(K)
    objs = [("cubes", sm.CubesSmearing(pos.copy(), A, vals, wrap=wrap)), ("sphere", sm.SphereSmearing(pos, B, vals, wrap=wrap)), ("tetra", sm.TetraSmearing(vals, wrap, B))]
    x, w = np.polynomial.legendre.leggauss(400)
    lo, hi = sorted(K.nrng.uniform(vals.min() - 0.2, vals.max() + 0.2, size=2))
    for nm, o in objs:
        i = sum(wi * o.dvolume(lo + (hi - lo) * (xi + 1) / 2) for xi, wi in zip(x, w)) * (hi - lo) / 2
        d = o.volume(hi) - o.volume(lo)
        # degenerate (flat) cells have a very peaked density: compare well resolved cells only
        c = corners(vals, wrap)
        g = np.array([sum((1 if k[a] else -1) * v for k, v in c.items()) / 4 for a in range(3)])
        spread = np.max(list(c.values()), axis=0) - np.min(list(c.values()), axis=0)
        ok = (np.sort(np.abs(g), axis=0)[0] > 0.05) & (spread > 0.1)
        if nm == "tetra":
            s = np.sort(np.array(list(c.values())), axis=0)
            ok = np.min(np.diff(s, axis=0), axis=0) > 0.02
        if np.any(ok):
            K.eq(nm + " density integrates to the volume", i[ok], d[ok], atol=5e-3)


@contract("C02", covers=[SM + "CubesSmearing.__init__", SM + "SphereSmearing.__init__"], n=15)
def analytic_gradients(K):
    """objects built with given gradients: per-cell offset = value, gradient = chain rule of the cell"""
    import numpy as np
    sm = K.mod("smearing")
    r = K.nrng
    shape = tuple(int(r.integers(2, 5)) for _ in range(3))
    A = np.diag(r.uniform(0.7, 2, size=3)) if r.random() < 0.5 else np.eye(3)
    B = np.linalg.inv(A).T
    ax = [np.arange(n) / n for n in shape]
    c = np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1)
    pos = c @ B.T
    vals, gr = r.normal(size=shape), r.normal(size=shape + (3,))
    gk = gr.copy()
    o = sm.CubesSmearing(pos.copy(), A, vals, grads=gr, wrap=True)
    K.same("gradients not modified", gr, gk)
    e = float(r.normal())
    # change over one cell along crystal axis j: step_j * sum_i B_ij grad_i
    g = np.moveaxis(gr @ B, -1, 0) * (1 / np.array(shape))[:, None, None, None]
    pre = sm.cube_precomp(*g)
    K.eq("cube volume", o.volume(e), sm.cube_cut_volume(e - vals, *pre), atol=1e-7)
    K.eq("cube density", o.dvolume(e), sm.cube_cut_dvolume(e - vals, *pre), tol=1e-6)
    s = sm.SphereSmearing(pos, B, vals, grads=gr, wrap=True)
    cell = abs(np.linalg.det(B)) / np.prod(shape)
    w = sm.unit_sphere_cut(e - vals, *(np.moveaxis(gr, -1, 0) * cell ** (1 / 3)))
    K.eq("sphere volume", s.volume(e), w[0], atol=1e-9)
    K.eq("sphere density", s.dvolume(e), w[1], tol=1e-9)
    K.same("values not modified", s.volume(e), s.volume(e))


@contract("C02", covers=[SM + "ExtraCubesSmearing", SM + "extrapolate_poly"], n=12)
def extrapolated_cubes(K):
    """linear bands: every grid is exact, so extrapolation returns the coarse cell's volume"""
    import numpy as np
    sm = K.mod("smearing")
    pos, A, B, vals, wrap, shape = grid(K, even=True)
    o = sm.ExtraCubesSmearing(pos.copy(), A, vals, wrap=wrap)
    e = float(K.nrng.uniform(vals.min(), vals.max()))
    v, d = o.volume(e), o.dvolume(e)
    p = o.volume_dvolume(e)
    K.eq("pair volume", p[0], v, atol=1e-9)
    K.eq("pair density", p[1], d, tol=1e-9)
    # Richardson: (4*fine - coarse)/3 cell by cell
    fine = sm.CubesSmearing(pos.copy(), A, vals, wrap=wrap)
    f, fd = fine.volume(e), fine.dvolume(e)

    def down(q):
        return sum(q[i::2, j::2, k::2] for i in (0, 1) for j in (0, 1) for k in (0, 1)) / 8
    cs = vals[::2, ::2, ::2]
    c = corners(cs, wrap)
    mean = sum(c.values()) / 8
    g = [sum((1 if k[a] else -1) * q for k, q in c.items()) / 4 for a in range(3)]
    pre = sm.cube_precomp(*g)
    co, cd = sm.cube_cut_volume(e - mean, *pre), sm.cube_cut_dvolume(e - mean, *pre)
    K.eq("extrapolated volume", v, (4 * down(f) - co) / 3, atol=1e-7)
    K.eq("extrapolated density", d, (4 * down(fd) - cd) / 3, tol=1e-6)
    p2 = int(K.nrng.integers(1, 4))
    c0, c1, c2 = K.nrng.normal(size=3)
    K.eq("extrapolation removes the leading error", sm.extrapolate_poly([c0 + c1, c0 + c1 / 2 ** p2], p=p2), c0, tol=1e-9)
    T = [c0 + c1 * h ** p2 + c2 * h ** (2 * p2) for h in (1, 0.5, 0.25)]
    K.eq("and the second", sm.extrapolate_poly(T, p=p2), c0, tol=1e-9)
