"""C02 the cut surface: its area is the density in units of the gradient modulus (all inputs); its reported centre is the
centroid of the polygon cut out of the cell and the samples lie on the surface (bounded)"""
from pyvc.kit import contract
from .c01 import unit_inputs, SM
from .c02 import cube_regions, ORDERS


def _area(K, order):
    ax, ay, az, norm = unit_inputs(K)
    x = K.real("x")
    sm = K.mod("smearing")
    np = K.np
    if K.sym:
        K.assume(np.logical_or(x > 0, x < 0))
        cube_regions(K, ax, ay, az, x, order)
    area, com = sm.cube_cut_area_com(np.asarray([x * norm]), *[np.asarray([v]) for v in (ax, ay, az, norm, 1.0, 1.0, 1.0)])
    K.eq("area = density times gradient", area[0], sm.cube_cut_dvolume(np.asarray(x * norm), ax, ay, az, norm) * norm, atol=1e-9)


for _o in ORDERS:
    contract("C02", covers=[SM + "cube_cut_area_com"], proof=True, n=20, paths=400, name="surface_area_" + _o)(lambda K, _o=_o: _area(K, _o))


def polygon(n, t):
    """area and centroid of {x in the unit cube around 0: n.x = t}, or (0, None)"""
    import itertools
    import numpy as np
    pts = []
    for i in range(3):
        o = [j for j in range(3) if j != i]
        for s in itertools.product((-.5, .5), repeat=2):
            x = (t - n[o[0]] * s[0] - n[o[1]] * s[1]) / n[i]
            if abs(x) <= .5:
                p = np.zeros(3)
                p[o[0]], p[o[1]], p[i] = s[0], s[1], x
                pts.append(p)
    if len(pts) < 3:
        return 0.0, None
    pts = np.array(pts)
    c = pts.mean(axis=0)
    u = pts[np.argmax(np.linalg.norm(pts - c, axis=1))] - c
    u /= np.linalg.norm(u)
    pts = pts[np.argsort(np.arctan2((pts - c) @ np.cross(n, u), (pts - c) @ u))]
    A, C = 0.0, 0.0
    for p, q in zip(pts, np.roll(pts, -1, axis=0)):
        w = np.linalg.norm(np.cross(p - c, q - c)) / 2
        A, C = A + w, C + w * (p + q + c) / 3
    return A, C / A


@contract("C02", covers=[SM + "cube_cut_area_com", SM + "cube_precomp"], n=40)
def cut_polygon(K):
    import numpy as np
    sm = K.mod("smearing")
    m = K.rng.randint(1, 6)
    g = K.nrng.normal(size=(m, 3)) * 10 ** K.nrng.uniform(-2, 2, size=(m, 1))
    L = np.linalg.norm(g, axis=1)
    K.assume(np.all(np.abs(g) > 2e-2 * L[:, None]))
    t = K.nrng.uniform(-0.8, 0.8, size=m)
    args = list(g.T)
    shape = (m,) if K.rng.random() < 0.5 or m != 4 else (2, 2)
    args = [a.reshape(shape).copy() for a in args]
    keep = [a.copy() for a in args]
    e = (t * L).reshape(shape)
    e0 = e.copy()
    area, com = sm.cube_cut_area_com(e, *sm.cube_precomp(*args), *args)
    for a, b in zip(args, keep):
        K.same("gradients unchanged", a, b)
    K.same("energies unchanged", e, e0)
    K.ensure("shapes", np.shape(area) == shape and np.shape(com) == shape + (3,))
    area, com = area.reshape(-1), com.reshape(-1, 3)
    for i in range(m):
        A, C = polygon(g[i] / L[i], t[i])
        K.eq("area of the polygon", area[i], A, atol=1e-8)
        if A > 1e-3:
            K.eq("centroid of the polygon", com[i], C, atol=1e-7)
            K.eq("in the plane", com[i] @ g[i] / L[i], t[i], atol=1e-7)


@contract("C02", covers=[SM + "CubesSmearing.samples"], n=30)
def surface_samples(K):
    """samples of linear data on an arbitrary lattice: on the surface, exact gradients, weights are the areas"""
    import numpy as np
    sm = K.mod("smearing")
    r = K.nrng
    shape = tuple(int(x) for x in r.integers(2, 5, size=3))
    A = np.eye(3) if r.random() < 0.3 else r.normal(size=(3, 3)) + 2 * np.eye(3)
    K.assume(abs(np.linalg.det(A)) > 0.3)
    B = np.linalg.inv(A).T
    step = r.uniform(0.1, 0.5, size=3)
    c = np.stack(np.meshgrid(*[np.arange(n) * s for n, s in zip(shape, step)], indexing="ij"), axis=-1)
    pos = c @ B.T
    g = r.normal(size=3)              # gradient with respect to the crystal coordinates
    K.assume(np.abs(g * step).min() > 0.05 * np.linalg.norm(g * step))
    e0 = float(r.normal())
    vals = c @ g + e0
    s = sm.CubesSmearing(pos, A, vals, None, False)
    e = float(r.uniform(vals.min(), vals.max()))
    x, grads, w = s.samples(e)
    K.ensure("shapes", x.shape == grads.shape == (len(w), 3))
    K.eq("on the surface", x @ A @ g + e0, np.full(len(w), e), atol=1e-8 * (1 + np.abs(g).max() * 10))
    K.eq("gradients", grads, np.tile(A @ g, (len(w), 1)), atol=1e-7 * (1 + np.abs(A @ g).max()))
    # the total area is the area of the plane inside of the sampled cells
    n = g * step / np.linalg.norm(g * step)
    M = B @ np.diag(step)
    scale = abs(np.linalg.det(M)) * np.linalg.norm(np.linalg.inv(M).T @ n)
    total, small = 0.0, 0
    for i in np.ndindex(*[k - 1 for k in shape]):
        mid = (np.array(i) + 0.5) * step
        a, q = polygon(n, (e - e0 - g @ mid) / np.linalg.norm(g * step))
        small += 1e-6 < a < 2e-4
        total += a * scale
    K.assume(small == 0)
    K.eq("weights are areas", w.sum(), total, atol=1e-6 * (1 + total))
    x2, grads2, w2 = s.samples(e)
    K.same("repeated call", w2, w)
    K.same("repeated call (positions)", x2, x)
