"""C15 k-paths and interpolation"""
from pyvc.kit import contract

P = "kpaths:KPath."


def waypoint(K, d, names):
    """a named or explicit waypoint: (argument, coordinates, given name or None)"""
    import numpy as np
    r = K.rng.random()
    usable = [n for n in names if len(names[n][0]) == d]
    if r < 0.5 and usable:
        n = K.rng.choice(usable)
        return n, np.array(names[n][0], dtype=float), names[n][1]
    v = K.nrng.normal(size=d) if r < 0.8 else K.nrng.integers(-2, 3, size=d)
    return [v.copy(), tuple(v.tolist()), list(v.tolist())][K.rng.randrange(3)], np.array(v, dtype=float), None


@contract("C15", covers=[P + "__init__", P + "to", P + "x", P + "sym_x", P + "sym_x_names", P + "dim", P + "__len__", P + "__getitem__", P + "__iter__"], n=300, budget=10)
def path(K):
    import numpy as np
    kp = K.mod("kpaths")
    before = {k: (v[0].copy(), v[1]) for k, v in kp.points.items()}
    if K.rng.random() < 0.7:
        names, arg = kp.points, {}
    else:
        names = [lambda: kp.hexagonal_points(1.0, 0.7), lambda: kp.tetragonal_bc_points(K.rng.choice([0.7, 1.3])), lambda: kp.trigonal_points(K.rng.choice([1.0, 1.8]), K.rng.random() < 0.5)][K.rng.randrange(3)]()
        arg = {"points": names}
    d = K.rng.choice([1, 2, 3, 3]) if names is kp.points else 3
    m = K.rng.randint(1, 6)
    way = [waypoint(K, d, names) for _ in range(m)]
    if K.rng.random() < 0.2 and m > 2:
        way[2] = way[1]     # a segment without length
    given = [w[0] for w in way]
    Ns = [32] * (m - 1)
    labels = [w[2] for w in way]
    # as a list of points or one after another
    mode = K.rng.randrange(3)
    if mode == 0 and m > 1:
        p = kp.KPath(list(given) if K.rng.random() < 0.5 else tuple(given), **arg)
    else:
        Ns = [K.rng.choice([1, 2, 3, 7, 10, 49, 32]) for _ in range(m - 1)]
        own = [K.rng.choice([None, None, "A" + str(i)]) for i in range(m)]
        p = kp.KPath(given[0], own[0], **arg)
        for i, N in enumerate(Ns):
            q = p.to(given[i + 1], own[i + 1], N) if N != 32 else p.to(given[i + 1], own[i + 1])
            K.ensure("to returns the path", q is p)
        labels = [o if o is not None else l for o, l in zip(own, labels)]
    at = np.concatenate([[0], np.cumsum(Ns)]).astype(int)
    K.ensure("number of samples", len(p) == at[-1] + 1 and len(list(p)) == len(p) and p.dim() == d)
    a = np.array(list(p), dtype=float)
    K.ensure("shape", a.shape == (at[-1] + 1, d))
    want = [way[0][1]]
    for i, N in enumerate(Ns):
        for t in range(1, N + 1):
            want.append(way[i][1] + (way[i + 1][1] - way[i][1]) * (t / N))
    K.eq("equally spaced samples between the waypoints", a, np.array(want), atol=1e-12)
    K.eq("indexing", np.array(p[int(at[-1])]), way[-1][1], atol=1e-12)
    x = np.array(p.x(), dtype=float)
    K.ensure("one coordinate per sample", x.shape == (len(p),) and x[0] == 0)
    K.le("never decreases", np.zeros(len(x) - 1), np.diff(x))
    K.eq("grows by the distance", np.diff(x), np.linalg.norm(np.diff(np.array(want), axis=0), axis=-1), atol=1e-11)
    sx = np.array(p.sym_x(), dtype=float)
    K.ensure("one label per waypoint", len(sx) == m and len(p.sym_x_names()) == m)
    K.eq("labels are at their points", sx, x[at], atol=1e-11)
    K.ensure("names in order", all(l is None or l == n for l, n in zip(labels, p.sym_x_names())))
    K.ensure("names are given", all(isinstance(n, str) and len(n) > 0 for n in p.sym_x_names()))
    K.raises("dimensions do not mix", AssertionError, p.to, np.zeros(d + 1))
    K.ensure("the table of points is unchanged", set(before) == set(kp.points) and all(np.array_equal(kp.points[k][0], v[0]) and kp.points[k][1] == v[1] for k, v in before.items()))


@contract("C15", covers=["kpaths:KPath"], n=1, budget=4)
def default_paths(K):
    import numpy as np
    kp = K.mod("kpaths")
    table = {"SC_PATH": "G X M G R X", "FCC_PATH": "G X2 W L G K", "BCC_PATH": "G H P G N P", "DIAMOND_PATH": "L G X2 U G K", "SC_PATH_2D": "G2d X2d M2d G2d", "PATH_1D": "G1d X1d"}
    for n, w in table.items():
        p = getattr(kp, n)
        w = w.split()
        a = np.array(list(p), dtype=float)
        K.ensure("waypoints: " + n, len(p.indices) == len(w))
        K.eq(n, a[p.indices], np.array([kp.points[q][0] for q in w], dtype=float), atol=1e-12)


def values(K, k, nb, sym=None):
    """smooth periodic data, invariant under the group"""
    import numpy as np
    k = np.asarray(k, dtype=float)
    d = k.shape[-1]
    out = 0
    R = K.nrng.integers(-2, 3, size=(3, d))
    c = K.nrng.normal(size=(3, nb))

    def f(q):
        q = np.asarray(q, dtype=float)
        t = 0
        ops = [np.eye(d)] if sym is None else list(sym.S)
        for s in ops:
            x = 2 * np.pi * (q @ np.array(s).T) @ R.T
            t = t + (np.cos(x) if sym is None or not sym.inversion else np.cos(x)) @ c
            if sym is None:
                t = t + np.sin(x) @ c[::-1]
        return t / len(ops)
    return f


@contract("C15", covers=["kpaths:interpolate"], n=120, budget=14)
def interpolation(K):
    import numpy as np
    kp = K.mod("kpaths")
    r = K.nrng
    d = K.rng.choice([1, 2, 3])
    nb = K.rng.randint(1, 3)
    method = K.rng.choice(["cubic", "linear", "nearest", "linear"])
    periodic = K.rng.random() < 0.7
    same = K.rng.random() < 0.4
    hi = {1: 9, 2: 7, 3: 5}[d]
    lo = 4 if method == "cubic" else 2
    grid = [K.rng.randint(lo, hi)] * d if same else [K.rng.randint(lo, hi) for _ in range(d)]
    if d == 1 and K.rng.random() < 0.3:
        grid = [K.rng.randint(20, 400)]
    elif d == 2 and K.rng.random() < 0.15:
        grid[K.rng.randrange(2)] = K.rng.randint(20, 250)
        same = False
    ax = []
    for n in grid:
        off = K.rng.choice([0, 0, 0.5, 0.25])
        a = (np.arange(n) + off) / n
        if periodic:
            if K.rng.random() < 0.6:
                a = a - n // 2 / n
            if K.rng.random() < 0.2:
                a = (a + 0.5) % 1 - 0.5
        else:
            a = a * K.rng.choice([1, 3]) - K.rng.choice([0, 1])
        ax.append(a)
    g = np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, d)
    f = values(K, g, nb)
    data = f(g)
    o = r.permutation(len(g))
    ks, bs = g[o], data[o]
    k0, b0 = ks.copy(), bs.copy()
    as_list = K.rng.random() < 0.3
    kw = {} if same and K.rng.random() < 0.5 else {"grid": tuple(grid) if K.rng.random() < 0.5 else list(grid)}
    g_ = kp.interpolate(ks.tolist() if as_list else ks, bs.tolist() if as_list else bs, method=method, periodic=periodic, **kw)
    K.same("points unchanged", ks, k0)
    K.same("data unchanged", bs, b0)
    sel = o[:20]
    tol = 5e-3 if method == "cubic" else 1e-8   # scipy solves for the spline iteratively
    K.eq("data is reproduced at the grid points", g_(g[sel]), data[sel], atol=tol)
    q = np.array([[K.rng.uniform(a.min(), a.max()) for a in ax] for _ in range(5)])
    y = g_(q)
    K.ensure("shape", np.shape(y) == (5, nb))
    if periodic:
        z = r.integers(-3, 4, size=(len(sel), d))
        if method != "nearest":
            K.eq("periodic at the grid points", g_(g[sel] + z), data[sel], atol=tol)
            q = r.uniform(-3, 3, size=(6, d))
            K.eq("periodic", g_(q + r.integers(-3, 4, size=(6, d))), g_(q), atol=1e-7)
            if method == "linear":
                e = 1e-9
                q[:, K.rng.randrange(d)] = 0.5
                K.eq("continuous across the cell boundary", g_(q - e), g_(q + e), atol=1e-5)
    if method == "linear":
        # reference: multilinear interpolation
        q = r.uniform(-1.5, 1.5, size=(4, d)) if periodic else np.array([[K.rng.uniform(a.min(), a.max()) for a in ax] for _ in range(4)])
        A = data.reshape(tuple(grid) + (nb,))
        ref = []
        for p in q:
            w = np.array(A)
            for i in range(d):
                a = ax[i]
                n = len(a)
                if periodic:
                    s = np.argsort((a - a.min()) % 1.0 if False else (a % 1.0), kind="stable")
                    b = (a % 1.0)[s]
                    w = w[s]
                    x = p[i] % 1.0
                    j = np.searchsorted(b, x, side="right") - 1
                    lo_, hi_ = j % n, (j + 1) % n
                    left = b[lo_] - (1 if j < 0 else 0)
                    right = b[hi_] + (1 if j + 1 >= n else 0)
                else:
                    x = p[i]
                    j = min(max(np.searchsorted(a, x, side="right") - 1, 0), n - 2)
                    lo_, hi_, left, right = j, j + 1, a[j], a[j + 1]
                t = (x - left) / (right - left)
                w = w[lo_] * (1 - t) + w[hi_] * t
            ref.append(w)
        K.eq("linear interpolation", g_(q), np.array(ref), atol=1e-8)


@contract("C15", covers=["kpaths:interpolate", "kpaths:interpolate_unstructured"], n=60, budget=12)
def interpolation_with_symmetry(K):
    import numpy as np
    kp = K.mod("kpaths")
    Sy = K.mod("symmetry").Symmetry
    r = K.nrng
    sym = [lambda: Sy.cubic(True), lambda: Sy.square(), lambda: Sy.inv(3), lambda: Sy.inv(2), lambda: Sy.inv(1), lambda: Sy.cyclic(4, True), lambda: Sy.mirror_x(True) if hasattr(Sy, "mirror_x") else Sy.inv(3)][K.rng.randrange(7)]()
    d = sym.dim()
    n = K.rng.choice([4, 5, 6]) if d < 3 else K.rng.choice([4, 5])
    nb = K.rng.randint(1, 2)
    c = (np.arange(n) - n // 2) / n
    if K.rng.random() < 0.3:
        c = (np.arange(n) + 0.5) / n - 0.5
    g = np.stack(np.meshgrid(*[c] * d, indexing="ij"), -1).reshape(-1, d)
    f = values(K, g, nb, sym)
    w = lambda x: (np.asarray(x) + 0.5 + 1e-9) % 1.0 - 0.5 - 1e-9
    # pick one representative per orbit
    keep, seen = [], []
    for k in g:
        img = [w(sg * (s @ k)) for s in sym.S for sg in ([1, -1] if sym.inversion else [1])]
        if not any(np.abs(i - t).max() < 1e-6 for i in img for t in seen):
            seen.append(w(k))
            keep.append(k)
    red = np.array(keep)
    b = f(red)
    k0, b0 = red.copy(), b.copy()
    method = K.rng.choice(["cubic", "linear"])
    tol = 5e-3 if method == "cubic" else 1e-7
    F = kp.interpolate(red, b, sym=sym, method=method)
    K.same("points unchanged", red, k0)
    K.same("data unchanged", b, b0)
    sel = r.permutation(len(g))[:30]
    K.eq("data is reproduced on the whole grid", F(g[sel]), f(g[sel]), atol=tol)
    K.eq("periodic", F(g[sel] + r.integers(-2, 3, size=(len(sel), d))), f(g[sel]), atol=tol)
    U = kp.interpolate_unstructured(red, b, sym=sym)
    K.same("points unchanged", red, k0)
    K.same("data unchanged", b, b0)
    i = K.rng.randrange(len(red))
    img = np.array([sg * (s @ red[i]) for s in sym.S for sg in ([1, -1] if sym.inversion else [1])])
    K.eq("data is reproduced at all symmetric points", U(img), np.repeat(b[i:i + 1], len(img), axis=0), atol=1e-9)
    K.ensure("points without data give nan", bool(np.all(np.isnan(U(red[:1] + 0.011)))))
    V = kp.interpolate_unstructured(red, b)
    o = r.permutation(len(red))
    K.eq("data is reproduced", V(red[o] + 1e-5 * r.uniform(-1, 1, size=red[o].shape)), b[o], atol=1e-9)


def faces(k, B):
    """distance of k to the boundary of the first Brillouin zone (in terms of norms) and the number of nearest reciprocal lattice points"""
    import itertools
    import numpy as np
    G = np.array(list(itertools.product(range(-4, 5), repeat=3))) @ np.asarray(B).T
    d = np.linalg.norm(np.asarray(k, dtype=float) - G, axis=1)
    return np.linalg.norm(k) - d.min(), int(np.sum(np.abs(d - d.min()) < 1e-9 * (1 + d.min())))


@contract("C15", covers=["kpaths:tetragonal_bc_points", "kpaths:trigonal_points", "kpaths:hexagonal_points"], n=60, budget=8)
def special_points(K):
    """the named points lie on the boundary of the first Brillouin zone of their lattice, as vertices, edge or face points"""
    import numpy as np
    kp = K.mod("kpaths")
    c = float(K.nrng.uniform(0.4, 0.97) if K.rng.random() < 0.5 else K.nrng.uniform(1.03, 2.5))
    al = float(K.nrng.uniform(0.45, 1.5) if K.rng.random() < 0.5 else K.nrng.uniform(1.63, 2.04))
    r, h = float(K.nrng.uniform(0.3, 3)), float(K.nrng.uniform(0.3, 3))
    mirror = K.rng.random() < 0.5
    A = K.mod("qespresso_interface").rhombohedral(1.0, al)
    if mirror:
        A = np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]]) @ A
    a = 2 * r / 3 ** 0.5
    # radii from the published tables (crystal coordinates, Setyawan & Curtarolo)
    norm = lambda B, t: {n: float(np.linalg.norm(np.asarray(B) @ np.array(v))) for n, v in t.items()}
    Bt, cs = np.linalg.inv(A).T, np.cos(al)
    if al < np.pi / 2:
        e = (1 + 4 * cs) / (2 + 4 * cs)
        v = 0.75 - e / 2
        tri = norm(Bt, dict(L=(.5, 0, 0), L1=(0, 0, -.5), F=(.5, .5, 0), B=(e, .5, 1 - e), B1=(.5, 1 - e, e - 1), P=(e, v, v), P1=(1 - v, 1 - v, 1 - e), P2=(v, v, e - 1), Q=(1 - v, v, 0), X=(v, 0, -v), Z=(.5, .5, .5)))
    else:
        e = 1 / (2 * np.tan(al / 2) ** 2)
        v = 0.75 - e / 2
        tri = norm(Bt, dict(F=(.5, -.5, 0), L=(.5, 0, 0), P=(1 - v, -v, 1 - v), P1=(v, v - 1, v - 1), Q=(e, e, e), Q1=(1 - e, -e, -e), Z=(.5, -.5, .5)))
    Bb = np.linalg.inv(np.array([(-1, 1, c), (1, -1, c), (1, 1, -c)]).T / 2).T
    if c < 1:
        e = (1 + c * c) / 4
        bct = norm(Bb, dict(M=(-.5, .5, .5), N=(0, .5, 0), P=(.25, .25, .25), X=(0, 0, .5), Z=(e, e, -e), Z1=(-e, 1 - e, e)))
    else:
        e, z = (1 + 1 / c ** 2) / 4, 1 / c ** 2 / 2
        t = dict(N=(0, .5, 0), P=(.25, .25, .25), X=(0, 0, .5), Z=(.5, .5, -.5), Y=(-z, z, .5), Sig=(-e, e, e))
        for q, w in (("N0", "N"), ("N1", "N"), ("M", "Z"), ("M2", "Z"), ("S", "Sig"), ("S0", "Sig"), ("S2", "Sig"), ("Sig1", "Sig"), ("R", "Y"), ("Y1", "Y"), ("GG", "Y"), ("G0", "Y")):
            t[q] = t[w]
        bct = norm(Bb, t)
    hx = norm(np.array([(a * 3 ** 0.5 / 2, a / 2, 0), (0, a, 0), (0, 0, h)]).T, dict(A=(0, 0, .5), M=(.5, 0, 0), L=(.5, 0, .5)))
    hx["K"] = a / 3 ** 0.5
    hx["H"] = (a * a / 3 + h * h / 4) ** 0.5
    radius = {"hexagonal": hx, "tetragonal bc": bct, "trigonal": tri}
    for name, needed in radius.items():
        points = {"hexagonal": lambda: kp.hexagonal_points(r, h), "tetragonal bc": lambda: kp.tetragonal_bc_points(c), "trigonal": lambda: kp.trigonal_points(al, mirror)}[name]()
        for q, w in needed.items():
            K.ensure("has the point " + q + " of " + name, q in points)
            K.eq("distance from the centre: " + name + " " + q, float(np.linalg.norm(points[q][0])), w, atol=1e-9)
    star = {
        "sc": (kp.points, np.eye(3), {"X": 2, "M": 4, "R": 8}),
        "fcc": (kp.points, np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]).T, {"X2": 2, "K": 3, "L": 2, "W": 4, "U": 3}),
        "bcc": (kp.points, np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]).T, {"H": 6, "H1": 6, "N": 2, "P": 4}),
        "hexagonal": (kp.hexagonal_points(r, h), np.array([(a * 3 ** 0.5 / 2, a / 2, 0), (0, a, 0), (0, 0, h)]).T, None),
        "tetragonal bc": (kp.tetragonal_bc_points(c), np.array([(0, 1, 1 / c), (1, 0, 1 / c), (1, 1, 0)]).T, None),
        "trigonal": (kp.trigonal_points(al, mirror), np.linalg.inv(A).T, None)}
    for name, (points, B, count) in star.items():
        n = 0
        for p, (k, label) in points.items():
            if len(k) != 3 or (count is not None and p not in count):
                continue
            if p in ("G", "O") or np.linalg.norm(k) == 0:
                K.eq("centre " + name + " " + p, np.array(k), np.zeros(3), atol=0)
                continue
            away, m = faces(k, B)
            n += 1
            K.eq("on the zone boundary: " + name + " " + p, away, 0.0, atol=1e-7)
            K.ensure("nearest lattice points: " + name + " " + p, m >= 2 if count is None else m == count[p], lambda: "%d" % m)
            K.ensure("labelled", isinstance(label, str) and len(label) > 0)
        K.ensure("points of " + name, n >= 3)
