"""C12 files"""
from pyvc.kit import contract
from contracts.c09 import book, herm

A = "tight_binding_asym:AsymTightBindingModel."
B = "bandstructure:BandStructureModel."
J = "json_tb_format:"
W = "wannier90_tb_format:"


def coeffs(K):
    """neighbors and coefficients of very different sizes, in any order"""
    import numpy as np
    from contracts.models import series
    r = K.nrng
    dim = K.rng.choice([1, 2, 3, 3])
    n = K.rng.choice([1, 2, 3, 5])
    nb, H = series(K, dim, n, K.rng.randint(1, 6), cut=2.3)
    if K.rng.random() < 0.1:
        nb, H = nb[:1], H[:1]
    H = H.astype(complex) if K.rng.random() < 0.8 else H
    m = K.rng.random()
    if m < 0.3:
        H = H * 10.0 ** r.integers(-17, 6, size=H.shape)
    elif m < 0.5:
        H = H * 10.0 ** r.integers(-12, 6, size=(len(H), 1, 1))
    elif m < 0.6:
        H = np.round(H)
    elif m < 0.65:
        H = H.real * 1j if np.iscomplexobj(H) else H
    H[0] = (H[0] + herm(H[0])) / 2
    if K.rng.random() < 0.3:
        nb = nb @ (np.eye(dim) + 0.3 * r.normal(size=(dim, dim)))
    return nb, H


def snap(H):
    """coefficients below 1e-14 may become 0"""
    return 1.0001e-14


def same_model(K, label, nb, H, nb2, H2):
    import numpy as np
    K.ensure(label + ": number of neighbors", nb2.shape == nb.shape and H2.shape == H.shape, lambda: (nb.shape, nb2.shape, H.shape, H2.shape))
    used = set()
    for v, h in zip(nb, H):
        d = np.linalg.norm(nb2 - v, axis=-1)
        j = int(np.argmin(d))
        K.ensure(label + ": same neighbors (exactly)", d[j] == 0 and j not in used, lambda: (v, nb2))
        used.add(j)
        for a, b in ((h.real, H2[j].real), (h.imag, H2[j].imag)):
            ok = (a == b) | ((np.abs(a) < 1e-14) & (b == 0))
            K.ensure(label + ": same coefficients (exactly)", np.all(ok), lambda: (a[~ok], b[~ok]))


@contract("C12", covers=[J + "save", J + "load", A + "save", A + "load", B + "save", B + "load"], n=150, budget=10)
def json_round_trip(K):
    import os
    import tempfile
    import numpy as np
    js, tb, bs = K.mod("json_tb_format"), K.mod("tight_binding_asym"), K.mod("bandstructure")
    Sy = K.mod("symmetry").Symmetry
    nb, H = coeffs(K)
    dim, n = nb.shape[1], H.shape[1]
    opt = np.get_printoptions()
    nb0, H0 = nb.copy(), H.copy()
    k = K.nrng.normal(size=(3, dim))
    sc = 1e-9 * (1 + np.abs(H).sum())
    ref = np.linalg.eigvalsh(book(nb, H, k)[0])
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "m.json")
        js.save(f, nb.tolist() if K.rng.random() < 0.3 else nb, H)
        K.same("saving keeps the coefficients", H, H0)
        K.same("saving keeps the neighbors", nb, nb0)
        nb2, H2 = js.load(f)
        same_model(K, "json", nb, H, nb2, H2)
        a = tb.AsymTightBindingModel(tb.HermitianFourierSeries(nb.copy(), H.copy()))
        g = os.path.join(t, "a.json")
        a.save(g)
        K.same("saving does not change the model", a.H.H_r, H0)
        K.same("saving does not change the neighbors of the model", a.H.neighbors, nb0)
        for x in (tb.AsymTightBindingModel.load(g), tb.AsymTightBindingModel.load(g, format="json")):
            same_model(K, "model", nb, H, x.H.neighbors, x.H.H_r)
            K.eq("bands of the loaded model", x.bands(k), ref, atol=sc)
        red, exp = K.rng.random() < 0.5, K.rng.random() < 0.5
        b = bs.BandStructureModel.init_tight_binding(Sy.none(dim), nb, n, cos_reduced=red, exp=exp)
        b.set_params_complex(H.astype(complex))
        p = b.params.copy()
        h = os.path.join(t, "b.json")
        b.save(h)
        K.same("saving does not change the other model", b.params, p)
        for x in (bs.BandStructureModel.load(h), bs.BandStructureModel.load(h, cos_reduced=K.rng.random() < 0.5, exp=K.rng.random() < 0.5), bs.BandStructureModel.load(g, exp=K.rng.random() < 0.5)):
            K.eq("bands of the other loaded model", x.bands(k), ref, atol=sc)
            K.ensure("number of neighbors of the other model", x.neighbors.shape == nb.shape)
        K.eq("loaded as the other class", tb.AsymTightBindingModel.load(h).bands(k), ref, atol=sc)
        K.raises("unknown extension", ValueError, a.save, os.path.join(t, "x.txt"))
        K.raises("unknown extension when loading", ValueError, tb.AsymTightBindingModel.load, os.path.join(t, "x.txt"))
        K.raises("unknown format", ValueError, b.save, h, "xyz")
        K.raises("missing directory", OSError, a.save, os.path.join(t, "no", "x.json"))
        K.raises("missing directory", OSError, b.save, os.path.join(t, "no", "x.json"))
    now = np.get_printoptions()
    K.ensure("print options unchanged", now == opt, lambda: (now, opt))


@contract("C12", covers=[B + "save", B + "load", A + "load"], n=120, budget=10)
def repr_round_trip(K):
    import os
    import tempfile
    import numpy as np
    bs, tb = K.mod("bandstructure"), K.mod("tight_binding_asym")
    Sy = K.mod("symmetry").Symmetry
    from contracts.c09 import groups
    nb, H = coeffs(K)
    dim, n = nb.shape[1], H.shape[1]
    sym = Sy.none(dim) if K.rng.random() < 0.4 else groups(K, dim)
    if sym.inversion:
        H = (H + herm(H)) / 2
    red, exp = K.rng.random() < 0.5, K.rng.random() < 0.5
    m = bs.BandStructureModel.init_tight_binding(sym, nb, n, cos_reduced=red, exp=exp)
    m.set_params_complex(H.astype(complex))
    opt = np.get_printoptions()
    if K.rng.random() < 0.3:
        np.set_printoptions(precision=3, suppress=True, threshold=5)
    before = np.get_printoptions()
    p, q = m.params.copy(), m.neighbors.copy()
    C = m.params_complex()
    k = K.nrng.normal(size=(3, dim))
    e = m.bands(k)
    try:
        with tempfile.TemporaryDirectory() as t:
            f = os.path.join(t, "m.repr")
            m.save(f) if K.rng.random() < 0.5 else m.save(f, format="python")
            K.ensure("print options unchanged", np.get_printoptions() == before)
            x = bs.BandStructureModel.load(f)
            K.same("saving does not change the model", m.params, p)
            K.same("saving does not change the neighbors", m.neighbors, q)
            K.eq("same neighbors", x.neighbors, nb, atol=0)
            K.eq("same coefficients", x.params_complex(), C, atol=1e-11 * (1 + np.abs(C).sum() * len(sym.S)))
            K.ensure("same symmetry", x.sym == sym)
            K.eq("same bands", x.bands(k), e, atol=1e-9 * (1 + np.abs(C).sum() * len(sym.S)))
            if len(sym) == 1:
                y = tb.AsymTightBindingModel.load(f)
                K.eq("loaded as the other class", y.bands(k), e, atol=1e-9 * (1 + np.abs(C).sum()))
                K.eq("same coefficients in the other class (exactly)", y.H.H_r, C, atol=0)
            K.raises("missing directory", OSError, m.save, os.path.join(t, "no", "x.repr"))
            K.ensure("print options unchanged", np.get_printoptions() == before)
    finally:
        np.set_printoptions(**opt)


@contract("C12", covers=[A + "save", A + "load"], n=4, budget=2)
def overlap_saved(K):
    import os
    import tempfile
    import numpy as np
    from contracts.c10 import model
    m, nb, H, nbs, S = model(K, overlap=True, kind="asym")
    k = K.nrng.normal(size=(3, nb.shape[1]))
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "a.json")
        m.save(f)
        x = m.load(f)
    K.eq("bands of a saved model with overlap", x.bands(k), m.bands(k), atol=1e-9 * (1 + np.abs(H).sum()))


def hermitian_file(K, tb):
    """(text, {R: matrix}) of a file whose blocks satisfy H(-R) = H(R)^+"""
    import numpy as np
    r = K.nrng
    n = K.rng.choice([1, 2, 3])
    R = [(0, 0, 0)]
    for _ in range(K.rng.randint(0, 9)):
        v = tuple(int(x) for x in r.integers(-2, 3, size=3))
        if v not in R:
            R += [v, tuple(-x for x in v)]
    R = [R[i] for i in r.permutation(len(R))]
    blocks = {}
    for v in R:
        w = tuple(-x for x in v)
        h = np.round(r.normal(size=(n, n)) + 1j * r.normal(size=(n, n)), 6)
        if v == w:
            h = np.round((h + herm(h)) / 2, 6)
            h = np.triu(h) + herm(np.triu(h, 1)) if n > 1 else h.real + 0j
            h = h - 1j * np.diag(np.diag(h).imag)
        blocks[v] = herm(blocks[w]) if w in blocks else h
    out = [" written on somewhere"]
    if tb:
        out += ["   1.0 0.0 0.25", "   0.0 2.0 0.0", "  -0.5 0.0 3.0"]
    out += ["  %d" % n, "  %d" % len(R)]
    deg = ["%5d" % 1] * len(R)
    for i in range(0, len(deg), 15):
        out.append("".join(deg[i:i + 15]))
    rows = []
    for v in R:
        if tb:
            out += ["", "%5d%5d%5d" % v]
        for j in range(n):
            for i in range(n):
                h = blocks[v][i, j]
                if tb:
                    out.append("%5d%5d   %.8E %.8E" % (i + 1, j + 1, h.real, h.imag))
                else:
                    rows.append("%5d%5d%5d%5d%5d%12.6f%12.6f" % (v + (i + 1, j + 1, h.real, h.imag)))
    if K.rng.random() < 0.3:   # each row names its lattice vector, so their order does not matter
        rows = [rows[i] for i in r.permutation(len(rows))]
    out += rows
    rblocks = {}
    if tb:
        for v in R:
            out += ["", "%5d%5d%5d" % v]
            q = np.round(r.normal(size=(n, n, 3)) + 1j * r.normal(size=(n, n, 3)), 6)
            rblocks[v] = q
            for j in range(n):
                for i in range(n):
                    out.append("%5d%5d   " % (i + 1, j + 1) + " ".join("%.8E %.8E" % (z.real, z.imag) for z in q[i, j]))
    return "\n".join(out) + "\n", blocks, rblocks


@contract("C12", covers=[W + "load_hr", W + "load_tb", A + "load", B + "load"], n=150, budget=8)
def wannier(K):
    import os
    import tempfile
    import numpy as np
    w, tb, bs = K.mod("wannier90_tb_format"), K.mod("tight_binding_asym"), K.mod("bandstructure")
    kind = K.bool("tb")
    text, blocks, rb = hermitian_file(K, kind)
    k = K.nrng.normal(size=(3, 3))
    F = sum(np.exp(2j * np.pi * (k @ np.array(v)))[:, None, None] * h for v, h in blocks.items())
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "x_tb.dat" if kind else "x_hr.dat")
        open(f, "w").write(text)
        if kind:
            nb, H, rr, deg, A = w.load_tb(f)
            K.eq("lattice vectors", A, [[1, 0, 0.25], [0, 2, 0], [-0.5, 0, 3]], atol=1e-12)
            K.eq("degeneracies", deg, np.ones(len(blocks)), atol=0)
        else:
            nb, H = w.load_hr(f)
        K.ensure("one of each pair of lattice vectors", 2 * len(nb) - 1 == len(blocks), lambda: (len(nb), len(blocks)))
        K.ensure("on-site matrix first", np.all(np.asarray(nb[0]) == 0))
        got = set()
        for i, v in enumerate(nb):
            v = tuple(int(x) for x in v)
            K.ensure("lattice vector of the file", v in blocks and tuple(-x for x in v) not in got - {(0, 0, 0)})
            got.add(v)
            K.eq("matrix listed for the lattice vector", H[i], blocks[v], atol=1e-9)
            if kind:
                K.eq("position matrix listed for the lattice vector", rr[i], rb[v], atol=1e-7)
        for x in (tb.AsymTightBindingModel.load(f), bs.BandStructureModel.load(f), bs.BandStructureModel.load(f, cos_reduced=True, exp=False)):
            g = x.H.f(k) if hasattr(x, "H") else x.f(k)
            K.eq("Hamiltonian is the Fourier sum of the file", g, F, atol=1e-8)
            K.eq("bands", x.bands(k), np.linalg.eigvalsh(F), atol=1e-8)
