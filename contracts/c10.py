"""C10 bands"""
from pyvc.kit import contract
from contracts.c09 import book, herm

A = "tight_binding_asym:AsymTightBindingModel."
B = "bandstructure:BandStructureModel."


def model(K, overlap=None, n=None, kind=None):
    """(model, neighbors, H_r, neighbors of S, S_r or None)"""
    import numpy as np
    from contracts.models import series, overlap as ov
    r = K.nrng
    dim = K.rng.choice([1, 2, 3])
    n = n or K.rng.choice([1, 2, 3, 4])
    nb, H = series(K, dim, n, K.rng.randint(1, 4), cut=1.5)
    kind = kind or K.rng.choice(["asym", "asym", "bs"])
    if K.rng.random() < 0.25:
        nb = nb @ (np.eye(dim) + 0.4 * r.normal(size=(dim, dim)))
    S, nbs = None, nb
    if kind == "asym":
        m = K.mod("tight_binding_asym")
        if overlap or (overlap is None and K.rng.random() < 0.5):
            if K.rng.random() < 0.3:
                nbs = nb[:1]
            elif K.rng.random() < 0.3:
                nbs = np.concatenate([nb[:1], -nb[1:2], nb[1:2] * 2])
            S = ov(K, nbs, n)
            o = m.AsymTightBindingModel(m.HermitianFourierSeries(nb, H.copy()), m.HermitianFourierSeries(nbs, S.copy()))
        else:
            o = m.AsymTightBindingModel(m.HermitianFourierSeries(nb, H.copy()))
    elif kind == "sym":
        from contracts.c09 import sym_model
        o, nb, P, Q, ref = sym_model(K, n=n)
        # coefficients of the same function as plain Fourier series
        N, n = len(nb), P.shape[-1]
        s = o.unitary_repr.inv_split
        odd = np.zeros((n, n), dtype=bool)
        if o.sym.inversion:
            odd[:s, s:] = odd[s:, :s] = True
        H = np.zeros((N, n, n), dtype=complex)
        H[0] = Q[0]
        for i in range(1, N):
            C = np.where(odd, 0, Q[i])
            W = np.where(odd, Q[i], 0) if o.sym.inversion else Q[i + N - 1]
            H[0] -= C
            H[i] = (C - 1j * W) / 2
        return o, nb, H, nb, None
    else:
        b = K.mod("bandstructure")
        sy = K.mod("symmetry").Symmetry
        o = b.BandStructureModel.init_tight_binding(sy.none(dim), nb, n, cos_reduced=K.rng.random() < 0.5, exp=K.rng.random() < 0.5)
        o.set_params_complex(H.astype(complex))
    return o, nb, H, nbs, S


def state(m):
    import numpy as np
    if hasattr(m, "params"):
        return [m.params.copy(), np.array(m.neighbors)]
    return [m.H.H_r.copy(), m.H.neighbors.copy(), m.S.H_r.copy(), m.S.neighbors.copy()]


def unchanged(K, label, m, st):
    for a, b in zip(state(m), st):
        K.same(label, a, b)


@contract("C10", covers=[A + "bands", A + "bands_grad", A + "bands_grad_hess", B + "bands", B + "bands_grad", B + "bands_grad_hess", "tight_binding:TightBindingModel.bands", "tight_binding:TightBindingModel.bands_grad", "tight_binding:TightBindingModel.bands_grad_hess", "linalg:geigh", "linalg:geigvalsh", "linalg:geigh_grad", "linalg:eigh_grad", "linalg:eigh_grad_hess"], n=150, budget=12)
def bands_and_derivatives(K):
    import numpy as np
    import scipy.linalg as sl
    m, nb, H, nbs, S = model(K, kind="sym" if K.rng.random() < 0.2 else None)
    d, n = nb.shape[1], H.shape[1]
    r = K.nrng
    k = r.normal(size=(K.rng.randint(1, 4), d))
    if K.rng.random() < 0.2:
        k[0] = 0
    st, k0 = state(m), k.copy()
    kin = k.tolist() if K.rng.random() < 0.3 else k
    e = m.bands(kin)
    F, D, DD = book(nb, H, k)
    if S is None:
        O = np.broadcast_to(np.eye(n), F.shape)
        OD = np.zeros(D.shape)
    else:
        O, OD, _ = book(nbs, S, k)
    K.ensure("shape", e.shape == (len(k), n))
    sc = 1 + np.abs(H).sum()
    ref, V = zip(*[sl.eigh(F[i], O[i]) for i in range(len(k))])
    ref, V = np.array(ref), np.array(V)
    K.eq("ascending eigenvalues", e, ref, atol=1e-9 * sc)
    K.ensure("ascending", np.all(np.diff(e, axis=-1) >= 0))
    K.eq("call gives the bands", m(kin), e, atol=1e-10 * sc)
    K.eq("bands of one point", m.bands(k[:1]), e[:1], atol=1e-9 * sc)
    g = m.bands_grad(kin)
    K.ensure("pair of bands and gradients", len(g) == 2 and g[0].shape == e.shape and g[1].shape == (len(k), d, n), lambda: [x.shape for x in g])
    K.eq("bands next to the gradients", g[0], ref, atol=1e-9 * sc)
    gap = np.full((len(k), n), np.inf)
    if n > 1:
        dd = np.diff(ref, axis=-1)
        gap[:, :-1] = dd
        gap[:, 1:] = np.minimum(gap[:, 1:], dd)
    ok = gap > 0.02 * sc / n
    sel = np.where(np.broadcast_to(ok[:, None], g[1].shape))
    ex = np.real(np.einsum("mai,mxab,mbi->mxi", V.conj(), D, V)) - np.real(np.einsum("mai,mxab,mbi->mxi", V.conj(), OD, V)) * ref[:, None]
    K.eq("gradients are the k-derivatives", g[1][sel], ex[sel], atol=1e-6 * sc)
    # the same by differences of the bands
    h = 1e-5
    for a in range(d):
        s = np.zeros(d)
        s[a] = h
        num = (m.bands(k + s) - m.bands(k - s)) / (2 * h)
        K.eq("gradients are difference quotients", g[1][:, a][ok], num[ok], atol=2e-4 * sc)
    if S is None:
        hs = m.bands_grad_hess(kin)
        K.ensure("triple", len(hs) == 3 and hs[2].shape == (len(k), d, d, n), lambda: [x.shape for x in hs])
        K.eq("bands next to the Hessians", hs[0], ref, atol=1e-9 * sc)
        K.eq("gradients next to the Hessians", hs[1][sel], ex[sel], atol=1e-6 * sc)
        W = np.einsum("mai,mxab,mbj->mxij", V.conj(), D, V)
        X = np.real(np.einsum("mai,mxyab,mbi->mxyi", V.conj(), DD, V))
        for p in range(len(k)):
            for i in range(n):
                if not ok[p, i]:
                    continue
                x = X[p, :, :, i].copy()
                for j in range(n):
                    if j != i:
                        x += 2 * np.real(np.outer(W[p, :, i, j], W[p, :, j, i])) / (ref[p, i] - ref[p, j])
                K.eq("Hessians are the second k-derivatives", hs[2][p, :, :, i], x, atol=1e-5 * sc * (1 + np.abs(x).max()))
                if len(k) == 1 or p == 0:
                    for a in range(d):
                        s = np.zeros(d)
                        s[a] = h
                        up, dn = m.bands_grad(k[p:p + 1] + s)[1][0, :, i], m.bands_grad(k[p:p + 1] - s)[1][0, :, i]
                        K.eq("Hessians are difference quotients of the gradients", hs[2][p, a, :, i], (up - dn) / (2 * h), atol=1e-3 * sc * (1 + np.abs(x).max()))
    unchanged(K, "model unchanged by evaluation", m, st)
    K.same("k unchanged", k, k0)


@contract("C10", covers=[A + "__add__", A + "__mul__", B + "__add__", B + "__mul__", A + "copy", B + "copy"], n=150, budget=12)
def algebra(K):
    import numpy as np
    m, nb, H, nbs, S = model(K)
    d, n = nb.shape[1], H.shape[1]
    r = K.nrng
    k = r.normal(size=(3, d))
    st = state(m)
    e = m.bands(k)
    sc = 1 + np.abs(e).max()
    x = float(r.choice([0.0, 1.0, -2.5, 100.0])) if r.random() < 0.5 else float(r.normal() * 10)
    s = m + (x if K.rng.random() < 0.7 else np.float64(x))
    K.eq("shift", s.bands(k), e + x, atol=1e-9 * (sc + abs(x)))
    K.eq("shift keeps the gradients", np.sort(s.bands_grad(k)[1], axis=-1), np.sort(m.bands_grad(k)[1], axis=-1), atol=1e-6 * (sc + abs(x)) * 50)
    unchanged(K, "operand unchanged by the shift", m, st)
    f = float(r.choice([1.0, 2.0, 0.25, 1e-3])) if r.random() < 0.5 else float(abs(r.normal()) + 0.01)
    p = m * f
    K.eq("scaling", p.bands(k), e * f, atol=1e-9 * sc * (1 + f))
    unchanged(K, "operand unchanged by the scaling", m, st)
    # results are independent of the operand
    for o in (s, p):
        if hasattr(o, "params"):
            o.params += 1
        else:
            o.H.H_r = o.H.H_r + 0
            o.H.H_r[...] += 1
            o.S.H_r[...] += 1
    unchanged(K, "results do not alias the operand", m, st)
    # merging
    n2 = K.rng.choice([1, 2, 3])
    H2 = r.normal(size=(len(nb), n2, n2)) + 1j * r.normal(size=(len(nb), n2, n2))
    H2[0] = (H2[0] + herm(H2[0])) / 2
    if hasattr(m, "params"):
        b = K.mod("bandstructure")
        sy = K.mod("symmetry").Symmetry
        m2 = b.BandStructureModel.init_tight_binding(sy.none(d), nb, n2, cos_reduced=m.cos_reduced, exp=m.exp)
        m2.set_params_complex(H2)
    else:
        t = K.mod("tight_binding_asym")
        from contracts.models import overlap
        S2 = overlap(K, nbs, n2) if S is not None else None
        m2 = t.AsymTightBindingModel(t.HermitianFourierSeries(nb, H2), None if S2 is None else t.HermitianFourierSeries(nbs, S2))
    st2 = state(m2)
    q = m + m2
    K.ensure("number of bands", q.band_count() == n + n2)
    K.eq("merged bands", q.bands(k), np.sort(np.concatenate([e, m2.bands(k)], axis=-1), axis=-1), atol=1e-9 * (sc + np.abs(H2).sum()))
    unchanged(K, "first operand unchanged", m, st)
    unchanged(K, "second operand unchanged", m2, st2)
    c = m.copy()
    K.eq("copy has the same bands", c.bands(k), e, atol=1e-10 * sc)
    if hasattr(c, "params"):
        c.params += 1
    else:
        c.H.H_r += 1
        c.S.H_r *= 2
        c.H.neighbors *= 2
    unchanged(K, "copy is independent", m, st)
