"""C18 loss functions and the linear solver"""
from pyvc.kit import contract

L = "loss:"


def case(K, counts=True):
    """(bands, reference, weights, offset): reference fits into the window of the bands at the offset"""
    import numpy as np
    r = K.nrng
    nk, nr = K.rng.randint(1, 6), K.rng.randint(1, 5)
    off = K.rng.randint(0, 3)
    nb = off + nr + K.rng.randint(0, 3)
    kind = K.rng.choice(["float", "float", "lists"])
    b, f = np.sort(r.normal(size=(nk, nb)) * 3), np.sort(r.normal(size=(nk, nr)) * 3)
    w = r.uniform(-1, 2, size=nr) * (r.random(nr) < 0.8)
    if K.rng.random() < 0.2:
        f = b[:, off:off + nr].copy()
    if K.rng.random() < 0.3:
        w = w.tolist()
    return b, f, w, off


@contract("C18", covers=[L + "model_loss", L + "model_error"], n=200)
def weighted(K):
    import math
    import numpy as np
    l = K.mod("loss")
    b, f, w, off = case(K)
    b0, f0, w0 = b.copy(), f.copy(), np.array(w)
    t = 0.0
    m = [0.0] * f.shape[1]
    for i in range(len(f)):
        for j in range(f.shape[1]):
            d = b[i, j + off] - f[i, j]
            t += (w[j] * d) ** 2
            m[j] = max(m[j], abs(d))
    want = math.sqrt(t / len(f))
    K.eq("loss", l.model_loss(b, f, w, off), want, atol=1e-10 * (1 + want))
    e, mx = l.model_error(b, f, w, off)
    K.eq("the error call gives the same loss", e, want, atol=1e-10 * (1 + want))
    K.eq("largest deviation of each band (without weights)", mx, np.array(m), atol=1e-12)
    K.same("bands unchanged", b, b0)
    K.same("reference unchanged", f, f0)
    K.same("weights unchanged", np.array(w), w0)


def offsets(b, f):
    """all contiguous assignments [(bands, reference)]"""
    n = min(b.shape[1], f.shape[1])
    d = max(b.shape[1], f.shape[1]) - n
    return [(b, f[:, i:i + n]) if b.shape[1] < f.shape[1] else (b[:, i:i + n], f) for i in range(d + 1)]


def assignments(n, m):
    """all injective maps between min(n, m) of the bands"""
    import itertools
    if n <= m:
        for p in itertools.permutations(range(m), n):
            yield list(range(n)), list(p)
    else:
        for p in itertools.permutations(range(n), m):
            yield list(p), list(range(m))


@contract("C18", covers=[L + "model_windowed_loss"], n=200)
def windowed(K):
    import numpy as np
    l = K.mod("loss")
    r = K.nrng
    nk, nb, nr = K.rng.randint(1, 5), K.rng.randint(1, 4), K.rng.randint(1, 4)
    b, f = np.sort(r.normal(size=(nk, nb)) * 3), np.sort(r.normal(size=(nk, nr)) * 3)
    if K.rng.random() < 0.4:
        o = K.rng.choice(offsets(b, f))
        if nb >= nr:
            f = o[0] + 0.1 * r.normal(size=o[0].shape)
        else:
            b = o[1] + 0.1 * r.normal(size=o[1].shape)
    lo, hi = sorted(r.normal(size=2) * 4)
    if K.rng.random() < 0.3:
        lo, hi = -1e9, 1e9
    if K.rng.random() < 0.3:
        lo = f.flat[K.rng.randrange(f.size)]        # the ends of the window belong to it
    if K.rng.random() < 0.3:
        hi = f.flat[K.rng.randrange(f.size)]
    b0, f0 = b.copy(), f.copy()
    want = min(sum((x - y) ** 2 for bi, fi in zip(bb, ff) for x, y in zip(bi, fi) if lo <= y <= hi) for bb, ff in offsets(b, f))
    got = l.model_windowed_loss(b, f, lo, hi)
    K.eq("best contiguous assignment", got, (want / nk) ** 0.5, atol=1e-10 * (1 + want))
    t = 0.0
    for bi, fi in zip(b, f):
        fs = [y for y in fi if lo <= y <= hi]
        t += min(sum((fs[i] - bi[j]) ** 2 for i, j in zip(x, y)) for x, y in assignments(len(fs), nb))
    K.eq("best injective assignment", l.model_windowed_loss(b, f, lo, hi, allow_skipped_bands=True), (t / nk) ** 0.5, atol=1e-10 * (1 + t))
    K.same("bands unchanged", b, b0)
    K.same("reference unchanged", f, f0)


@contract("C18", covers=[L + "model_error_hist"], n=120)
def histogram(K):
    import numpy as np
    l = K.mod("loss")
    r = K.nrng
    nk, nb, nr = K.rng.randint(1, 5), K.rng.randint(1, 4), K.rng.randint(1, 4)
    b, f = np.sort(r.normal(size=(nk, nb)) * 3), np.sort(r.normal(size=(nk, nr)) * 3)
    N = K.rng.randint(2, 9)
    b0, f0 = b.copy(), f.copy()
    lo, hi = max(b.min(), f.min()), min(b.max(), f.max())
    K.assume(hi - lo > 1e-3)
    c, h = l.model_error_hist(b, f, N)
    w = (hi - lo) / (N - 1)
    K.eq("bins", c, [lo + i * w for i in range(N)], atol=1e-9)

    def hist(pairs):
        """(smallest, largest possible) value for errors at the edge of a bin"""
        a, z = np.zeros(N), np.zeros(N)
        for e, x in pairs:
            for i in range(N):
                d = abs(e - (lo + i * w)) - w / 2
                if d <= 1e-9:
                    z[i] = max(z[i], x)
                if d <= -1e-9:
                    a[i] = max(a[i], x)
        return a, z
    best = min(offsets(b, f), key=lambda o: np.linalg.norm(o[0] - o[1]))
    a, z = hist([(y, abs(x - y)) for x, y in zip(best[0].flat, best[1].flat)])
    K.ensure("largest errors", bool(np.all(h >= a - 1e-12) and np.all(h <= z + 1e-12)), lambda: (h, a, z))
    c, h = l.model_error_hist(b, f, N, allow_skipped_bands=True)
    pairs = []
    for bi, fi in zip(b, f):
        x, y = min(assignments(nr, nb), key=lambda s: sum(abs(fi[i] - bi[j]) for i, j in zip(*s)))
        cost = sum(abs(fi[i] - bi[j]) for i, j in zip(x, y))
        n = sum(1 for s in assignments(nr, nb) if sum(abs(fi[i] - bi[j]) for i, j in zip(*s)) < cost + 1e-9)
        K.assume(n == 1)
        pairs += [(fi[i], abs(fi[i] - bi[j])) for i, j in zip(x, y)]
    a, z = hist(pairs)
    K.ensure("largest errors of the best assignment", bool(np.all(h >= a - 1e-12) and np.all(h <= z + 1e-12)), lambda: (h, a, z))
    K.same("bands unchanged", b, b0)
    K.same("reference unchanged", f, f0)


@contract("C18", covers=["linalg:conjugate_gradient_solve"], n=200)
def solver(K):
    import numpy as np
    lin = K.mod("linalg")
    r = K.nrng
    n = K.rng.randint(1, 7)
    cplx = K.rng.random() < 0.4
    X = r.normal(size=(n, n)) + (1j * r.normal(size=(n, n)) if cplx else 0)
    Q, _ = np.linalg.qr(X)
    ev = 10 ** r.uniform(-1, 1, size=n)
    if K.rng.random() < 0.3:
        ev[r.random(n) < 0.5] = ev[0]        # repeated eigenvalues
    M = (Q * ev) @ Q.conj().T
    M = (M + M.conj().T) / 2
    b = r.normal(size=n) + (1j * r.normal(size=n) if K.rng.random() < (0.8 if cplx else 0.2) else 0)
    t = K.rng.randrange(6)
    if t == 0:
        b = r.integers(-3, 4, size=n)
    if t == 1:
        M = np.diag(r.integers(1, 9, size=n))
        if K.rng.random() < 0.5:
            b = r.integers(-3, 4, size=n)
        ev = np.diag(M)
    if t == 2:
        b = np.zeros(n)
    shape = (n,)
    if n in (4, 6) and K.rng.random() < 0.5:
        shape = (2, n // 2)
    A = lambda x: (M @ np.reshape(x, -1)).reshape(shape)
    b = b.reshape(shape)
    x0 = [None, r.normal(size=shape), r.normal(size=shape) + 1j * r.normal(size=shape), r.integers(-2, 3, size=shape), np.linalg.solve(M, b.reshape(-1)).reshape(shape)][K.rng.randrange(5)]
    b0, y0 = b.copy(), None if x0 is None else x0.copy()
    err = 10.0 ** K.rng.uniform(-9, -2)
    x = lin.conjugate_gradient_solve(A, b, x0, err=err) if K.rng.random() < 0.7 else lin.conjugate_gradient_solve(A, b, x0=x0, err=err, max_i=5 * n + 20)
    K.ensure("shape", x.shape == shape)
    K.le("residual", np.linalg.norm(A(x) - b), err * 1.01 + 1e-11 * (1 + np.linalg.norm(b)))
    K.same("b unchanged", b, b0)
    if x0 is not None:
        K.same("start vector unchanged", x0, y0)
        K.ensure("the result is a new array", not np.shares_memory(x, x0))
    # consistent systems of lower rank (the fits solve these), to the rounding limit
    if n > 1:
        e2 = ev.copy()
        e2[:K.rng.randint(1, n - 1)] = 0
        P = (Q * e2) @ Q.conj().T
        P = (P + P.conj().T) / 2
        c = P @ (r.normal(size=n) + (1j * r.normal(size=n) if cplx else 0))
        lim = K.rng.choice([0.0, 1e-3, 1e-8]) * np.linalg.norm(c)
        y = lin.conjugate_gradient_solve(lambda v: P @ v, c, err=lim, max_i=K.rng.choice([None, 8 * n]))
        K.le("residual of a system of lower rank", np.linalg.norm(P @ y - c), lim * 1.01 + 1e-9 * np.linalg.norm(c))
        K.le("no part in the null space", np.linalg.norm(y), 1.001 * np.linalg.norm(np.linalg.pinv(P, rcond=1e-9, hermitian=True) @ c) + 1e-9)
    z = lin.conjugate_gradient_solve(A, b, x0, err=0.0, max_i=0)
    # at most max_i + 2 steps
    K.ensure("stops after max_i", z.shape == shape)
