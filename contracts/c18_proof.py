"""C18: losses for every number of k-points, solver for one unknown"""
from pyvc.kit import contract

L = "loss:"


@contract("C18", covers=[L + "model_loss", L + "model_error"], proof=True, n=60)
def weighted_sizes(K):
    np = K.np
    l = K.mod("loss")
    nk, nr = K.int("k", 1, hic=5), K.int("ref", 1, hic=4)
    off = K.int("offset", 0, hic=3)
    nb = nr + off + K.int("more", 0, hic=3)
    b, f, w = K.array("b", (nk, nb)), K.array("f", (nk, nr)), K.array("w", (nr,))
    i, j = K.index("i", nk), K.index("j", nr)
    b0, f0, w0 = b[i, j + off], f[i, j], w[j]
    x = l.model_loss(b, f, w, off)
    y, m = l.model_error(b, f, w, off)
    s = K.sum(nk, lambda p: K.sum(nr, lambda q: ((b[p, q + off] - f[p, q]) * w[q]) ** 2))
    K.eq("mean square over the k-points", x * x * nk, s, atol=0 if K.sym else 1e-12 * (1 + s))
    K.ensure("nonnegative", x >= 0)
    K.eq("the error call gives the same loss", y, x, atol=1e-10)
    K.ensure("one largest deviation per band", m.shape[0] == nr)
    K.ensure("largest deviation bounds every deviation, without weights", m[j] >= abs(b0 - f0) - (0 if K.sym else 1e-12))
    K.eq("bands unchanged", b[i, j + off], b0)
    K.eq("reference unchanged", f[i, j], f0)
    K.eq("weights unchanged", w[j], w0)
    K.eq("no deviation, no loss", l.model_loss(b, b[:, off:off + nr], w, off), 0)


@contract("C18", covers=[L + "model_windowed_loss"], proof=True, n=60)
def windowed_sizes(K):
    np = K.np
    l = K.mod("loss")
    nk = K.int("k", 1, hic=5)
    nb, nr = K.choice("bands", [1, 2, 3]), K.choice("ref", [1, 2, 3])
    b, f = K.array("b", (nk, nb)), K.array("f", (nk, nr))
    lo, hi = K.real("lo"), K.real("hi")
    x = l.model_windowed_loss(b, f, lo, hi)
    n = min(nb, nr)
    cs = []
    for o in range(max(nb, nr) - n + 1):
        p, q = (0, o) if nb < nr else (o, 0)
        w = lambda i, c: np.where((lo <= f[i, c + q]) & (f[i, c + q] <= hi), 1.0, 0.0)
        cs.append(np.sqrt(K.sum(nk, lambda i: sum(((b[i, c + p] - f[i, c + q]) * w(i, c)) ** 2 for c in range(n)))))
    m = cs[0]
    for c in cs[1:]:
        m = np.minimum(m, c)
    K.eq("smallest over the contiguous assignments", x, m / np.sqrt(nk * 1.0), atol=0 if K.sym else 1e-9 * (1 + m))


def check_exact(K, n):
    """conjugate gradients solve n unknowns in n steps (exact arithmetic), for every start vector"""
    np = K.np
    M = [[None] * n for _ in range(n)]
    for p in range(n):
        for q in range(p, n):
            M[p][q] = M[q][p] = K.real("m%d%d" % (p, q), -3, 3)
    K.assume(M[0][0] > 0.1)
    M = np.array(M)
    b, x0 = K.array("b", (n,)), K.array("x0", (n,))
    B, X0 = [b[i] for i in range(n)], [x0[i] for i in range(n)]
    x = K.mod("linalg").conjugate_gradient_solve(lambda v: M @ v, b, x0 if K.bool("start") else None, err=0.0, max_i=n - 2)
    for i in range(n):
        K.eq("residual vanishes", sum(M[i, j] * x[j] for j in range(n)), b[i], atol=1e-5)
        K.eq("right side unchanged", b[i], B[i])
        K.eq("start vector unchanged", x0[i], X0[i])


@contract("C18", covers=["linalg:conjugate_gradient_solve"], proof=True, n=30)
def solver_exact(K):
    check_exact(K, 1)
