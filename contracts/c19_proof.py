"""C19 for every number of bands, neighbours and samples: one step of a fit

Normalisation (a change of basis, C11) is replaced by its weakest contract (identity), so that the step itself is visible."""
from pyvc.kit import contract
from contracts.c09_proof import symbolic, model_of, points

A = "tight_binding_asym:AsymTightBindingModel."
B = "bandstructure:BandStructureModel."


def keep():
    """normalisation is a change of the basis: identity"""


class Log:
    """records what is reported"""

    def __init__(self):
        self.data, self.messages = [], []

    def add_message(self, msg):
        self.messages.append(msg)

    def add_data(self, iteration, loss, max_err):
        self.data.append((iteration, loss, max_err))

    def abort(self):
        self.messages.append("aborted")


@contract("C19", covers=[A + "optimize"], proof=True, pi=True, n=30)
def gradient_step_asym(K):
    """plain gradient: the mean of the steps of the single samples, which replace the selected energies by the references"""
    np = K.np
    t = K.mod("tight_binding_asym")
    nb, H, d, n, N = symbolic(K)
    m = t.AsymTightBindingModel(t.HermitianFourierSeries(nb, H))
    nk = K.int("k", 1, hic=4)
    k = K.array("k", (nk, d))
    off, more = K.int("offset", 0, hic=2), K.int("more", 0, hic=2)
    nr = n - off - more
    K.assume(nr >= 1)
    ref = K.array("ref", (nk, nr))
    r = K.index("r", N) + 1
    a, b = K.index("a", n), K.index("b", n)
    H1, H0 = H[r, a, b], H[0, a, b]
    la, ev = np.linalg.eigh(m.H.f(k))
    log = Log()
    m.normalize = keep
    final = (K.real("final loss"), K.array("final errors", (nr,)))
    m.error = lambda *a: final
    m.optimize(k, 1.0, ref, 1.0, off, 1, use_pinv=False, log=log, loss_threshold=0.0)
    s = K.sum(nk, lambda q: K.sum(nr, lambda j: (ref[q, j] - la[q, j + off]) ** 2))
    K.eq("loss of the start model", log.data[0][1] ** 2 * nk, s)
    w = lambda q, a, b: K.sum(nr, lambda j: (ref[q, j] - la[q, j + off]) * ev[q, a, j + off] * np.conj(ev[q, b, j + off]))
    ph = lambda q: np.exp(-2j * np.pi * np.sum(k[q] * nb[r]))
    norm = N + 0.125
    K.eq("loss of the result", log.data[-1][1], final[0])
    K.eq("step of the couplings", (m.H.H_r[r, a, b] - H1) * (2 * nk * norm), K.sum(nk, lambda q: w(q, a, b) * ph(q)))
    K.eq("step of the on-site matrix", (m.H.H_r[0, a, b] - H0) * (8 * nk * norm), K.sum(nk, lambda q: w(q, a, b)))


def general(K, nk, weights):
    """model with arbitrary coefficient functions (values F on the samples; the first one real, parameters of it Hermitian), references"""
    np = K.np
    n, T, d = K.int("n", 1, hic=4), K.int("T", 0, hic=4), K.choice("d", [1, 2, 3])
    F = K.array("re F", (T + 1, nk)) + 1j * K.array("im F", (T + 1, nk))
    F = np.concatenate([K.array("F0", (1, nk), lo=1, hi=2), F[1:]])
    a = K.array("re0", (n, n)) + 1j * K.array("im0", (n, n))
    P = np.concatenate([(a + np.conj(a.T))[None], K.array("re", (T, n, n)) + 1j * K.array("im", (T, n, n))])
    m = K.mod("bandstructure").BandStructureModel(lambda k, i: F[i], None, P)
    m.normalize = keep
    off, more = K.int("offset", 0, hic=2), K.int("more", 0, hic=2)
    nr = n - off - more
    K.assume(nr >= 1)
    ref, k = K.array("ref", (nk, nr)), K.array("k", (nk, d))
    kw = K.array("k weights", (nk,), lo=0.5, hi=2) if weights else 1.0
    bw = K.array("band weights", (nr,), lo=0.5, hi=2) if weights else 1.0
    return m, F, P, n, T, off, nr, ref, k, kw, bw


@contract("C19", covers=[B + "optimize"], proof=True, n=30)
def gradient_step_general(K):
    """any coefficient functions, weights and learning rate: every parameter moves along the conjugated coefficient, weighted by the sample"""
    np = K.np
    nk = K.int("nk", 1, hic=4)
    m, F, P, n, T, off, nr, ref, k, kw, bw = general(K, nk, True)
    lr = K.real("learning rate")
    la, ev = np.linalg.eigh(m.f(k))
    log = Log()
    final = (K.real("final loss"), K.array("final errors", (nr,)))
    seen = []
    m.error = lambda *a: seen.append(a) or final
    m.optimize(k, kw, ref, bw, off, 1, use_pinv=False, learning_rate=lr, log=log, loss_threshold=0.0)
    s = K.sum(nk, lambda q: K.sum(nr, lambda j: ((ref[q, j] - la[q, j + off]) * bw[j]) ** 2))
    K.eq("loss of the start model", log.data[0][1] ** 2 * nk, s)
    K.eq("loss of the result", log.data[-1][1], final[0])
    j = K.index("j", nr)
    q = K.index("q", nk)
    K.eq("references of the final loss", seen[-1][1][q, j], ref[q, j])
    K.eq("weights of the final loss", seen[-1][2][j], bw[j])
    K.same("offset of the final loss", seen[-1][3], off)
    a, b = K.index("a", n), K.index("b", n)
    mb, mk = K.sum(nr, lambda j: bw[j]) / nr, K.sum(nk, lambda q: kw[q]) / nk
    K.assume(mb > 0)
    K.assume(mk > 0)
    w = lambda q: K.sum(nr, lambda j: (ref[q, j] - la[q, j + off]) * bw[j] * ev[q, a, j + off] * np.conj(ev[q, b, j + off]))
    size = lambda q: F[0, q] ** 2 / 4 + K.sum(T, lambda i: np.real(F[i + 1, q]) ** 2 + np.imag(F[i + 1, q]) ** 2)
    step = lambda c: K.sum(nk, lambda q: kw[q] * w(q) * c(q) / size(q)) * lr / mb / mk / (2 * nk)
    K.eq("step of the constant term", m.params[0, a, b] - P[0, a, b], step(lambda q: F[0, q] / 2))
    if T > 0:
        t = K.index("t", T) + 1
        K.eq("step of a term", m.params[t, a, b] - P[t, a, b], step(lambda q: np.conj(F[t, q])))


@contract("C19", covers=[B + "optimize"], proof=True, n=30)
def single_sample_meets_references(K):
    """one step of a plain gradient with one sample: the Hamiltonian there gets the reference energies, with the same states"""
    np = K.np
    m, F, P, n, T, off, nr, ref, k, kw, bw = general(K, 1, False)
    la, ev = np.linalg.eigh(m.f(k))
    H = m.f(k)
    m.error = lambda *a: (0.0, np.zeros(nr))
    m.optimize(k, 1.0, ref, 1.0, off, 1, use_pinv=False, log=Log(), loss_threshold=0.0)
    a, b = K.index("a", n), K.index("b", n)
    w = K.sum(nr, lambda j: (ref[0, j] - la[0, j + off]) * ev[0, a, j + off] * np.conj(ev[0, b, j + off]))
    K.eq("change of the Hamiltonian", m.f(k)[0, a, b] - H[0, a, b], w)


def newton(K, nk, weights, probe):
    """one step of optimize_cg with the solver replaced by any answer x; probe: the operator is applied to y"""
    np = K.np
    m, F, P, n, T, off, nr, ref, k, kw, bw = general(K, nk, weights)
    y = K.array("re y", (T + 1, n, n)) + 1j * K.array("im y", (T + 1, n, n)) if probe else None
    x = K.array("re x", (T + 1, n, n)) + 1j * K.array("im x", (T + 1, n, n))
    la, ev = np.linalg.eigh(m.f(k))
    log = Log()
    final = (K.real("final loss"), K.array("final errors", (nr,)))
    m.error = lambda *a: final
    seen = []

    def solve(A, b, **options):
        seen.append((b + 0, A(y + 0) if probe else None))
        return x + 0
    t = K.mod("bandstructure")
    old, m.params = t.conjugate_gradient_solve, P + 0
    t.conjugate_gradient_solve = solve
    try:
        m.optimize_cg(k, 1.0, ref, bw, off, 1, precond=False, log=log, loss_threshold=0.0)
    finally:
        t.conjugate_gradient_solve = old
    f = lambda q, i: F[i, q] * np.where(i == 0, 0.5, 1.0)
    return m, P, n, T, off, nr, ref, la, ev, x, y, f, log, final, bw if weights else np.ones(nr), seen


@contract("C19", covers=[B + "optimize_cg"], proof=True, n=30)
def gauss_newton_step(K):
    """one step of optimize_cg: the right hand side given to the solver is the gradient of the loss, and the solution is subtracted"""
    np = K.np
    nk = K.int("nk", 1, hic=3)
    m, P, n, T, off, nr, ref, la, ev, x, y, f, log, final, bw, seen = newton(K, nk, True, False)
    s = K.sum(nk, lambda q: K.sum(nr, lambda j: ((ref[q, j] - la[q, j + off]) * bw[j]) ** 2))
    K.eq("loss of the start model", log.data[0][1] ** 2 * nk, s)
    K.eq("loss of the result", log.data[-1][1], final[0])
    a, b, i = K.index("a", n), K.index("b", n), K.index("i", T + 1)
    K.eq("gradient", seen[0][0][i, a, b], K.sum(nk, lambda q: np.conj(f(q, i)) * K.sum(nr, lambda j: bw[j] ** 2 * (la[q, j + off] - ref[q, j]) * ev[q, a, j + off] * np.conj(ev[q, b, j + off]))))
    if T > 0:
        r = K.index("r", T) + 1
        K.eq("change of a term", m.params[r, a, b], P[r, a, b] - x[r, a, b] / nk)
    K.eq("change of the constant term", m.params[0, a, b], P[0, a, b] - (x[0, a, b] + np.conj(x[0, b, a])) / (2 * nk))


@contract("C19", covers=[B + "optimize_cg"], proof=True, n=30)
def gauss_newton_matrix(K):
    """the operator given to the solver is the Gauss-Newton matrix of the loss: first order change of the energies, projected back"""
    np = K.np
    m, P, n, T, off, nr, ref, la, ev, x, y, f, log, final, bw, seen = newton(K, 1, False, True)
    a, b, i = K.index("a", n), K.index("b", n), K.index("i", T + 1)
    first = lambda j: K.sum(n, lambda c: K.sum(n, lambda e: np.conj(ev[0, c, j + off]) * ev[0, e, j + off] * K.sum(T + 1, lambda o: f(0, o) * y[o, c, e] + np.conj(f(0, o) * y[o, e, c]))))
    K.eq("Gauss-Newton matrix", seen[0][1][i, a, b], np.conj(f(0, i)) * K.sum(nr, lambda j: first(j) * ev[0, a, j + off] * np.conj(ev[0, b, j + off])))
