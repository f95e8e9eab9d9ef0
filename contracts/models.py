"""generators of inputs for the bounded evaluation of contracts (concrete mode only)"""
import numpy as np


def rng_hermitian(r, n):
    a = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n))
    return (a + a.conj().T) / 2


def half_lattice(dim, cut):
    """0 and one of each +-pair of nonzero integer vectors with |r| <= cut"""
    m = int(np.ceil(cut))
    g = np.stack(np.meshgrid(*[np.arange(-m, m + 1)] * dim, indexing="ij"), axis=-1).reshape(-1, dim)
    out = [np.zeros(dim)]
    for v in g:
        if np.linalg.norm(v) <= cut + 1e-9 and tuple(v) > (0,) * dim:
            out.append(v.astype(float))
    out[1:] = sorted(out[1:], key=lambda v: (round(np.linalg.norm(v), 9), tuple(v)))
    return np.array(out)


def series(K, dim=3, n=None, nn=None, scale=1.0, cut=1.5):
    """random (neighbors, H_r)"""
    r = K.nrng
    n = n or int(r.integers(1, 5))
    full = half_lattice(dim, cut)
    nn = min(nn or int(r.integers(1, 6)), len(full) - 1)
    sel = np.concatenate([[0], 1 + r.permutation(len(full) - 1)[:nn]]).astype(int)
    nb = full[sel] * np.where(r.random((len(sel), 1)) < 0.5, 1, -1)
    nb = nb + 0.0
    H = (r.normal(size=(len(sel), n, n)) + 1j * r.normal(size=(len(sel), n, n))) * scale
    H[0] = rng_hermitian(r, n) * scale
    if r.random() < 0.3:
        H = H.real.copy()
        H[0] = (H[0] + H[0].T) / 2
    return nb, H


def overlap(K, nb, n):
    r = K.nrng
    S = (r.normal(size=(len(nb), n, n)) + 1j * r.normal(size=(len(nb), n, n))) * 0.15 / (n * len(nb))
    S[0] = np.eye(n) + rng_hermitian(r, n) * 0.1 / n
    return S


def fourier(nb, H, k):
    """textbook sum, one point"""
    k = np.asarray(k, dtype=float)
    m = np.array(H[0], dtype=complex)
    for v, h in zip(nb[1:], H[1:]):
        p = np.exp(2j * np.pi * np.dot(k, v))
        m = m + p * h + np.conj(p) * np.conj(h).T
    return m


def eig(H, S=None):
    import scipy.linalg as sl
    return np.linalg.eigvalsh(H) if S is None else sl.eigh(H, S, eigvals_only=True)


class Plain:
    """callable periodic 3D bands without gradients"""

    def __init__(self, nb, H, A=None):
        self.nb, self.H, self.A = nb, H, np.eye(len(nb[0])) if A is None else A

    def __call__(self, k):
        k = np.asarray(k) @ self.A
        ph = np.exp(2j * np.pi * (k @ self.nb[1:].T))
        m = np.einsum("...r,rij->...ij", ph, self.H[1:])
        m = m + np.conj(np.swapaxes(m, -1, -2)) + self.H[0]
        return np.linalg.eigvalsh(m)


def band_model(K, bands=None, A=None):
    """a random periodic 3D band structure of one of several kinds -> callable"""
    r = K.nrng
    n = bands or int(r.integers(1, 5))
    kind = int(r.integers(4))
    nb, H = series(K, 3, n, int(r.integers(1, 5)), cut=1.0 if kind < 3 else 1.5)
    nb = np.concatenate([nb, [[1.0, 0, 0], [0, 1, 0], [0, 0, 1]]])
    H = np.concatenate([H, np.array([np.diag(r.normal(size=n)) for _ in range(3)])])
    if kind == 0:          # well separated bands (gaps)
        H = H * 0.1
        H[0] = np.diag(np.arange(n) * 4.0 + r.normal(size=n) * 0.3)
    elif kind == 1:        # touching / overlapping
        H = H * 0.5
    elif kind == 2:        # exactly degenerate pairs of simple cubic bands
        H = H * 0
        t = r.normal(size=n // 2 + 1)
        for i in range(n):
            H[-3:, i, i] = t[i // 2]
            H[0, i, i] = t[i // 2] * 0.5
    m = Plain(nb, H, A)
    return m
