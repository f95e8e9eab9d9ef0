"""C05 the closed forms of the Fermi window, by the fundamental theorem: the derivative with respect to the upper
limit is the integrand, and the value at an empty interval is zero.

Fermi function occ(u) = 1/(1+exp(u)), window w(u) = exp(u)/(1+exp(u))^2 = -occ'(u)."""
from pyvc.kit import contract

D = "density_of_states:"


def window(K, u):
    """-d/du 1/(1+exp(u))"""
    np = K.np
    e = np.exp(-abs(u))
    return e / (1 + e) / (1 + e)


def number(K, name, **kw):
    return K.real(name, gen=lambda k: round(k.rng.gauss(0, 3), 2), **kw)


@contract("C05", covers=[D + "int_poly", D + "_int_df", D + "_int_xdf", D + "_int_xxdf"], proof=True, n=60, pi=True)
def integral_is_antiderivative(K):
    ip = K.mod("density_of_states").int_poly
    a, b, c = number(K, "a"), number(K, "b"), number(K, "c")
    x0, x1 = number(K, "x0"), number(K, "x1")
    sign = K.choice("sign", [1, -1])
    K.assume(sign * x1 > 0)
    K.deriv("d/dx1 is the integrand", lambda x: ip(x0, x, a, b, c), x1, (a * x1 * x1 + b * x1 + c) * window(K, x1))


@contract("C05", covers=[D + "int_poly", D + "_int_df", D + "_int_xdf", D + "_int_xxdf"], proof=True, n=60, pi=True)
def integral_is_additive(K):
    ip = K.mod("density_of_states").int_poly
    a, b, c = number(K, "a"), number(K, "b"), number(K, "c")
    x0, x1, x2 = number(K, "x0"), number(K, "x1"), number(K, "x2")
    K.eq("additive", ip(x0, x1, a, b, c) + ip(x1, x2, a, b, c), ip(x0, x2, a, b, c), atol=1e-9 * (1 + abs(a) + abs(b) + abs(c)))
    K.eq("empty", ip(x0, x0, a, b, c), 0.0)


@contract("C05", covers=[D + "convolve_ddf", D + "convolve_df"], proof=True, n=60)
def smeared_density_is_derivative(K):
    m = K.mod("density_of_states")
    n = K.int("n", 1, hic=6)
    es = K.array("es", (n,), gen=None if K.sym else (lambda k: _increasing(k, n)))
    st = K.array("st", (n,))
    beta = K.real("beta", 0.1, 30)
    x = number(K, "x")
    kind = K.choice("extrapolation", [0, 1, 2])
    E, N = number(K, "E"), number(K, "N")
    kw = [{}, {"extrapolation": None}, {"extrapolation_point": (E, N)}][kind]
    K.deriv("derivative of the smeared count", lambda y: m.convolve_df(y, es, st, beta, **kw), x, m.convolve_ddf(x, es, st, beta, **kw))


def _increasing(k, n):
    import numpy as np
    return np.cumsum(np.round(k.nrng.uniform(0.1, 2, size=n), 2)) - 3


@contract("C05", covers=[D + "convolve_df"], proof=True, n=60)
def piece_is_antiderivative(K):
    """one linear piece of the count: the derivative with respect to its end is the integrand count(e) w(e - x)"""
    np = K.np
    m = K.mod("density_of_states")
    beta = K.real("beta", 0.1, 30)
    x, a, e, y, slope = number(K, "x"), number(K, "a"), number(K, "e"), number(K, "y"), number(K, "slope")
    K.assume(e > a + 0.01)

    def f(e):
        return m.convolve_df(x, np.array([a, e]), np.array([y, y + slope * (e - a)]), beta, extrapolation=None)
    K.deriv("d/de is the integrand", f, e, (y + slope * (e - a)) * beta * window(K, beta * (e - x)))


@contract("C05", covers=[D + "convolve_df"], proof=True, n=60)
def pieces_add_up(K):
    """the induction step over the number of samples: a further sample adds its piece; a constant count stays constant"""
    np = K.np
    m = K.mod("density_of_states")
    n = K.int("n", 1, hic=6)
    es = K.array("es", (n,), gen=None if K.sym else (lambda k: _increasing(k, n)))
    st = K.array("st", (n,))
    beta = K.real("beta", 0.1, 30)
    x, y = number(K, "x"), number(K, "y")
    e = es[n - 1] + K.real("step", 0.01)
    es2, st2 = np.concatenate([es, [e]]), np.concatenate([st, [y]])
    piece = m.convolve_df(x, np.array([es[n - 1], e]), np.array([st[n - 1], y]), beta, extrapolation=None)
    K.eq("a further piece", m.convolve_df(x, es2, st2, beta, extrapolation=None), m.convolve_df(x, es, st, beta, extrapolation=None) + piece, atol=1e-9)
    c = number(K, "c")
    K.eq("constant count: one sample", m.convolve_df(x, es[:1], st[:1] * 0 + c, beta), c, atol=1e-9)
    K.eq("constant count: a further sample", m.convolve_df(x, es2, st2 * 0 + c, beta), m.convolve_df(x, es, st * 0 + c, beta), atol=1e-9)
    # the ends
    occ = lambda u: 1 / (1 + np.exp(u))
    K.eq("flat ends", m.convolve_df(x, es, st, beta), m.convolve_df(x, es, st, beta, extrapolation=None)
         + st[0] * occ(beta * (x - es[0])) + st[n - 1] * occ(beta * (es[n - 1] - x)), atol=1e-9)
    E, N = number(K, "E"), number(K, "N")
    K.eq("count above the samples", m.convolve_df(x, es, st, beta, extrapolation_point=(E, N)), m.convolve_df(x, es, st, beta, extrapolation=None) + N * occ(beta * (E - x)), atol=1e-9)


BERNOULLI = {2: (1, 6), 4: (1, 30), 6: (1, 42), 8: (1, 30), 10: (5, 66), 12: (691, 2730)}
ZETA = {3: 1.2020569031595942, 5: 1.0369277551433699, 7: 1.0083492773819228, 9: 1.0020083928260822, 11: 1.0004941886041195}
PI = 3.141592653589793


def close(K, label, a, b, tol):
    K.le(label + " (above)", a - b, tol)
    K.le(label + " (below)", b - a, tol)


def scaled(K):
    return number(K, "mu"), K.real("beta", 0.1, 30)


@contract("C05", covers=[D + "gauss_5_df", D + "gauss_7_df"], proof=True, n=30)
def window_quadrature(K):
    """exact for polynomials up to degree 9 / 13 at every chemical potential and temperature:
    integral of u^k w(u) is (2^k - 2) |B_k| pi^k for even k and 0 for odd k"""
    m = K.mod("density_of_states")
    mu, beta = scaled(K)
    for f, order in ((m.gauss_5_df, 9), (m.gauss_7_df, 13)):
        for k in range(order + 1):
            if k == 0:
                want, size = 1.0, 1.0
            elif k % 2:
                want, size = 0.0, (2 ** (k + 1)) * 20.0 * PI ** (k - 1) * k
            else:
                p, q = BERNOULLI[k]
                want = (2 ** k - 2) * p / q * PI ** k
                size = want
            close(K, "moment %d" % k, f(lambda x: ((x - mu) * beta) ** k, mu, beta), want, 2e-12 * size if K.sym else 1e-9 * size * (1 + abs(mu * beta)) ** k)
        c = [number(K, "c%d" % i) for i in range(2)]
        K.eq("linear", f(lambda x: c[0] + 2 * x * c[1], mu, beta), c[0] * f(lambda x: x * 0 + 1.0, mu, beta) + 2 * c[1] * f(lambda x: x, mu, beta), atol=1e-9)


@contract("C05", covers=[D + "gauss_4_f", D + "gauss_6_f"], proof=True, n=30)
def half_fermi_quadrature(K):
    """exact up to degree 7 / 11: integral of u^k / (1+exp|u|) is 2 k! eta(k+1) for even k and 0 for odd k"""
    import math
    np = K.np
    m = K.mod("density_of_states")
    mu, beta = scaled(K)
    for f, order in ((m.gauss_4_f, 7), (m.gauss_6_f, 11)):
        close(K, "constant", f(lambda x: x * 0 + 1.0, mu, beta) * beta, 2 * np.log(2), 1e-12)
        for k in range(1, order + 1):
            want = 0.0 if k % 2 else 2 * math.factorial(k) * (1 - 2.0 ** -k) * ZETA[k + 1]
            size = max(1.0, 4.0 * math.factorial(k))
            want = want / (2 * math.log(2))
            got = f(lambda x: ((x - mu) * beta) ** k, mu, beta) * beta / (2 * np.log(2))
            close(K, "moment %d" % k, got, want, 2e-12 * size if K.sym else 1e-9 * size * (1 + abs(mu * beta)) ** k)
