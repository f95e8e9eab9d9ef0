"""The part of numpy/scipy the verified functions use, over symbolic arrays.
Every function here is a trusted contract on the library (conformance-tested
against the real numpy by selftest.py)."""
import builtins
import math
import z3
from .term import *
from . import term as T
from .sym import *
from . import sym as Y
from .arr import *
from . import arr as A

_sum, _max, _min, _abs, _all, _any, _round = builtins.sum, builtins.max, builtins.min, builtins.abs, builtins.all, builtins.any, builtins.round

pi = math.pi
e = math.e
inf = float("inf")
nan = float("nan")
newaxis = None


class ndarray:
    def __class_getitem__(cls, k):
        return cls


class _DT:
    def __class_getitem__(cls, k):
        return cls


dtype = _DT


class dtypes:
    Float64DType = _DT


def _scalar_type(kind):
    class Ty(metaclass=_TyMeta):
        pass
    Ty.kind = kind
    return Ty


class _TyMeta(type):
    def __call__(cls, x=0):
        return cast(x, cls.kind)


float64 = _scalar_type("f")
float32 = _scalar_type("f")
complex128 = _scalar_type("c")
complex64 = _scalar_type("c")
int64 = _scalar_type("i")
int32 = _scalar_type("i")
intp = _scalar_type("i")
bool_ = _scalar_type("b")
floating = float64
integer = int64
generic = float64
number = float64


def promote_types(a, b):
    return DType(promote(todtype(a).kind, todtype(b).kind))


def result_type(*a):
    r = None
    for x in a:
        k = x.kind if isinstance(x, Arr) else ("c" if iscomplex(x) else "i" if isint(x) else "f") if isscalar(x) else todtype(x).kind
        r = k if r is None else promote(r, k)
    return DType(r)


def finfo(*a):
    raise OutOfSubset("finfo")


# ------------------------------------------------------------- basics
def shape(x):
    if isinstance(x, Arr):
        return x.shape
    if isscalar(x):
        return ()
    return asarr(x).shape


def ndim(x):
    return len(shape(x))


def size(x, axis=None):
    a = asarr(x)
    return a.size if axis is None else a.shape[axis]


def array(x, dtype=None, copy=True, ndmin=0):
    a = asarr(x)
    a = a.copy() if isinstance(x, Arr) else a
    if dtype is not None:
        a = a.astype(dtype)
    return a


def asarray(x, dtype=None):
    if isinstance(x, (list, tuple)) and x and builtins.all(isinstance(q, str) for q in x):
        return list(x)      # names are kept as a list
    a = asarr(x)
    if dtype is not None and todtype(dtype).kind != a.kind:
        a = a.astype(dtype)
    return a


asanyarray = asarray
ascontiguousarray = asarray


def copy(x):
    return asarr(x).copy()


def _shape(s):
    if isinstance(s, (int, S)):
        return (s,)
    return tuple(s)


def zeros(shape, dtype=None):
    k = todtype(dtype).kind
    z = {"f": Fraction(0), "i": 0, "b": False, "c": C(Fraction(0), Fraction(0))}[k]
    return Arr(_shape(shape), lambda idx: z, k)


def empty(shape, dtype=None):
    raise OutOfSubset("np.empty (uninitialised)")


def ones(shape, dtype=None):
    k = todtype(dtype).kind
    z = {"f": Fraction(1), "i": 1, "b": True, "c": C(Fraction(1), Fraction(0))}[k]
    return Arr(_shape(shape), lambda idx: z, k)


def full(shape, v, dtype=None):
    k = todtype(dtype).kind if dtype is not None else kind_of(v)
    return Arr(_shape(shape), lambda idx: v, k)


def zeros_like(x, dtype=None):
    a = asarr(x)
    return zeros(a.shape, dtype if dtype is not None else DType(a.kind))


empty_like = zeros_like


def ones_like(x, dtype=None):
    a = asarr(x)
    return ones(a.shape, dtype if dtype is not None else DType(a.kind))


def eye(n, m=None, dtype=None):
    k = todtype(dtype).kind

    def f(idx):
        c = A._ieq(idx[0], idx[1])
        return Fraction(1) if c is True else Fraction(0) if c is False else ite(lit(c), Fraction(1), Fraction(0))
    return Arr((n, n if m is None else m), f, k)


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def diag(x, k=0):
    a = asarr(x)
    r = a.reader()
    if a.ndim == 1:
        def f(idx):
            c = A._ieq(idx[0], idx[1])
            if c is True:
                return r([idx[0]])
            if c is False:
                return Fraction(0)
            return ite(lit(c), r([idx[0]]), Fraction(0))
        return Arr((a.shape[0], a.shape[0]), f, a.kind)
    return Arr((a.shape[0],), lambda idx: r([idx[0], idx[0]]), a.kind)


def diagonal(x, offset=0, axis1=0, axis2=1):
    a = asarr(x)
    if offset != 0:
        raise OutOfSubset("diagonal offset")
    n = a.ndim
    a1, a2 = axis1 % n, axis2 % n
    rest = [i for i in range(n) if i not in (a1, a2)]
    r = a.reader()

    def f(idx):
        full = [None] * n
        for p, j in enumerate(rest):
            full[j] = idx[p]
        full[a1] = full[a2] = idx[-1]
        return r(full)
    return Arr([a.shape[i] for i in rest] + [a.shape[a1]], f, a.kind)


def trace(x):
    return sum(diagonal(x))


def arange(*a):
    a = [x for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if not isint(lo) or not isint(hi) or not isint(st):
        raise OutOfSubset("float arange")
    n = sub(hi, lo)
    if st != 1:
        if not (isinstance(st, int) and st > 0):
            raise OutOfSubset("arange step")
        n = floordiv(add(n, st - 1), st)
    n = dim(A._imax0(n))
    return Arr((n,), lambda idx: add(lo, mul(st, A._s(idx[0]))), "i")


def linspace(a, b, num=50, endpoint=True, retstep=False):
    n = dim(num)
    d = sub(n, 1) if endpoint else n

    def f(idx):
        i = A._s(idx[0])
        if isnum(i) and i == 0:
            return _real(a)
        t = div(_real(i), _real(d))
        r = add(a, mul(t, sub(b, a)))
        return r
    return Arr((n,), f, "f")


def _real(x):
    if isinstance(x, S):
        return S(real_t(x))
    return frac(x) if isnum(x) else x


def meshgrid(*xs, indexing="xy"):
    arrs = [asarr(x) for x in xs]
    n = len(arrs)
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    shp = [arrs[j].shape[0] for j in order]
    rs = [a.reader() for a in arrs]
    return tuple(Arr(shp, (lambda idx, r=rs[k], p=order.index(k): r([idx[p]])), arrs[k].kind) for k in range(n))


# -------------------------------------------------------------- ufuncs
def _f1(name):
    def f(x, out=None):
        if out is not None:
            raise OutOfSubset("out=")
        k = kind_of2(x)
        return elementwise(lambda v: apply1(name, v), x, kind="c" if k == "c" else "f")
    f.__name__ = name
    return f


exp, sin, cos, tanh, cosh, sinh, log, log1p, arctan, arcsin, arccos, cbrt = [_f1(n) for n in ("exp", "sin", "cos", "tanh", "cosh", "sinh", "log", "log1p", "arctan", "arcsin", "arccos", "cbrt")]


def tan(x):
    return sin(x) / cos(x)


def deg2rad(x):
    return x * (math.pi / 180)


radians = deg2rad


def sqrt(x):
    return elementwise(Y.sqrt, x, kind="f")


def abs(x):
    return elementwise(Y.absv, x, kind="f" if kind_of2(x) == "c" else None)


absolute = abs
fabs = abs


def square(x):
    return x * x


def negative(x):
    return -x


def sign(x):
    return elementwise(Y.sign, x)


def conj(x):
    return elementwise(Y_conj, x)


conjugate = conj


def real(x):
    if isscalar(x):
        return split(x)[0]
    return asarr(x).real


def imag(x):
    if isscalar(x):
        return split(x)[1]
    return asarr(x).imag


def where(c, a=None, b=None):
    if a is None:
        raise OutOfSubset("np.where(cond)")

    def f(c, a, b):
        if (isinstance(a, float) and math.isinf(a)) or (isinstance(b, float) and math.isinf(b)):
            if isinstance(c, bool):
                return a if c else b
            if b == math.inf and not iscomplex(a) and not isinstance(a, float):
                return Y.OrInf(Y.bool_t(c), a)
            raise OutOfSubset("infinite value in np.where")
        return ite(c, a, b)
    return elementwise(f, c, a, b, kind=promote(kind_of2(a), kind_of2(b)))


def maximum(a, b):
    return elementwise(Y.maximum, a, b)


def minimum(a, b):
    return elementwise(Y.minimum, a, b)


fmax, fmin = maximum, minimum


def clip(x, a, b):
    r = x
    if a is not None:
        r = maximum(r, a)
    if b is not None:
        r = minimum(r, b)
    return r


def isclose(a, b, rtol=1e-5, atol=1e-8):
    return abs(a - b) <= atol + rtol * abs(b)


def allclose(a, b, rtol=1e-5, atol=1e-8):
    return all(isclose(asarr(a), asarr(b), rtol, atol))


def logical_and(a, b):
    return elementwise(band, a, b, kind="b")


def logical_or(a, b):
    return elementwise(bor, a, b, kind="b")


def logical_not(a):
    return elementwise(bnot, a, kind="b")


def add_(a, b):
    return binop("+", a, b)


def subtract(a, b):
    return binop("-", a, b)


def multiply(a, b):
    return binop("*", a, b)


def divide(a, b):
    return binop("/", a, b)


def power(a, b):
    return binop("**", a, b)


def isnan(x):
    return elementwise(lambda v: False, x, kind="b")


def round(x, decimals=0):
    def f(v):
        if isint(v):
            return v
        if isnum(v):
            return Fraction(_round(v))
        q = as_frac(v.t)
        if q is not None:
            return Fraction(_round(q))
        raise OutOfSubset("round of a symbolic real")
    return elementwise(f, x)


rint = round
around = round


def floor(x):
    def f(v):
        if isint(v):
            return v
        if isnum(v):
            return Fraction(math.floor(v))
        return S(z3.ToReal(z3.ToInt(v.t)))
    return elementwise(f, x)


def ceil(x):
    return -floor(-x)


# ---------------------------------------------------------- reductions
def sum_over(n, f):
    """sum_{0<=i<n} f(i), f: int|z3 Int -> scalar"""
    if isinstance(n, int):
        r = 0
        for i in range(n):
            r = Y.add(r, f(i)) if not (isinstance(r, int) and r == 0) else f(i)
        return r if n else Fraction(0)
    i = fresh("i", T.I)
    c = Y.ctx()
    mark = len(c.pc)
    c.scope.append(mark)
    c.pc += [i >= 0, i < dim_t(n)]
    try:
        v = Y.merged(lambda: f(i), lambda q, a, b: ite(lit(z3.simplify(q)), a, b))
    finally:
        c.scope.pop()
        del c.pc[mark:]
    if iscomplex(v):
        re, im = split(v)
        return mkc(_s1(i, n, re), _s1(i, n, im))
    return _s1(i, n, v)


_INT_FACT = {}


def _int_fact(p):
    """is p a quantifier-free fact about integers only?"""
    k = p.get_id()
    if k not in _INT_FACT:
        def ok(t):
            if not z3.is_app(t):
                return False
            if t.sort() == T.R:
                return False
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return False
            return _all(ok(c) for c in t.children())
        _INT_FACT[k] = (p, ok(p))
    return _INT_FACT[k][1]


_ENT = {}


def _entailed(facts, a):
    """True/False if the integer facts decide the atom a, else None"""
    vs = set(T.free_vars(a))
    rel, rest = [], list(facts)
    while True:
        hit = [f for f in rest if T.free_vars(f) & vs]
        if not hit:
            break
        rel += hit
        rest = [f for f in rest if not (T.free_vars(f) & vs)]
        for f in hit:
            vs |= T.free_vars(f)
    k = (a.get_id(), frozenset(f.get_id() for f in rel))
    if k not in _ENT:
        s = z3.Solver()
        s.set("timeout", 200)
        s.add(*rel)
        r = None
        if s.check(z3.Not(a)) == z3.unsat:
            r = True
        elif s.check(a) == z3.unsat:
            r = False
        _ENT[k] = (a, rel, r)
    return _ENT[k][2]


def _subst_deep(t, pairs):
    """replace (boolean) subterms, also inside the bodies of sums"""
    extra = []
    for nm, c in T.sums_in(t, deep=False).items():
        b, n, body = T.SUMS[nm]
        nb = _subst_deep(body, pairs)
        if nb.get_id() != body.get_id():
            extra.append((c, mk_sum_term(b, n, nb)))
    r = z3.substitute(t, *(list(pairs) + extra))
    return r if r.get_id() == t.get_id() else z3.simplify(r)


def _resolve(t, facts, depth=0):
    """t with the case distinctions which the integer facts decide carried out, also inside of sums"""
    from . import prove as P
    for _ in range(8):
        pairs = []
        if P.ite_in(t):
            for a in P.ite_conds(t, 60):
                if _int_fact(a):
                    e = _entailed(facts, a)
                    if e is not None:
                        pairs.append((a, z3.BoolVal(e)))
        if not pairs:
            break
        t = z3.simplify(z3.substitute(t, *pairs))
    extra = []
    for nm, c in T.sums_in(t, deep=False).items():
        b, n, body = T.SUMS[nm]
        nb = _resolve(body, facts + [b >= 0, b < n], depth + 1)
        if nb.get_id() != body.get_id():
            extra.append((c, mk_sum_term(b, n, nb)))
    if extra:
        t = z3.substitute(t, *extra)
    return t


def _conds(t, acc=None):
    from . import prove as P
    acc = {} if acc is None else acc
    if P.ite_in(t):
        for a in P.ite_conds(t, 60):
            acc[a.get_id()] = a
    for nm in T.sums_in(t, deep=False):
        _conds(T.SUMS[nm][2], acc)
    return acc


def _split_at(i, n, t, facts):
    """(atom, c, sense): the sum over 0 <= i < n of t has a case distinction "i < c" (sense: atom is i < c) at a
    c with 0 <= c <= n"""
    nt = dim_t(n)
    if z3.is_int_value(nt):
        return None
    zero, one = z3.IntVal(0), z3.IntVal(1)
    for a in _conds(t).values():
        if a.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or a.arg(0).sort() != T.I or not T.depends(a, i) or not _int_fact(a):
            continue
        d = a.arg(0) - a.arg(1)
        r0 = z3.simplify(z3.substitute(d, (i, zero)))
        s = z3.simplify(z3.substitute(d, (i, one)) - r0)
        if not z3.is_int_value(s) or s.as_long() not in (1, -1) or z3.simplify(d - s * i - r0).sexpr() != "0":
            continue
        k, s = a.decl().kind(), s.as_long()
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):      # d >= 0  ->  -d <= 0
            r0, s = -r0, -s
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        # s*i + r0 <= 0 (or < 0)
        if s == 1:
            c, sense = z3.simplify(-r0 + (0 if strict else 1)), True
        else:
            c, sense = z3.simplify(r0 + (1 if strict else 0)), False
        if z3.is_int_value(c) and not 0 < c.as_long() <= 2:
            continue
        if _entailed(facts, z3.And(c >= 0, c <= nt)):
            return a, c, sense
    return None


def _point_at(i, n, t, facts):
    """(atom, c): a case distinction "i = c" in the summand with 0 <= c < n"""
    zero, one = z3.IntVal(0), z3.IntVal(1)
    for a in _conds(t).values():
        if a.decl().kind() != z3.Z3_OP_EQ or a.arg(0).sort() != T.I or not T.depends(a, i) or not _int_fact(a):
            continue
        d = a.arg(0) - a.arg(1)
        r0 = z3.simplify(z3.substitute(d, (i, zero)))
        s = z3.simplify(z3.substitute(d, (i, one)) - r0)
        if not z3.is_int_value(s) or s.as_long() not in (1, -1) or z3.simplify(d - s * i - r0).sexpr() != "0":
            continue
        c = z3.simplify(-r0 if s.as_long() == 1 else r0)
        if _entailed(facts, z3.And(c >= 0, c < dim_t(n))):
            return a, c
    return None


def _s1(i, n, v):
    if isnum(v) and v == 0:
        return Fraction(0)
    nt = dim_t(n)
    facts = [p for p in Y.ctx().persistent() if _int_fact(p)]
    t = _resolve(real_t(v), facts + [i >= 0, i < nt])
    sp = _split_at(i, n, t, facts)
    if sp is not None:
        a, c, sense = sp
        lo = _subst_deep(t, [(a, z3.BoolVal(sense))])
        hi = subst(_subst_deep(t, [(a, z3.BoolVal(not sense))]), [(i, i + c)])
        if z3.is_int_value(c):
            first = Fraction(0)
            for j in range(c.as_long()):
                first = Y.add(first, S(subst(lo, [(i, z3.IntVal(j))])))
        else:
            first = _s1(i, c, S(lo))
        return Y.add(first, _s1(i, z3.simplify(nt - c), S(hi)))
    pt = _point_at(i, n, t, facts)
    if pt is not None:
        a, c = pt
        yes, no = (_subst_deep(t, [(a, z3.BoolVal(q))]) for q in (True, False))
        d = norm(yes - no)
        return Y.add(_s1(i, n, S(no)), S(subst(d, [(i, c)])))
    v = S(t)
    t = mk_sum_term(i, dim_t(n), real_t(v))
    q = as_frac(t) if z3.is_rational_value(t) else None
    return q if q is not None else S(t)


def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return [x % a.ndim for x in axis]
    if not -a.ndim <= axis < a.ndim:
        raise ValueError("axis out of bounds")
    return [axis % a.ndim]


def _reduce(a, axis, keepdims, red):
    ax = _axes(a, axis)
    keep = [j for j in range(a.ndim) if j not in ax]
    r = a.reader()

    def f(idx):
        full = [None] * a.ndim
        if keepdims:
            for j in keep:
                full[j] = idx[j]
        else:
            for p, j in enumerate(keep):
                full[j] = idx[p]

        def go(k):
            if k == len(ax):
                return r(full)

            def g(i):
                full[ax[k]] = i
                return go(k + 1)
            return red(a.shape[ax[k]], g)
        return go(0)
    shp = [(1 if j in ax else a.shape[j]) for j in range(a.ndim)] if keepdims else [a.shape[j] for j in keep]
    return f, shp


def sum(x, axis=None, keepdims=False, dtype=None):
    if isscalar(x):
        return x
    a = asarr(x)
    f, shp = _reduce(a, axis, keepdims, sum_over)
    if not shp:
        return f(())
    return Arr(shp, f, "i" if a.kind == "b" else a.kind)


def prod(x, axis=None):
    a = asarr(x)

    def red(n, g):
        if not isinstance(n, int):
            raise OutOfSubset("symbolic product")
        r = 1
        for i in range(n):
            r = Y.mul(r, g(i))
        return r
    f, shp = _reduce(a, axis, False, red)
    return Arr(shp, f, a.kind) if shp else f(())


def mean(x, axis=None, keepdims=False):
    a = asarr(x)
    n = 1
    for j in _axes(a, axis):
        n = Y.mul(n, a.shape[j])
    return binop("/", sum(a, axis, keepdims), _real(n))


def average(x, axis=None, weights=None):
    if weights is None:
        return mean(x, axis)
    raise OutOfSubset("average weights")


def _minmax(which):
    def f(x, axis=None, keepdims=False, initial=None):
        if isscalar(x):
            return x
        a = asarr(x)

        def red(n, g):
            if isinstance(n, int):
                if n == 0:
                    raise ValueError("zero-size array to reduction operation")
                r = g(0)
                for i in range(1, n):
                    r = which(r, g(i))
                return r
            # contract of the extremum over a symbolic extent
            c = Y.ctx()
            if c.local:
                raise OutOfSubset("extremum under a bound variable")
            m = S(fresh("ext", T.R))
            i = fresh("q", T.I)
            v = Y.merged(lambda: g(i), lambda q, a, b: ite(lit(z3.simplify(q)), a, b))
            le = Y.cmp("<=", v, m) if which is Y.maximum else Y.cmp(">=", v, m)
            w = fresh("w", T.I)
            vw = z3.substitute(real_t(v), (i, w)) if not sums_in(real_t(v)) else subst(real_t(v), [(i, w)])
            c.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < dim_t(n)), bool_t(le))))
            c.pc.append(z3.And(w >= 0, w < dim_t(n), m.t == vw))
            return m
        fn, shp = _reduce(a, axis, keepdims, red)
        if not shp:
            return fn(())
        # extrema are fresh symbols: evaluate each element once
        return Arr(shp, fn, a.kind)
    return f


max = amax = _minmax(Y.maximum)
min = amin = _minmax(Y.minimum)


def _quant(isall):
    def f(x, axis=None):
        if isscalar(x):
            return lit(z3.simplify(bool_t(x)))
        a = asarr(x)

        def red(n, g):
            if isinstance(n, int):
                r = True if isall else False
                for i in range(n):
                    b = lit(z3.simplify(bool_t(g(i))))
                    r = band(r, b) if isall else bor(r, b)
                return r
            i = fresh("q", T.I)
            b = z3.simplify(bool_t(Y.merged(lambda: lit(z3.simplify(bool_t(g(i)))), lambda q, a, b: bor(band(lit(q), a), band(lit(z3.Not(q)), b)))))
            rng = z3.And(i >= 0, i < dim_t(n))
            if isall:
                if z3.is_true(b):
                    return True
                # decided by proof when possible: no element can fail
                if not Y.ctx().feasible(z3.And(rng, z3.Not(b))):
                    return True
                return S(z3.ForAll([i], z3.Implies(rng, b)))
            if z3.is_false(b):
                return False
            if not Y.ctx().feasible(z3.And(rng, b)):
                return False
            return S(z3.Exists([i], z3.And(rng, b)))
        fn, shp = _reduce(a, axis, False, red)
        return Arr(shp, fn, "b") if shp else fn(())
    return f


all = _quant(True)
any = _quant(False)


def array_equal(a, b):
    return all(asarr(a) == asarr(b))


def cumsum(x, axis=None):
    a = asarr(x)
    if a.ndim != 1:
        raise OutOfSubset("cumsum rank")
    r = a.reader()

    def f(idx):
        i = idx[0]
        return sum_over(i + 1 if isinstance(i, int) else dim(S(i + 1)), lambda j: r([j]))
    return Arr(a.shape, f, a.kind)


def diff(x, axis=-1):
    a = asarr(x)
    k = [slice(None)] * a.ndim
    k2 = list(k)
    k[axis] = slice(1, None)
    k2[axis] = slice(None, -1)
    return a[tuple(k)] - a[tuple(k2)]


# ---------------------------------------------------------- rearranging
def reshape(x, shp, order=None):
    a = asarr(x)
    shp = list(_shape(shp))
    shp = [dim(d) for d in shp]
    if isinstance(x, Arr) is False:
        a = a.copy()
    if -1 in [d for d in shp if isinstance(d, int)]:
        p = shp.index(-1)
        known = 1
        for j, d in enumerate(shp):
            if j != p:
                known = dmul(known, d)
        tot = a.size
        if isinstance(known, int) and isinstance(tot, int):
            shp[p] = tot // known
        else:
            # cancel extents of a that appear in the known ones
            rest = [d for d in a.shape]
            ok = True
            for j, d in enumerate(shp):
                if j == p or (isinstance(d, int) and d == 1):
                    continue
                for q, e2 in enumerate(rest):
                    if dim_key(e2) == dim_key(d) or dim_eq(e2, d):
                        del rest[q]
                        break
                else:
                    ok = False
            if not ok:
                raise OutOfSubset("reshape -1")
            v = 1
            for d in rest:
                v = dmul(v, d)
            shp[p] = v
    # case 1: same non-unit extents in the same order -> strided view (aliases)
    core_a = [(j, d) for j, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
    core_b = [(j, d) for j, d in enumerate(shp) if not (isinstance(d, int) and d == 1)]
    if len(core_a) == len(core_b) and _all(dim_eq(p[1], q[1]) for p, q in zip(core_a, core_b)):
        m = {p[0]: q[0] for p, q in zip(core_a, core_b)}
        axes = []
        for b in a.axes:
            if b[0] == "fix":
                axes.append(b)
            elif b[1] in m:
                axes.append(("ax", m[b[1]], b[2], b[3]))
            else:
                axes.append(("fix", b[2] if isinstance(b[2], int) else ix(b[2])))
        return Arr(shp, None, a.kind, a.buf, tuple(axes))
    # general: group extents
    r = a.reader()
    ga, gb = _groups(list(a.shape), shp)

    def f(idx):
        full = [None] * a.ndim
        for (sa, ea), (sb, eb) in zip(ga, gb):
            flat = 0
            for j in range(sb, eb):
                flat = Y.add(Y.mul(flat, shp[j]), A._s(idx[j]))
            for j in range(ea - 1, sa - 1, -1):
                if j == sa:
                    full[j] = ix(flat)
                else:
                    d = a.shape[j]
                    full[j] = ix(_modd(flat, d))
                    flat = _divd(flat, d)
        return r(full)
    res = Arr(shp, f, a.kind)
    res.buf.ro = True
    return res


def _modd(x, d):
    if isnum(x) and isinstance(d, int):
        return x % d
    return lit(z3.simplify(int_t(x) % dim_t(d)))


def _divd(x, d):
    if isnum(x) and isinstance(d, int):
        return x // d
    return lit(z3.simplify(int_t(x) / dim_t(d)))


def _groups(sa, sb):
    ga, gb = [], []
    i = j = 0
    while i < len(sa) or j < len(sb):
        if i < len(sa) and j < len(sb) and dim_eq(sa[i], sb[j]):
            ga.append((i, i + 1))
            gb.append((j, j + 1))
            i += 1
            j += 1
            continue
        if i < len(sa) and isinstance(sa[i], int) and sa[i] == 1:
            ga.append((i, i + 1))
            gb.append((j, j))
            i += 1
            continue
        if j < len(sb) and isinstance(sb[j], int) and sb[j] == 1:
            ga.append((i, i))
            gb.append((j, j + 1))
            j += 1
            continue
        # grow groups
        pa, pb = 1, 1
        i0, j0 = i, j
        if i >= len(sa) or j >= len(sb):
            raise OutOfSubset("reshape")
        pa, pb = sa[i], sb[j]
        i += 1
        j += 1
        while not dim_eq(pa, pb):
            # prefer growing the one with fewer factors / smaller
            if isinstance(pa, int) and isinstance(pb, int):
                if pa < pb:
                    if i >= len(sa):
                        raise ValueError("cannot reshape array")
                    pa *= sa[i] if isinstance(sa[i], int) else _oos()
                    i += 1
                else:
                    if j >= len(sb):
                        raise ValueError("cannot reshape array")
                    pb *= sb[j] if isinstance(sb[j], int) else _oos()
                    j += 1
            elif j - j0 == 1 and i < len(sa):
                pa = dmul(pa, sa[i])
                i += 1
            elif j < len(sb):
                pb = dmul(pb, sb[j])
                j += 1
            else:
                raise OutOfSubset("reshape of symbolic extents")
        ga.append((i0, i))
        gb.append((j0, j))
    return ga, gb


def _oos():
    raise OutOfSubset("reshape of symbolic extents")


def ravel(x):
    return asarr(x).reshape(-1)


def swapaxes(x, a, b):
    return asarr(x).swapaxes(a, b)


def transpose(x, axes=None):
    a = asarr(x)
    return a.transpose(*axes) if axes is not None else a.T


def moveaxis(x, src, dst):
    a = asarr(x)
    p = [i for i in range(a.ndim) if i != src % a.ndim]
    p.insert(dst % a.ndim, src % a.ndim)
    return a.transpose(*p)


def expand_dims(x, axis):
    a = asarr(x)
    k = [slice(None)] * a.ndim
    k.insert(axis if axis >= 0 else a.ndim + 1 + axis, None)
    return a[tuple(k)]


def squeeze(x, axis=None):
    a = asarr(x)
    return a[tuple(0 if isinstance(d, int) and d == 1 and (axis is None or j == axis % a.ndim) else slice(None) for j, d in enumerate(a.shape))]


def stack(xs, axis=0):
    parts = [asarr(x) for x in xs]
    a = stack_first(parts)
    if axis == 0:
        return a
    return moveaxis(a, 0, axis if axis >= 0 else axis + a.ndim).copy()


def vstack(xs):
    return concatenate([asarr(x) if asarr(x).ndim > 1 else asarr(x)[None] for x in xs], axis=0)


def column_stack(xs):
    return stack(xs, axis=-1)


def concatenate(xs, axis=0):
    parts = [asarr(x) for x in xs]
    nd = parts[0].ndim
    axis = axis % nd
    rs = [p.reader() for p in parts]
    offs = [0]
    for p in parts:
        if p.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for j in range(nd):
            if j != axis and not dim_eq(p.shape[j], parts[0].shape[j]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        offs.append(dim(Y.add(offs[-1], p.shape[axis])))

    def f(idx):
        i = idx[axis]

        def part(k):
            full = list(idx)
            full[axis] = ix(Y.sub(A._s(i), offs[k]))
            return rs[k](full)
        if isinstance(i, int) and _all(isinstance(o, int) for o in offs[:-1]):
            k = len(parts) - 1
            while offs[k] > i:
                k -= 1
            return part(k)
        r = part(len(parts) - 1)
        for k in range(len(parts) - 2, -1, -1):
            r = ite(Y.cmp("<", A._s(i), offs[k + 1]), part(k), r)
        return r
    shp = list(parts[0].shape)
    shp[axis] = offs[-1]
    return Arr(shp, f, promote(*[p.kind for p in parts]))


def append(x, v, axis=None):
    return concatenate([asarr(x), asarr(v).reshape(-1) if axis is None else asarr(v)], axis=0 if axis is None else axis)


def hstack(xs):
    p = [asarr(x) for x in xs]
    return concatenate(p, axis=0 if p[0].ndim == 1 else 1)


def block(rows):
    return concatenate([concatenate(r, axis=-1) for r in rows], axis=-2)


def broadcast_to(x, shp):
    a = asarr(x)
    shp = tuple(dim(d) for d in _shape(shp))
    g = bc_reader(a, shp)
    r = Arr(shp, g, a.kind)
    r.buf.ro = True
    return r


broadcast_shapes = A.broadcast_shapes


def repeat(x, n, axis=None):
    raise OutOfSubset("repeat")


def tile(x, n):
    raise OutOfSubset("tile")


def flip(x, axis=None):
    a = asarr(x)
    if axis is None:
        return a[tuple(slice(None, None, -1) for _ in range(a.ndim))]
    k = [slice(None)] * a.ndim
    k[axis] = slice(None, None, -1)
    return a[tuple(k)]


def roll(x, shift, axis=None):
    a = asarr(x)
    if axis is None:
        if a.ndim != 1:
            raise OutOfSubset("flat roll")
        axis = 0
    axis = axis % a.ndim
    n = a.shape[axis]
    r = a.reader()

    def f(idx):
        full = list(idx)
        i = idx[axis]
        j = Y.sub(A._s(i), shift)
        if isinstance(n, int) and isnum(j):
            full[axis] = j % n
        else:
            # 0<=i<n and |shift|<n: wrap once
            jt, nt = int_t(j), dim_t(n)
            full[axis] = ix(z3.If(jt < 0, jt + nt, z3.If(jt >= nt, jt - nt, jt)) if isinstance(shift, int) and _abs(shift) <= 1 else jt % nt)
        return r(full)
    return Arr(a.shape, f, a.kind)


def take(x, i, axis=None):
    a = asarr(x)
    if axis is None:
        return a.reshape(-1)[i]
    k = [slice(None)] * a.ndim
    k[axis] = i
    return a[tuple(k)]


def sort(x, axis=-1):
    a = asarr(x)
    ax = axis % a.ndim
    n = a.shape[ax]
    if not isinstance(n, int) or n > 5:
        raise OutOfSubset("sort of a symbolic extent")
    r = a.reader()
    memo = {}

    def f(idx):
        key = tuple(A.ikey(i) for j, i in enumerate(idx) if j != ax)
        if key not in memo:
            vals = []
            for i in range(n):
                full = list(idx)
                full[ax] = i
                vals.append(r(full))
            for p in range(n):
                for q in range(n - 1 - p):
                    u, v = vals[q], vals[q + 1]
                    vals[q], vals[q + 1] = Y.minimum(u, v), Y.maximum(v, u) if False else ite(Y.cmp("<", v, u), u, v)
            memo[key] = (idx, vals)
        return select(idx[ax], [lambda v=v: v for v in memo[key][1]])
    return Arr(a.shape, f, a.kind)


def outer(a, b):
    a, b = asarr(a), asarr(b)
    return a[:, None] * b[None, :]


def cross(a, b):
    a, b = asarr(a), asarr(b)
    if not (a.shape[-1] == 3 and b.shape[-1] == 3):
        raise OutOfSubset("cross")
    g = lambda x, i: x[..., i]
    return stack([g(a, 1) * g(b, 2) - g(a, 2) * g(b, 1), g(a, 2) * g(b, 0) - g(a, 0) * g(b, 2), g(a, 0) * g(b, 1) - g(a, 1) * g(b, 0)], axis=-1)


def kron(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != 2 or b.ndim != 2:
        raise OutOfSubset("kron rank")
    ra, rb = a.reader(), b.reader()
    n, m = b.shape

    def f(idx):
        i, j = A._s(idx[0]), A._s(idx[1])
        return Y.mul(ra([ix(_divd(i, n)), ix(_divd(j, m))]), rb([ix(_modd(i, n)), ix(_modd(j, m))]))
    return Arr((dmul(a.shape[0], n), dmul(a.shape[1], m)), f, promote(a.kind, b.kind))


# -------------------------------------------------------------- products
def einsum(spec, *ops, optimize=None, out=None):
    if out is not None:
        raise OutOfSubset("einsum out=")
    ar = [asarr(o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, rhs = spec.split("->")
    else:
        lhs, rhs = spec, None
    ins = lhs.split(",")
    if len(ins) != len(ar):
        raise ValueError("einsum operand count")
    nell = 0
    for s, a in zip(ins, ar):
        if "..." in s:
            nell = _max(nell, a.ndim - len(s.replace("...", "")))
    if rhs is None:
        letters = "".join(ins).replace("...", "")
        rhs = ("..." if nell else "") + "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    dims = {}

    def labels(s, nd):
        if "..." in s:
            k = nd - len(s.replace("...", ""))
            ell = ["E%d" % j for j in range(nell - k, nell)]
            p, q = s.split("...")
            return list(p) + ell + list(q)
        return list(s)
    labs = []
    for s, a in zip(ins, ar):
        l = labels(s, a.ndim)
        if len(l) != a.ndim:
            raise ValueError("einstein sum subscripts string contains too many subscripts")
        labs.append(l)
        for c, d in zip(l, a.shape):
            if c not in dims or (isinstance(dims[c], int) and dims[c] == 1):
                dims[c] = d
            elif not (isinstance(d, int) and d == 1) and not dim_eq(dims[c], d):
                if isinstance(d, int) and isinstance(dims[c], int):
                    raise ValueError("einsum dimension mismatch")
                raise OutOfSubset("einsum extents not provably equal")
    out_l = labels(rhs, len(rhs.replace("...", "")) + nell) if "..." in rhs else list(rhs)
    con = [c for c in dims if c not in out_l]
    rs = [a.reader() for a in ar]
    ones = [[isinstance(d, int) and d == 1 for d in a.shape] for a in ar]

    def f(idx):
        env = dict(zip(out_l, idx))

        def go(k):
            if k == len(con):
                v = None
                for r, l, o in zip(rs, labs, ones):
                    x = r([0 if q else env[c] for c, q in zip(l, o)])
                    v = x if v is None else Y.mul(v, x)
                return v

            def g(i):
                env[con[k]] = i
                return go(k + 1)
            return sum_over(dims[con[k]], g)
        return go(0)
    shp = [dims[c] for c in out_l]
    k = promote(*[a.kind for a in ar])
    if not shp:
        return f(())
    return Arr(shp, f, k)


def einsum_path(*a, **k):
    raise OutOfSubset("einsum_path")


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: scalar operand")
    if a.ndim == 1 and b.ndim == 1:
        return einsum("i,i->", a, b)
    if b.ndim == 1:
        return einsum("...i,i->...", a, b)
    if a.ndim == 1:
        return einsum("i,...ij->...j", a, b)
    return einsum("...ij,...jk->...ik", a, b)


def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return binop("*", a, b)
    if b.ndim <= 2:
        return matmul(a, b)
    raise OutOfSubset("dot rank")


def vdot(a, b):
    return sum(conj(asarr(a)) * asarr(b))


inner = lambda a, b: einsum("...i,...i->...", a, b) if asarr(b).ndim == 1 else _oos()


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        la, lb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        la, lb = axes
        la = [la] if isinstance(la, int) else list(la)
        lb = [lb] if isinstance(lb, int) else list(lb)
    la, lb = [x % a.ndim for x in la], [x % b.ndim for x in lb]
    L = "abcdefghijklmnopqrstuvwxyz"
    sa = list(L[:a.ndim])
    sb = list(L[a.ndim:a.ndim + b.ndim])
    for x, y in zip(la, lb):
        sb[y] = sa[x]
    o = [c for j, c in enumerate(sa) if j not in la] + [c for j, c in enumerate(sb) if j not in lb]
    return einsum("".join(sa) + "," + "".join(sb) + "->" + "".join(o), a, b)


def get_printoptions():
    return {}


def set_printoptions(**k):
    return None


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def trapezoid(y, x):
    y, x = asarr(y), asarr(x)
    return sum((y[1:] + y[:-1]) / 2 * (x[1:] - x[:-1]))


# ---------------------------------------------------------------- linalg
class linalg:
    LinAlgError = type("LinAlgError", (Exception,), {})

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2, "fro"):
            raise OutOfSubset("norm order")
        a = asarr(x)
        s = sum(elementwise(lambda v: Y.mul(v, v) if not iscomplex(v) else Y.add(Y.mul(v.re, v.re), Y.mul(v.im, v.im)), a, kind="f"), axis, keepdims)
        return elementwise(Y.sqrt, s, kind="f")

    @staticmethod
    def det(x):
        a = asarr(x)
        n = a.shape[-1]
        if not isinstance(n, int) or n > 3 or a.ndim != 2:
            raise OutOfSubset("det of symbolic size")
        m = [[a.at(i, j) for j in range(n)] for i in range(n)]
        return _det(m)

    @staticmethod
    def inv(x):
        a = asarr(x)
        n = a.shape[-1]
        if not isinstance(n, int) or n > 3 or a.ndim != 2:
            raise OutOfSubset("inverse of symbolic size")
        m = [[a.at(i, j) for j in range(n)] for i in range(n)]
        d = _det(m)
        inv = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                mi = [[m[p][q] for q in range(n) if q != i] for p in range(n) if p != j]
                c = _det(mi) if n > 1 else 1
                inv[i][j] = Y.div(c if (i + j) % 2 == 0 else Y.neg(c), d)
        return asarr(inv)

    @staticmethod
    def solve(a, b):
        return matmul(linalg.inv(a), b)

    def __getattr__(self, n):
        raise OutOfSubset("np.linalg." + n)


_EIGK = {}
_ABS = [z3.Int("$e%d" % j) for j in range(40)]


def _int_consts(t):
    """free integer constants of t in order of occurrence"""
    free = T.free_vars(t)
    out, seen = {}, set()

    def go(u):
        if u.get_id() in seen:
            return
        seen.add(u.get_id())
        if T.is_const(u):
            nm = u.decl().name()
            if nm in T.SUMS:
                go(T.SUMS[nm][1])
                go(T.SUMS[nm][2])
            elif u.sort() == T.I and u.get_id() in free:
                out[u.get_id()] = u
        elif z3.is_app(u):
            for c in u.children():
                go(c)
    go(t)
    return list(out.values())


def _same(elems, n, what, sorts):
    """function symbols which are the same for the same elements (terms in the generic positions $a, $b) and extent n,
    applied to the integer parameters those depend on"""
    ts = [norm(real_t(x)) for x in elems()]
    vs = []
    for t in ts + [n]:
        for v in _int_consts(t):
            if not v.decl().name().startswith("$") and _all(v.get_id() != w.get_id() for w in vs):
                vs.append(v)
    if len(vs) > 40:
        raise OutOfSubset(what + ": too many parameters")
    pairs = list(zip(vs, _ABS))
    ts = [norm(subst(t, pairs)) for t in ts]
    n = z3.simplify(subst(n, pairs))
    k = (what,) + tuple(t.get_id() for t in ts) + (n.get_id(),)
    if k not in _EIGK:
        j = len(_EIGK)
        fs = tuple(z3.Function("%s!%d" % (nm, j), *([T.I] * len(vs) + so)) for nm, so in sorts)
        _EIGK[k] = (ts, n, fs)
        if what.startswith("arg"):
            for f in fs:
                T.INDEXF[f.name()] = (n, _ABS[:len(vs)])
    return vs, _EIGK[k][2]


def _argfun(what):
    """index of an extremal element / sorting permutation: a function of the elements with values inside the extent"""
    def arg(x, axis=None, kind=None):
        x = asarr(x)
        if axis is None:
            if what == "argsort":
                axis = -1
            else:
                x, axis = x.reshape(-1), 0
        ax = axis % x.ndim
        n = x.shape[ax]
        r = x.reader()
        a = z3.Int("$a")

        def at(idx):
            full = list(idx[:ax]) + [a] + list(idx[ax + (what == "argsort"):])
            vs, (f,) = _same(lambda: [ite(e, 1, 0) if isinstance(e, S) and e.is_bool else e for e in [r(full)]], dim_t(n), what, ((what, ([T.I] if what == "argsort" else []) + [T.I]),))
            return S(f(*(vs + ([int_t(idx[ax])] if what == "argsort" else []))))
        sh = x.shape if what == "argsort" else x.shape[:ax] + x.shape[ax + 1:]
        return Arr(sh, at, "i") if sh else at([])
    return arg


argmin, argmax, argsort = _argfun("argmin"), _argfun("argmax"), _argfun("argsort")


def eig(H, S_=None):
    """(eigenvalues, eigenvectors): functions of the matrices only (and of nothing else), pointwise in the leading axes"""
    ms = [asarr(H)] + ([asarr(S_)] if S_ is not None else [])
    n = ms[0].shape[-1]
    batch = ms[0].shape[:-2]
    for m in ms:
        if not dim_eq(m.shape[-1], n) or not dim_eq(m.shape[-2], n) or len(m.shape) != len(ms[0].shape):
            raise OutOfSubset("eigenvalues of these shapes")
    rs = [m.reader() for m in ms]
    a, b = z3.Int("$a"), z3.Int("$b")
    I = T.I

    def key(Q):
        return _same(lambda: [z for r in rs for z in split(r(list(Q) + [a, b]))], dim_t(n), "eig",
                     (("eigval", [I, T.R]), ("eigvec!re", [I, I, T.R]), ("eigvec!im", [I, I, T.R])))

    def val(idx):
        vs, (f, _, _) = key(idx[:-1])
        return S(f(*vs, int_t(idx[-1])))

    def vec(idx):
        vs, (_, fr, fi) = key(idx[:-2])
        x = [int_t(idx[-2]), int_t(idx[-1])]
        return C(S(fr(*vs, *x)), S(fi(*vs, *x)))
    return Arr(tuple(batch) + (n,), val, "f"), Arr(tuple(batch) + (n, n), vec, "c")


class splinalg:
    @staticmethod
    def eigh(a, b=None, eigvals_only=False):
        r = eig(a, b)
        return r[0] if eigvals_only else r

    @staticmethod
    def eigvalsh(a, b=None):
        return eig(a, b)[0]


def _det(m):
    n = len(m)
    if n == 0:
        return 1
    if n == 1:
        return m[0][0]
    if n == 2:
        return Y.sub(Y.mul(m[0][0], m[1][1]), Y.mul(m[0][1], m[1][0]))
    r = 0
    for j in range(n):
        c = Y.mul(m[0][j], _det([[m[p][q] for q in range(n) if q != j] for p in range(1, n)]))
        r = Y.add(r, c) if j % 2 == 0 else Y.sub(r, c)
    return r


_LIN = {k: getattr(linalg, k) for k in ("norm", "det", "inv", "solve", "LinAlgError")}
_LIN["eigh"] = lambda a: eig(a)
_LIN["eigvalsh"] = lambda a: eig(a)[0]


class _Linalg:
    def __getattr__(self, n):
        if n in _LIN:
            return _LIN[n]
        raise OutOfSubset("np.linalg." + n)


class _Missing:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return _Missing(self._n + "." + n)

    def __call__(self, *a, **k):
        raise OutOfSubset("call of " + self._n)

    def __getitem__(self, k):
        return self

    def __mro_entries__(self, bases):
        return (object,)


class Module:
    """numpy namespace seen by the verified code"""

    def __init__(self, name, table):
        self.__dict__["_name"] = name
        self.__dict__["_t"] = table

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        t = self._t
        if n in t:
            return t[n]
        return _Missing(self._name + "." + n)


_names = [n for n in list(globals()) if not n.startswith("_")]
NUMPY = Module("numpy", {n: globals()[n] for n in _names if n not in ("S", "C", "T", "Y", "A")})
NUMPY._t["linalg"] = _Linalg()
NUMPY._t["add"] = add_
NUMPY._t["float_"] = float64


def _sp1(name):
    def f(x):
        return elementwise(lambda v: apply1(name, v), x, kind="f")
    return f


SPECIAL = Module("scipy.special", {n: _sp1(n) for n in ("expit", "log_expit", "spence", "logit")})
SCIPY = Module("scipy", {"special": SPECIAL, "linalg": Module("scipy.linalg", {"eigh": splinalg.eigh, "eigvalsh": splinalg.eigvalsh}), "spatial": _Missing("scipy.spatial"), "optimize": _Missing("scipy.optimize")})
