"""Symbolic numpy arrays: concrete rank, possibly symbolic extents, elements
given by a function of the index ("pull arrays"), with numpy's aliasing rules
for basic-indexing views and in-place operators."""
import itertools
import z3
from .term import *
from . import term as T
from .sym import *
from . import sym as Y


def dim(x):
    if isinstance(x, S):
        q = as_frac(x.t)
        return int(q) if q is not None else x
    return int(x)


def dim_t(d):
    return int_t(d)


def dim_eq(a, b):
    """python bool: are the two extents provably equal on this path?"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    e = z3.simplify(dim_t(a) == dim_t(b))
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return not Y.ctx().feasible(z3.Not(e))


def dmul(a, b):
    r = mul(a, b)
    return dim(r)


def ix(i):
    """normalise an index scalar: int or z3 Int"""
    if isinstance(i, S):
        q = as_frac(i.t)
        return int(q) if q is not None else z3.simplify(i.t)
    if isinstance(i, z3.ExprRef):
        i = z3.simplify(i)
        return i.as_long() if z3.is_int_value(i) else i
    return int(i)


def ikey(i):
    return i if isinstance(i, int) else ("z", i.get_id())


class Buf:
    """mutable storage"""
    __slots__ = ("fn", "shape", "ver", "cache", "tag", "ro", "serial")
    counter = 0

    def __init__(self, fn, shape, ro=False):
        Buf.counter += 1
        self.serial = Buf.counter
        self.fn, self.shape, self.ver, self.cache, self.tag, self.ro = fn, tuple(shape), 0, {}, None, ro

    def get(self, idx):
        k = tuple(ikey(i) for i in idx)
        r = self.cache.get(k)
        if r is None:
            c = Y.ctx()
            nd = c.ndec if c is not None else 0
            r = self.fn(idx)
            if c is None or c.ndec == nd or not c.local:   # a value which depends on a local branch is not kept
                self.cache[k] = (idx, r)
            return r
        return r[1]

    def snapshot(self):
        fn, cache = self.fn, self.cache

        def get(idx):
            k = tuple(ikey(i) for i in idx)
            r = cache.get(k)
            if r is None:
                c = Y.ctx()
                nd = c.ndec if c is not None else 0
                r = fn(idx)
                if c is None or c.ndec == nd or not c.local:
                    cache[k] = (idx, r)
                return r
            return r[1]
        return get

    def write(self, newfn):
        if self.ro:
            raise OutOfSubset("write through a reshaped view")
        old = self.snapshot()
        c = Y.ctx()
        if c is not None and c.written is not None:
            c.written.append((self, self.fn, self.cache))
        self.fn = lambda idx: newfn(idx, old)
        self.cache = {}
        self.ver += 1


# numpy dtype model: 'b' < 'i' < 'f' < 'c'
ORDER = "bifc"


def promote(*ks):
    return max(ks, key=ORDER.index)


def kind_of(x):
    if isinstance(x, Arr):
        return x.kind
    if isinstance(x, (bool,)):
        return "b"
    if isinstance(x, S):
        return "b" if x.is_bool else "i" if x.is_int else "f"
    if isinstance(x, int):
        return "i"
    if isinstance(x, (C, complex)):
        return "c"
    return "f"


class DType:
    def __init__(self, kind, name=None):
        self.kind, self.name = kind, name

    def __eq__(self, o):
        if isinstance(o, DType):
            return self.kind == o.kind
        return todtype(o).kind == self.kind

    def __hash__(self):
        return hash(self.kind)

    def __call__(self, x):
        return cast(x, self.kind)

    def type(self, x):
        return cast(x, self.kind)


def cast(x, kind):
    if isinstance(x, Arr):
        return x.astype(DType(kind))
    if kind == "c":
        return x
    if kind == "f":
        if iscomplex(x):
            raise OutOfSubset("complex to float cast")
        return S(real_t(x)) if isinstance(x, S) else float(x)
    if kind == "i":
        if isinstance(x, S):
            if x.is_int:
                return x
            if x.is_bool:
                return S(int_t(x))
            raise OutOfSubset("float to int cast of a symbolic value")
        return int(x)
    return S(bool_t(x)) if isinstance(x, S) else bool(x)


def todtype(d):
    if d is None:
        return DType("f")
    if isinstance(d, DType):
        return d
    if d in (float,):
        return DType("f")
    if d in (int,):
        return DType("i")
    if d in (bool,):
        return DType("b")
    if d in (complex,):
        return DType("c")
    if isinstance(d, str):
        return DType({"f": "f", "i": "i", "c": "c", "b": "b"}[d[0]])
    k = {"b_float": "f", "b_int": "i", "b_complex": "c", "b_bool": "b"}.get(getattr(d, "__name__", None)) or getattr(d, "kind", None)
    if isinstance(k, str) and k in ORDER:
        return DType(k)
    raise OutOfSubset("dtype %r" % (d,))


class Arr:
    __array_priority__ = 2000

    def __init__(self, shape, fn, kind="f", buf=None, axes=None):
        """axes: per base dimension ('fix', idx) or ('ax', view_axis, start, step)"""
        self.shape = tuple(dim(d) for d in shape)
        self.kind = kind
        if buf is None:
            buf = Buf(fn, self.shape)
            axes = tuple(("ax", a, 0, 1) for a in range(len(self.shape)))
        self.buf = buf
        self.axes = axes

    # --- structure
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = dmul(r, d)
        return r

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        d = self.shape[0]
        if isinstance(d, int):
            return d
        raise OutOfSubset("len() of symbolic extent outside instrumented code")

    def slen(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def base_index(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "fix":
                out.append(a[1])
            else:
                _, v, st, sp = a
                i = idx[v]
                if st == 0 and sp == 1:
                    out.append(i)
                else:
                    if isinstance(i, int) and isinstance(st, int):
                        out.append(st + sp * i)
                    else:
                        out.append(ix((z3.IntVal(i) if isinstance(i, int) else i) * sp + (st if isinstance(st, int) else dim_t(st))))
        return tuple(out)

    def at(self, *idx):
        return self.buf.get(self.base_index([ix(i) for i in idx]))

    def reader(self):
        """snapshot element function (list of idx -> scalar)"""
        g = self.buf.snapshot()
        bi = self.base_index
        return lambda idx: g(bi([ix(i) for i in idx]))

    # --- writes
    def inverse(self, bidx):
        """(condition z3 Bool|True, view idx) for base index"""
        cond = []
        vidx = [0] * self.ndim
        for a, i in zip(self.axes, bidx):
            if a[0] == "fix":
                c = _ieq(i, a[1])
                if c is False:
                    return False, None
                if c is not True:
                    cond.append(c)
            else:
                _, v, st, sp = a
                if st == 0 and sp == 1:
                    vi = i
                elif isinstance(i, int) and isinstance(st, int):
                    q, r = divmod(i - st, sp)
                    if r:
                        return False, None
                    vi = q
                else:
                    it = z3.IntVal(i) if isinstance(i, int) else i
                    stt = st if isinstance(st, int) else dim_t(st)
                    d = z3.simplify(it - stt)
                    if sp == 1:
                        vi = ix(d)
                    elif sp == -1:
                        vi = ix(-d)
                    else:
                        cond.append(d % sp == 0)
                        vi = ix(d / sp)
                for lo_ok, c in ((True, _ige(vi, 0)), (False, _ilt(vi, self.shape[v]))):
                    # skip bounds that follow from the base extent
                    if st == 0 and sp == 1 and (lo_ok or dim_key(self.shape[v]) == dim_key(self.buf.shape[self.axes.index(a)])):
                        continue
                    if c is False:
                        return False, None
                    if c is not True:
                        cond.append(c)
                vidx[v] = vi
        if not cond:
            return True, vidx
        return z3.simplify(z3.And(*cond)) if len(cond) > 1 else cond[0], vidx

    def assign(self, valfn):
        """self[...] = valfn(view idx)"""
        inv = self.inverse
        kind = self.kind

        def new(bidx, old):
            c, v = inv(bidx)
            if c is False:
                return old(bidx)
            val = valfn(v)
            if c is True:
                return val
            return ite(lit(c), val, old(bidx))
        self.buf.write(new)

    def copy(self, order=None):
        r = self.reader()
        return Arr(self.shape, lambda idx: r(idx), self.kind)

    def astype(self, d, copy=True):
        k = todtype(d).kind
        r = self.reader()
        if k == self.kind or k == "c" or (k == "f" and self.kind in "ib"):
            return Arr(self.shape, (lambda idx: r(idx)) if k != "f" else (lambda idx: _tof(r(idx))), k)
        if k == "i" and self.kind == "b":
            return Arr(self.shape, lambda idx: S(int_t(r(idx))), "i")
        if k == "b":
            return Arr(self.shape, lambda idx: lit(bool_t(r(idx))), "b")
        raise OutOfSubset("astype %s->%s" % (self.kind, k))

    # --- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def __iter__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            raise OutOfSubset("iteration over a symbolic extent outside instrumented code")
        return iter([self[i] for i in range(n)])

    # --- attributes
    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        if not axes:
            axes = tuple(reversed(range(self.ndim)))
        elif len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        axes = [a % self.ndim for a in axes]
        inv = {a: i for i, a in enumerate(axes)}
        na = tuple(a if a[0] == "fix" else ("ax", inv[a[1]], a[2], a[3]) for a in self.axes)
        return Arr([self.shape[a] for a in axes], None, self.kind, self.buf, na)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        a, b = a % self.ndim, b % self.ndim
        p[a], p[b] = p[b], p[a]
        return self.transpose(*p)

    @property
    def real(self):
        return self.map(lambda x: split(x)[0], "f") if self.kind == "c" else self

    @property
    def imag(self):
        return self.map(lambda x: split(x)[1], "f")

    @property
    def flat(self):
        return self.reshape(-1)

    def ravel(self):
        return self.reshape(-1)

    def flatten(self):
        return self.reshape(-1)

    def conj(self):
        return self.map(Y_conj, self.kind)
    conjugate = conj

    def map(self, f, kind=None):
        r = self.reader()
        return Arr(self.shape, lambda idx: f(r(idx)), kind or self.kind)

    def reshape(self, *shape):
        from . import npshim
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return npshim.reshape(self, shape)

    def sum(self, axis=None, keepdims=False):
        from . import npshim
        return npshim.sum(self, axis, keepdims=keepdims)

    def mean(self, axis=None, keepdims=False):
        from . import npshim
        return npshim.mean(self, axis, keepdims=keepdims)

    def max(self, axis=None):
        from . import npshim
        return npshim.max(self, axis)

    def min(self, axis=None):
        from . import npshim
        return npshim.min(self, axis)

    def all(self, axis=None):
        from . import npshim
        return npshim.all(self, axis)

    def any(self, axis=None):
        from . import npshim
        return npshim.any(self, axis)

    def item(self):
        if self.ndim == 0:
            return self.at()
        return self.reshape(-1)[0]

    def tolist(self):
        if self.ndim == 1:
            return [self[i] for i in range(len(self))]
        return [x.tolist() for x in self]

    def __repr__(self):
        return "Arr(%s,%s)" % (self.shape, self.kind)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.at())
        if all(isinstance(d, int) for d in self.shape) and self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError("truth value of an array is ambiguous")

    def __float__(self):
        if self.ndim == 0:
            return float(self.at())
        raise OutOfSubset("float(array)")

    def __index__(self):
        if self.ndim == 0 and self.kind == "i":
            return self.at().__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __format__(self, spec):
        return "<arr>"

    def __neg__(self):
        return self.map(neg)

    def __pos__(self):
        return self

    def __abs__(self):
        return self.map(absv, "f" if self.kind == "c" else self.kind)

    def __invert__(self):
        return self.map(bnot)

    def __matmul__(self, o):
        from . import npshim
        return npshim.matmul(self, o)

    def __rmatmul__(self, o):
        from . import npshim
        return npshim.matmul(o, self)


def dim_key(d):
    return d if isinstance(d, int) else d.t.get_id()


def _tof(x):
    if isinstance(x, S):
        return S(real_t(x))
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    return x


def Y_conj(x):
    if iscomplex(x):
        r, i = split(x)
        return mkc(r, neg(i))
    return x


def _ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    e = z3.simplify(int_t(a) == int_t(b))
    return True if z3.is_true(e) else False if z3.is_false(e) else e


def _ige(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a >= b
    e = z3.simplify(int_t(a) >= int_t(b))
    return True if z3.is_true(e) else False if z3.is_false(e) else e


def _ilt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    e = z3.simplify(int_t(a) < int_t(b))
    return True if z3.is_true(e) else False if z3.is_false(e) else e


# ------------------------------------------------------------ conversions
def asarr(x, kind=None):
    """array view of any array-like (no copy for Arr)"""
    if isinstance(x, Arr):
        return x
    if isscalar(x):
        return Arr((), lambda idx: x, kind or kind_of(x))
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return Arr((0,), lambda idx: Fraction(0), "f")
        parts = [asarr(e) for e in x]
        return stack_first(parts)
    if isinstance(x, range):
        return asarr(list(x))
    f = getattr(x, "__symarr__", None)
    if f is not None:
        return f()
    if hasattr(x, "__iter__"):
        return asarr(list(x))
    raise OutOfSubset("array from %r" % type(x))


def stack_first(parts):
    sh = parts[0].shape
    for p in parts[1:]:
        if p.ndim != len(sh) or not all(dim_eq(a, b) for a, b in zip(p.shape, sh)):
            raise ValueError("inhomogeneous shape")
    rs = [p.reader() for p in parts]
    k = promote(*[p.kind for p in parts])

    def fn(idx):
        return select(idx[0], [lambda r=r: r(idx[1:]) for r in rs])
    return Arr((len(parts),) + tuple(sh), fn, k)


def select(i, thunks):
    """element i of a concrete list of thunks"""
    i = ix(i)
    if isinstance(i, int):
        return thunks[i]()
    r = thunks[-1]()
    for j in range(len(thunks) - 2, -1, -1):
        r = ite(lit(i == j), thunks[j](), r)
    return r


# --------------------------------------------------------------- broadcast
def broadcast_shapes(*shapes):
    n = max([len(s) for s in shapes]) if shapes else 0
    out = []
    for a in range(n):
        d = 1
        for s in shapes:
            j = a - (n - len(s))
            if j < 0:
                continue
            e = s[j]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
            elif not dim_eq(d, e):
                if isinstance(d, int) and isinstance(e, int):
                    raise ValueError("operands could not be broadcast together")
                raise OutOfSubset("broadcast of extents not provably equal: %r %r" % (d, e))
        out.append(d)
    return tuple(out)


def bc_reader(a, shape):
    """element reader of a broadcast to `shape`"""
    a = asarr(a)
    r = a.reader()
    off = len(shape) - a.ndim
    ones = [isinstance(d, int) and d == 1 and not (isinstance(shape[off + j], int) and shape[off + j] == 1) for j, d in enumerate(a.shape)]

    def get(idx):
        return r([0 if ones[j] else idx[off + j] for j in range(len(ones))])
    return get


def elementwise(f, *args, kind=None):
    if all(isscalar(a) for a in args):
        return f(*args)
    ar = [asarr(a) for a in args]
    sh = broadcast_shapes(*[a.shape for a in ar])
    rs = [bc_reader(a, sh) for a in ar]
    if kind is None:
        kind = promote(*[a.kind for a in ar])
    if not sh:
        return f(*[r(()) for r in rs])
    return Arr(sh, lambda idx: f(*[r(idx) for r in rs]), kind)


_KIND = {"/": lambda *k: promote("f", *k), "<": lambda *k: "b", "<=": lambda *k: "b", ">": lambda *k: "b", ">=": lambda *k: "b",
         "==": lambda *k: "b", "!=": lambda *k: "b"}


def binop(op, a, b):
    f = BIN[op]
    ka, kb = kind_of2(a), kind_of2(b)
    k = _KIND.get(op, lambda *k: promote(*k))(ka, kb)
    if op == "**" and not isint(b):
        k = promote("f", k)
    return elementwise(f, a, b, kind=k)


def kind_of2(x):
    return x.kind if isinstance(x, Arr) else asarr(x).kind if isinstance(x, (list, tuple)) else kind_of(x)


def _bin(op, rev=False):
    def m(self, other):
        if isinstance(other, str) or other is None:
            return NotImplemented
        return binop(op, other, self) if rev else binop(op, self, other)
    return m


def _ibin(op):
    f = BIN[op]

    def m(self, other):
        rhs = binop(op, self, other)      # snapshot of values before write
        ko = rhs.kind if isinstance(rhs, Arr) else kind_of(rhs)
        if ORDER.index(ko) > ORDER.index(self.kind):
            raise TypeError("Cannot cast ufunc output from %s to %s" % (ko, self.kind))
        if isinstance(rhs, Arr):
            sh = broadcast_shapes(self.shape, rhs.shape)
            if len(sh) != self.ndim:
                raise ValueError("non-broadcastable output operand")
            g = bc_reader(rhs, self.shape)
        else:
            g = lambda idx: rhs
        if not self.shape:
            return rhs
        self.assign(g)
        return self
    return m


for _n, _o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**"), ("and", "&"), ("or", "|"), ("xor", "^")):
    setattr(Arr, "__%s__" % _n, _bin(_o))
    setattr(Arr, "__r%s__" % _n, _bin(_o, True))
    setattr(Arr, "__i%s__" % _n, _ibin(_o))
for _n, _o in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
    setattr(Arr, "__%s__" % _n, _bin(_o))


# ----------------------------------------------------------------- indexing
def norm_slice(s, n):
    """(start, length, step) for slice s on extent n"""
    st = s.step
    st = 1 if st is None else int(st)
    if st < 0:
        if s.start is None and s.stop is None and st == -1:
            return dim(sub(n, 1)), n, -1
        raise OutOfSubset("negative slice step")

    def bound(v, default):
        if v is None:
            return default
        v = dim(v) if not isinstance(v, int) else v
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v += n
            return builtin_max(0, builtin_min(v, n))
        if isinstance(v, int) and v < 0:
            w = add(n, v)          # n+v, clipped at 0
            return dim(_imax0(w))
        if isinstance(v, int) and v == 0:
            return 0
        # 0 <= v symbolic or positive on symbolic extent: min(v, n)
        c = Y.ctx()
        if not c.feasible(int_t(v) < 0):
            if not c.feasible(int_t(v) > dim_t(n)):
                return v
            return dim(lit(z3.simplify(z3.If(int_t(v) > dim_t(n), dim_t(n), int_t(v)))))
        raise OutOfSubset("slice bound of unknown sign")
    a = bound(s.start, 0)
    b = bound(s.stop, n)
    if isinstance(a, int) and isinstance(b, int):
        ln = builtin_max(0, -(-(b - a) // st))
        return a, ln, st
    d = sub(b, a)
    if st != 1:
        d = floordiv(add(d, st - 1), st)
    d = dim(d)
    if not isinstance(d, int):
        if Y.ctx().feasible(d.t < 0):
            d = dim(_imax0(d))
    return a, d, st


builtin_max, builtin_min = max, min


def _imax0(w):
    if isinstance(w, int):
        return builtin_max(0, w)
    if not Y.ctx().feasible(w.t < 0):
        return w
    return lit(z3.simplify(z3.If(w.t < 0, z3.IntVal(0), w.t)))


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    n_used = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, Arr) and k.kind == "b")) + sum(k.ndim for k in key if isinstance(k, Arr) and k.kind == "b")
    if n_used > a.ndim:
        raise IndexError("too many indices for array")
    out = []
    seen = False
    for k in key:
        if k is Ellipsis:
            if seen:
                raise IndexError("an index can only have a single ellipsis")
            seen = True
            out.extend([slice(None)] * (a.ndim - n_used))
        else:
            out.append(k)
    if not seen:
        out.extend([slice(None)] * (a.ndim - n_used))
    return out


def is_basic(k):
    return k is None or isinstance(k, slice) or isinstance(k, int) or (isinstance(k, S) and k.is_int)


def basic_view(a, key):
    """Arr view for a basic key (list over dims/newaxes); scalars allowed"""
    shape = []
    newax = {}       # old view axis -> ('fix', i) | ('ax', new axis, start, step)
    v = 0
    for k in key:
        if k is None:
            shape.append(1)
            continue
        n = a.shape[v]
        if isinstance(k, slice):
            st, ln, sp = norm_slice(k, n)
            newax[v] = ("ax", len(shape), st, sp)
            shape.append(ln)
        else:
            k = k if isinstance(k, int) else ix(k)
            if isinstance(k, int):
                if isinstance(n, int):
                    if not -n <= k < n:
                        raise IndexError("index %d is out of bounds for axis with size %d" % (k, n))
                    k = k % n
                elif k < 0:
                    k = ix(add(n, k))
                    k = S(k) if not isinstance(k, int) else k
                    Y.ctx().obls_bounds(k, n) if hasattr(Y.ctx(), "obls_bounds") else None
            else:
                c = Y.ctx()
                if c.feasible(k < 0):
                    raise OutOfSubset("index of unknown sign")
                k = S(k)
            newax[v] = ("fix", k)
        v += 1
    axes = []
    for b in a.axes:
        if b[0] == "fix":
            axes.append(b)
            continue
        _, va, st, sp = b
        m = newax[va]
        if m[0] == "fix":
            i = m[1]
            axes.append(("fix", ix(add(st, mul(sp, i)))))
        else:
            axes.append(("ax", m[1], dim(add(st, mul(sp, m[2]))), sp * m[3]))
    return Arr(shape, None, a.kind, a.buf, tuple(axes))


def getitem(a, key):
    if isinstance(key, list):
        key = asarr(key)
    if isinstance(key, tuple):
        key = tuple(asarr(k) if isinstance(k, list) else (k.at() if isinstance(k, Arr) and k.ndim == 0 else k) for k in key)
    elif isinstance(key, Arr) and key.ndim == 0:
        key = key.at()
    if isinstance(key, S) and key.is_bool:
        raise OutOfSubset("boolean scalar index")
    ks = expand_key(a, key)
    if all(is_basic(k) for k in ks):
        v = basic_view(a, ks)
        if v.ndim == 0:
            return v.at()
        return v
    # advanced indexing: integer arrays (possibly several, adjacent), plus slices
    if any(isinstance(k, Arr) and k.kind == "b" for k in ks):
        return bool_index(a, ks)
    pos = [j for j, k in enumerate(ks) if isinstance(k, Arr) or (not isinstance(k, slice) and k is not None)]
    adv = [asarr(ks[j]) for j in pos]
    sh = broadcast_shapes(*[x.shape for x in adv])
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    if any(k is None for k in ks):
        raise OutOfSubset("newaxis with advanced index")
    r = a.reader()
    sl = {j: norm_slice(k, a.shape[j]) for j, k in enumerate(ks) if isinstance(k, slice)}
    before = [j for j in sl if j < pos[0]] if contiguous else []
    after = [j for j in sl if j not in before]
    shape = [sl[j][1] for j in before] + list(sh) + [sl[j][1] for j in after]
    rd = [bc_reader(x, sh) for x in adv]
    dims = a.shape

    def fn(idx):
        full = [None] * len(dims)
        p = 0
        for j in before:
            st, _, sp = sl[j]
            full[j] = ix(add(st, mul(sp, _s(idx[p]))))
            p += 1
        ai = idx[p:p + len(sh)]
        for j, q in zip(pos, rd):
            i = q(ai)
            if isinstance(i, int) and i < 0:
                i = add(dims[j], i)
            elif isinstance(i, S) and Y.ctx().feasible(i.t < 0):
                i = ite(cmp("<", i, 0), add(i, dims[j]), i)
            full[j] = ix(i)
        p += len(sh)
        for j in after:
            st, _, sp = sl[j]
            full[j] = ix(add(st, mul(sp, _s(idx[p]))))
            p += 1
        return r(full)
    return Arr(shape, fn, a.kind)


def _s(i):
    return S(i) if isinstance(i, z3.ExprRef) else i


class Masked:
    """x[mask] with a boolean array: a compressed view whose order is irrelevant to the
    operations allowed on it (in-place writes from equally masked arrays)."""

    def __init__(self, a, mask):
        self.a, self.mask = a, mask


def bool_index(a, ks):
    if len(ks) == 1 and ks[0].ndim == a.ndim or (len([k for k in ks if isinstance(k, Arr)]) == 1 and isinstance(ks[0], Arr)):
        mask = ks[0]
        if all(isinstance(d, int) for d in mask.shape):
            n = 1
            for d in mask.shape:
                n *= d
            if mask.ndim == 1 and all(isinstance(k, slice) and k == slice(None) for k in ks[1:]):
                sel = [i for i in range(n) if bool(mask.at(i))]    # forks per element
                return getitem(a, asarr(sel)) if sel else Arr((0,) + a.shape[1:], a.reader(), a.kind)
    raise OutOfSubset("boolean mask read with symbolic extent")


def setitem(a, key, val):
    if isinstance(key, Arr) and key.kind == "b" or (isinstance(key, tuple) and any(isinstance(k, Arr) and k.kind == "b" for k in key)):
        k = key if isinstance(key, Arr) else None
        if k is None:
            ks = expand_key(a, key)
            if isinstance(ks[0], Arr) and ks[0].kind == "b" and all(isinstance(q, slice) and q == slice(None) for q in ks[1:]):
                k = ks[0]
            else:
                raise OutOfSubset("masked assignment form")
        if not isscalar(val) and not (isinstance(val, Arr) and val.ndim == 0):
            raise OutOfSubset("masked assignment of an array")
        v = val.at() if isinstance(val, Arr) else val
        m = k.reader()
        r = a.reader()
        a.assign(lambda idx: ite(m(idx[:k.ndim]), v, r(idx)))
        return
    if isinstance(key, list):
        key = asarr(key)
    if isinstance(key, tuple):
        key = tuple(asarr(k) if isinstance(k, list) else (k.at() if isinstance(k, Arr) and k.ndim == 0 else k) for k in key)
    elif isinstance(key, Arr) and key.ndim == 0:
        key = key.at()
    ks = expand_key(a, key)
    if not all(is_basic(k) for k in ks):
        raise OutOfSubset("advanced index assignment")
    v = basic_view(a, ks)
    va = asarr(val)
    if va.kind == "c" and a.kind != "c":
        raise OutOfSubset("complex into real array assignment (numpy discards the imaginary part)")
    if va.kind in "fc" and a.kind in "ib":
        raise OutOfSubset("float into int array assignment (truncation)")
    # numpy: value broadcast to the view's shape (leading ones of value are dropped)
    while va.ndim > v.ndim and isinstance(va.shape[0], int) and va.shape[0] == 1:
        va = va[0]
        va = asarr(va)
    sh = broadcast_shapes(v.shape, va.shape)
    if len(sh) != v.ndim:
        raise ValueError("could not broadcast input array")
    for s1, s2 in zip(sh, v.shape):
        if not dim_eq(s1, s2):
            raise ValueError("could not broadcast input array into shape")
    g = bc_reader(va, v.shape)
    v.assign(g)


def symarray(name, shape, kind="f"):
    """array of unconstrained symbolic elements"""
    shape = tuple(dim(d) for d in shape)
    if not shape:
        raise ValueError

    if kind == "c":
        fr = z3.Function(name + "_re", *([T.I] * len(shape) + [T.R]))
        fi = z3.Function(name + "_im", *([T.I] * len(shape) + [T.R]))
        return Arr(shape, lambda idx: C(S(fr(*[int_t(i) for i in idx])), S(fi(*[int_t(i) for i in idx]))), "c")
    rng = {"f": T.R, "i": T.I, "b": z3.BoolSort()}[kind]
    f = z3.Function(name, *([T.I] * len(shape) + [rng]))
    return Arr(shape, lambda idx: S(f(*[int_t(i) for i in idx])), kind)
