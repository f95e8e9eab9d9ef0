"""Loads the real source of /repo for symbolic execution.

Extraction is mechanical, on every run: parse the file, drop type annotations,
rewrite `for` statements and list/generator comprehensions so that they can
range over symbolic extents (concrete iterables keep Python's semantics),
replace numpy/scipy by the symbolic library and len/range/enumerate/... by
versions that accept symbolic extents.  Everything else is the code that runs.
"""
import ast
import builtins
import os
import types
import z3
from .term import *
from . import term as T
from .sym import *
from . import sym as Y
from .arr import *
from . import arr as A
from . import npshim as N

SRC = os.environ.get("VERIF_REPO", "/repo") + "/src/tight_binding_redweasel"


# ------------------------------------------------------- symbolic sequences
class SRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def slen(self):
        return dim(A._imax0(Y.sub(self.hi, self.lo)))

    def item(self, j):
        return Y.add(self.lo, j)


class SList:
    """list of symbolic length"""

    def __init__(self, n, fn):
        self.n, self.fn = dim(n), fn

    def slen(self):
        return self.n

    def item(self, j):
        return self.fn(j)

    def __getitem__(self, k):
        if isinstance(k, slice):
            st, ln, sp = norm_slice(k, self.n)
            return SList(ln, lambda j: self.fn(Y.add(st, Y.mul(sp, j))))
        if isinstance(k, int) and k < 0:
            k = Y.add(self.n, k)
        return self.fn(k)

    def __add__(self, o):
        a, b = self, o
        n1 = self.n
        ln = (lambda: len(o)) if isinstance(o, list) else o.slen
        m = ln()

        def f(j):
            if isinstance(j, int) and isinstance(n1, int):
                return a.item(j) if j < n1 else _item(b, j - n1)
            return _ite_obj(Y.cmp("<", j, n1), lambda: a.item(j), lambda: _item(b, Y.sub(j, n1)))
        return SList(Y.add(n1, m), f)

    def __radd__(self, o):
        return SList(len(o), lambda j: _item(o, j)) + self

    def __symarr__(self):
        i = Y.S(fresh("e", T.I))
        inside = lambda t: [t >= 0, t < dim_t(self.n)]
        probe = assuming(inside(i.t), lambda: self.fn(i))
        pa = asarr(probe)
        sh, k = pa.shape, pa.kind

        def f(idx):
            def g():
                e = asarr(self.fn(A._s(idx[0])))
                return e.at(*idx[1:]) if e.ndim else e.at()
            return g() if isinstance(idx[0], int) else assuming(inside(int_t(idx[0])), g)
        return Arr((self.n,) + tuple(sh), f, k)

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise OutOfSubset("len of symbolic list")

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.fn(j) for j in range(self.n)])
        raise OutOfSubset("iteration over a symbolic list outside instrumented code")


class SFilter:
    """the sub-list of item(j), 0<=j<n, for which cond(j) holds, in order"""

    def __init__(self, n, cond, fn):
        self.n, self.cond, self.fn = n, cond, fn


def _item(o, j):
    if isinstance(o, (list, tuple)):
        if isinstance(j, int):
            return o[j]
        q = as_frac(j.t)
        if q is not None:
            return o[int(q)]
        r = o[-1]
        for k in range(len(o) - 2, -1, -1):
            r = _ite_obj(Y.cmp("==", j, k), lambda k=k: o[k], lambda r=r: r)
        return r
    return o.item(j) if hasattr(o, "item") and not isinstance(o, Arr) else o[j]


def _ite_obj(c, a, b):
    if isinstance(c, bool):
        return a() if c else b()
    x = assuming([Y.bool_t(c)], a)
    y = assuming([z3.Not(Y.bool_t(c))], b)
    return ite_val(c, x, y)


def assuming(facts, f):
    """f() where the facts hold"""
    c = Y.ctx()
    mark = len(c.pc)
    c.pc += facts
    c.scope.append(mark)
    try:
        return f()
    finally:
        c.scope.pop()
        del c.pc[mark:]


def ite_val(c, x, y):
    if isscalar(x) and isscalar(y):
        return ite(c, x, y)
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and len(x) == len(y):
        return type(x)(ite_val(c, p, q) for p, q in zip(x, y))
    if isinstance(x, Arr) or isinstance(y, Arr):
        return N.where(c, x, y)
    raise OutOfSubset("conditional value of mixed kinds")


class SEnum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def slen(self):
        return slen(self.it)

    def item(self, j):
        return (Y.add(j, self.start), seq_item(self.it, j))


class SZip:
    def __init__(self, its):
        self.its = its

    def slen(self):
        ls = [slen(i) for i in self.its]
        n = ls[0]
        for m in ls[1:]:
            if not dim_eq(n, m):
                raise OutOfSubset("zip of different symbolic lengths")
        return n

    def item(self, j):
        return tuple(seq_item(i, j) for i in self.its)


class SRev:
    def __init__(self, it):
        self.it = it

    def slen(self):
        return slen(self.it)

    def item(self, j):
        return seq_item(self.it, Y.sub(Y.sub(slen(self.it), 1), j))


SYMSEQ = (SRange, SList, SEnum, SZip, SRev)


def seq_item(s, j):
    if isinstance(s, Arr):
        return s[j]
    return _item(s, j) if isinstance(s, (list, tuple)) else s.item(j)


def slen(x):
    if isinstance(x, Arr):
        return x.slen()
    if isinstance(x, SYMSEQ):
        return x.slen()
    if isinstance(x, SFilter):
        raise OutOfSubset("len of filtered list")
    if isinstance(getattr(type(x), "__len__", None), types.FunctionType):
        return type(x).__len__(x)
    return builtins.len(x)


def is_symseq(x):
    if isinstance(x, Arr):
        return x.ndim > 0 and not isinstance(x.shape[0], int)
    return isinstance(x, SYMSEQ) and not isinstance(x.slen(), int)


def concrete_iter(x):
    if isinstance(x, SYMSEQ):
        return [x.item(j) for j in range(x.slen())]
    return x


# ---------------------------------------------------------------- builtins
def b_len(x):
    n = slen(x)
    return n


def b_range(*a):
    if all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    a = [dim(x) if isinstance(x, S) else x for x in a]
    if all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    if len(a) == 3:
        if a[2] == 1:
            a = a[:2]
        else:
            raise OutOfSubset("range step")
    lo, hi = (0, a[0]) if len(a) == 1 else a
    return SRange(lo, hi)


def b_enumerate(x, start=0):
    if is_symseq(x):
        return SEnum(x, start)
    return builtins.enumerate(concrete_iter(x), start)


def b_zip(*xs, **k):
    if any(is_symseq(x) for x in xs):
        return SZip(xs)
    return builtins.zip(*[concrete_iter(x) for x in xs])


def b_reversed(x):
    if is_symseq(x):
        return SRev(x)
    return builtins.reversed(concrete_iter(x) if not isinstance(x, Arr) else list(x))


def b_sum(x, start=0):
    if is_symseq(x):
        n = slen(x)
        probe = seq_item(x, S(fresh("p", T.I)))
        if isscalar(probe):
            return Y.add(start, N.sum_over(n, lambda i: seq_item(x, A._s(i))))
        return start + N.sum(asarr(x), axis=0)
    r = start
    for e in concrete_iter(x):
        r = r + e
    return r


def _minmax(f, bf):
    def g(*a, key=None, default=None):
        if key is not None:
            raise OutOfSubset("min/max key")
        if len(a) == 1:
            if is_symseq(a[0]):
                return (N.max if f is Y.maximum else N.min)(asarr(a[0]))
            a = list(concrete_iter(a[0]))
        r = a[0]
        for x in a[1:]:
            if isinstance(r, Arr) and r.ndim == 0:
                r = r.at()
            r = f(r, x) if (isinstance(r, S) or isinstance(x, S)) else bf(r, x)
        return r
    return g


def b_abs(x):
    return N.abs(x)


def b_int(x=0, *a):
    if isinstance(x, S):
        if x.is_int:
            return x
        if x.is_bool:
            return S(int_t(x))
        q = as_frac(x.t)
        if q is not None:
            return int(q)
        raise OutOfSubset("int() of symbolic real")
    if isinstance(x, Arr):
        return b_int(x.item())
    return builtins.int(x, *a)


def b_float(x=0.0):
    if isinstance(x, S):
        return S(real_t(x))
    if isinstance(x, Arr):
        return b_float(x.item())
    if isinstance(x, Fraction):
        return x
    return builtins.float(x)


def b_round(x, nd=None):
    if isinstance(x, S):
        return x.__round__()
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def b_bool(x=False):
    return builtins.bool(x)


def b_list(x=()):
    if is_symseq(x):
        return SList(slen(x), lambda j: seq_item(x, j))
    return builtins.list(concrete_iter(x))


def b_tuple(x=()):
    if is_symseq(x):
        return SList(slen(x), lambda j: seq_item(x, j))
    return builtins.tuple(concrete_iter(x))


def b_all(x):
    if is_symseq(x):
        return N.all(asarr(x))
    r = True
    for e in concrete_iter(x):
        if not e:
            return False
    return r


def b_any(x):
    if is_symseq(x):
        return N.any(asarr(x))
    for e in concrete_iter(x):
        if e:
            return True
    return False


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for q in ts:
        if q in (b_float, builtins.float):
            if isinstance(x, (builtins.float, Fraction)) or (isinstance(x, S) and not x.is_int and not x.is_bool):
                return True
        elif q in (b_int, builtins.int):
            if isinstance(x, builtins.int) or (isinstance(x, S) and x.is_int):
                return True
        elif q in (b_bool, builtins.bool):
            if isinstance(x, builtins.bool) or (isinstance(x, S) and x.is_bool):
                return True
        elif q in (b_list, builtins.list):
            if isinstance(x, (builtins.list, SList)):
                return True
        elif q in (b_tuple,):
            if isinstance(x, builtins.tuple):
                return True
        elif q is N.ndarray:
            if isinstance(x, Arr):
                return True
        elif isinstance(q, type) and isinstance(x, q):
            return True
    return False


# ------------------------------------------------------- loop summarisation
class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class Restart(Exception):
    pass


class Loop:
    """Generic-iteration summary of a loop over a symbolic sequence.

    The body is executed once per feasible path for an arbitrary iteration with
    all loop-carried state havocked; the invariant inferred for each carried
    variable is one of: unchanged / accumulator v = v0 + sum_{j<i} g(j) /
    element-wise store a[j] = g(j) for j < i / append of g(j) each iteration.
    Its preservation is what the checks below establish (post - pre independent
    of the havocked state).  Anything else is outside the subset."""

    def __init__(self, it, names, env):
        self.it, self.names = it, names
        self.env = {n: env.get(n, UNDEF) for n in names}
        self.records = []
        self.prefix = []
        self.done = False
        self.serial0 = Buf.counter
        self.bufs = {}          # id -> buf havocked
        self.arrs = {}          # names rebound to new arrays -> (shape, kind)
        self.reJ = {}
        self.kinds = {}
        self.hname = {}

    # exploration of branches inside the body
    def decide(self, c, cond):
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos][0]
        else:
            t = c.feasible(cond)
            f = c.feasible(z3.Not(cond))
            if not t and not f:
                raise OutOfSubset("unreachable loop body")
            ch = t
            self.prefix.append([ch, t and f])
        self.pos += 1
        lit_ = cond if ch else z3.Not(cond)
        c.pc.append(lit_)
        self.path.append(lit_)
        return ch

    def __iter__(self):
        c = Y.ctx()
        self.c = c
        n = slen(self.it)
        self.n = n
        self.v = fresh("it", T.I)
        vS = S(self.v)
        mark = len(c.pc)
        old_written = c.written
        for n_ in self.names:
            x = self.env[n_]
            if isinstance(x, Arr):
                self.bufs[id(x.buf)] = x.buf
        saved = {}
        tries = 0
        while True:
            tries += 1
            if tries > 40:
                raise OutOfSubset("too many paths in a symbolic loop")
            # (re)start of a pass
            del c.pc[mark:]
            c.pc += [self.v >= 0, self.v < dim_t(n)]
            self.pos = 0
            self.path = []
            c.written = []
            self.hav = {}
            self.havsyms = getattr(self, "havsyms", set())
            for k, b in self.bufs.items():
                if k not in saved:
                    saved[k] = (b, b.fn, b.cache)
                self._havoc_buf(b)
            c.local.append(self)
            c.scope.append(mark)
            self.recorded = False
            try:
                yield seq_item(self.it, vS)
            finally:
                c.local.pop()
                c.scope.pop()
                written = c.written
                c.written = old_written
                if old_written is not None:
                    old_written.extend(written)
            if not self.recorded:
                raise OutOfSubset("loop body left early")
            # buffers written that were not havocked: havoc them and start over
            new = {}
            for b, fn, ca in written:       # the first write of this pass holds the state before the loop
                if b.serial <= self.serial0 and id(b) not in self.bufs and id(b) not in new:
                    new[id(b)] = (b, fn, ca)
            if new or self.restart:
                for q, (b, fn, ca) in new.items():
                    self.bufs[q] = b
                    saved[q] = (b, fn, ca)
                    if b.shape and iscomplex(fn(tuple(fresh("J", T.I) for _ in b.shape))):
                        self.kinds[q] = "c"
                for b, fn, ca in saved.values():
                    b.fn, b.cache = fn, ca
                self.records, self.prefix = [], []
                self.restart = False
                continue
            # next branch
            for b, fn, ca in saved.values():
                b.fn, b.cache = fn, ca
            while self.prefix and not self.prefix[-1][1]:
                self.prefix.pop()
            if not self.prefix:
                break
            self.prefix[-1] = [not self.prefix[-1][0], False]
        del c.pc[mark:]
        self.saved = saved
        self._finish()

    restart = False

    def _havoc_buf(self, b):
        name = fresh("hv", T.R).decl().name()
        k = self.kinds.get(id(b), "f")
        if not b.shape:
            raise OutOfSubset("0-d array in loop")
        h = symarray(name, b.shape, k)
        for suf in ("", "_re", "_im"):
            self.havsyms.add(name + suf)
        g = h.buf.fn
        b.fn, b.cache = (lambda idx: g(idx)), {}
        self.hav[id(b)] = g
        self.hname.setdefault(id(b), set()).update({name, name + "_re", name + "_im"})

    def pre(self):
        """havocked values of the carried names"""
        out = []
        self.h = {}
        self.hver = {}
        for n_ in self.names:
            x = self.env[n_]
            if n_ in self.arrs:
                sh, k = self.arrs[n_]
                name = fresh("hv", T.R).decl().name()
                self.havsyms |= {name, name + "_re", name + "_im"}
                h = symarray(name, sh, k)
                self.h[n_] = h
                self.hver[n_] = h.buf.ver
                out.append(h)
            elif x is UNDEF:
                out.append(UNDEF)
            elif isscalar(x):
                k = self.kinds.get(n_) or ("c" if iscomplex(x) else "i" if isint(x) and not isinstance(x, bool) else "f")
                self.kinds[n_] = k
                if k == "c":
                    a, b = fresh("hv"), fresh("hv")
                    self.havsyms |= {a.decl().name(), b.decl().name()}
                    h = C(S(a), S(b))
                else:
                    a = fresh("hv", T.I if k == "i" else T.R)
                    self.havsyms.add(a.decl().name())
                    h = S(a)
                self.h[n_] = h
                out.append(h)
            elif isinstance(x, (list, SList)):
                self.h[n_] = Rec()
                out.append(self.h[n_])
            else:
                out.append(x)
        return tuple(out)

    def post(self, vals):
        self.recorded = True
        rec = {"path": list(self.path), "vals": {}, "bufs": {}}
        for n_, v in zip(self.names, vals):
            h = self.h.get(n_)
            x = self.env[n_]
            if isinstance(v, Arr) and v.shape and (isscalar(x) or isinstance(x, Arr)) and v is not x and not (isinstance(x, Arr) and v.buf is x.buf) and not any(v.buf is b for b in self.bufs.values()):
                # a name bound to a new array in every turn
                k = "c" if v.kind == "c" else "f"
                old = self.arrs.get(n_)
                if old is None or (old[1] == "f" and k == "c"):
                    self.arrs[n_] = (v.shape, k)
                    self.restart = True
                    rec["vals"][n_] = ("rebound", None)
                    continue
                if len(old[0]) != len(v.shape) or not all(dim_eq(a, b) for a, b in zip(old[0], v.shape)):
                    raise OutOfSubset("array of changing shape in a symbolic loop")
                if h.buf.ver != self.hver[n_]:
                    raise OutOfSubset("array rebound and written in a symbolic loop")
                J = self.reJ.setdefault(n_, [fresh("J", T.I) if d != 1 else 0 for d in v.shape])
                rec["vals"][n_] = ("rebound", (h.at(*J), v.at(*J)))
                continue
            if n_ in self.arrs:
                raise OutOfSubset("array rebound on some paths in a symbolic loop")
            if isinstance(h, Rec):
                if v is not h:
                    raise OutOfSubset("list rebound in a symbolic loop")
                rec["vals"][n_] = ("list", list(h.items))
            elif isscalar(x) and isscalar(v):
                k = self.kinds[n_]
                kv = "c" if iscomplex(v) else "i" if isint(v) and not isinstance(v, bool) else "f"
                if kv != k and ORDER.index(kv) > ORDER.index(k):
                    self.kinds[n_] = kv
                    self.restart = True
                rec["vals"][n_] = ("scalar", h, v)
            elif isinstance(x, Arr) and isinstance(v, Arr) and v.buf is x.buf:
                rec["vals"][n_] = ("same", None)
            else:
                rec["vals"][n_] = ("other", v)
        for k, b in self.bufs.items():
            rec["bufs"][k] = (b, self.hav[k], b.fn, dict(b.cache))
        self.records.append(rec)

    # ------------------------------------------------------------
    def _hfree(self, t):
        return not (_symnames(t) & self.havsyms)

    def _merge(self, vals):
        """ite over the body paths"""
        r = vals[-1]
        for rec, v in zip(reversed(self.records[:-1]), reversed(vals[:-1])):
            c = z3.And(*rec["path"]) if rec["path"] else z3.BoolVal(True)
            r = ite(lit(z3.simplify(c)), v, r)
        return r

    def _finish(self):
        n, v = self.n, self.v
        for rec in self.records:
            for p in rec["path"]:
                if not self._hfree(p):
                    raise OutOfSubset("loop branch depends on loop-carried state")
        self.result = {}
        for n_ in self.names:
            x = self.env[n_]
            rs = [r["vals"][n_] for r in self.records]
            tags = {r[0] for r in rs}
            if tags == {"scalar"}:
                def comp(part):
                    deltas, direct = [], []
                    for _, h, p in rs:
                        d = norm(real_t(part(p)) - real_t(part(h)))
                        deltas.append(S(d))
                        direct.append(part(p))
                    init = part(x)
                    if all(self._hfree(d.t) for d in deltas):
                        m = self._merge(deltas)
                        # an integer counter stays an integer
                        s = N._s1(v, n, m)
                        if isint(init) and all(as_frac(norm(d.t)) is not None for d in deltas) and len({as_frac(norm(d.t)) for d in deltas}) == 1:
                            q = as_frac(norm(deltas[0].t))
                            if q.denominator == 1:
                                return Y.add(init, Y.mul(int(q), n))
                        return Y.add(init, s)
                    if all(self._hfree(real_t(d)) for d in direct):
                        m = self._merge(direct)
                        last = S(subst(real_t(m), [(v, z3.simplify(dim_t(n) - 1))]))
                        return ite(lit(z3.simplify(dim_t(n) > 0)), last, init)
                    raise OutOfSubset("loop-carried variable %s is neither accumulated nor overwritten" % n_)
                if any(iscomplex(p) for _, h, p in rs) or iscomplex(x):
                    self.result[n_] = C(comp(lambda z: split(z)[0]), comp(lambda z: split(z)[1]))
                else:
                    self.result[n_] = comp(lambda z: z)
            elif tags == {"rebound"}:
                self.result[n_] = self._rebound(x, n_, [r[1] for r in rs])
            elif tags == {"same"}:
                self.result[n_] = x
            elif tags == {"list"}:
                lens = {len(r[1]) for r in rs}
                base = x
                if lens == {0}:
                    self.result[n_] = x
                elif lens == {1}:
                    items = [r[1][0] for r in rs]

                    def f(j, items=items):
                        vals = [_subst_obj(i, v, int_t(j)) for i in items]
                        r = vals[-1]
                        for rec, val in zip(reversed(self.records[:-1]), reversed(vals[:-1])):
                            c = subst_b(z3.And(*rec["path"]), v, int_t(j))
                            r = ite_val(lit(z3.simplify(c)), val, r)
                        return r
                    for i in items:
                        if not all(self._hfree(t) for t in _terms(i)):
                            raise OutOfSubset("appended value depends on loop-carried state")
                    lst = SList(n, f)
                    self.result[n_] = (base + lst) if (isinstance(base, SList) or len(base)) else lst
                elif lens == {0, 1} and not isinstance(base, SList) and len(base) == 0:
                    conds = [z3.And(*rec["path"]) for rec, r in zip(self.records, rs) if len(r[1]) == 1]
                    items = [r[1][0] for r in rs if len(r[1]) == 1]
                    if len(items) != 1:
                        raise OutOfSubset("conditional append on several paths")
                    self.result[n_] = SFilter(n, lambda j: lit(z3.simplify(subst_b(conds[0], v, int_t(j)))), lambda j: _subst_obj(items[0], v, int_t(j)))
                else:
                    raise OutOfSubset("list growth in loop")
            elif tags == {"other"} and x is UNDEF:
                self.result[n_] = UNDEF     # loop-local temporary
            elif tags == {"other"}:
                vs = [r[1] for r in rs]
                if all(w is x for w in vs):
                    self.result[n_] = x
                else:
                    raise OutOfSubset("object rebound in a symbolic loop: " + n_)
            else:
                raise OutOfSubset("mixed updates of %s in a symbolic loop" % n_)
        # buffers
        for k, b in self.bufs.items():
            b0, fn0, cache0 = self.saved[k]
            if all(r["bufs"][k][2] is not None and not _changed(r["bufs"][k]) for r in self.records):
                continue
            self._finish_buf(b, k, fn0)

    def _rebound(self, x, n_, posts):
        """element by element fold of an array valued variable"""
        n, v = self.n, self.v
        sh, kind = self.arrs[n_]
        J = self.reJ[n_]
        if self.c.feasible(dim_t(n) <= 0) and (isscalar(x) or x.shape != sh):
            if not (isinstance(x, Arr) and len(x.shape) == len(sh) and all(dim_eq(p, q) for p, q in zip(x.shape, sh))):
                raise OutOfSubset("shape of a rebound array depends on the loop being entered")
        start = A.bc_reader(asarr(x), sh)
        part = lambda z, q: split(z)[q]
        outs = []
        for q in ([0, 1] if kind == "c" else [0]):
            ds = [S(norm(real_t(part(p, q)) - real_t(part(h, q)))) for h, p in posts]
            dr = [part(p, q) for h, p in posts]
            if all(self._hfree(d.t) for d in ds):
                outs.append(("sum", self._merge(ds)))
            elif all(self._hfree(real_t(d)) for d in dr):
                m = self._merge(dr)
                outs.append(("last", S(subst(real_t(m), [(v, z3.simplify(dim_t(n) - 1))]))))
            else:
                raise OutOfSubset("loop-carried array %s is neither accumulated nor overwritten" % n_)

        def at(idx):
            sub_ = [(a, int_t(i)) for a, i in zip(J, idx) if not isinstance(a, int)]
            o = start(list(idx))
            res = []
            for q, (how, t) in enumerate(outs):
                oq = part(o, q)
                if how == "sum":
                    j = fresh("i", T.I)
                    res.append(Y.add(oq, N._s1(j, n, S(subst(real_t(t), sub_ + [(v, j)])))))
                else:
                    res.append(ite(lit(z3.simplify(dim_t(n) > 0)), S(subst(real_t(t), sub_)), oq))
            return C(res[0], res[1]) if kind == "c" else res[0]
        return Arr(sh, at, kind)

    def _finish_buf(self, b, k, fn0):
        n, v = self.n, self.v
        nd = len(b.shape)
        posts = []
        J = [fresh("J", T.I) for _ in range(nd)]
        for r in self.records:
            bb, h, fn, cache = r["bufs"][k]
            posts.append((h(tuple(J)), fn(tuple(J))))
        parts = [0, 1] if any(iscomplex(p) or iscomplex(h) for h, p in posts) else [0]

        def P(x, q):
            return split(x)[q]
        # (A) accumulation
        ok = True
        for q in parts:
            for h, p in posts:
                if not self._hfree(norm(real_t(P(p, q)) - real_t(P(h, q)))):
                    ok = False
        old = lambda idx: fn0(idx)
        cplx = len(parts) == 2
        if ok:
            ds = []
            for q in parts:
                ds.append(self._merge([S(norm(real_t(P(p, q)) - real_t(P(h, q)))) for h, p in posts]))

            def new(idx, ds=ds):
                sub_ = [(a, int_t(i)) for a, i in zip(J, idx)]
                vals = []
                for d in ds:
                    j = fresh("i", T.I)
                    vals.append(N._s1(j, n, S(subst(real_t(d), sub_ + [(v, j)]))))
                dlt = C(vals[0], vals[1]) if cplx else vals[0]
                return Y.add(fn0(idx), dlt)
            b.fn, b.cache = new, {}
            b.ver += 1
            return
        # (B) store along one axis
        for a in range(nd):
            # which loop value writes position J_a?  position = v + off
            offs = self._store_offset(posts, J, a, v)
            if offs is None:
                continue
            inv = z3.simplify(J[a] - offs)
            gs, acc = [], []
            good = True
            for q in parts:
                vals = []
                for h, p in posts:
                    pt = norm(subst(real_t(P(p, q)), [(v, inv)]))
                    if not self._hfree(pt):     # its own slice has not been written by an earlier turn
                        pt = norm(self._own(pt, k, a, J[a], fn0))
                    if self._hfree(pt):
                        vals.append(("set", pt))
                    else:
                        d = norm(pt - real_t(P(h, q)))
                        if self._hfree(d):
                            vals.append(("add", d))
                        else:
                            good = False
                            break
                gs.append(vals)
                if not good:
                    break
            if not good:
                continue

            def new(idx):
                sub_ = [(x, int_t(i)) for x, i in zip(J, idx)]
                o = fn0(idx)
                res = []
                for q, vals in zip(parts, gs):
                    oq = P(o, q)
                    outs = [S(subst(t, sub_)) if kind == "set" else Y.add(oq, S(subst(t, sub_))) for kind, t in vals]
                    r = outs[-1]
                    for rec, val in zip(reversed(self.records[:-1]), reversed(outs[:-1])):
                        c = subst_b(subst_b(z3.And(*rec["path"]), v, inv), None, None, sub_)
                        r = ite(lit(z3.simplify(c)), val, r)
                    iv = subst(inv, sub_) if z3.is_expr(inv) else inv
                    rng = z3.simplify(z3.And(iv >= 0, iv < dim_t(n)))
                    res.append(ite(lit(rng), r, oq))
                return C(res[0], res[1]) if cplx else res[0]
            b.fn, b.cache = new, {}
            b.ver += 1
            return
        raise OutOfSubset("array update pattern in a symbolic loop")

    def _own(self, t, k, a, pos, fn0):
        """reads of the havocked buffer at the position this turn writes give the value before the loop"""
        names = self.hname[k]
        memo = {}

        def go(u):
            r = memo.get(u.get_id())
            if r is not None:
                return r[1]
            r = u
            if z3.is_app(u):
                nm = u.decl().name() if u.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
                if nm in T.SUMS and u.num_args() == 0:
                    b, n, body = T.SUMS[nm]
                    x = go(body)
                    if not x.eq(body):
                        r = T.mk_sum_term(b, n, x)
                elif u.num_args():
                    ch = [go(c) for c in u.children()]
                    if nm in names and as_frac(norm(z3.ToReal(ch[a] - pos))) == 0:
                        o = fn0(tuple(ch))
                        r = real_t(split(o)[1 if nm.endswith("_im") else 0])
                    elif any(not x.eq(y) for x, y in zip(ch, u.children())):
                        r = z3.substitute(u, *[(y, x) for x, y in zip(ch, u.children()) if not x.eq(y)]) if u.decl().kind() != z3.Z3_OP_UNINTERPRETED else u.decl()(*ch)
            memo[u.get_id()] = (u, r)
            return r
        return go(t)

    def _store_offset(self, posts, J, a, v):
        """term off (independent of v) such that only position v+off is written along axis a"""
        cand = set()
        for h, p in posts:
            for q in (0, 1):
                x = split(p)[q]
                if isinstance(x, S):
                    for e in _eqs(x.t):
                        d = norm(z3.ToReal(e.arg(0)) - z3.ToReal(e.arg(1)))
                        pol = poly(d)
                        ja = [m for m in pol if any(ATOM[i].sexpr() == z3.ToReal(J[a]).sexpr() for i, _ in m)]
                        va = [m for m in pol if any(ATOM[i].sexpr() == z3.ToReal(v).sexpr() for i, _ in m)]
                        if len(ja) == 1 and len(va) == 1 and pol[ja[0]] == -pol[va[0]]:
                            s = pol[ja[0]]
                            rest = {m: -c / s for m, c in pol.items() if m not in (ja[0], va[0])}
                            off = z3.simplify(z3.ToInt(from_poly(rest)))
                            cand.add(off)
        for off in cand:
            ok = True
            for h, p in posts:
                c = Y.ctx()
                for q in (0, 1):
                    hp, pp = split(h)[q], split(p)[q]
                    if isnum(pp) and isnum(hp):
                        continue
                    if c.feasible(z3.And(J[a] != v + off, real_t(hp) != real_t(pp))):
                        ok = False
            if ok:
                return off
        return None

    def final(self):
        return tuple(self.result[n_] for n_ in self.names)


def _eqs(t):
    out = {}
    seen = set()

    def go(u):
        if u.get_id() in seen:
            return
        seen.add(u.get_id())
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_EQ and u.arg(0).sort() == T.I:
                out[u.get_id()] = u
            for c in u.children():
                go(c)
    go(t)
    return list(out.values())


def _changed(x):
    b, h, fn, cache = x
    if not b.shape:
        return True
    J = tuple(fresh("J", T.I) for _ in b.shape)
    p, q = fn(J), h(J)
    for k in (0, 1):
        a, c = split(p)[k], split(q)[k]
        if isnum(a) and isnum(c):
            if a != c:
                return True
        elif norm(real_t(a) - real_t(c)).sexpr() != "0.0" and as_frac(norm(real_t(a) - real_t(c))) != 0:
            return True
    return False


def _symnames(t):
    out = set()
    seen = set()

    def go(u):
        if u.get_id() in seen:
            return
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            go(u.body())
            return
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = u.decl().name()
                out.add(nm)
                if nm in T.SUMS and u.num_args() == 0:
                    go(T.SUMS[nm][2])
                    go(T.SUMS[nm][1])
            for c in u.children():
                go(c)
    go(t)
    return out


def _terms(o):
    if isinstance(o, S):
        return [o.t]
    if isinstance(o, C):
        return _terms(o.re) + _terms(o.im)
    if isinstance(o, (tuple, list)):
        return [t for e in o for t in _terms(e)]
    if isinstance(o, Arr):
        J = [fresh("J", T.I) if not isinstance(d, int) else 0 for d in o.shape]
        return _terms(o.at(*J)) if o.ndim else _terms(o.at())
    return []


def subst_b(t, v, w, pairs=None):
    return subst(t, pairs if pairs is not None else [(v, w)])


def _subst_obj(o, v, w):
    if isinstance(o, S):
        return lit(z3.simplify(subst(o.t, [(v, w)]))) if o.is_bool or o.is_int else S(subst(o.t, [(v, w)]))
    if isinstance(o, C):
        return C(_subst_obj(o.re, v, w), _subst_obj(o.im, v, w))
    if isinstance(o, tuple):
        return tuple(_subst_obj(e, v, w) for e in o)
    if isinstance(o, list):
        return [_subst_obj(e, v, w) for e in o]
    if isinstance(o, Arr):
        r = o.reader()
        sh = [S(subst(dim_t(d), [(v, w)])) if not isinstance(d, int) else d for d in o.shape]

        def f(idx):
            # evaluate with v, then substitute
            return _subst_obj(r(idx), v, w)
        return Arr(sh, f, o.kind)
    if isinstance(o, SList):
        return SList(o.n if isinstance(o.n, int) else S(subst(o.n.t, [(v, w)])), lambda j: _subst_obj(o.fn(j), v, w))
    if isnum(o) or isinstance(o, complex) or o is None or isinstance(o, str):
        return o
    raise OutOfSubset("loop value of type %s" % type(o).__name__)


class Rec:
    """write-only stand-in for a list inside the generic iteration"""

    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise OutOfSubset("list operation %s in a symbolic loop" % n)

    def __getitem__(self, k):
        raise OutOfSubset("list read in a symbolic loop")

    def __len__(self):
        raise OutOfSubset("list length in a symbolic loop")


# --------------------------------------------------------------- rewriting
class VC:
    @staticmethod
    def xconst(op, a, b):
        return xconst(op, a, b)

    """run-time support object visible to instrumented code as vc__"""
    UNDEF = UNDEF

    @staticmethod
    def sym(it):
        return is_symseq(it) and not VC.empty(it)

    @staticmethod
    def empty(it):
        n = slen(it)
        return not isinstance(n, int) and not Y.ctx().feasible(dim_t(n) >= 1)

    @staticmethod
    def loop(it, names, env):
        return Loop(it, names, env)

    @staticmethod
    def it(it):
        if is_symseq(it):
            return ()
        return concrete_iter(it)

    @staticmethod
    def no(what):
        raise OutOfSubset(what + " inside a symbolic loop")

    @staticmethod
    def comp(f, it, conds=None, star=False):
        """[f(x) for x in it if c(x)]"""
        if is_symseq(it):
            if conds is not None:
                n = slen(it)
                return SFilter(n, lambda j: conds(seq_item(it, j)), lambda j: f(seq_item(it, j)))
            cache = {}
            c = Y.ctx()

            def g(j):
                if isinstance(j, int):
                    return f(seq_item(it, j))
                return f(seq_item(it, j))
            return SList(slen(it), g)
        return [f(x) for x in concrete_iter(it) if conds is None or conds(x)]


EXACT = {"qespresso_interface", "bulk_properties", "kpaths", "loss", "linalg"}   # constant quotients and roots are taken exactly (real arithmetic)
QUOTIENTS = {"smearing"}     # only constant quotients


def _constant(n):
    if isinstance(n, ast.Constant):
        return isinstance(n.value, (int, float)) and not isinstance(n.value, bool)
    if isinstance(n, ast.UnaryOp):
        return isinstance(n.op, (ast.USub, ast.UAdd)) and _constant(n.operand)
    if isinstance(n, ast.BinOp):
        return isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow)) and _constant(n.left) and _constant(n.right)
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Attribute) and n.func.attr == "xconst"
    return False


def xconst(op, a, b):
    """exact value of a constant quotient or power"""
    a, b = (a if isinstance(a, S) else Y.frac(a)), Y.frac(b)
    try:
        return Y.div(a, b) if op == "/" else Y.power(a, b)
    except (OutOfSubset, ZeroDivisionError):
        return float(a) / float(b) if op == "/" else float(a) ** float(b)


class Rewriter(ast.NodeTransformer):
    def __init__(self, exact=False):
        self.n = 0
        self.exact = exact

    def visit_BinOp(self, node):
        if not (self.exact and isinstance(node.op, (ast.Div, ast.Pow) if self.exact is True else ast.Div) and _constant(node)):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        c = ast.Call(func=ast.Attribute(value=ast.Name(id="vc__", ctx=ast.Load()), attr="xconst", ctx=ast.Load()),
                     args=[ast.Constant(value="/" if isinstance(node.op, ast.Div) else "**"), node.left, node.right], keywords=[])
        ast.copy_location(c, node)
        ast.fix_missing_locations(c)
        return c

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs + ([node.args.vararg] if node.args.vararg else []) + ([node.args.kwarg] if node.args.kwarg else []):
            a.annotation = None
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node)

    def visit_For(self, node):
        self.generic_visit(node)
        self.n += 1
        k = self.n
        names = sorted(_assigned(node.body) - _targets(node.target)) + []
        names = [x for x in names if not x.startswith("vc__")]
        names += sorted(_appended(node.body) - set(names) - _targets(node.target))
        itn, stn = "vc__it%d" % k, "vc__st%d" % k
        body_sym = [_NoExit().visit(_copy(s)) for s in node.body]
        tup = "(%s,)" % ",".join(names) if names else "()"
        orelse_sym = [_copy(s) for s in node.orelse]
        src = """
if vc__.sym({it}):
    {st} = vc__.loop({it}, {names!r}, locals())
    for vc__tmp{k} in {st}:
        {unpack}
        for vc__once{k} in (0,):
            pass
        {post}
    {fin}
else:
    pass
""".format(it=itn, st=stn, names=tuple(names), k=k,
           unpack=("%s = %s.pre()" % (tup, stn)) if names else "%s.pre()" % stn,
           post="%s.post(vc__vals(locals(), %r))" % (stn, tuple(names)),
           fin=("%s = %s.final()" % (tup, stn)) if names else "pass")
        tree = ast.parse(src).body[0]
        loop = tree.body[1]
        # target assignment + body
        assign = ast.Assign(targets=[node.target], value=ast.Name(id="vc__tmp%d" % k, ctx=ast.Load()))
        once = loop.body[1]
        once.body = [assign] + body_sym
        tree.body = tree.body + orelse_sym
        conc = ast.For(target=node.target, iter=ast.parse("vc__.it(%s)" % itn, mode="eval").body, body=node.body, orelse=node.orelse)
        tree.orelse = [conc]
        first = ast.Assign(targets=[ast.Name(id=itn, ctx=ast.Store())], value=node.iter)
        out = [first, tree]
        for o in out:
            ast.copy_location(o, node)
            for sub_ in ast.walk(o):
                if not hasattr(sub_, "lineno"):
                    sub_.lineno = node.lineno
                    sub_.col_offset = node.col_offset
                    sub_.end_lineno = getattr(node, "end_lineno", node.lineno)
                    sub_.end_col_offset = 0
        return out

    def _comp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1:
            return node
        g = node.generators[0]
        if any(isinstance(s, (ast.NamedExpr, ast.Await)) for s in ast.walk(node)):
            return node

        def lam(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(args=_args([g.target.id]), body=body)
            if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                inner = ast.Lambda(args=_args([e.id for e in g.target.elts]), body=body)
                return ast.Lambda(args=_args(["vc__x"]), body=ast.Call(func=inner, args=[ast.Starred(value=ast.Name(id="vc__x", ctx=ast.Load()), ctx=ast.Load())], keywords=[]))
            return None
        f = lam(node.elt)
        if f is None:
            return node
        args = [f, g.iter]
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
            args.append(lam(_copy(c)))
        call = ast.Call(func=ast.Attribute(value=ast.Name(id="vc__", ctx=ast.Load()), attr="comp", ctx=ast.Load()), args=args, keywords=[])
        ast.copy_location(call, node)
        ast.fix_missing_locations(call)
        return call

    visit_ListComp = _comp
    visit_GeneratorExp = _comp


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


def _copy(n):
    import copy
    return copy.deepcopy(n)


class _NoExit(ast.NodeTransformer):
    """return/break inside a symbolic loop body leave the subset"""

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_Return(self, n):
        return ast.copy_location(ast.parse("vc__.no('return')").body[0], n)

    def visit_Break(self, n):
        return ast.copy_location(ast.parse("vc__.no('break')").body[0], n)

    def visit_For(self, n):
        # inner loops keep their own break/continue but not return
        n.body = [_NoRet().visit(s) for s in n.body]
        n.orelse = [self.visit(s) for s in n.orelse]
        return n

    def visit_While(self, n):
        n.body = [_NoRet().visit(s) for s in n.body]
        return n

    def visit_Yield(self, n):
        return ast.copy_location(ast.parse("vc__.no('yield')", mode="eval").body, n)


class _NoRet(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        return n

    def visit_Return(self, n):
        return ast.copy_location(ast.parse("vc__.no('return')").body[0], n)


def _targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _assigned(body):
    out = set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in body:
        go(s)
    return out


def _appended(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert") and isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
    return out


def _vals(env, names):
    return tuple(env.get(n, UNDEF) for n in names)


# ------------------------------------------------------------------ loading
_cache = {}


def parse(name):
    path = os.path.join(SRC, name + ".py")
    key = (path, os.stat(path).st_mtime_ns)
    if key not in _cache:
        src = open(path).read()
        tree = ast.parse(src)
        tree = Rewriter(name in EXACT or ("quotients" if name in QUOTIENTS else False)).visit(tree)
        ast.fix_missing_locations(tree)
        _cache[key] = compile(tree, path, "exec")
    return _cache[key]


class Loader:
    """instrumented package, loaded fresh per verification context"""

    def __init__(self, overrides=None):
        self.mods = {}
        self.overrides = overrides or {}      # (module, qualname) -> callable(orig) -> replacement

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        m = types.ModuleType("tight_binding_redweasel." + name)
        self.mods[name] = m
        m.__dict__["__builtins__"] = self.builtins()
        m.__dict__["vc__"] = VC
        m.__dict__["vc__vals"] = _vals
        exec(parse(name), m.__dict__)
        for (mod, q), fn in self.overrides.items():
            if mod == name:
                parts = q.split(".")
                o = m
                for p in parts[:-1]:
                    o = getattr(o, p)
                setattr(o, parts[-1], fn(getattr(o, parts[-1])))
        return m

    def builtins(self):
        b = dict(vars(builtins))
        b.update(len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, reversed=b_reversed, sum=b_sum,
                 min=_minmax(Y.minimum, builtins.min), max=_minmax(Y.maximum, builtins.max), abs=b_abs, int=b_int, float=b_float,
                 round=b_round, list=b_list, tuple=b_tuple, all=b_all, any=b_any, isinstance=b_isinstance, bool=b_bool,
                 print=lambda *a, **k: None, __import__=self.imp)
        return b

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name.startswith("tight_binding_redweasel"):
            nm = name.split(".")[-1] if name else ""
            if name and os.path.exists(os.path.join(SRC, nm + ".py")):
                return self.module(nm)
            pk = types.SimpleNamespace()
            for f in fromlist or ():
                setattr(pk, f, self.module(f))
            return pk
        if name == "numpy":
            return N.NUMPY
        if name == "scipy" or name.startswith("scipy."):
            if fromlist and name == "scipy.special":
                return N.SPECIAL
            if fromlist and name != "scipy":
                return N._Missing(name)
            return N.SCIPY
        root = name.split(".")[0]
        if root in ("matplotlib", "skimage", "mpl_toolkits", "plotly", "pandas"):
            return N._Missing(name)
        return __import__(name, globals, locals, fromlist, 0)


class _MissingFrom:
    pass
