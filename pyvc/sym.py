"""Symbolic scalar values, path exploration context."""
from fractions import Fraction
import numbers
import z3
from .term import *
from . import term as T


class PathAbort(Exception):
    """path infeasible / abandoned"""


class Ctx:
    """state of one symbolic path"""
    cur = None

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []         # list of (cond, choice, other_feasible)
        self.pc = []            # z3 Bools (assumptions + decisions)
        self.obls = []          # (name, pc snapshot, goal, info)
        self.solver_time = 0.0
        self.local = []         # stack of loop-local explorers
        self.written = None     # write log
        self.nonzero = []       # denominators
        self.loop_stats = []
        self.scope = []         # len(pc) at the entry of each open scope with temporary facts
        self.elem_facts = []    # (array, conditions, index variables, name)
        self.ndec = 0           # number of branch decisions made

    def persistent(self):
        """the facts which hold on the whole rest of the path"""
        return self.pc[:self.scope[0]] if self.scope else self.pc

    def assume(self, t):
        if t is True:
            return
        if t is False:
            raise PathAbort()
        self.pc.append(t)

    def elem_instances(self, ts):
        """instances of element-wise preconditions of the inputs for the reads occurring in ts"""
        if not self.elem_facts:
            return []
        from .term import apps_in
        us = list(apps_in(ts))
        return [z3.substitute(z3.And(*cs), *[(v, u.arg(d)) for d, v in enumerate(vs)])
                for _, cs, vs, name in self.elem_facts for u in us if u.decl().name() == name]

    def feasible(self, extra):
        s = z3.Solver()
        s.set("timeout", 400)
        for p in self.pc:
            s.add(p)
        s.add(extra)
        from .prove import axioms_for
        for a in axioms_for(self.pc + [extra]):
            s.add(a)
        for a in self.elem_instances(self.pc + [extra]):
            s.add(a)
        r = s.check()
        return r != z3.unsat

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg_ = z3.is_not(cond)
        e = cond.arg(0) if neg_ else cond
        if (z3.is_ge(e) and _zero(e.arg(1)) and _nonneg(e.arg(0))) or (z3.is_le(e) and _zero(e.arg(0)) and _nonneg(e.arg(1))):
            return not neg_
        self.ndec += 1
        if self.local:
            return self.local[-1].decide(self, cond)
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.taken.append((c, False))
            self.pc.append(cond if c else z3.Not(cond))
            return c
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if not t and not f:
            raise PathAbort()
        c = t
        self.pos += 1
        self.taken.append((c, t and f))
        self.pc.append(cond if c else z3.Not(cond))
        return c


def _zero(e):
    return z3.is_rational_value(e) and e.numerator_as_long() == 0


def _nonneg(e):
    """values of roots, absolute values, even powers, and products and quotients of these (a division by zero raises before)"""
    if z3.is_rational_value(e):
        return e.numerator_as_long() >= 0
    if not z3.is_app(e):
        return False
    k = e.decl().kind()
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_ADD):
        return all(_nonneg(a) for a in e.children())
    return e.num_args() == 1 and e.decl().name() in ("sqrt", "exp")


def ctx():
    return Ctx.cur


class _Merge:
    """explores the branches taken while evaluating an expression under a bound variable"""

    def __init__(self):
        self.prefix, self.path, self.pos = [], [], 0

    def decide(self, c, cond):
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos][0]
        else:
            t = c.feasible(cond)
            f = c.feasible(z3.Not(cond))
            if not t and not f:
                t = f = True      # unreachable element: either value will do
            ch = t
            self.prefix.append([ch, t and f])
        self.pos += 1
        q = cond if ch else z3.Not(cond)
        c.pc.append(q)
        self.path.append(q)
        return ch


def merged(f, merge2):
    """f() with every branch inside merged by if-then-else (merge2(cond, a, b))"""
    c = Ctx.cur
    m = _Merge()
    mark = len(c.pc)
    outs = []
    while True:
        m.path, m.pos = [], 0
        c.local.append(m)
        c.scope.append(mark)
        try:
            v = f()
        finally:
            c.local.pop()
            c.scope.pop()
            del c.pc[mark:]
        outs.append((list(m.path), v))
        if len(outs) > 64:
            raise OutOfSubset("too many branches under a bound variable")
        while m.prefix and not m.prefix[-1][1]:
            m.prefix.pop()
        if not m.prefix:
            break
        m.prefix[-1] = [not m.prefix[-1][0], False]
    r = outs[-1][1]
    for path, v in reversed(outs[:-1]):
        r = merge2(z3.And(*path) if path else z3.BoolVal(True), v, r)
    return r


# ---------------------------------------------------------------- scalars
class S:
    """symbolic Real/Int/Bool scalar"""
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    @property
    def is_int(self):
        return self.t.sort() == T.I

    @property
    def is_bool(self):
        return self.t.sort() == z3.BoolSort()

    # numpy-scalar like attributes
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def T(self):
        return self

    def conj(self):
        return self
    conjugate = conj

    def copy(self):
        return self

    def item(self):
        return self

    def __getitem__(self, key):
        """numpy scalars allow only [...], [()], [None] and combinations"""
        ks = key if isinstance(key, tuple) else (key,)
        if any(k is not None and k is not Ellipsis for k in ks):
            raise IndexError("invalid index to scalar variable.")
        from .arr import asarr
        return asarr(self)[key]

    def __repr__(self):
        s = self.t.sexpr()
        return "S<%s>" % (s if len(s) < 200 else s[:200] + "...")

    def __hash__(self):
        return self.t.hash()

    def __bool__(self):
        if self.is_bool:
            return ctx().decide(self.t)
        return ctx().decide(self.t != 0)

    def __index__(self):
        q = as_frac(self.t) if self.is_int else None
        if q is not None:
            return int(q)
        if self.is_int:
            # a few possible values: case split
            c = ctx()
            if not c.feasible(z3.Not(z3.And(self.t >= 0, self.t <= 3))):
                for v in range(3):
                    if c.decide(self.t == v):
                        return v
                return 3
        raise OutOfSubset("symbolic integer used as a concrete index")

    def __int__(self):
        q = as_frac(self.t)
        if q is not None and q.denominator == 1:
            return int(q)
        raise OutOfSubset("int() of a symbolic value")

    def __float__(self):
        raise OutOfSubset("float() of a symbolic value")

    def __round__(self, nd=None):
        if self.is_int:
            return self
        q = as_frac(self.t)
        if q is not None:
            return round(q)
        raise OutOfSubset("round() of a symbolic value")

    def __format__(self, spec):
        return "<sym>"

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absv(self)

    def __invert__(self):
        if self.is_bool:
            return S(z3.Not(self.t))
        raise OutOfSubset("~ on number")


class C:
    """symbolic complex number: pair of reals"""
    __slots__ = ("re", "im")
    __array_priority__ = 1000

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @property
    def shape(self):
        return ()

    def conj(self):
        return C(self.re, neg(self.im))
    conjugate = conj

    def __getitem__(self, key):
        """numpy scalars allow only [...], [()], [None] and combinations"""
        ks = key if isinstance(key, tuple) else (key,)
        if any(k is not None and k is not Ellipsis for k in ks):
            raise IndexError("invalid index to scalar variable.")
        from .arr import asarr
        return asarr(self)[key]

    def __repr__(self):
        return "C<%r,%r>" % (self.re, self.im)

    def __neg__(self):
        return neg(self)

    def __abs__(self):
        return absv(self)

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return bool(bor(ne(self.re, 0), ne(self.im, 0)))

    def __format__(self, spec):
        return "<symc>"


NUM = (int, float, Fraction, bool)


def isnum(x):
    return isinstance(x, NUM)


def isscalar(x):
    return isinstance(x, (S, C, int, float, complex, Fraction, bool))


def split(x):
    """-> (re, im)"""
    if isinstance(x, C):
        return x.re, x.im
    if isinstance(x, complex):
        return x.real, x.imag
    return x, 0


def iscomplex(x):
    return isinstance(x, (C, complex))


def mkc(re, im):
    if isinstance(im, S):
        q = as_frac(im.t) if z3.is_rational_value(im.t) else None
        if q is not None:
            im = q
    return C(re, im)


def real_t(x):
    """z3 Real term of scalar"""
    if isinstance(x, S):
        if x.is_bool:
            return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
        return z3.ToReal(x.t) if x.is_int else x.t
    return rv(x)


def int_t(x):
    if isinstance(x, S):
        if x.is_bool:
            return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
        if not x.is_int:
            raise OutOfSubset("real used as int")
        return x.t
    if isinstance(x, z3.ExprRef):
        return x
    return z3.IntVal(int(x))


def bool_t(x):
    if isinstance(x, S):
        return x.t if x.is_bool else x.t != 0
    if isinstance(x, C):
        return z3.Or(bool_t(ne(x.re, 0)), bool_t(ne(x.im, 0)))
    return z3.BoolVal(bool(x))


def isint(x):
    return (isinstance(x, S) and (x.is_int or x.is_bool)) or (isinstance(x, int))


def lit(t):
    """collapse numerals back to Python numbers"""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        q = Fraction(t.numerator_as_long(), t.denominator_as_long())
        return q if q.denominator != 1 else Fraction(q.numerator)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return S(t)


def iszero(x):
    return isnum(x) and x == 0


def isone(x):
    return isnum(x) and x == 1


def _ar(a, b):
    """both as terms of a common sort: ('i', ta, tb) or ('r', ...)"""
    if isint(a) and isint(b):
        return True, int_t(a), int_t(b)
    return False, real_t(a), real_t(b)


def isinf(x):
    return isinstance(x, float) and x in (float("inf"), float("-inf"))


def add(a, b):
    if isinf(a) or isinf(b):
        if isinf(a) and isinf(b) and a != b or iscomplex(a) or iscomplex(b):
            raise OutOfSubset("non-finite value")
        return a if isinf(a) else b
    if iscomplex(a) or iscomplex(b):
        (ar, ai), (br, bi) = split(a), split(b)
        return mkc(add(ar, br), add(ai, bi))
    if isnum(a) and isnum(b):
        return _py(a) + _py(b)
    if iszero(a) and not isinstance(a, float):
        return b
    if iszero(b) and not isinstance(b, float):
        return a
    if iszero(a):
        return b if not isint(b) else S(real_t(b))
    if iszero(b):
        return a if not isint(a) else S(real_t(a))
    i, x, y = _ar(a, b)
    return lit(z3.simplify(x + y)) if i else S(x + y)


def neg(a):
    if isinf(a):
        return -a
    if iscomplex(a):
        r, i = split(a)
        return mkc(neg(r), neg(i))
    if isnum(a):
        return -_py(a)
    if a.is_int or a.is_bool:
        return lit(z3.simplify(-int_t(a)))
    return S(-a.t)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if iscomplex(a) or iscomplex(b):
        (ar, ai), (br, bi) = split(a), split(b)
        return mkc(sub(mul(ar, br), mul(ai, bi)), add(mul(ar, bi), mul(ai, br)))
    if isnum(a) and isnum(b):
        return _py(a) * _py(b)
    if iszero(a) or iszero(b):
        return 0 if isint(a) and isint(b) else Fraction(0)
    if isone(a):
        return b if not isinstance(a, float) or not isint(b) else S(real_t(b))
    if isone(b):
        return a if not isinstance(b, float) or not isint(a) else S(real_t(a))
    i, x, y = _ar(a, b)
    return lit(z3.simplify(x * y)) if i else S(x * y)


def _py(x):
    """exact python number: floats to fractions"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float):
        return frac(x)
    return x


class OrInf:
    """val where cond, +infinity elsewhere: only allowed as a divisor"""
    __slots__ = ("cond", "val")

    def __init__(self, cond, val):
        self.cond, self.val = cond, val


def div(a, b):
    if isinstance(b, OrInf):
        if iscomplex(a) or isinf(a):
            raise OutOfSubset("division by an infinite value")
        pc = ctx().pc
        pc.append(b.cond)
        r = div(a, b.val)
        pc.pop()
        return ite(S(b.cond), r, 0)
    if isinf(a) and not isinf(b) and not iscomplex(b):
        # IEEE: the sign of the divisor (0 counts as positive)
        return a if bool(cmp(">=", b, 0)) else -a
    if iscomplex(b):
        br, bi = split(b)
        d = add(mul(br, br), mul(bi, bi))
        return div(mul(a, mkc(br, neg(bi))), d)
    if iscomplex(a):
        r, i = split(a)
        return mkc(div(r, b), div(i, b))
    if isnum(a) and isnum(b):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return frac(a) / frac(b)
    if isnum(b):
        if b == 0:
            raise OutOfSubset("division by literal zero")
        if b == 1:
            return S(real_t(a))
        return S(real_t(a) * rv(1 / frac(b)))
    tb = real_t(b)
    ctx().nonzero.append((list(ctx().pc), tb))
    if iszero(a):
        return Fraction(0)
    return S(real_t(a) / tb)


def _small_quotient(a, b):
    """(quotient, rest) if 0 <= a < 2 b, b > 0 follows from the path"""
    x, y = int_t(a), int_t(b)
    if ctx().feasible(z3.Not(z3.And(x >= 0, y > 0, x < 2 * y))):
        return None
    if not ctx().feasible(x >= y):
        return 0, a
    c = x < y
    return S(z3.If(c, z3.IntVal(0), z3.IntVal(1))), S(z3.simplify(z3.If(c, x, x - y)))


def floordiv(a, b):
    if isnum(a) and isnum(b):
        return a // b
    if isint(a) and isint(b):
        # python floor division; z3 Int div is floor for positive divisors
        if isnum(b) and b > 0:
            return lit(z3.simplify(int_t(a) / int_t(b)))
        r = _small_quotient(a, b)
        if r is not None:
            return r[0]
        raise OutOfSubset("// by non-positive or symbolic divisor")
    raise OutOfSubset("// on reals")


def mod(a, b):
    if isnum(a) and isnum(b):
        return a % b
    if isint(a) and isint(b):
        if not isnum(b):
            r = _small_quotient(a, b)
            if r is None:
                raise OutOfSubset("% by a symbolic divisor")
            return r[1]
        return lit(z3.simplify(int_t(a) % int_t(b)))
    raise OutOfSubset("% on reals")


def power(a, n):
    if isinstance(n, S):
        q = as_frac(n.t)
        if q is None:
            raise OutOfSubset("symbolic exponent")
        n = q
    if isnum(a) and isnum(n):
        n = frac(n)
        if n.denominator == 1:
            if n < 0:
                return frac(a) ** int(n)
            return _py(a) ** int(n)
        if n == Fraction(1, 2):
            return sqrt(a)
        raise OutOfSubset("irrational power")
    n = frac(n)
    if n == 0:
        return 1
    if n < 0:
        return div(1, power(a, -n))
    if n.denominator == 2:
        r = sqrt(a)
        return mul(power(a, Fraction(n.numerator // 2)), r) if n.numerator > 1 else r
    if n.denominator != 1:
        if n == Fraction(1 / 3) or n.limit_denominator(1000) == Fraction(1, 3):
            return S(FUN["cbrt"](real_t(a)))
        raise OutOfSubset("power %s" % n)
    r = a
    for _ in range(int(n) - 1):
        r = mul(r, a)
    return r


def sqrt(a):
    if iscomplex(a):
        raise OutOfSubset("complex sqrt")
    if isnum(a):
        q = frac(a)
        import math
        if q >= 0:
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator:
                return Fraction(n, d)
    t = norm(real_t(a))
    q = as_frac(t)
    if q is not None and not isnum(a):
        return sqrt(q)
    return S(FUN["sqrt"](t))


_PYF = {"exp": 0, "log_expit": None}


def apply1(name, a):
    """uninterpreted real function, normalised argument"""
    if iscomplex(a):
        if name == "exp":
            r, i = split(a)
            c, s = apply1("cos", i), apply1("sin", i)
            if iszero(r):
                return mkc(c, s)
            e = apply1("exp", r)
            return mkc(mul(e, c), mul(e, s))
        raise OutOfSubset("complex " + name)
    t = norm(real_t(a))
    q = as_frac(t) if z3.is_rational_value(t) else None
    if q == 0:
        z = {"exp": 1, "sin": 0, "cos": 1, "tanh": 0, "sinh": 0, "cosh": 1, "log1p": 0, "arctan": 0, "expit": Fraction(1, 2)}.get(name)
        if z is not None:
            return Fraction(z)
    # parity: canonical sign of the argument
    if name in ("sin", "cos", "tanh", "sinh", "cosh", "arctan") and z3.is_expr(t):
        p = poly(t)
        if p:
            lead = min(p.keys())
            if p[lead] < 0:
                t2 = norm(-t)
                r = S(FUN[name](t2))
                return r if name in ("cos", "cosh") else neg(r)
    return S(FUN[name](t))


def cmp(op, a, b):
    if iscomplex(a) or iscomplex(b):
        if op in ("==", "!="):
            (ar, ai), (br, bi) = split(a), split(b)
            e = band(cmp("==", ar, br), cmp("==", ai, bi))
            return e if op == "==" else bnot(e)
        raise OutOfSubset("ordering of complex numbers")
    if isnum(a) and isnum(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if isinstance(a, float) and a in (float("inf"), float("-inf")):
        pos = a > 0
        return {"<": not pos, "<=": not pos, ">": pos, ">=": pos, "==": False, "!=": True}[op]
    if isinstance(b, float) and b in (float("inf"), float("-inf")):
        pos = b > 0
        return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
    if (isinstance(a, S) and a.is_bool) and (isinstance(b, S) and b.is_bool or isinstance(b, bool)):
        e = bool_t(a) == bool_t(b)
        if op == "!=":
            e = z3.Not(e)
        return lit(z3.simplify(e))
    i, x, y = _ar(a, b)
    if not i:
        x, y = norm(x), norm(y)
    e = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
    e = z3.simplify(e)
    return lit(e)


def ne(a, b):
    return cmp("!=", a, b)


def eqv(a, b):
    return cmp("==", a, b)


def bnot(a):
    if isinstance(a, bool):
        return not a
    return lit(z3.simplify(z3.Not(bool_t(a))))


def band(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return lit(z3.simplify(z3.And(bool_t(a), bool_t(b))))


def bor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return lit(z3.simplify(z3.Or(bool_t(a), bool_t(b))))


def ite(c, a, b):
    if isinstance(c, (bool, int)):
        return a if c else b
    if isinstance(c, S) and not c.is_bool:
        c = ne(c, 0)
        if isinstance(c, bool):
            return a if c else b
    if a is b:
        return a
    if iscomplex(a) or iscomplex(b):
        (ar, ai), (br, bi) = split(a), split(b)
        return mkc(ite(c, ar, br), ite(c, ai, bi))
    if isnum(a) and isnum(b) and a == b:
        return a
    if (isinstance(a, bool) or (isinstance(a, S) and a.is_bool)) and (isinstance(b, bool) or (isinstance(b, S) and b.is_bool)):
        return lit(z3.simplify(z3.If(c.t, bool_t(a), bool_t(b))))
    i, x, y = _ar(a, b)
    if x.get_id() == y.get_id():
        return a
    # if v = literal then f(literal) else f(v) is f(v)
    e = c.t
    if z3.is_eq(e) and e.num_args() == 2 and e.arg(0).sort() == z3.IntSort():
        l, v = e.arg(0), e.arg(1)
        if not z3.is_int_value(l):
            l, v = v, l
        if z3.is_int_value(l) and z3.is_const(v):
            y0, x0 = z3.simplify(z3.substitute(y, (v, l))), z3.simplify(z3.substitute(x, (v, l)))
            if y0.get_id() == x0.get_id() or (y0.sort() == x0.sort() and T.norm(y0).get_id() == T.norm(x0).get_id()):
                return b if y.sort() == x.sort() and not isinstance(b, (int, float)) else S(y)
    return S(z3.If(c.t, x, y))


def absv(a):
    if iscomplex(a):
        r, i = split(a)
        return sqrt(add(mul(r, r), mul(i, i)))
    if isinf(a):
        return abs(a)
    if isnum(a):
        return abs(_py(a))
    return ite(cmp("<", a, 0), neg(a), a)


def maximum(a, b):
    return ite(cmp("<", a, b), b, a)


def minimum(a, b):
    return ite(cmp("<", b, a), b, a)


def sign(a):
    if isnum(a):
        return (a > 0) - (a < 0)
    return ite(cmp(">", a, 0), Fraction(1), ite(cmp("<", a, 0), Fraction(-1), Fraction(0)))


BIN = {"+": add, "-": sub, "*": mul, "/": div, "//": floordiv, "%": mod, "**": power,
       "<": lambda a, b: cmp("<", a, b), "<=": lambda a, b: cmp("<=", a, b), ">": lambda a, b: cmp(">", a, b),
       ">=": lambda a, b: cmp(">=", a, b), "==": lambda a, b: cmp("==", a, b), "!=": lambda a, b: cmp("!=", a, b),
       "&": band, "|": bor, "^": lambda a, b: ne(a, b)}


def _mk(op, rev=False):
    f = BIN[op]

    def m(self, other):
        if not isscalar(other):
            return NotImplemented
        return f(other, self) if rev else f(self, other)
    return m


for _c in (S, C):
    for _n, _o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**"), ("and", "&"), ("or", "|"), ("xor", "^")):
        setattr(_c, "__%s__" % _n, _mk(_o))
        setattr(_c, "__r%s__" % _n, _mk(_o, True))
    for _n, _o in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
        setattr(_c, "__%s__" % _n, _mk(_o))


def var(name, kind="r"):
    return S({"r": z3.Real, "i": z3.Int, "b": z3.Bool}[kind](name))
