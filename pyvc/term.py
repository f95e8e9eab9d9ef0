"""Symbolic scalars, sums, normal forms and derivatives of the pyvc verifier.

Terms are z3 expressions over Real/Int/Bool.  Unbounded sums are fresh Real
constants registered with (bound variable, range, body); uninterpreted real
functions (exp, log1p, sqrt, ...) are z3 functions with axioms instantiated
per occurrence when an obligation is discharged.
Machine floats are treated as mathematical reals (a float literal is the exact
rational it denotes).
"""
import math
from fractions import Fraction
import z3


class OutOfSubset(Exception):
    """construct outside the verified subset (never a violation)"""


R = z3.RealSort()
I = z3.IntSort()


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise OutOfSubset("non-finite constant")
        return Fraction(x)
    raise OutOfSubset("number %r" % (x,))


def rv(q):
    q = frac(q)
    return z3.RealVal("%d/%d" % (q.numerator, q.denominator)) if q.denominator != 1 else z3.RealVal(str(q.numerator))


# ---------------------------------------------------------------- functions
FUN = {}


def fun(name, n=1):
    if name not in FUN:
        FUN[name] = z3.Function(name, *([R] * (n + 1)))
    return FUN[name]


for _n in ("sqrt", "exp", "log", "sin", "cos", "expit", "log_expit", "tanh", "cosh", "sinh", "log1p", "spence", "arctan", "arcsin", "arccos", "cbrt", "logit"):
    fun(_n)
PI = z3.Real("pi")


# ------------------------------------------------------------- traversal
def is_const(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0


SUMC = {}      # name -> z3 const
SUMS = {}      # z3 const name -> (bound, n, body)
SUM_KEY = {}   # (n_id, body_id) -> const
_keep = []
_fv = {}


def free_vars(t):
    """ids of free constants (expanding sums)"""
    k = t.get_id()
    r = _fv.get(k)
    if r is not None:
        return r[1]
    out = set()
    if is_const(t):
        nm = t.decl().name()
        if nm in SUMS:
            b, n, body = SUMS[nm]
            out |= free_vars(body) - {b.get_id()}
            out |= free_vars(n)
        else:
            out.add(t.get_id())
    elif z3.is_app(t):
        for c in t.children():
            out |= free_vars(c)
    out = frozenset(out)
    _fv[k] = (t, out)
    return out


def depends(t, v):
    return v.get_id() in free_vars(t)


_sm = {}
_none = frozenset()


def _shallow(t):
    """names of the sum constants in t, not looking into their bodies"""
    k = t.get_id()
    r = _sm.get(k)
    if r is not None:
        return r[1]
    stack = [t]
    while stack:
        u = stack[-1]
        i = u.get_id()
        if i in _sm:
            stack.pop()
            continue
        if z3.is_quantifier(u):
            ch = [u.body()]
        elif z3.is_app(u):
            ch = u.children()
            if not ch:
                nm = u.decl().name() if u.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
                _sm[i] = (u, frozenset([nm]) if nm in SUMS else _none)
                stack.pop()
                continue
        else:
            ch = []
        todo = [c for c in ch if c.get_id() not in _sm]
        if todo:
            stack += todo
            continue
        out = _none
        for c in ch:
            x = _sm[c.get_id()][1]
            if x and not x <= out:
                out = out | x
        _sm[i] = (u, out)
        stack.pop()
    return _sm[k][1]


def sums_in(t, acc=None, deep=True):
    """all sum constants occurring in t (recursively through bodies)"""
    acc = {} if acc is None else acc
    for nm in sorted(_shallow(t)):
        if nm not in acc:
            acc[nm] = SUMC[nm]
            if deep:
                sums_in(SUMS[nm][2], acc)
    return acc


_am = {}
_noapps = {}


def _apps(t):
    stack = [t]
    while stack:
        u = stack[-1]
        i = u.get_id()
        if i in _am:
            stack.pop()
            continue
        if z3.is_quantifier(u) or not z3.is_app(u) or not u.num_args():
            _am[i] = (u, _noapps)
            stack.pop()
            continue
        ch = u.children()
        todo = [c for c in ch if c.get_id() not in _am]
        if todo:
            stack += todo
            continue
        out = _noapps
        if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out = {i: u}
        for c in ch:
            x = _am[c.get_id()][1]
            if x and x is not out and not (x.keys() <= out.keys()):
                out = {**out, **x} if out else x
        _am[i] = (u, out)
        stack.pop()
    return _am[t.get_id()][1]


def apps_in(ts):
    """all applications of known uninterpreted functions"""
    out = {}
    for t in ts:
        out.update(_apps(t))
    return list(out.values())


def subst(t, pairs):
    """substitute constants by terms, also inside registered sums"""
    ids = {a.get_id(): b for a, b in pairs}
    ss = sums_in(t, deep=False)
    extra = []
    for nm, c in ss.items():
        if any(i in free_vars(c) for i in ids):
            b, n, body = SUMS[nm]
            extra.append((c, mk_sum_term(b, subst(n, pairs), subst(body, pairs))))
    return z3.substitute(t, *(list(pairs) + extra))


# --------------------------------------------------- polynomial normal form
# polynomial: dict{ tuple(sorted((atom_id, exp))) : Fraction }
INDEXF = {}     # index valued functions: name -> (extent, its parameters)
ATOM = {}
IND = {}  # atoms with values 0 and 1 only
_poly = {}
_POLY_LIMIT = 4000


class TooBig(Exception):
    pass


def atom(t):
    ATOM[t.get_id()] = t
    return {((t.get_id(), 1),): Fraction(1)}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
        elif d[a] >= 2 and a in IND:
            d[a] = 1
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 40000:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > _POLY_LIMIT:
        raise TooBig()
    return reduce_fermi(reduce_sqrt(r))


def _app1(t, nm):
    return z3.is_app(t) and t.num_args() == 1 and t.decl().name() == nm


def reduce_fermi(p):
    """p = expit(u) = E/(1+E), E = exp(u): E p = E - p;  exp(u) expit(-u) = 1 - expit(-u);  1/cosh(a)^2 = 4 q (1 - q), q = expit(2a)"""
    for m in p:
        if any(_app1(ATOM[a], "expit") or (e <= -2 and _app1(ATOM[a], "cosh")) for a, e in m):
            break
    else:
        return p
    r, again = {}, False
    for m, c in p.items():
        fermi = [(a, e) for a, e in m if e > 0 and _app1(ATOM[a], "expit")]
        hit = None
        for a, e in m:
            t = ATOM[a]
            if e <= -2 and _app1(t, "cosh"):
                q = poly(FUN["expit"](2 * t.arg(0)))
                hit = (a, 2, None, pmul({(): Fraction(4)}, padd(q, pmul(q, q), -1)))
            elif e > 0 and _app1(t, "exp"):
                u = poly(t.arg(0))
                for b, _ in fermi:
                    v = poly(ATOM[b].arg(0))
                    w = {((b, 1),): Fraction(1)}
                    if v == u:
                        hit = (a, -1, b, padd({((a, 1),): Fraction(1)}, w, -1))
                    elif padd(u, v) == {}:
                        hit = (a, -1, b, padd({(): Fraction(1)}, w, -1))
                    if hit:
                        break
            if hit:
                break
        if hit is None:
            r = padd(r, {m: c})
            continue
        a, de, b, by = hit
        d = dict(m)
        d[a] += de
        if b is not None:
            d[b] -= 1
        rest = {tuple(sorted((x, e) for x, e in d.items() if e)): c}
        r = padd(r, pmul(rest, by))
    return r


def reduce_sqrt(p):
    """sqrt(u)^2 -> u (sqrt(u) is only ever used on u>=0: side condition recorded by `sqrt` definedness)"""
    out = None
    for m, c in p.items():
        hit = None
        for a, e in m:
            t = ATOM[a]
            if (e >= 2 or e <= -2) and z3.is_app(t) and t.decl().name() == "sqrt" and t.num_args() == 1:
                hit = (a, e, t)
                break
        if hit:
            out = True
            break
    if out is None:
        return p
    r = {}
    for m, c in p.items():
        cur = {tuple(): c}
        rest = []
        for a, e in m:
            t = ATOM[a]
            if abs(e) >= 2 and z3.is_app(t) and t.decl().name() == "sqrt" and t.num_args() == 1:
                q, rem = divmod(abs(e), 2)
                u = poly(t.arg(0))
                if e < 0:
                    u = pinv(u, t.arg(0))
                for _ in range(q):
                    cur = pmul(cur, u)
                if rem:
                    rest.append((a, rem if e > 0 else -rem))
            else:
                rest.append((a, e))
        cur = pmul(cur, {tuple(sorted(rest)): Fraction(1)})
        r = padd(r, cur)
    return r


def pinv(p, t):
    """inverse of polynomial p as a polynomial with negative exponents / inverse atom"""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 0:
            raise OutOfSubset("division by zero")
        return {tuple((a, -e) for a, e in m): 1 / c}
    if len(p) == 2 and () in p:      # 1/(1+exp(u)) = 1 - expit(u)
        m, = [x for x in p if x]
        if p[m] == p[()] and len(m) == 1 and m[0][1] == 1 and _app1(ATOM[m[0][0]], "exp"):
            return pmul({(): 1 / p[()]}, padd({(): Fraction(1)}, poly(FUN["expit"](ATOM[m[0][0]].arg(0))), -1))
    # canonical scaling: make leading coefficient 1
    lead = min(p.keys())
    c = p[lead]
    q = {m: v / c for m, v in p.items()}
    # pull out common monomial factors
    at = from_poly(q)
    ATOM[at.get_id()] = at
    return {((at.get_id(), -1),): 1 / c}


def poly(t):
    k = t.get_id()
    r = _poly.get(k)
    if r is not None:
        return r[1]
    r = _poly_raw(t)
    _poly[k] = (t, r)
    return r


def _poly_raw(t):
    if z3.is_rational_value(t):
        q = Fraction(t.numerator_as_long(), t.denominator_as_long())
        return {(): q} if q else {}
    if z3.is_int_value(t):
        q = Fraction(t.as_long())
        return {(): q} if q else {}
    if z3.is_app(t):
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = padd(r, poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = poly(ch[0])
            for c in ch[1:]:
                r = padd(r, poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return padd({}, poly(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            try:
                for c in ch:
                    r = pmul(r, poly(c))
                return r
            except TooBig:
                return atom(t)
        if k == z3.Z3_OP_DIV:
            try:
                p, q = poly(ch[0]), poly(ch[1])
                if len(q) > 1 and p.keys() == q.keys():
                    c = [p[m] / q[m] for m in q]
                    if c[1:] == c[:-1]:  # a multiple of the divisor (which is not 0: separate obligation)
                        return {(): c[0]}
                return pmul(p, pinv(q, ch[1]))
            except TooBig:
                return atom(t)
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 8:
            r = {(): Fraction(1)}
            b = poly(ch[0])
            for _ in range(ch[1].numerator_as_long()):
                r = pmul(r, b)
            return r
        if k == z3.Z3_OP_TO_REAL:
            # distribute over integer arithmetic
            u = ch[0]
            if z3.is_int_value(u):
                return poly(u)
            p = poly(u)
            r = {}
            for m, c in p.items():
                mm = []
                for a, e in m:
                    ta = ATOM[a]
                    tr = z3.ToReal(ta) if ta.sort() == I else ta
                    ATOM[tr.get_id()] = tr
                    mm.append((tr.get_id(), e))
                key = tuple(sorted(mm))
                r[key] = r.get(key, 0) + c
            return r
        if k == z3.Z3_OP_ITE:
            a, b = norm(ch[1]), norm(ch[2])
            if a.get_id() == b.get_id():
                return poly(a)
            c = z3.simplify(ch[0])
            if z3.is_true(c):
                return poly(a)
            if z3.is_false(c):
                return poly(b)
            return atom(z3.If(c, a, b))
        if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 1 and ch[0].sort() == R and t.decl().name() in ("sin", "cos", "exp"):
            nm = t.decl().name()
            p = poly(ch[0])
            if not p:
                return {} if nm == "sin" else {(): Fraction(1)}
            if nm != "exp" and p[min(p)] < 0:
                r = atom(t.decl()(from_poly(padd({}, p, -1))))
                return padd({}, r, -1) if nm == "sin" else r
            return atom(t.decl()(from_poly(p)))
        if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 1 and ch[0].sort() == R and t.decl().name() in ("expit", "log_expit", "tanh", "log1p"):
            nm = t.decl().name()
            if nm == "tanh":
                return padd(pmul({(): Fraction(2)}, poly(FUN["expit"](2 * ch[0]))), {(): Fraction(1)}, -1)
            p = poly(ch[0])
            if nm == "log1p":
                return poly(FUN["log"](from_poly(padd(p, {(): Fraction(1)}))))
            if p and p[min(p)] < 0:
                q = padd({}, p, -1)
                r = atom(t.decl()(from_poly(q)))
                return padd({(): Fraction(1)}, r, -1) if nm == "expit" else padd(r, q, -1)
            return atom(t.decl()(from_poly(p)))
        if k == z3.Z3_OP_UNINTERPRETED and ch:
            return atom(t.decl()(*[norm(c) for c in ch]))
    return atom(t)


def from_poly(p, sort=None):
    if not p:
        return z3.RealVal(0)
    terms = []
    for m in sorted(p.keys()):
        c = p[m]
        num, den = [], []
        for a, e in m:
            (num if e > 0 else den).extend([ATOM[a]] * abs(e))
        num = [z3.ToReal(x) if x.sort() == I else x for x in num]
        den = [z3.ToReal(x) if x.sort() == I else x for x in den]
        t = None
        if num:
            t = num[0]
            for x in num[1:]:
                t = t * x
            if c != 1:
                t = rv(c) * t
        else:
            t = rv(c)
        for x in den:
            t = t / x
        terms.append(t)
    t = terms[0]
    for x in terms[1:]:
        t = t + x
    return t


_norm = {}


def norm(t):
    """canonical form of an arithmetic term"""
    k = t.get_id()
    r = _norm.get(k)
    if r is not None:
        return r[1]
    if t.sort() == I or t.sort() == z3.BoolSort():
        r = z3.simplify(t, som=True)
    else:
        try:
            r = from_poly(poly(t))
        except TooBig:
            r = t
    _norm[k] = (t, r)
    _norm.setdefault(r.get_id(), (r, r))
    return r


def as_frac(t):
    """Fraction if t is a numeral after normalisation, else None"""
    if isinstance(t, (int, float, Fraction)):
        return frac(t)
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None


# ------------------------------------------------------------------- sums
_cnt = [0]
DEPTH = {}


def fresh(name, sort=R):
    _cnt[0] += 1
    return z3.Const("%s!%d" % (name, _cnt[0]), sort)


def _depth(t):
    d = 0
    for nm in sums_in(t, deep=False):
        d = max(d, DEPTH[nm])
    return d


def mk_sum_term(i, n, body):
    """sum_{0<=i<n} body, canonicalised: linear in monomials, i-free factors pulled out"""
    n = z3.simplify(n)
    if z3.is_int_value(n) and n.as_long() <= 12:
        r = z3.RealVal(0)
        for j in range(n.as_long()):
            r = r + subst(body, [(i, z3.IntVal(j))])
        return norm(r)
    p = poly(body)
    res = {}
    nr = poly(z3.ToReal(n))
    for m, c in p.items():
        dep, indep = [], []
        for a, e in m:
            (dep if depends(ATOM[a], i) else indep).append((a, e))
        coef = {tuple(indep): c}
        if not dep:
            s = nr
        else:
            s = atom(_mk_sum_mono(i, n, tuple(dep)))
        res = padd(res, pmul(coef, s))
    return from_poly(res)


def _mk_sum_mono(i, n, dep):
    body = from_poly({dep: Fraction(1)})
    if is_const(body) and body.decl().name() in SUMS:
        # nested sum of sums: canonical order of the two bound variables
        b2, n2, body2 = SUMS[body.decl().name()]
        if not depends(n2, i) and not depends(n, b2):
            key1 = (n.sexpr(),)
            key2 = (n2.sexpr(),)
            if key2 < key1 or (key1 == key2 and _swap_smaller(i, b2, body2)):
                j = fresh("sw", I)
                inner = mk_sum_term(i, n, subst(body2, [(b2, j)]))
                ip = poly(inner)
                if len(ip) == 1:
                    (mm, cc), = ip.items()
                    if cc == 1 and len(mm) == 1 and mm[0][1] == 1 and is_const(ATOM[mm[0][0]]) and ATOM[mm[0][0]].decl().name() in SUMS:
                        return _reg_sum(j, n2, ATOM[mm[0][0]])
    return _reg_sum(i, n, body)


def _swap_smaller(i, j, body):
    return False


def _reg_sum(i, n, body):
    d = 1 + _depth(body)
    b = z3.Const("b!%d" % d, I)
    body = norm(subst(body, [(i, b)]))
    key = (n.get_id(), body.get_id())
    if key in SUM_KEY:
        return SUM_KEY[key]
    _cnt[0] += 1
    c = z3.Real("SUM!%d" % _cnt[0])
    SUMS[c.decl().name()] = (b, n, body)
    SUMC[c.decl().name()] = c
    DEPTH[c.decl().name()] = d
    SUM_KEY[key] = c
    _keep.append((n, body, c))
    return c


def mk_sum(bodyfn, n):
    """bodyfn: z3 Int -> z3 Real term"""
    i = fresh("i", I)
    return mk_sum_term(i, n, bodyfn(i))


# ------------------------------------------------ indicator normal form
_ind = {}
STEP = z3.Function("step!", R, R)  # 1 where the argument is >= 0, else 0


def _step(p):
    """indicator of p >= 0 as a polynomial"""
    if not p:
        return {(): Fraction(1)}
    if set(p) == {()}:
        return {(): Fraction(1)} if p[()] >= 0 else {}
    c = abs(p[min(m for m in p if m)])
    t = STEP(from_poly({m: v / c for m, v in p.items()}))
    IND[t.get_id()] = t
    return atom(t)


def indbool(c):
    """indicator of a condition as a polynomial over step atoms"""
    one = {(): Fraction(1)}
    if z3.is_true(c):
        return one
    if z3.is_false(c):
        return {}
    k = c.decl().kind()
    ch = c.children()
    if k == z3.Z3_OP_NOT:
        return padd(one, indbool(ch[0]), -1)
    if k == z3.Z3_OP_AND:
        r = one
        for x in ch:
            r = pmul(r, indbool(x))
        return r
    if k == z3.Z3_OP_OR:
        r = one
        for x in ch:
            r = pmul(r, padd(one, indbool(x), -1))
        return padd(one, r, -1)
    if k == z3.Z3_OP_IMPLIES:
        return indbool(z3.Or(z3.Not(ch[0]), ch[1]))
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and ch[0].sort() in (R, I):
        whole = ch[0].sort() == I
        a, b = [indpoly(z3.ToReal(x)) if whole else indpoly(x) for x in ch]
        d = padd(a, b, -1)
        m = padd(b, a, -1)
        if k == z3.Z3_OP_GE:
            return _step(d)
        if k == z3.Z3_OP_LE:
            return _step(m)
        if k == z3.Z3_OP_EQ:
            return pmul(_step(d), _step(m))
        if whole:
            return _step(padd(d if k == z3.Z3_OP_GT else m, one, -1))
        return padd(one, _step(m if k == z3.Z3_OP_GT else d), -1)
    t = z3.If(c, z3.RealVal(1), z3.RealVal(0))
    IND[t.get_id()] = t
    return atom(t)


def indpoly(t):
    k = t.get_id()
    r = _ind.get(k)
    if r is None:
        r = (t, _indpoly_raw(t))
        _ind[k] = r
    return r[1]


def _indpoly_raw(t):
    if is_const(t) and t.decl().name() in SUMS:
        b, n, body = SUMS[t.decl().name()]
        j = fresh("i", I)
        q = indnorm(subst(body, [(b, j)]))
        return poly(mk_sum_term(j, n, q))
    if z3.is_app(t) and t.num_args():
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = padd(r, indpoly(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = indpoly(ch[0])
            for c in ch[1:]:
                r = padd(r, indpoly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return padd({}, indpoly(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch:
                r = pmul(r, indpoly(c))
            return r
        if k == z3.Z3_OP_DIV:
            return pmul(indpoly(ch[0]), pinv(indpoly(ch[1]), ch[1]))
        if k == z3.Z3_OP_ITE and t.sort() == R:
            b = indpoly(ch[2])
            return padd(b, pmul(indbool(ch[0]), padd(indpoly(ch[1]), b, -1)))
        if k == z3.Z3_OP_UNINTERPRETED:
            t2 = t.decl()(*[indnorm(c) if c.sort() == R else c for c in ch])
            return poly(t2)
    return poly(t)


def indnorm(t):
    """a term with every if-then-else rewritten as a polynomial in 0/1 step atoms: two terms with the
    same form are equal (the converse need not hold)"""
    return from_poly(indpoly(t))


# ------------------------------------------------------------- derivative
def diff(t, x):
    memo = {}

    def D(u):
        k = u.get_id()
        if k in memo:
            return memo[k]
        r = _D(u)
        memo[k] = r
        return r

    def _D(u):
        if not depends(u, x):
            return z3.RealVal(0)
        if u.get_id() == x.get_id():
            return z3.RealVal(1)
        if is_const(u) and u.decl().name() in SUMS:
            b, n, body = SUMS[u.decl().name()]
            j = fresh("d", I)
            return mk_sum_term(j, n, diff(subst(body, [(b, j)]), x))
        k = u.decl().kind()
        ch = u.children()
        if k == z3.Z3_OP_ADD:
            return z3.Sum([D(c) for c in ch])
        if k == z3.Z3_OP_SUB:
            r = D(ch[0])
            for c in ch[1:]:
                r = r - D(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -D(ch[0])
        if k == z3.Z3_OP_MUL:
            r = z3.RealVal(0)
            for a, c in enumerate(ch):
                if depends(c, x):
                    w = D(c)
                    for b2, e in enumerate(ch):
                        if b2 != a:
                            w = w * e
                    r = r + w
            return r
        if k == z3.Z3_OP_DIV:
            a, b2 = ch
            if not depends(b2, x):
                return D(a) / b2
            return (D(a) * b2 - a * D(b2)) / (b2 * b2)
        if k == z3.Z3_OP_ITE:
            return z3.If(ch[0], D(ch[1]), D(ch[2]))
        if k == z3.Z3_OP_POWER:
            e = as_frac(ch[1])
            if e is not None and e.denominator == 1:
                return rv(e) * ch[0] ** rv(e - 1) * D(ch[0])
        if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 1:
            a = ch[0]
            nm = u.decl().name()
            one = z3.RealVal(1)
            f = FUN
            g = {
                "exp": lambda: u,
                "sin": lambda: f["cos"](a),
                "cos": lambda: -f["sin"](a),
                "sqrt": lambda: one / (2 * u),
                "log": lambda: one / a,
                "log1p": lambda: one / (1 + a),
                "expit": lambda: u * (1 - u),
                "log_expit": lambda: one - f["expit"](a),
                "tanh": lambda: one - u * u,
                "cosh": lambda: f["sinh"](a),
                "sinh": lambda: f["cosh"](a),
                "spence": lambda: f["log"](a) / (1 - a),
                "arctan": lambda: one / (1 + a * a),
            }.get(nm)
            if g is not None:
                return g() * D(a)
        raise OutOfSubset("derivative of %s" % u.decl().name())
    return norm(D(t))
