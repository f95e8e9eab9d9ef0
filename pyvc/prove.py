"""Discharging obligations: normaliser, z3, case splitting, sum lemmas, cvc5."""
import os
import subprocess
import tempfile
import time
import itertools
import z3
from .term import *
from . import term as T


# ------------------------------------------------------------ axioms
def _pos_axioms(u):
    nm = u.decl().name()
    a = u.arg(0) if u.num_args() == 1 else None
    if a is None:
        return []
    if nm == "sqrt":
        return [u >= 0, z3.Implies(a >= 0, u * u == a), z3.Implies(a > 0, u > 0)]    # (a < 0 is excluded by its own obligation)
    if nm == "exp":
        return [u > 0, u >= 1 + a, z3.Implies(a < 0, u < 1)]
    if nm == "log":
        return [z3.Implies(a > 0, u <= a - 1), z3.Implies(a >= 1, u >= 0), z3.Implies(z3.And(a > 0, a < 1), u < 0)]
    if nm in ("sin", "cos"):
        s, c = FUN["sin"](a), FUN["cos"](a)
        return [s * s + c * c == 1, u <= 1, u >= -1]
    if nm == "expit":
        return [u > 0, u < 1, z3.Implies(a > 0, 2 * u > 1), z3.Implies(a < 0, 2 * u < 1), z3.Implies(a == 0, 2 * u == 1)]
    if nm == "log_expit":
        return [u < 0, u < a]
    if nm == "tanh":
        return [u > -1, u < 1, z3.Implies(a > 0, z3.And(u > 0, u < a)), z3.Implies(a < 0, z3.And(u < 0, u > a))]
    if nm == "cosh":
        return [u >= 1]
    if nm == "log1p":
        return [z3.Implies(a > -1, u <= a), z3.Implies(a >= 0, u >= 0)]
    if nm == "arctan":
        return [z3.Implies(a > 0, u > 0), z3.Implies(a < 0, u < 0)]
    if nm == "cbrt":
        return [u * u * u == a]
    return []


MONO = {"exp", "log", "sqrt", "expit", "log_expit", "tanh", "log1p", "arctan", "cbrt"}


def axioms_for(ts, pairs=True):
    out = []
    apps = [u for u in apps_in(ts) if u.decl().name() in FUN]
    if T.INDEXF:
        for u in apps_in(ts):
            if u.decl().name() in T.INDEXF:
                n, ps = T.INDEXF[u.decl().name()]
                out += [u >= 0, u < z3.substitute(n, *[(p, u.arg(d)) for d, p in enumerate(ps)])]
    by = {}
    for u in apps:
        out += _pos_axioms(u)
        by.setdefault(u.decl().name(), []).append(u)
    if pairs:
        for nm, us in by.items():
            if nm in MONO and len(us) <= 8:
                for u, v in itertools.combinations(us, 2):
                    a, b = u.arg(0), v.arg(0)
                    d = as_frac(norm(a + b))
                    if nm == "exp" and d == 0:
                        out.append(u * v == 1)
                    if nm in ("expit",) and d == 0:
                        out.append(u + v == 1)
                    if nm == "log_expit" and d == 0:
                        out.append(u - v == a)
                    g = []
                    if nm in ("sqrt", "log"):
                        g = [a >= 0, b >= 0] if nm == "sqrt" else [a > 0, b > 0]
                    if nm == "log1p":
                        g = [a > -1, b > -1]
                    out.append(z3.Implies(z3.And(*(g + [a < b])), u < v))
                    out.append(z3.Implies(z3.And(*(g + [a > b])), u > v))
    if any(_has_pi(t) for t in ts):
        out += [PI > rv(3.14159265), PI < rv(3.14159266)]
    return out


_pi_memo = {}


def _has_pi(t):
    k = t.get_id()
    if k in _pi_memo:
        return _pi_memo[k][1]
    r = False
    if is_const(t):
        r = t.decl().name() == "pi"
    elif z3.is_app(t):
        r = any(_has_pi(c) for c in t.children())
    _pi_memo[k] = (t, r)
    return r


# ------------------------------------------------------------ abstraction
class Abstr:
    """replace applications of uninterpreted functions by fresh constants (sound for proving:
    only functional consistency between unequal argument terms is lost; it is re-added pairwise
    for array reads with few occurrences)"""

    def __init__(self):
        self.m = {}
        self.keep = []

    def __call__(self, t):
        memo = {}

        def go(u):
            k = u.get_id()
            if k in memo:
                return memo[k]
            if z3.is_quantifier(u) or not z3.is_app(u) or u.num_args() == 0:
                r = u
            else:
                ch = [go(c) for c in u.children()]
                r = u.decl()(*ch) if u.decl().kind() == z3.Z3_OP_UNINTERPRETED else _rebuild(u, ch)
                if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    key = r.sexpr()
                    if key not in self.m:
                        self.m[key] = (z3.Const("ab!%d" % len(self.m), u.sort()), u)
                        self.keep.append(r)
                    r = self.m[key][0]
            memo[k] = r
            return r
        return go(t)


def _rebuild(u, ch):
    if all(a.get_id() == b.get_id() for a, b in zip(u.children(), ch)):
        return u
    k = u.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    return u.decl()(*ch)


def consts_of(t, acc=None):
    acc = set() if acc is None else acc
    seen = set()

    def go(u):
        if u.get_id() in seen:
            return
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            go(u.body())
        elif is_const(u):
            acc.add(u.decl().name())
        elif z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                pass
            for c in u.children():
                go(c)
    go(t)
    return acc


def relevant(pc, goal):
    """facts sharing symbols (transitively) with the goal"""
    syms = consts_of(goal)
    rest = [(p, consts_of(p)) for p in pc]
    out = []
    ch = True
    while ch:
        ch = False
        for p, s in list(rest):
            if s & syms or not s:
                out.append(p)
                syms |= s
                rest.remove((p, s))
                ch = True
    return out


def ite_conds(t, limit=12):
    out = {}
    seen = set()

    def go(u):
        if u.get_id() in seen or len(out) > limit:
            return
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            return
        if z3.is_app(u):
            for c in u.children():
                go(c)
            if u.decl().kind() == z3.Z3_OP_ITE:
                c = u.arg(0)
                if not ite_in(c):
                    for a in bool_atoms(c):
                        out[a.get_id()] = a
    go(t)
    return list(out.values())


def bool_atoms(c):
    k = c.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or (k == z3.Z3_OP_EQ and c.arg(0).sort() == z3.BoolSort()):
        r = []
        for x in c.children():
            r += bool_atoms(x)
        return r
    if z3.is_true(c) or z3.is_false(c):
        return []
    return [c]


_itein = {}


def ite_in(t):
    k = t.get_id()
    if k in _itein:
        return _itein[k][1]
    r = False
    if z3.is_app(t):
        r = t.decl().kind() == z3.Z3_OP_ITE or any(ite_in(c) for c in t.children())
    _itein[k] = (t, r)
    return r


def subst_bool(t, a, val):
    return z3.simplify(z3.substitute(t, (a, z3.BoolVal(val))))


# ----------------------------------------------------------------- stats
class Stats:
    def __init__(self):
        self.time = {}
        self.calls = {}

    def add(self, be, dt):
        self.time[be] = self.time.get(be, 0) + dt
        self.calls[be] = self.calls.get(be, 0) + 1


STATS = Stats()


def solve(asserts, timeout, tactic=None):
    """-> ('unsat'|'sat'|'unknown', model)"""
    t0 = time.time()
    try:
        if tactic == "nlsat":
            s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-uncnstr", "qfnra-nlsat").solver()
        elif tactic == "nra":
            s = z3.SolverFor("QF_NRA")
        else:
            s = z3.Solver()
        s.set("timeout", max(10, int(timeout * 1000)))
        for a in asserts:
            s.add(a)
        r = s.check()
        m = s.model() if r == z3.sat else None
        return str(r), m
    except z3.Z3Exception as e:
        return "unknown", None
    finally:
        STATS.add("z3" if tactic is None else "z3-" + tactic, time.time() - t0)


def cvc5_check(asserts, timeout):
    t0 = time.time()
    s = z3.Solver()
    for a in asserts:
        s.add(a)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(check-sat)", "") + "\n(check-sat)\n"
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), "--nl-cov", "-"], input=txt, capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().splitlines()
        return o[-1] if o else "unknown"
    except Exception:
        return "unknown"
    finally:
        STATS.add("cvc5", time.time() - t0)


# -------------------------------------------------------------- sum lemmas
ELEM = []      # element-wise preconditions of input arrays: (array, conditions, index variables, name)


def elem_inst(ts):
    """instances of the element-wise preconditions for the reads occurring in ts (and in sums below them)"""
    if not ELEM:
        return []
    ts = list(ts)
    out = []
    apps = apps_in(ts)
    for a, cs, vs, name in ELEM:
        for u in apps:
            if u.decl().name() == name:
                out.append(z3.substitute(z3.And(*cs), *[(v, u.arg(d)) for d, v in enumerate(vs)]))
    return out


def sum_facts(pc, ts, timeout=2.0, depth=0):
    """facts about registered sums occurring in ts: sign, upper bound by n, pairwise order"""
    out = []
    ss = {}
    for t in ts:
        sums_in(t, ss, deep=False)
    if len(ss) > 14 or depth > 3:
        return out
    infos = []
    for nm, c in ss.items():
        b, n, body = SUMS[nm]
        i = fresh("q", T.I)
        bi = subst(body, [(b, i)])
        rng = [i >= 0, i < n]
        hyp = pc + rng + elem_inst([bi])
        out.append(z3.Implies(n <= 0, c == 0))
        ok_ge = quick(hyp, bi >= 0, timeout, depth + 1)
        if ok_ge:
            out.append(c >= 0)
            # a non-negative sum is at least each instance read at a named index
        elif quick(hyp, bi <= 0, timeout, depth + 1):
            out.append(c <= 0)
        if quick(hyp, bi <= 1, timeout, depth + 1):
            out.append(z3.Implies(n >= 0, c <= z3.ToReal(n)))
        if quick(hyp, bi > 0, timeout, depth + 1):
            out.append(z3.Implies(n > 0, c > 0))
        infos.append((c, n, b, body))
    for (c1, n1, b1, e1), (c2, n2, b2, e2) in itertools.combinations(infos, 2):
        if n1.get_id() != n2.get_id():
            continue
        i = fresh("q", T.I)
        x, y = subst(e1, [(b1, i)]), subst(e2, [(b2, i)])
        hyp = pc + [i >= 0, i < n1] + elem_inst([x, y])
        if quick(hyp, x == y, timeout, depth + 1):
            out.append(c1 == c2)
        elif quick(hyp, x <= y, timeout, depth + 1):
            out.append(c1 <= c2)
        elif quick(hyp, x >= y, timeout, depth + 1):
            out.append(c1 >= c2)
    return out


def sum_merge(pc, goal, timeout, depth=0):
    """goal  sum_k coef_k*SUM_k (+ n*c ...) REL 0  reduced to the generic summand"""
    if not z3.is_app(goal) or goal.num_args() != 2 or goal.arg(0).sort() != T.R:
        return False
    k = goal.decl().kind()
    if k not in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE):
        return False
    try:
        p = poly(goal.arg(0) - goal.arg(1))
    except TooBig:
        return False
    n = None
    body = z3.RealVal(0)
    i = fresh("m", T.I)
    rest = {}
    for m, c in p.items():
        hit = [a for a, e in m if e == 1 and is_const(ATOM[a]) and ATOM[a].decl().name() in SUMS]
        if len(hit) != 1:
            rest[m] = c
            continue
        b, nn, bd = SUMS[ATOM[hit[0]].decl().name()]
        if n is None:
            n = nn
        if nn.get_id() != n.get_id():
            return False
        coef = from_poly({tuple(x for x in m if x[0] != hit[0]): c})
        body = body + coef * subst(bd, [(b, i)])
    if n is None:
        return False
    for m, c in rest.items():
        # terms containing n linearly become per-summand constants
        tn = z3.ToReal(n)
        hit = [x for x in m if ATOM[x[0]].sexpr() == tn.sexpr() and x[1] == 1]
        if not hit:
            return False
        body = body + from_poly({tuple(x for x in m if x != hit[0]): c})
    z = z3.RealVal(0)
    g = body == z if k == z3.Z3_OP_EQ else body <= z if k == z3.Z3_OP_LE else body >= z
    return quick(pc + [i >= 0, i < n] + elem_inst([g]), g, timeout, depth + 1)


def quick(pc, goal, timeout=2.0, depth=0):
    return discharge(pc, goal, timeout, depth=depth, want_model=False)[0] == "proved"


# ------------------------------------------------------------- discharge
def is_norm_eq(goal):
    if goal.decl().kind() == z3.Z3_OP_EQ and goal.arg(0).sort() == T.R:
        try:
            d = poly(goal.arg(0) - goal.arg(1))
        except (TooBig, OutOfSubset):
            return False
        if not d:
            return True
        # clear denominators: multiply by inverse atoms
        try:
            d = clear(d)
        except (TooBig, OutOfSubset):
            return False
        return not d
    return False


def _deep_ite(t, seen):
    """an if-then-else occurs in t or in a sum within t"""
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    if is_const(t):
        s = T.SUMS.get(t.decl().name())
        return s is not None and _deep_ite(s[2], seen)
    if not z3.is_app(t):
        return False
    if t.decl().kind() == z3.Z3_OP_ITE:
        return True
    return any(_deep_ite(c, seen) for c in t.children())


def ind_eq(goal):
    """equality of terms with if-then-else, by the indicator normal form"""
    if not (z3.is_eq(goal) and goal.arg(0).sort() == T.R and _deep_ite(goal, set()) and len(ite_conds(goal, 8)) <= 8):
        return False
    t0 = time.time()
    try:
        r = not T.indpoly(goal.arg(0) - goal.arg(1))
    except (TooBig, OutOfSubset):
        r = False
    STATS.add("indicators", time.time() - t0)
    return r


def clear(p):
    for _ in range(4):
        neg = {}
        for m, c in p.items():
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if not neg:
            return p
        # multiply each monomial; expand the denominators, which are compound atoms
        r = {}
        for m, c in p.items():
            d = dict(m)
            cur = {(): c}
            plain = []
            for a, e in neg.items():
                e2 = d.pop(a, 0) - e      # exponent after multiplication, >= 0
                if e2:
                    base = poly(ATOM[a]) if not (is_const(ATOM[a])) else {((a, 1),): Fraction(1)}
                    for _ in range(e2):
                        cur = pmul(cur, base)
            cur = pmul(cur, {tuple(sorted(d.items())): Fraction(1)})
            r = padd(r, cur)
        p = r
    return p


def discharge(pc, goal, timeout=10.0, depth=0, want_model=True, splits=30, leaf_only=False):
    """-> (status, backend, model).  status: proved / refuted / unknown"""
    goal = _simp(goal)
    if z3.is_true(goal):
        return "proved", "simplifier", None
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_AND:
        be = set()
        worst = ("proved", None, None)
        for g in goal.children():
            r = discharge(pc, g, timeout, depth, want_model, splits)
            if r[0] == "refuted":
                return r
            if r[0] != "proved":
                worst = r
            be.add(r[1])
        return worst if worst[0] != "proved" else ("proved", "+".join(sorted(x for x in be if x)), None)
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
        return discharge(pc + [goal.arg(0)], goal.arg(1), timeout, depth, want_model, splits)
    if is_norm_eq(goal):
        return "proved", "normaliser", None
    if ite_in(goal) and depth < 2:
        g2 = prune(pc, goal)
        if g2.get_id() != goal.get_id():
            goal = g2
            if z3.is_true(goal):
                return "proved", "z3-lra-prune", None
            if is_norm_eq(goal):
                return "proved", "z3-lra-prune+normaliser", None
    if depth < 2 and not leaf_only and ind_eq(goal):
        return "proved", "indicator normaliser", None
    ngoal = normg(goal)
    conds = ite_conds(ngoal) if splits > 0 else []
    t_direct = timeout if not conds else min(timeout, 1.5)
    refuted = None
    if not conds:
        if has_div(ngoal):
            g3 = clear_fact(pc, ngoal)
            if not has_div(g3):
                ngoal = g3
        if depth < 2:
            lin = [normg(h) for h in pc if not has_mul(h) and not _has_int(h)]
            if lin and not _has_int(ngoal) and not axioms_for([ngoal]):
                ab = Abstr()
                if solve([ab(h) for h in lin] + [ab(z3.Not(ngoal))], 0.4, "nlsat")[0] == "unsat":
                    return "proved", "z3-nlsat", None
            for g in (ngoal.children() if z3.is_or(ngoal) else [ngoal]):
                if prod_lemma(pc, g, min(4.0, timeout), 3, True, use_big=True) or prod_lemma(pc, g, min(4.0, timeout), 3, True) or prod_lemma(pc, g, min(4.0, timeout), 2) or prod_lemma(pc, g, min(8.0, timeout), 3):
                    return "proved", "z3-lra-products", None
    if not (leaf_only and conds):
        st = _direct(pc, ngoal, t_direct, depth)
        if st[0] == "proved":
            return st
        refuted = st if st[0] == "refuted" else None
        if refuted and depth == 0 and want_model and not has_abs(ngoal):
            return refuted
    # 1. case split on conditions of if-then-else, renormalising each case
    if conds:
        c = conds[0]
        be = set()
        for val in (True, False):
            lit = c if val else z3.Not(c)
            hyp = [normg(h) for h in pc + [lit]]
            rel = relevant(hyp[:-1], hyp[-1]) + hyp[-1:]
            lin = [h for h in rel if not has_mul(h)]
            if (lin and solve(lin, 0.4)[0] == "unsat") or (len(lin) < len(rel) and solve(rel, 0.15)[0] == "unsat"):
                be.add("z3")
                continue
            g2 = subst_bool(ngoal, c, val)
            p2 = [subst_bool(p, c, val) for p in pc] + [lit]
            r = discharge(p2, g2, timeout, depth, want_model, splits - 1, leaf_only=True)
            if r[0] != "proved":
                return r if r[0] == "refuted" or not refuted else refuted
            be.add(r[1])
        return "proved", "split:" + "+".join(sorted(set(y for x in be if x for y in x.replace("split:", "").split("+")))), None
    if depth < 2 and not conds and splits > 0:
        for g in (ngoal.children() if z3.is_or(ngoal) else [ngoal]):
            if prod_lemma(pc, g, min(8.0, timeout), 3, True, use_big=True) or prod_lemma(pc, g, min(8.0, timeout), 3, use_big=True):
                return "proved", "z3-lra-products", None
    # 2. sums
    if depth < 3 and sums_in(ngoal, deep=False):
        if sum_merge(pc, ngoal, min(timeout, 5.0), depth):
            return "proved", "sum-merge", None
        facts = sum_facts(pc, [ngoal] + [p for p in pc], min(2.0, timeout), depth)
        if facts:
            r = _direct(pc + facts, ngoal, timeout, depth)
            if r[0] == "proved":
                return "proved", "sum-lemmas+" + r[1], None
    if refuted:
        return refuted
    if splits > 0 and not conds:
        r = _direct(pc, ngoal, timeout, depth, full=True)
        if r[0] != "unknown":
            return r
    if os.environ.get("VERIF_DEBUG"):
        print("LEAF", depth, "\nPC", *[normg(h).sexpr().replace("\n", " ") for h in pc], "\nGOAL", ngoal.sexpr(), sep="\n  ")
    return "unknown", None, None


def prune(pc, goal):
    """resolve if-then-else conditions that the linear hypotheses decide"""
    if not ite_in(goal):
        return goal
    hyp = flatten([normg(h) for h in pc])
    lin = [h for h in hyp if not _has_int(h) and not ite_in(h) and not has_mul(h)]
    if not lin:
        return goal
    ab = Abstr()
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 300)
    try:
        for h in lin:
            s.add(ab(h))
    except Exception:
        return goal
    t0 = time.time()
    seen = set()
    try:
        for _ in range(12):
            sub = []
            for c in ite_conds(goal, 60):
                if c.get_id() in seen or _has_int(c):
                    continue
                seen.add(c.get_id())
                n = normg(c)
                if has_mul(n):
                    n = normg(clear_fact(pc, n))
                    if has_mul(n) or has_div(n):
                        continue
                a = ab(n)
                if s.check(a) == z3.unsat:
                    sub.append((c, z3.BoolVal(False)))
                elif s.check(z3.Not(a)) == z3.unsat:
                    sub.append((c, z3.BoolVal(True)))
            if not sub:
                break
            goal = z3.simplify(z3.substitute(goal, *sub))
            if not ite_in(goal):
                break
    except z3.Z3Exception:
        pass
    STATS.add("z3-lra-prune", time.time() - t0)
    return goal


# ----------------------------------------- denominators and product lemmas
_sgn = {}


def sign_of(pc, a):
    """+1/-1/None: provable sign of atom a under pc"""
    rel = relevant([normg(h) for h in pc], a > 0)
    key = (a.get_id(), tuple(sorted(h.get_id() for h in rel)))
    if key in _sgn:
        return _sgn[key][0]
    r = None
    ax = axioms_for([a])
    if solve(rel + ax + [a <= 0], 0.4)[0] == "unsat":
        r = 1
    elif solve(rel + ax + [a >= 0], 0.4)[0] == "unsat":
        r = -1
    _sgn[key] = (r, a, rel)
    return r


def cleared(pc, d):
    """(polynomial dict q, sgn) with d == sgn-positive multiple of q, i.e. d REL 0 iff sgn*q REL 0; None if impossible"""
    p = poly(d)
    for _ in range(4):
        neg = {}
        for m, c in p.items():
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if not neg:
            return cancel_common(pc, p)
        flip = 1
        mult = {}
        for a, e in neg.items():
            s = sign_of(pc, ATOM[a] if ATOM[a].sort() == T.R else z3.ToReal(ATOM[a]))
            if s is None:
                return None
            mult[a] = -e
            if s < 0 and e % 2:
                flip = -flip
        r = {}
        for m, c in p.items():
            dd = dict(m)
            cur = {(): c * flip}
            for a, e in mult.items():
                e2 = dd.pop(a, 0) + e
                if e2:
                    base = poly(ATOM[a]) if not is_const(ATOM[a]) else {((a, 1),): Fraction(1)}
                    for _k in range(e2):
                        cur = pmul(cur, base)
            cur = pmul(cur, {tuple(sorted(dd.items())): Fraction(1)})
            r = padd(r, cur)
        p = r
    return None


def cancel_common(pc, p):
    if not p:
        return p
    ms = iter(p)
    com = dict(next(ms))
    for m in ms:
        d = dict(m)
        com = {a: min(e, d[a]) for a, e in com.items() if a in d}
    if len(p) == 1 and sum(com.values()) == 1:
        return p
    for a, e in com.items():
        s = sign_of(pc, ATOM[a] if ATOM[a].sort() == T.R else z3.ToReal(ATOM[a]))
        if s is None:
            continue
        f = s if e % 2 else 1
        p = {tuple((b, x - e if b == a else x) for b, x in m if not (b == a and x == e)): c * f for m, c in p.items()}
    return p


def _ge0(pc, h):
    """list of (polynomial q, strict) with h => q >= 0 (> 0 if strict), h an arithmetic literal"""
    neg = False
    while z3.is_not(h):
        neg = not neg
        h = h.arg(0)
    if not (z3.is_app(h) and h.num_args() == 2 and h.arg(0).sort() == T.R):
        return []
    k = h.decl().kind()
    table = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}
    if k not in table:
        return []
    op = table[k]
    if neg:
        op = {"<=": ">", ">=": "<", "<": ">=", ">": "<=", "==": None}[op]
    if op is None:
        return []
    try:
        q = cleared(pc, h.arg(0) - h.arg(1))
    except (TooBig, OutOfSubset):
        return []
    if q is None:
        return []
    mq = {m: -c for m, c in q.items()}
    if op == "==":
        return [(q, False), (mq, False)]
    return [(q if op in (">=", ">") else mq, op in (">", "<"))]


def _pkey(p):
    return tuple(sorted(p.items()))


def flatten(pc):
    out = []
    for h in pc:
        if z3.is_and(h):
            out += flatten(h.children())
        else:
            out.append(h)
    return out


def prod_lemma(pc, goal, timeout=8.0, degree=3, homog=False, use_big=False):
    """goal  d >= 0 (or <= 0, ==) from products of the hypotheses, by linear arithmetic over monomials"""
    gs = []
    k = goal.decl().kind()
    if goal.num_args() != 2 or goal.arg(0).sort() != T.R or k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ):
        return False
    try:
        q = cleared(pc, goal.arg(0) - goal.arg(1))
    except (TooBig, OutOfSubset):
        return False
    if q is None:
        return False
    mq = {m: -c for m, c in q.items()}
    goals = [q] if k == z3.Z3_OP_GE else [mq] if k == z3.Z3_OP_LE else [q, mq]
    hyps = {}
    gat = {a for m in q for a, e in m}
    big = {}

    def put(d, p, strict):
        k = _pkey(p)
        d[k] = (p, strict or (k in d and d[k][1]))
    for h in flatten([normg(x) for x in pc]):
        for p, st in _ge0(pc, h):
            if not p or not ({a for m in p for a, e in m} & gat):
                continue
            if len(p) > 8 or (use_big and max(sum(e for a, e in m) for m in p) > 2):
                if len(p) <= 60 and use_big:
                    put(big, p, st)
                continue
            put(hyps, p, st)
            if p.get((), 0) < 0:
                # p = q - c >= 0 with c > 0 implies q > 0
                put(hyps, {m: c for m, c in p.items() if m}, True)
    if use_big and not big:
        return False
    hom = {k: p for k, p in hyps.items() if () not in p[0]}
    if homog:
        if not hom or len(hom) == len(hyps):
            return False
        hyps = hom
    deg = lambda p: max(sum(e for a, e in m) for m in p)
    hs = sorted(hyps.values(), key=lambda p: (deg(p[0]), () in p[0], len(p[0])))[:24]
    lin = [p for p in hs if deg(p[0]) <= 1]
    gdeg = max([deg(q) if q else 0] + [deg(p) for p, st in big.values()])
    prods = dict(big)
    for p, st in hs:
        put(prods, p, st)
    base = lin if len(lin) >= 1 else hs
    for dg in range(2, min(degree, max(gdeg, 1)) + 1):
        if dg > 2:
            base = base[:18 if homog and use_big else 14]
        for combo in itertools.combinations_with_replacement(base, dg):
            r = {(): Fraction(1)}
            try:
                for c, st in combo:
                    r = pmul(r, c)
            except TooBig:
                continue
            put(prods, r, all(st for c, st in combo))
    nl = [p for p in hs if deg(p[0]) > 1]
    for p, st in nl:
        for c, st2 in base:
            try:
                put(prods, pmul(p, c), st and st2)
            except TooBig:
                pass
    mon = {}

    def lin_t(p):
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(rv(c))
            else:
                if m not in mon:
                    mon[m] = z3.Real("mo!%d" % len(mon))
                ts.append(rv(c) * mon[m])
        return z3.Sum(ts) if ts else z3.RealVal(0)
    facts = [lin_t(p) > 0 if st else lin_t(p) >= 0 for p, st in prods.values()]
    t0 = time.time()
    try:
        for g in goals:
            s = z3.SolverFor("QF_LRA")
            s.set("timeout", int(timeout * 1000))
            s.add(*facts)
            s.add(lin_t(g) < 0)
            if s.check() != z3.unsat:
                return False
        return True
    finally:
        STATS.add("z3-lra-products", time.time() - t0)


def clear_fact(pc, h):
    """the literal h with denominators of provable sign multiplied out"""
    if not (z3.is_app(h) and h.num_args() == 2 and h.arg(0).sort() == T.R):
        if z3.is_not(h):
            return z3.Not(clear_fact(pc, h.arg(0)))
        if z3.is_and(h) or z3.is_or(h):
            return _rebuild(h, [clear_fact(pc, c) for c in h.children()])
        return h
    k = h.decl().kind()
    try:
        q = cleared(pc, h.arg(0) - h.arg(1))
    except (TooBig, OutOfSubset):
        return h
    if q is None:
        return h
    d = from_poly(q)
    z = z3.RealVal(0)
    t = {z3.Z3_OP_LE: lambda: d <= z, z3.Z3_OP_GE: lambda: d >= z, z3.Z3_OP_LT: lambda: d < z, z3.Z3_OP_GT: lambda: d > z, z3.Z3_OP_EQ: lambda: d == z}.get(k)
    return t() if t else h


def has_div(t):
    seen = set()

    def go(u):
        if u.get_id() in seen:
            return False
        seen.add(u.get_id())
        if z3.is_app(u):
            return u.decl().kind() == z3.Z3_OP_DIV or any(go(c) for c in u.children())
        return False
    return go(t)


def has_abs(g):
    return bool(sums_in(g, deep=False)) or any(u.decl().name() in FUN for u in apps_in([g]))


def _simp(g):
    return z3.simplify(g) if not (z3.is_app(g) and g.decl().kind() == z3.Z3_OP_EQ) else g


def normg(g):
    """normalise both sides of (in)equalities"""
    memo = {}

    def go(u):
        k = u.get_id()
        if k in memo:
            return memo[k]
        if z3.is_app(u) and u.num_args() == 2 and u.arg(0).sort() == T.R and u.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            try:
                d = norm(u.arg(0) - u.arg(1))
            except (TooBig, OutOfSubset):
                d = None
            if d is None:
                r = u
            else:
                z = z3.RealVal(0)
                r = {z3.Z3_OP_LE: d <= z, z3.Z3_OP_GE: d >= z, z3.Z3_OP_LT: d < z, z3.Z3_OP_GT: d > z, z3.Z3_OP_EQ: d == z}[u.decl().kind()]
                if as_frac(d) is not None:
                    r = z3.simplify(r)
        elif z3.is_app(u) and u.sort() == z3.BoolSort() and u.num_args() and u.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
            r = _rebuild(u, [go(c) for c in u.children()])
        else:
            r = u
        memo[k] = r
        return r
    return go(g)


def has_int(ts):
    return any(_has_int(t) for t in ts)


_hi = {}


def _has_int(t):
    k = t.get_id()
    if k in _hi:
        return _hi[k][1]
    r = t.sort() == T.I or (z3.is_app(t) and any(_has_int(c) for c in t.children())) or z3.is_quantifier(t)
    _hi[k] = (t, r)
    return r


def has_mul(h):
    h = normg(h)
    if z3.is_not(h):
        return has_mul(h.arg(0))
    if z3.is_app(h) and h.num_args() == 2 and h.arg(0).sort() == T.R:
        try:
            return any(sum(abs(e) for a, e in m) > 1 for m in poly(h.arg(0) - h.arg(1)))
        except (TooBig, OutOfSubset):
            return True
    return True


def _direct(pc, goal, timeout, depth, full=False):
    ng = z3.Not(goal)
    rel = relevant(pc, goal)
    ax = axioms_for(rel + [goal])
    rel = relevant(pc, z3.And(goal, *ax)) if ax else rel
    base = [normg(p) for p in rel] + [normg(a) for a in ax] + [normg(ng)]
    ab = Abstr()
    abst = [ab(b) for b in base]
    noint = [a for a in abst if not _has_int(a)]
    real_only = not _has_int(abst[-1])
    if real_only:
        lin = [normg(h) for h in rel if not has_mul(h)]
        if len(lin) < len(rel) and not ax and lin:
            r, m = solve([ab(b) for b in lin if not _has_int(b)] + [abst[-1]], min(2.0, timeout * 0.3), "nlsat")
            if r == "unsat":
                return "proved", "z3-nlsat", None
        r, m = solve(noint, timeout * 0.5, "nlsat")
        if r == "unsat":
            return "proved", "z3-nlsat", None
        r2, m2 = solve(noint, timeout * 0.5)
        if r2 == "unsat":
            return "proved", "z3", None
        if r == "unknown" and r2 == "unknown" and full:
            r3 = cvc5_check(noint, timeout)
            if r3 == "unsat":
                return "proved", "cvc5", None
        if "sat" not in (r, r2):
            return "unknown", None, None
    # functional consistency: the unabstracted problem with all facts
    s_as = [normg(p) for p in pc] + axioms_for(pc + [goal]) + [normg(ng)]
    r, m = solve(s_as, timeout)
    if r == "unsat":
        return "proved", "z3", None
    if r == "sat":
        return "refuted", "z3" if not has_abs(goal) else "z3-approx", m
    if full:
        r3 = cvc5_check(s_as, timeout)
        if r3 == "unsat":
            return "proved", "cvc5", None
    return "unknown", None, None
