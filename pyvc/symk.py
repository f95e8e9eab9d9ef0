"""Symbolic execution of contracts: path exploration and obligation collection.

usage (with python3-vt):  symk.py PROP TIER OUT.json [contract ...]
"""
import json
import os
import sys
import time
import traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import z3
from pyvc import kit
from pyvc import term as T
from pyvc import sym as Y
from pyvc import arr as A
from pyvc import npshim as N
from pyvc import loader
from pyvc import prove as P
from pyvc.term import OutOfSubset, as_frac, norm
from pyvc.sym import S, C, Ctx, PathAbort


class Timeout(Exception):
    pass


class SymK:
    sym = True

    def __init__(self, ctx, ld, contract):
        self.ctx, self.ld, self.c = ctx, ld, contract
        self.np = N.NUMPY
        self.inputs = {}
        self.idx = []

    def mod(self, name):
        return self.ld.module(name)

    # inputs
    def real(self, name, lo=None, hi=None, gen=None):
        v = z3.Real(name)
        self.inputs[name] = ("r", v, None)
        if lo is not None:
            self.ctx.assume(v >= T.rv(lo))
        if hi is not None:
            self.ctx.assume(v <= T.rv(hi))
        return S(v)

    def int(self, name, lo, hi=None, hic=None):
        v = z3.Int(name)
        self.inputs[name] = ("i", v, hic if hic is not None else hi)
        self.ctx.assume(v >= lo)
        if hi is not None:
            self.ctx.assume(v <= hi)
        return S(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = ("b", v, None)
        return self.ctx.decide(v)

    def choice(self, name, opts):
        v = z3.Int(name)
        if name not in self.inputs:
            self.inputs[name] = ("i", v, len(opts) - 1)
            self.ctx.assume(z3.And(v >= 0, v < len(opts)))
        for i in range(len(opts) - 1):
            if self.ctx.decide(v == i):
                return opts[i]
        return opts[-1]

    def array(self, name, shape, kind="f", lo=None, hi=None, gen=None):
        a = A.symarray(name, shape, kind)
        self.inputs[name] = ("a", a, kind)
        if (lo is not None or hi is not None) and kind in "fi":
            vs = [z3.Int("%s_q%d" % (name, d)) for d in range(len(a.shape))]
            e = a.at(*vs).t
            cs = []
            con = lambda q: q.t if isinstance(q, S) else T.rv(q) if kind == "f" else z3.IntVal(int(q))
            if lo is not None:
                cs.append(e >= con(lo))
            if hi is not None:
                cs.append(e <= con(hi))
            if all(isinstance(d, int) for d in a.shape):
                import itertools
                for ii in itertools.product(*[range(d) for d in a.shape]):
                    self.ctx.assume(z3.substitute(z3.And(*cs), *[(v, z3.IntVal(i)) for v, i in zip(vs, ii)]))
            else:
                self.ctx.elem_facts.append((a, cs, vs, name))
        return a

    def index(self, name, n):
        v = z3.Int(name)
        self.inputs[name] = ("i", v, None)
        self.ctx.assume(v >= 0)
        self.ctx.assume(v < A.dim_t(A.dim(n)))
        return S(v)

    # conditions
    def assume(self, c):
        if isinstance(c, A.Arr):
            c = N.all(c)
        if isinstance(c, (bool, int)):
            if not c:
                raise PathAbort()
            return
        self.ctx.assume(Y.bool_t(c))

    def ensure(self, label, cond, info=None):
        if isinstance(cond, A.Arr):
            J = self._generic(cond.shape)
            cond = cond.at(*J)
        self._obl(label, Y.bool_t(cond))

    def _generic(self, shape):
        J = []
        for d in shape:
            if isinstance(d, int):
                if d == 1:
                    J.append(0)
                    continue
            j = T.fresh("gi", T.I)
            self.ctx.assume(j >= 0)
            self.ctx.assume(j < A.dim_t(d))
            J.append(j)
        return J

    def _each(self, shape):
        """index tuples covering a shape: explicit for concrete extents, generic otherwise"""
        import itertools
        opts = []
        tot = 1
        for d in shape:
            if isinstance(d, int):
                tot *= d
        for d in shape:
            if isinstance(d, int) and tot <= 300:
                opts.append(list(range(d)))
            else:
                j = T.fresh("gi", T.I)
                self.ctx.assume(j >= 0)
                self.ctx.assume(j < A.dim_t(d))
                opts.append([j])
        return itertools.product(*opts)

    def eq(self, label, a, b, tol=None, atol=None):
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            a, b = A.asarr(a), A.asarr(b)
        a, b = _sc(a), _sc(b)
        if A.isscalar(a) and A.isscalar(b):
            return self._eq1(label, a, b)
        a, b = A.asarr(a), A.asarr(b)
        sh = A.broadcast_shapes(a.shape, b.shape)
        ra, rb = A.bc_reader(a, sh), A.bc_reader(b, sh)
        for J in self._each(sh):
            self._eq1(label, ra(list(J)), rb(list(J)))

    def _eq1(self, label, a, b):
        (ar, ai), (br, bi) = Y.split(a), Y.split(b)
        self._obl(label, Y.real_t(ar) == Y.real_t(br))
        if not (Y.iszero(ai) and Y.iszero(bi)):
            self._obl(label, Y.real_t(ai) == Y.real_t(bi))

    same = eq

    def le(self, label, a, b, tol=0):
        a, b = _sc(a), _sc(b)
        if A.isscalar(a) and A.isscalar(b):
            return self._obl(label, Y.real_t(a) <= Y.real_t(b))
        a, b = A.asarr(a), A.asarr(b)
        sh = A.broadcast_shapes(a.shape, b.shape)
        ra, rb = A.bc_reader(a, sh), A.bc_reader(b, sh)
        for J in self._each(sh):
            self._obl(label, Y.real_t(ra(list(J))) <= Y.real_t(rb(list(J))))

    def raises(self, label, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            return
        self._obl(label, z3.BoolVal(False))

    def deriv(self, label, f, x, d, h=None, tol=None, rel=0):
        """rel: allowed relative rounding of literals (d >= 0);
        d == d/dx f(x) symbolically (x must be a plain input symbol)"""
        v = f(x)
        v, d = _sc(v), _sc(d)
        if not A.isscalar(v):
            v, d = A.asarr(v), A.asarr(d)
            sh = A.broadcast_shapes(v.shape, d.shape)
            rv, rd = A.bc_reader(v, sh), A.bc_reader(d, sh)
            for J in self._each(sh):
                self._der1(label, rv(list(J)), x, rd(list(J)), rel)
            return
        self._der1(label, v, x, d, rel)

    def _der1(self, label, v, x, d, rel=0):
        (vr, vi), (dr, di) = Y.split(v), Y.split(d)
        if rel:
            D, d0 = T.diff(Y.real_t(vr), x.t), Y.real_t(dr)
            self._obl(label + " (upper)", D - d0 * T.rv(1 + rel) <= 0)
            self._obl(label + " (lower)", D - d0 * T.rv(1 - rel) >= 0)
            return
        self._obl(label, T.diff(Y.real_t(vr), x.t) == Y.real_t(dr))
        if not (Y.iszero(vi) and Y.iszero(di)):
            self._obl(label, T.diff(Y.real_t(vi), x.t) == Y.real_t(di))

    # helpers for the text of contracts
    def sum(self, n, f):
        return N.sum_over(A.dim(n), lambda i: f(A._s(i)))

    def both(self, a, b):
        return Y.band(a, b)

    def either(self, a, b):
        return Y.bor(a, b)

    def iff(self, a, b):
        return S(Y.bool_t(a) == Y.bool_t(b))

    def known(self, c):
        """is the condition certain on this path? (only for the choice between equivalent contracts)"""
        t = z3.simplify(Y.bool_t(c))
        return z3.is_true(t) or (not z3.is_false(t) and not self.ctx.feasible(z3.Not(t)))

    def length(self, x):
        return loader.b_len(x)

    def contains_index(self, l, i):
        """does the list of indices (in order of the positions it was built from) contain i"""
        if isinstance(l, loader.SFilter):
            j = T.fresh("p", T.I)
            it = l.fn(S(j))
            if not (isinstance(it, S) and z3.simplify(it.t - j).eq(z3.IntVal(0))):
                raise OutOfSubset("filter does not list its own positions")
            return Y.band(Y.band(Y.cmp(">=", i, 0), Y.cmp("<", i, S(A.dim_t(l.n)))), l.cond(i))
        if isinstance(l, list):
            r = False
            for x in l:
                r = Y.bor(r, Y.cmp("==", x, i))
            return r
        raise OutOfSubset("contains_index")

    def _obl(self, label, goal):
        if z3.is_app(goal) and goal.num_args() == 2 and goal.arg(0).sort() == T.R:
            facts = [p for p in self.ctx.pc if N._int_fact(p)]
            l, r = (N._resolve(goal.arg(i), facts) for i in (0, 1))
            goal = goal.decl()(l, r)
        self.ctx.obls.append((label, list(self.ctx.pc), goal))


def _sc(x):
    if isinstance(x, A.Arr) and x.ndim == 0:
        return x.at()
    return x


def make_overrides(c):
    out = {}
    for k, stub in (c.overrides or {}).items():
        mod, q = k.split(":")
        out[(mod, q)] = (lambda stub: lambda orig: stub(orig))(stub)
    return out


def explore(c, max_paths, deadline):
    """run the contract on every path -> list of (inputs, ctx), notes"""
    stack = [[]]
    paths = []
    N.NUMPY._t["pi"] = S(T.PI) if c.pi else N.pi
    ld = loader.Loader(make_overrides(c))
    while stack:
        prefix = stack.pop()
        if len(paths) >= max_paths or time.time() > deadline:
            raise OutOfSubset("path budget exceeded (%d)" % len(paths))
        ctx = Ctx(prefix)
        ctx.elem_facts = []
        Ctx.cur = ctx
        K = SymK(ctx, ld, c)
        exc = None
        try:
            c.fn(K)
        except PathAbort:
            pass
        except (OutOfSubset, Timeout, MemoryError, RecursionError):
            raise
        except Exception as e:
            exc = e
            tb = traceback.extract_tb(sys.exc_info()[2])
            exc_where = [f for f in tb if f.filename.startswith(loader.SRC)]
            # only an exception the code raises itself counts as an obligation
            ctx.exc = (type(e).__name__, str(e)[:200], exc_where[-1].name if exc_where else None, traceback.format_exc()[-1500:])
        for i in range(len(prefix), len(ctx.taken)):
            if ctx.taken[i][1]:
                stack.append([t[0] for t in ctx.taken[:i]] + [not ctx.taken[i][0]])
        if exc is None:
            ctx.exc = None
        paths.append((K, ctx))
    return paths


def model_inputs(m, K, hic=4):
    """concrete values of the drawn inputs in model m"""
    def num(t):
        v = m.eval(t, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        if z3.is_rational_value(v):
            return v.numerator_as_long() / v.denominator_as_long()
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        raise ValueError("no value")
    out = {}
    for nm, (k, v, extra) in K.inputs.items():
        if k in "rib":
            out[nm] = num(v)
        else:
            sh = []
            for d in v.shape:
                d = d if isinstance(d, int) else num(d.t)
                if not 0 <= d <= 8:
                    raise ValueError("extent %s" % d)
                sh.append(d)
            import itertools
            re, im = [], []
            for ii in itertools.product(*[range(d) for d in sh]):
                e = v.at(*ii)
                a, b = Y.split(e)
                re.append(num(a.t))
                if extra == "c":
                    im.append(num(b.t))
            r = {"a": re, "shape": sh, "k": "f" if extra == "c" else extra}
            out[nm] = r if extra != "c" else {"c": [r, {"a": im, "shape": sh, "k": "f"}]}
    return out


def prove_contract(c, tier):
    t0 = time.time()
    tmo = c.timeout * (3 if tier == "thorough" else 1)
    res = {"contract": c.prop + "." + c.name, "covers": list(c.covers), "paths": 0, "obligations": [], "status": "ok", "note": None, "assumed_nonzero": 0, "proved_nonzero": 0, "covers_ok": False}
    try:
        paths = explore(c, c.paths, t0 + (120 if tier == "quick" else 400))
    except (OutOfSubset, Timeout, RecursionError, MemoryError) as e:
        res["status"] = "out-of-subset"
        tb = traceback.extract_tb(sys.exc_info()[2])
        w = [f for f in tb if f.filename.startswith(loader.SRC)]
        res["note"] = "%s%s" % (str(e)[:300], (" at %s:%d" % (w[-1].name, w[-1].lineno)) if w else "")
        res["wall_s"] = round(time.time() - t0, 2)
        return res
    except Exception as e:
        res["status"] = "engine-error"
        res["note"] = traceback.format_exc()[-1500:]
        res["wall_s"] = round(time.time() - t0, 2)
        return res
    res["paths"] = len(paths)
    done = {}
    live = False
    for K, ctx in paths:
        Ctx.cur = ctx
        Ctx.cur.local = []
        if ctx.obls and not live:
            # reachability cover: the precondition must not be contradictory
            r, _ = P.solve(ctx.obls[-1][1] + P.axioms_for(ctx.obls[-1][1]), 3.0)
            live = r != "unsat"
        if ctx.exc:
            st = "unknown"
            res["obligations"].append({"label": "no-exception", "status": st, "backend": None, "note": str(ctx.exc)[:1500]})
        for label, pc, goal in ctx.obls:
            key = (label, goal.get_id(), tuple(p.get_id() for p in pc))
            if key in done:
                continue
            o = {"label": label, "status": "unknown", "backend": None}
            done[key] = o
            t1 = time.time()
            if t1 - t0 > tmo * 20:
                o["note"] = "contract time budget"
                res["obligations"].append(o)
                continue
            facts = []
            P.ELEM = ctx.elem_facts
            if ctx.elem_facts:
                facts = ctx.elem_instances(pc + [goal] + [x for t in [goal] for nm in T.sums_in(t) for x in (T.SUMS[nm][2],)])
            try:
                st, be, m = P.discharge(pc + facts, goal, tmo)
            except (OutOfSubset, T.TooBig, RecursionError) as e:
                st, be, m = "unknown", None, None
                o["note"] = str(e)[:200]
            except z3.Z3Exception as e:
                st, be, m = "unknown", None, None
                o["note"] = "z3: " + str(e)[:200]
            o["status"], o["backend"] = st, be
            o["t"] = round(time.time() - t1, 3)
            if st == "refuted":
                o["definite"] = be == "z3"
                try:
                    o["given"] = model_inputs(m, K)
                except Exception as e:
                    o["given"] = None
                o["goal"] = goal.sexpr()[:1500]
                o["model"] = str(m)[:1500]
            elif st == "unknown":
                o["goal"] = goal.sexpr()[:600]
            res["obligations"].append(o)
    # divisions
    seen = set()
    for K, ctx in paths:
        for pc, tb in ctx.nonzero:
            k = tb.get_id()
            if k in seen or len(seen) > 60:
                continue
            seen.add(k)
            try:
                ok = P.discharge(list(pc), tb != 0, 1.0, depth=2, want_model=False, splits=2)[0] == "proved"
            except Exception:
                ok = False
            res["proved_nonzero" if ok else "assumed_nonzero"] += 1
            if time.time() - t0 > tmo * 25:
                break
    res["covers_ok"] = live
    res["stats"] = {"time": P.STATS.time, "calls": P.STATS.calls}
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def _one(a):
    key, tier = a
    c = kit.CONTRACTS[key]
    import resource
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    try:
        return prove_contract(c, tier)
    except BaseException as e:
        return {"contract": key, "covers": list(c.covers), "paths": 0, "obligations": [], "status": "engine-error", "note": repr(e)[:300], "wall_s": 0}


def main():
    prop, tier, out = sys.argv[1:4]
    only = sys.argv[4:]
    cs = kit.load(prop if prop != "ALL" else None)
    keys = [k for k, c in cs.items() if c.proof and (not only or k in only or c.name in only)]
    nproc = int(os.environ.get("VERIF_JOBS", "4"))
    import multiprocessing as mp
    limit = float(os.environ.get("VERIF_PROVE_S", "300" if tier == "quick" else "3000"))
    rs = []
    t0 = time.time()
    if len(keys) == 1 or nproc == 1:
        rs = [_one((k, tier)) for k in keys]
    elif keys:
        # one process per contract, killed at the overall limit
        ctxm = mp.get_context("fork")
        todo = list(keys)
        run = {}
        q = {}

        def work(k, conn):
            r = _one((k, tier))
            conn.send(r)
            conn.close()
        while todo or run:
            while todo and len(run) < nproc:
                k = todo.pop(0)
                a, b = ctxm.Pipe(False)
                p = ctxm.Process(target=work, args=(k, b))
                p.start()
                b.close()
                run[k] = (p, a, time.time())
            time.sleep(0.02)
            for k, (p, a, ts) in list(run.items()):
                got = None
                if a.poll():
                    try:
                        got = a.recv()
                    except EOFError:
                        got = {"contract": k, "covers": list(kit.CONTRACTS[k].covers), "paths": 0, "obligations": [], "status": "engine-error", "note": "worker died", "wall_s": time.time() - ts}
                    p.join()
                elif not p.is_alive():
                    got = {"contract": k, "covers": list(kit.CONTRACTS[k].covers), "paths": 0, "obligations": [], "status": "engine-error", "note": "worker died", "wall_s": time.time() - ts}
                elif time.time() - t0 > limit:
                    p.kill()
                    p.join()
                    got = {"contract": k, "covers": list(kit.CONTRACTS[k].covers), "paths": 0, "obligations": [], "status": "timeout", "note": "overall proof limit", "wall_s": time.time() - ts}
                if got is not None:
                    rs.append(got)
                    del run[k]
            if time.time() - t0 > limit:
                for k in todo:
                    rs.append({"contract": k, "covers": list(kit.CONTRACTS[k].covers), "paths": 0, "obligations": [], "status": "timeout", "note": "overall proof limit", "wall_s": 0})
                todo = []
    rs.sort(key=lambda r: r["contract"])
    json.dump(rs, open(out, "w"))
    if os.environ.get("VERIF_SHOW"):
        for r in rs:
            n = len(r["obligations"])
            d = sum(o["status"] == "proved" for o in r["obligations"])
            print("%-50s %s paths=%d %d/%d %.1fs %s" % (r["contract"], r["status"], r["paths"], d, n, r.get("wall_s", 0), r["note"] or ""))
            for o in r["obligations"]:
                if o["status"] != "proved":
                    print("     ", o["label"], o["status"], o.get("backend"), o.get("note", ""), (o.get("given") or ""), o.get("goal", "")[:300].replace("\n", " "))


if __name__ == "__main__":
    main()
