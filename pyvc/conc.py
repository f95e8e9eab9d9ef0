"""Run-time monitor: executes contracts concretely on the unmodified package.

usage (with /opt/venv/bin/python):
  conc.py run PROP SEED TIER OUT.json          run every contract of a property
  conc.py replay CONTRACT CASE.json            re-run one recorded case, exit 1 if it fails
"""
import json
import os
import random
import sys
import time
import traceback
import warnings
import io
import contextlib
import signal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SRC = os.environ.get("VERIF_REPO", "/repo") + "/src"
sys.path.insert(0, SRC)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import numpy as np
from pyvc import kit


class Skip(Exception):
    pass


class Timeout(Exception):
    pass


class Failure(Exception):
    def __init__(self, label, msg):
        self.label, self.msg = label, msg
        super().__init__(label + ": " + msg)


def enc(x):
    if isinstance(x, np.ndarray):
        if x.size > 4000:
            return {"a": "big", "shape": list(x.shape)}
        if np.iscomplexobj(x):
            return {"c": [enc(x.real), enc(x.imag)]}
        return {"a": x.ravel().tolist(), "shape": list(x.shape), "k": x.dtype.kind}
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, complex):
        return {"z": [x.real, x.imag]}
    if isinstance(x, (list, tuple)):
        return [enc(e) for e in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:200]


def dec(x):
    if isinstance(x, dict):
        if "c" in x:
            return dec(x["c"][0]) + 1j * dec(x["c"][1])
        if "z" in x:
            return complex(*x["z"])
        return np.array(x["a"], dtype={"f": float, "i": int, "b": bool}[x.get("k", "f")]).reshape(x["shape"])
    return x


class ConcK:
    sym = False

    def __init__(self, seed, given=None):
        self.seed = seed
        self.rng = random.Random(seed)
        self.nrng = np.random.default_rng(abs(hash(str(seed))) % (2**32) if not isinstance(seed, int) else seed % (2**32))
        self.given = given or {}
        self.draws = {}
        self.np = np
        self.checks = 0
        self.tags = set()

    # --- access to the code
    def mod(self, name):
        import importlib
        return importlib.import_module("tight_binding_redweasel." + name)

    # --- inputs
    def _draw(self, name, f):
        if name in self.given:
            v = dec(self.given[name])
        else:
            v = f()
        self.draws[name] = v
        return v

    def real(self, name, lo=None, hi=None, gen=None):
        def f():
            if gen:
                return gen(self)
            return self._num(lo, hi)
        return float(self._draw(name, f))

    def _num(self, lo, hi):
        r = self.rng
        if lo is not None and hi is not None:
            u = r.random()
            if u < 0.06:
                return lo
            if u < 0.12:
                return hi
            return lo + (hi - lo) * r.random()
        s = r.choice([0.01, 0.3, 1.0, 1.0, 1.0, 5.0, 50.0])
        v = s * r.gauss(0, 1)
        if r.random() < 0.05:
            v = 0.0
        if lo is not None:
            return lo + abs(v)
        if hi is not None:
            return hi - abs(v)
        return v

    def int(self, name, lo, hi=None, hic=None):
        """integer >= lo (<= hi); hic: largest value used concretely"""
        top = hic if hic is not None else hi
        return int(self._draw(name, lambda: self.rng.randint(lo, top)))

    def choice(self, name, opts):
        i = self._draw(name, lambda: self.rng.randrange(len(opts)))
        return opts[int(i)]

    def bool(self, name):
        return bool(self._draw(name, lambda: self.rng.random() < 0.5))

    def array(self, name, shape, kind="f", lo=None, hi=None, gen=None):
        def f():
            if gen:
                return np.asarray(gen(self))
            n = int(np.prod(shape))
            if kind == "f":
                v = [self._num(lo, hi) for _ in range(n)]
            elif kind == "c":
                v = [complex(self._num(lo, hi), self._num(lo, hi)) for _ in range(n)]
            elif kind == "i":
                v = [self.rng.randint(int(lo), int(hi)) for _ in range(n)]
            else:
                v = [self.rng.random() < 0.5 for _ in range(n)]
            return np.array(v, dtype={"f": float, "c": complex, "i": int, "b": bool}[kind]).reshape(shape)
        return np.array(self._draw(name, f))

    def index(self, name, n):
        if n <= 0:
            raise Skip()
        return int(self._draw(name, lambda: self.rng.randrange(n))) % n

    # --- conditions
    def assume(self, c):
        if not bool(np.all(c)):
            raise Skip()

    def feasible_note(self, *a):
        pass

    def ensure(self, label, cond, info=None):
        self.checks += 1
        if not bool(np.all(cond)):
            raise Failure(label, "" if info is None else str(info() if callable(info) else info)[:600])

    def eq(self, label, a, b, tol=1e-7, atol=None):
        self.checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b)
            except ValueError:
                raise Failure(label, "shapes %s vs %s" % (a.shape, b.shape))
        sc = 1.0
        if a.size:
            fin = np.abs(b[np.isfinite(b)]) if b.dtype.kind in "fc" else np.abs(b)
            sc = max(1.0, float(np.max(fin)) if fin.size else 1.0)
        lim = tol * sc if atol is None else atol
        with np.errstate(all="ignore"):
            bad = ~(np.abs(a - b) <= lim) if a.dtype.kind in "fc" or b.dtype.kind in "fc" else a != b
            if a.dtype.kind in "fc" and b.dtype.kind in "fc":
                bad &= ~((a == b))      # equal infinities
        if np.any(bad):
            i = tuple(int(x[0]) for x in np.nonzero(np.atleast_1d(bad)))
            av, bv = np.atleast_1d(a)[i], np.atleast_1d(b)[i]
            raise Failure(label, "at %s: %r != %r (tolerance %g)" % (i, av, bv, lim))

    def le(self, label, a, b, tol=1e-9):
        self.checks += 1
        d = np.asarray(a) - np.asarray(b)
        if d.dtype.kind not in "f":
            d = d.astype(float)
        if not np.all(d <= tol):
            raise Failure(label, "exceeds by %r" % (float(np.nanmax(d)) if d.size and not np.all(np.isnan(d)) else d))

    def same(self, label, a, b):
        """exact equality (bitwise values)"""
        self.checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc"):
            raise Failure(label, "not identical: shapes %s %s" % (a.shape, b.shape))

    def raises(self, label, exc, f, *a, **k):
        self.checks += 1
        try:
            f(*a, **k)
        except exc:
            return
        raise Failure(label, "did not raise %s" % (exc,))

    # helpers for the text of contracts
    def sum(self, n, f):
        return sum(f(i) for i in range(n))

    def both(self, a, b):
        return np.logical_and(a, b)

    def either(self, a, b):
        return np.logical_or(a, b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def length(self, x):
        return len(x)

    def contains_index(self, l, i):
        return list(l).count(i) == 1

    # derivative of the scalar function f at x, compared to d
    def deriv(self, label, f, x, d, h=1e-5, tol=1e-5, rel=0):
        self.checks += 1
        # 4th order central difference
        with np.errstate(all="ignore"):
            n = (8 * (np.asarray(f(x + h)) - np.asarray(f(x - h))) - (np.asarray(f(x + 2 * h)) - np.asarray(f(x - 2 * h)))) / (12 * h)
        self.eq(label, d, n, tol=tol)


def run_case(c, seed, given=None):
    """-> (status, label, message, draws, checks)"""
    K = ConcK(seed, given)
    np.random.seed(abs(seed) % 2**32)
    random.seed(seed)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            c.fn(K)
        return "ok", None, None, K
    except Skip:
        return "skip", None, None, K
    except Failure as e:
        return "fail", e.label, e.msg, K
    except Timeout:
        raise
    except MemoryError as e:
        return "skip", None, None, K
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = [f for f in tb if f.filename.startswith(SRC)]
        # exception raised by (or below) the code under contract -> contract violated
        lab = "no-exception"
        msg = "%s: %s" % (type(e).__name__, str(e)[:300])
        if where:
            msg += " in %s" % where[-1].name
        elif isinstance(e, (AttributeError, ImportError, NameError, NotImplementedError)) or (isinstance(e, TypeError) and "argument" in str(e)):
            # an interface the contract uses is gone: undecided, not a violation
            return "error", lab, msg + "\n" + traceback.format_exc()[-800:], K
        return "fail", lab, msg, K


def case_seed(seed, name, i):
    import zlib
    return (seed * 1000003 + zlib.crc32(name.encode()) * 31 + i * 7919) % (2**31 - 1)


def _alarm(*a):
    raise Timeout()


def run_one(key, seed, tier, max_s=None):
    c = kit.CONTRACTS[key]
    n = c.n * (6 * c.thorough if tier == "thorough" else 3 if c.n > 10 else 1)
    budget = c.budget * (15 if tier == "thorough" else 4)
    res = {"contract": key, "cases": 0, "skipped": 0, "checks": 0, "distinct": 0, "failures": [], "errors": [], "samples": [], "known": c.known, "covers": list(c.covers), "timeouts": 0}
    t0 = time.time()
    seen = set()
    i = 0
    labels = set()
    while i < n:
        if time.time() - t0 > budget and res["cases"] >= 1:
            break
        s = case_seed(seed, key, i)
        i += 1
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, max(60.0, 3 * budget))
        try:
            st, lab, msg, K = run_case(c, s)
        except Timeout:
            res["timeouts"] += 1
            signal.setitimer(signal.ITIMER_REAL, 0)
            break
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        res["checks"] += K.checks
        if st == "skip":
            res["skipped"] += 1
            continue
        res["cases"] += 1
        try:
            d = json.dumps(enc_all(K.draws), sort_keys=True)
        except Exception:
            d = repr(s)
        if K.checks:
            seen.add(d if len(d) < 400 else hash(d))
        if len(res["samples"]) < 2:
            res["samples"].append({"seed": s, "draws": d[:300]})
        if st == "fail":
            if lab not in labels and len(res["failures"]) < 4:
                labels.add(lab)
                res["failures"].append({"label": lab, "msg": msg, "seed": s, "draws": enc_all(K.draws)})
            if len(labels) >= 1 and len(res["failures"]) >= 2:
                break
        if st == "error":
            res["errors"].append(msg)
            if len(res["errors"]) > 2:
                break
    res["distinct"] = len(seen)
    res["wall_s"] = round(time.time() - t0, 3)
    return res


def enc_all(d):
    return {k: enc(v) for k, v in d.items()}


def _pool_one(a):
    try:
        return run_one(*a)
    except BaseException as e:
        return {"contract": a[0], "cases": 0, "skipped": 0, "checks": 0, "distinct": 0, "failures": [], "errors": ["monitor: %r" % (e,)], "samples": [], "known": None, "covers": [], "wall_s": 0, "timeouts": 0}


def main():
    cmd = sys.argv[1]
    if cmd == "run":
        prop, seed, tier, out = sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5]
        only = sys.argv[6:] or None
        cs = kit.load(prop if prop != "ALL" else None)
        keys = [k for k, c in cs.items() if not c.sym_only and (only is None or k in only or c.name in only)]
        import multiprocessing as mp
        keys.sort(key=lambda k: -cs[k].budget)
        nproc = int(os.environ.get("VERIF_JOBS", "4"))
        if len(keys) <= 1 or nproc == 1:
            rs = [_pool_one((k, seed, tier)) for k in keys]
        else:
            with mp.get_context("fork").Pool(min(nproc, len(keys)), maxtasksperchild=1) as p:
                rs = list(p.imap_unordered(_pool_one, [(k, seed, tier) for k in keys]))
        rs.sort(key=lambda r: r["contract"])
        json.dump(rs, open(out, "w"))
        return 0
    if cmd == "replay":
        key, path = sys.argv[2], sys.argv[3]
        kit.load(key.split(".")[0])
        case = json.load(open(path))
        given = case.get("given")
        st, lab, msg, K = run_case(kit.CONTRACTS[key], int(case["seed"]), given)
        print(json.dumps({"status": st, "label": lab, "msg": msg, "draws": enc_all(K.draws)}))
        return 1 if st == "fail" else 0
    if cmd == "search":
        # conc.py search CONTRACT SEED N SECONDS [given.json]: random search for a failing input
        key, seed, n, secs = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5])
        kit.load(key.split(".")[0])
        t0 = time.time()
        for i in range(n):
            if time.time() - t0 > secs:
                break
            s = case_seed(seed, key + "#search", i)
            st, lab, msg, K = run_case(kit.CONTRACTS[key], s)
            if st == "fail":
                print(json.dumps({"status": st, "label": lab, "msg": msg, "seed": s, "draws": enc_all(K.draws)}))
                return 1
        print(json.dumps({"status": "ok"}))
        return 0


if __name__ == "__main__":
    sys.exit(main())
