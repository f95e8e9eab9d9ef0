#!/usr/bin/env python3
"""Random mutations of the library against the bounded contracts (developer tool).

  mutate.py N SEED OUT.json [file..]   N mutants, 7 workers; survivors are printed
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/tight_binding_redweasel/"
PROPS = {"smearing.py": "C01 C02 C03", "density_of_states.py": "C03 C04 C05 C17 C02", "bulk_properties.py": "C05 C17 C04", "symmetry.py": "C06 C07 C13 C08",
         "unitary_representations.py": "C14 C08", "hamiltonian_symmetry.py": "C14 C08", "bandstructure.py": "C09 C10 C11 C12 C19",
         "tight_binding_asym.py": "C09 C10 C11 C12 C13 C19", "tight_binding.py": "C09 C10 C11 C12 C13", "linalg.py": "C10 C18 C19", "loss.py": "C18 C19",
         "kpaths.py": "C15", "json_tb_format.py": "C12", "wannier90_tb_format.py": "C12", "qespresso_interface.py": "C20 C16"}
SKIP = ("plot", "print", "_compare", "_test", "version", "_run", "__repr__", "__str__", "qe_prepare", "fermi_surface")


def sites(src):
    """list of (start, end, new text, description)"""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda l, c: off[l - 1] + c
    seg = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def between(x, y, old, new, fn):
        s, e = seg(x)[1], seg(y)[0]
        i = b.find(old.encode(), s, e)
        if i >= 0:
            out.append((i, i + len(old), new, fn))
    OPS = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "//")}
    CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "==")}

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            if any(n.name.startswith(k) for k in SKIP):
                return
            fn = n.name if not fn else fn + "." + n.name
            for k in n.body:
                walk(k, fn)
            for k in n.args.defaults:
                walk(k, fn)
            return
        if isinstance(n, ast.ClassDef):
            for k in n.body:
                walk(k, n.name)
            return
        if isinstance(n, ast.Assert) or not isinstance(n, ast.AST):
            return
        if fn:
            if isinstance(n, ast.BinOp) and type(n.op) in OPS:
                between(n.left, n.right, *OPS[type(n.op)], fn)
            if isinstance(n, ast.Compare):
                l = n.left
                for o, r in zip(n.ops, n.comparators):
                    if type(o) in CMP:
                        between(l, r, *CMP[type(o)], fn)
                    l = r
            if isinstance(n, ast.BoolOp):
                a, c = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                between(n.values[0], n.values[1], a, c, fn)
            if isinstance(n, ast.AugAssign) and type(n.op) in OPS:
                o, w = OPS[type(n.op)]
                between(n.target, n.value, o + "=", w + "=", fn)
            if isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                out.append((*seg(n), "pass", fn))
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                s, e = seg(n)
                v = n.value
                out.append((s, e, str(v + 1 if isinstance(v, int) else v * 2), fn))
                if isinstance(v, int) and v > 0:
                    out.append((s, e, str(v - 1), fn))
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append((*seg(n), str(not n.value), fn))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in ("conj", "real", "abs", "round", "sort", "copy", "ravel") and n.args == [] and n.func.attr in ("conj", "copy"):
                    s, e = seg(n)
                    out.append((seg(n.func.value)[1], e, "", fn))
                if n.func.attr in ("conj", "real", "abs", "round", "sort", "array", "imag") and len(n.args) == 1:
                    s, e = seg(n)
                    a = seg(n.args[0])
                    out.append((s, e, "(" + b[a[0]:a[1]].decode() + ")", fn))
            if isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
                out.append((seg(n.value)[1], seg(n)[1], "", fn))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                s, e = seg(n)
                out.append((s, s + 1, "", fn))
            if isinstance(n, ast.If):
                s, e = seg(n.test)
                out.append((s, e, "(" + b[s:e].decode() + ") and False", fn))
                out.append((s, e, "(" + b[s:e].decode() + ") or True", fn))
        for k in ast.iter_child_nodes(n):
            walk(k, fn)
    for k in tree.body:
        walk(k, "")
    return b, out


def run(job):
    n, f, s, e, new, fn = job
    t = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.run(["cp", "-a", "/repo", t + "/repo"], check=True)
        p = os.path.join(t, "repo", S + f)
        b = open(p, "rb").read()
        line = b[:s].count(b"\n") + 1
        m = b[:s] + new.encode() + b[e:]
        try:
            compile(m, p, "exec")
        except SyntaxError:
            return None
        open(p, "wb").write(m)
        text = m.split(b"\n")[line - 1].decode().strip()
        old = b.split(b"\n")[line - 1].decode().strip()
        env = dict(os.environ, MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", VERIF_JOBS="1", VERIF_REPO=t + "/repo")
        killed = None
        for prop in PROPS[f].split():
            o = t + "/o.json"
            try:
                r = subprocess.run(["/opt/venv/bin/python", HERE + "/pyvc/conc.py", "run", prop, "1", "quick", o], cwd=HERE, env=env, capture_output=True, text=True, timeout=400)
                if r.returncode:
                    killed = prop + " crash"
                else:
                    r = subprocess.run(["python3", HERE + "/show.py", o], capture_output=True, text=True)
                    if "FAIL" in r.stdout or "Error" in r.stdout:
                        killed = prop
            except subprocess.TimeoutExpired:
                killed = prop + " timeout"
            if killed:
                break
        stable = None
        if not killed:
            try:
                r = subprocess.run(["bash", "-c", "cd %s/repo && PYTHONPATH=%s/repo/src timeout 200 /opt/venv/bin/python -m pytest -q -x tests -p no:cacheprovider --no-header 2>&1 | tail -5" % (t, t)], env=env, capture_output=True, text=True, timeout=400)
                stable = r.stdout[-400:]
            except subprocess.TimeoutExpired:
                stable = "timeout"
        return dict(n=n, file=f, line=line, fn=fn, old=old, new=text, killed=killed, tests=stable)
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    N, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    rng = random.Random(seed)
    jobs = []
    for f in sys.argv[4:] or PROPS:
        b, ss = sites(open(os.path.join("/repo", S + f)).read())
        jobs += [(f, *x) for x in ss]
    print(len(jobs), "sites")
    jobs = [(i, *j) for i, j in enumerate(rng.sample(jobs, min(N, len(jobs))))]
    res = []
    with ThreadPoolExecutor(int(os.environ.get("J", 7))) as ex:
        for r in ex.map(run, jobs):
            if r is None:
                continue
            res.append(r)
            if not r["killed"]:
                print("SURVIVED %s:%d %s\n   - %s\n   + %s\n" % (r["file"], r["line"], r["fn"], r["old"][:160], r["new"][:160]), flush=True)
            json.dump(res, open(out, "w"), indent=1)
    print(sum(1 for r in res if r["killed"]), "of", len(res), "killed")
