#!/usr/bin/env python3
"""Planted bugs: build /verif/seeded/<id>/ from tools/seeds_*.py and validate them.

  seed.py make [id..]     write patch.diff, demo.sh, demo.py, meta.json
  seed.py valid [id..]    scratch copy: builds, stable tests pass, demo 0 / nonzero
  seed.py check [id..]    run the property's check against the patched scratch copy
"""
import glob, importlib.util, json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
S = "src/tight_binding_redweasel/"
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks):
    assert id not in SEEDS, id
    SEEDS[id] = dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


def load():
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "seeds_*.py"))):
        src = open(f).read()
        exec(compile(src, f, "exec"), {"seed": seed, "S": S})


def make(s):
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.run(["git", "worktree", "add", "-q", "--detach", t + "/w", "HEAD"], cwd=REPO, check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(t, "w", S + f)
            txt = open(p).read()
            assert txt.count(old) == 1, (s["id"], f, txt.count(old), old)
            open(p, "w").write(txt.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=t + "/w", capture_output=True, text=True, check=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        subprocess.run(["git", "worktree", "remove", "--force", t + "/w"], cwd=REPO)
        shutil.rmtree(t, ignore_errors=True)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].strip("\n") + "\n")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/sh\n# cwd: the repository\nMPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def scratch(id):
    t = tempfile.mkdtemp(prefix="seedtest")
    subprocess.run(["cp", "-a", REPO, t + "/repo"], check=True)
    r = subprocess.run(["git", "apply", os.path.join(HERE, "seeded", id, "patch.diff")], cwd=t + "/repo", capture_output=True, text=True)
    if r.returncode:
        print(id, "PATCH FAILS", r.stderr)
    return t


STABLE = None


def tests(repo):
    e = dict(os.environ, MPLBACKEND="Agg", PYTHONPATH=repo + "/src", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider"] + testargs(), cwd=repo, env=e, capture_output=True, text=True)
    return r.returncode == 0, r.stdout[-800:]


def testargs():
    b = json.load(open("/opt/vp/BASELINE.json"))
    out = []
    for x in b["stable"]:
        mod, _, t = x.partition("::")
        out.append(mod.replace(".", "/") + ".py::" + t)
    return out


def valid(id):
    t = scratch(id)
    try:
        d = os.path.join(HERE, "seeded", id)
        a = subprocess.run(["sh", d + "/demo.sh"], cwd=REPO, capture_output=True, text=True, timeout=300)
        b = subprocess.run(["sh", d + "/demo.sh"], cwd=t + "/repo", capture_output=True, text=True, timeout=300)
        ok, out = tests(t + "/repo")
        good = a.returncode == 0 and b.returncode != 0 and ok
        print("%-24s %s demo clean=%d patched=%d tests=%s" % (id, "VALID" if good else "INVALID", a.returncode, b.returncode, ok), flush=True)
        if a.returncode:
            print(a.stderr[-600:])
        if b.returncode == 0:
            print(b.stdout[-300:])
        elif "AssertionError" not in b.stderr:
            print("   ", b.stderr.strip().splitlines()[-1:] )
        if not ok:
            print(out)
        return good
    finally:
        shutil.rmtree(t, ignore_errors=True)


def check(id):
    t = scratch(id)
    prop = SEEDS[id]["prop"] if id in SEEDS else json.load(open(os.path.join(HERE, "seeded", id, "meta.json")))["property"]
    try:
        subprocess.run(["rsync", "-a", "--exclude", "seeded", "--exclude", ".git", HERE + "/", t + "/verif/"], check=False) if shutil.which("rsync") else subprocess.run("mkdir -p %s/verif && cp -a %s/*.py %s/*.json %s/*.txt %s/pyvc %s/contracts %s/verif/" % ((t,) + (HERE,) * 5 + (t,)), shell=True, check=False)
        e = dict(os.environ, VERIF_REPO=t + "/repo", VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run(["python3", t + "/verif/run.py", prop, "quick"], cwd=t + "/verif", env=e, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        f = " (no input)" if v and all(x.endswith("no-failing-input-found") for x in v) else ""
        print("%-24s %s %s rc=%d%s" % (id, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, f), flush=True)
        for l in r.stdout.splitlines():
            if "violated" in l.lower() or "FAIL" in l:
                print("     ", l[:200])
        if r.returncode not in (0, 1):
            print(r.stdout[-500:], r.stderr[-500:])
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    load()
    cmd = sys.argv[1]
    ids = [i for i in SEEDS if not sys.argv[2:] or any(i == a or i.startswith(a) for a in sys.argv[2:])]
    from concurrent.futures import ThreadPoolExecutor
    if cmd == "make":
        for i in ids:
            make(SEEDS[i])
    elif cmd == "valid":
        with ThreadPoolExecutor(6) as p:
            list(p.map(valid, ids))
    elif cmd == "check":
        with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as p:
            list(p.map(check, ids))
