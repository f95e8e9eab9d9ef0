#!/usr/bin/env python3
"""Check one property:  run.py PROP [quick|thorough]

Runs the deductive verifier (pyvc/symk.py) and the run-time monitor
(pyvc/conc.py) over the contracts of the property against /repo's current
working tree, replays every counterexample on the unmodified code, writes
evidence/<PROP>.json.  Exit 0: nothing broken; exit 1: VIOLATION line printed;
exit 2: the machinery itself failed.
"""
import json
import os
import re
import subprocess
import sys
import tempfile
import time
import shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
PV = "python3-vt"
FINDINGS = os.path.join(HERE, "known_findings.txt")
NPROC = max(2, min(8, os.cpu_count() or 4))


def env(**k):
    e = dict(os.environ)
    e.update(MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLCONFIGDIR=k.pop("_mpl", "/tmp"))
    e.update({a: str(b) for a, b in k.items()})
    return e


def findings(prop):
    """listed findings: 'finding: property=C00 contract=C00.name label=<label> -- text'"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) contract=(\S+) label=(.*?) -- (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"contract": m.group(2), "label": m.group(3), "text": m.group(4)})
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    conf = json.load(open(os.path.join(HERE, "checks.json")))[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rep_dir = os.path.join(HERE, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rep_dir, f))
    co, so = os.path.join(work, "conc.json"), os.path.join(work, "sym.json")
    quick = tier == "quick"
    limit = float(conf.get("prove_s", 150)) * (1 if quick else 6)
    limit = min(limit, 600 if quick else 2600)
    proofs = conf.get("proof", True)
    jc = max(1, NPROC // 2) if proofs else NPROC
    procs = {}
    logs = {n: open(os.path.join(work, n + ".log"), "w+") for n in ("conc", "sym")}
    procs["conc"] = subprocess.Popen([PY, os.path.join(HERE, "pyvc/conc.py"), "run", prop, str(seed), tier, co], env=env(VERIF_JOBS=jc, _mpl=work), stdout=logs["conc"], stderr=subprocess.STDOUT, cwd=work)
    if proofs:
        procs["sym"] = subprocess.Popen([PV, os.path.join(HERE, "pyvc/symk.py"), prop, tier, so], env=env(VERIF_JOBS=max(1, NPROC - 1), VERIF_PROVE_S=limit), stdout=logs["sym"], stderr=subprocess.STDOUT, cwd=work)
    hard = limit + 120 if quick else limit + 3000
    for n, p in procs.items():
        try:
            p.wait(timeout=max(5, t0 + hard - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    logtext = {}
    for n, f in logs.items():
        f.seek(0)
        logtext[n] = f.read()[-3000:]
        f.close()
    try:
        conc = json.load(open(co))
    except Exception:
        print("run-time monitor failed:\n" + logtext["conc"])
        shutil.rmtree(work, ignore_errors=True)
        return 2
    sym, symfail = [], None
    if proofs:
        try:
            sym = json.load(open(so))
        except Exception:
            symfail = logtext["sym"]
            print("verifier failed:\n" + symfail)

    known = findings(prop)
    viol, knownhit, undecided = [], [], []

    def conc_cmd(*a, timeout=120):
        try:
            r = subprocess.run([PY, os.path.join(HERE, "pyvc/conc.py")] + [str(x) for x in a], env=env(_mpl=work), capture_output=True, text=True, timeout=timeout, cwd=work)
            return r.returncode, json.loads(r.stdout.strip().splitlines()[-1])
        except Exception as e:
            return None, {"status": "error", "msg": repr(e)[:300]}

    def write_replay(i, d):
        path = os.path.join(rep_dir, "%s-%d.json" % (prop, i))
        d["how"] = "%s %s/pyvc/conc.py replay %s %s" % (PY, HERE, d["contract"], path)
        json.dump(d, open(path, "w"), indent=1)
        return path

    # ---- run-time monitor failures (real code, concrete input)
    for r in conc:
        for f in r["failures"]:
            case = os.path.join(work, "case.json")
            json.dump({"seed": f["seed"]}, open(case, "w"))
            rc, back = conc_cmd("replay", r["contract"], case, timeout=300)
            ok = rc == 1
            if not ok:
                rc, back = conc_cmd("replay", r["contract"], case, timeout=300)
                ok = rc == 1
            if not ok:
                undecided.append("%s: failure of '%s' (seed %s) did not repeat: %s" % (r["contract"], f["label"], f["seed"], back))
                continue
            k = [x for x in known if x["contract"] == r["contract"] and x["label"] == f["label"]]
            if k:
                knownhit.append(k[0])
                continue
            viol.append({"contract": r["contract"], "label": f["label"], "message": f["msg"], "seed": f["seed"], "given": None, "draws": f["draws"], "by": "contract evaluated on the running code", "covers": r["covers"]})
        for e in r["errors"]:
            undecided.append("%s: monitor could not run: %s" % (r["contract"], e[-400:]))
        if r["cases"] == 0 and not r["errors"] and not r["failures"]:
            undecided.append("%s: no case ran" % r["contract"])

    # ---- verifier
    obl = dis = 0
    backends, solver = {}, 0.0
    perc = []
    pa = pn = 0
    failed_contracts = {v["contract"] for v in viol}
    for r in sym:
        o = r["obligations"]
        obl += len(o)
        d = [x for x in o if x["status"] == "proved"]
        dis += len(d)
        for x in d:
            backends[x["backend"] or "normaliser"] = backends.get(x["backend"] or "normaliser", 0) + 1
        solver += sum(x.get("t", 0) for x in o)
        pn += r.get("proved_nonzero", 0)
        pa += r.get("assumed_nonzero", 0)
        perc.append({"contract": r["contract"], "functions": r["covers"], "paths": r["paths"], "obligations": len(o), "discharged": len(d), "status": r["status"], "note": (r.get("note") or "")[:300], "wall_s": r.get("wall_s"), "precondition_reachable": r.get("covers_ok")})
        if r["status"] != "ok":
            undecided.append("%s: verifier: %s %s" % (r["contract"], r["status"], (r.get("note") or "")[:300]))
        elif not o:
            undecided.append("%s: verifier generated no obligation" % r["contract"])
        elif not r.get("covers_ok"):
            undecided.append("%s: precondition not shown reachable" % r["contract"])
        seen = set()
        for x in o:
            if x["status"] == "refuted" and x["label"] not in seen and r["contract"] not in failed_contracts:
                seen.add(x["label"])
                hit = None
                if x.get("given"):
                    case = os.path.join(work, "case.json")
                    json.dump({"seed": 1, "given": x["given"]}, open(case, "w"))
                    rc, back = conc_cmd("replay", r["contract"], case)
                    if rc == 1:
                        hit = {"contract": r["contract"], "label": back["label"], "message": back["msg"], "seed": 1, "given": x["given"], "draws": back["draws"], "by": "verifier counterexample replayed on the real code", "obligation": x.get("goal"), "covers": r["covers"]}
                if hit is None and time.time() - t0 < 600:
                    rc, back = conc_cmd("search", r["contract"], seed, 3000, 30, timeout=90)
                    if rc == 1:
                        hit = {"contract": r["contract"], "label": back["label"], "message": back["msg"], "seed": back["seed"], "given": None, "draws": back["draws"], "by": "refuted obligation, failing input searched on the real code", "obligation": x.get("goal"), "covers": r["covers"]}
                if hit is None and x.get("definite"):
                    hit = {"contract": r["contract"], "label": x["label"], "message": "obligation refuted by the solver; no failing input reproduced on the real code", "seed": 1, "given": x.get("given"), "by": "refuted obligation", "obligation": x.get("goal"), "model": x.get("model"), "noinput": True, "covers": r["covers"]}
                if hit:
                    k = [q for q in known if q["contract"] == hit["contract"] and q["label"] == hit["label"]]
                    if k:
                        knownhit.append(k[0])
                        continue
                    viol.append(hit)
                    failed_contracts.add(r["contract"])
                else:
                    undecided.append("%s: obligation '%s' refuted only in the abstraction (uninterpreted sums/functions), no failing input" % (r["contract"], x["label"]))
            elif x["status"] == "unknown":
                undecided.append("%s: obligation '%s' not discharged %s" % (r["contract"], x["label"], (x.get("note") or "")[:200]))

    ev = sum(r["checks"] for r in conc)
    cases = sum(r["cases"] for r in conc)
    dist = sum(r["distinct"] for r in conc)
    fcov = sorted({f for r in conc for f in r["covers"]} | {f for r in sym for f in r["covers"]})
    proved_f = sorted({f for r in sym if r["status"] == "ok" and r["obligations"] and all(x["status"] == "proved" for x in r["obligations"]) for f in r["covers"]})
    samples = []
    for r in conc:
        for s in r["samples"][:1]:
            samples.append({"contract": r["contract"], **s})
    for r in sym:
        for x in r["obligations"][:1]:
            samples.append({"contract": r["contract"], "obligation": x["label"], "status": x["status"], "backend": x["backend"]})
    coverage = {
        "explanation": conf["explanation"],
        "obligations": obl, "discharged": dis,
        "checker_cmd": "python3 run.py %s %s" % (prop, tier),
        "trusted_base": conf["trusted"],
        "backends": backends, "solver_s": round(solver, 2),
        "contracts_verified": perc,
        "functions_under_contract": fcov,
        "functions_with_all_obligations_discharged": proved_f,
        "divisors": {"proved_nonzero": pn, "assumed_nonzero": pa},
        "bounded": {"contracts": len(conc), "cases": cases, "contract_clauses_evaluated": ev},
        "evaluations": cases, "distinct_nontrivial": dist,
        "rule": "bounded stand-in: each contract draws its inputs from a generator seeded by VERIF_SEED; a case counts when its precondition held, distinct when its drawn inputs differ and at least one clause was evaluated",
        "samples": samples[:60],
        "undecided": undecided[:60],
    }
    evid = {"property": prop, "tier": tier, "seed": seed, "level": conf["level"], "coverage": coverage, "assumptions": conf["trusted"], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    for k in {json.dumps(x): x for x in knownhit}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    for i, v in enumerate(viol):
        path = write_replay(i, {"property": prop, **v})
        print("  contract %s, clause '%s': %s" % (v["contract"], v["label"], v["message"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, " no-failing-input-found" if v.get("noinput") else ""))
    evid["wall_s"] = round(time.time() - t0, 2)
    json.dump(evid, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d/%d obligations discharged in %d contracts, %d bounded cases (%d clauses) in %d contracts, %d undecided, %d violations, %.1fs" % (prop, tier, dis, obl, len(sym), cases, ev, len(conc), len(undecided), len(viol), time.time() - t0))
    for u in undecided[:12]:
        print("  undecided: " + u.replace("\n", " ")[:300])
    if symfail:
        return 1 if viol else 2
    if cases == 0 and obl == 0:
        return 1 if viol else 2
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
