"""writes MANIFEST.json and checks.json from one table"""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))

TRUST = [
    "engine: the contract verifier in pyvc/ (symbolic execution of the mechanically instrumented source, numpy semantics in pyvc/npshim.py and pyvc/arr.py; compared with numpy by selftest.py), z3 and cvc5",
    "machine floating point is treated as exact real arithmetic in proofs (float literals are their exact binary values); bounded cases run in IEEE double with stated tolerances",
    "divisors are assumed nonzero and square-root arguments nonnegative unless counted under divisors.proved_nonzero",
]
EIG = "external function: numpy.linalg.eigh/eigvalsh/inv/det/svd/qr are trusted to satisfy their documented contracts"
TECH_P = "contracts on the real functions, obligations generated by symbolic execution of the instrumented source and discharged by z3/cvc5 for all inputs; same contracts evaluated on the running code as bounded stand-in"
TECH_B = "contracts on the real functions; obligations discharged by z3/cvc5 where within reach, otherwise the same contracts evaluated on the running code over generated inputs (bounded)"

C = {}


def check(pid, level, explanation, note, trusted=(), prove_s=150, proof=True):
    C[pid] = dict(level=level, explanation=explanation, level_note=note, trusted=TRUST + list(trusted), prove_s=prove_s, proof=proof)


exec(open(os.path.join(HERE, "checktable.py")).read())

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = globals().get("NA", {})
man = {
    "version": 1,
    "setup_cmd": "/bin/sh setup.sh",
    "checks": [],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "run.py PROP TIER: verifier (pyvc/symk.py) and run-time monitor (pyvc/conc.py) over the contracts in contracts/cNN*.py against /repo's working tree. No hooks are needed in /repo.",
}
for p in props:
    if p["id"] in C:
        c = C[p["id"]]
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 run.py %s quick" % p["id"],
            "thorough_cmd": "python3 run.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": TECH_P if c["level"] == "proof" else TECH_B,
            "level": c["level"],
            "level_note": c["level_note"],
        })
    elif p["id"] not in NA:
        man["not_applicable"].append({"property": p["id"], "reason": "no check built yet"})
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
json.dump(C, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
