"""Contract registration, shared by the prover and by the run-time monitor.

A contract is a function of one argument K.  It draws its inputs from K, states
its precondition with K.assume, calls the real code and states every
postcondition with K.ensure / K.eq / K.le.  The same text is executed
 * symbolically (pyvc.symk): inputs are unconstrained symbols, every ensure is a
   proof obligation, the code is the mechanically instrumented source of /repo;
 * concretely (pyvc.conc): inputs are random/edge numbers or the values of a
   solver counter-model, and the code is the unmodified package.
Nothing here imports z3 or numpy, so that it loads in both interpreters.
"""
CONTRACTS = {}


class Contract:
    def __init__(self, fn, prop, name, covers, proof, n, known, overrides, thorough, budget, sym_only, requires, paths, timeout, pi=False):
        self.fn, self.prop, self.name, self.covers = fn, prop, name, tuple(covers)
        self.proof, self.n, self.known, self.overrides, self.thorough = proof, n, known, overrides, thorough
        self.budget, self.sym_only, self.requires = budget, sym_only, requires
        self.paths, self.timeout, self.pi = paths, timeout, pi


def contract(prop, covers=(), proof=False, n=20, known=None, overrides=None, thorough=4, budget=6.0, sym_only=False, requires=(), name=None, paths=200, timeout=20, pi=False):
    """prop: property id; covers: functions of /repo under this contract ("module:qualname");
    proof: also discharge symbolically; n: concrete cases in the quick tier;
    known: id of the known finding this contract demonstrates;
    pi: treat np.pi as the exact number in the proof (otherwise as its double);
    overrides: callee contracts used instead of bodies in the proof ({"module:qual": stub})."""
    def deco(fn):
        nm = name or fn.__name__
        key = prop + "." + nm
        assert key not in CONTRACTS, key
        CONTRACTS[key] = Contract(fn, prop, nm, covers, proof, n, known, overrides, thorough, budget, sym_only, requires, paths, timeout, pi)
        return fn
    return deco


def load(prop=None):
    import importlib
    import os
    import re
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(os.listdir(here)):
        m = re.fullmatch(r"(c\d\d)(_\w+)?\.py", f)
        if m and (prop is None or m.group(1).upper() == prop):
            importlib.import_module("contracts." + f[:-3])
    return {k: c for k, c in CONTRACTS.items() if prop is None or c.prop == prop}
