"""Lockstep checks: one simulated world per run, the reference model beside it, a property's own rules decide.

A check lists strata; run number i uses stratum i mod len(strata), so every tier covers every stratum evenly.
"""
from __future__ import annotations

from .. import gen as G
from ..world import World

STATE = ("(algorithm, reference verdict of the step, previous intervention status, worst constraint, position in the lookahead "
         "window, kind of backup state / number of active rows) tuples reached")
REAL = ["run_time_assurance.rta (base, simplex, asif)", "run_time_assurance.constraint", "run_time_assurance.controller",
        "run_time_assurance.utils", "run_time_assurance.zoo where the stratum names it", "jax, quadprog, scipy"]
STUB = ["plant and sensor (simulated, exact integration)", "primary controller (generated command sequence)",
        "toy constraints, models and backup controllers plugged into the documented extension points",
        "quadprog.solve_qp replaced by a failing stand-in while a solver fault is injected"]
RULE = ("a case is a seeded configuration plus a seeded schedule of control periods, configuration changes and faults; it is non-trivial "
        "when at least one control period made the module intervene, or a fault made it fail, and its event log differs from every other")

BASE = dict(place=.05, reset=.04, toggle=.04, param=.05, cenable=.04, direct=.05, telemetry=.05, disturb=.08, sensor=.15, stale=.08)
ZOO = dict(place=.12, reset=.04, toggle=.04, param=.08, cenable=.05, telemetry=.1)


LONG = {"esimplex": 0.03, "easif": 0.03, "isimplex": 0.02, "iasif": 0.01, "dasif": 0.01}
SHORT = {"esimplex": 16, "isimplex": 10, "easif": 12, "iasif": 6}


def toy(algo, steps=30, mix=None, extra=None, tweak=None, uncompiled_p=0.1, **kw):
    """stratum: a toy module of the given algorithm"""
    def make(rng):
        opts = dict(kw)
        slack_p = opts.pop("slack_p", 0.0)
        strict_p = opts.pop("strict_p", 0.2)
        opts["slack"] = G.chance(rng, slack_p)
        cfg = G.gen_toy(rng, algo, **opts)
        if algo.endswith("asif") and G.chance(rng, strict_p):
            cfg["solver_exception"] = True
        use = dict(BASE if mix is None else mix)
        use.update(extra or {})
        if algo.endswith("simplex") and cfg.get("pred") != "np":
            use.pop("nanpred", None)
        if tweak:
            tweak(rng, cfg)
        n = steps
        if G.chance(rng, uncompiled_p) and cfg["algo"] in SHORT and "jit_dict" not in cfg and "jit_enable" not in cfg:
            cfg["jit_enable"] = False  # the code without compilation takes paths of its own, and takes longer
            n = min(n, SHORT[cfg["algo"]])
        elif G.chance(rng, LONG.get(cfg["algo"], 0.0)):
            n *= 6
        return {"cfg": cfg, "ops": G.gen_ops(rng, cfg, n, use)}

    return make


def zoo(name, algo, steps=30, mix=None, extra=None, plain_p=0.3, tweak=None):
    def make(rng):
        cfg = G.gen_zoo(rng, name, algo, plain=G.chance(rng, plain_p))
        use = dict(ZOO if mix is None else mix)
        use.update(extra or {})
        if tweak:
            tweak(rng, cfg)
        return {"cfg": cfg, "ops": G.gen_zoo_ops(rng, cfg, steps, use)}

    return make


def pack(strata, own, quick, thorough):
    """the functions a property module needs"""
    def gen(rng, index, tier):
        return strata[index % len(strata)](rng)

    def run(case, ctx):
        w = World(case["cfg"], ctx, own)
        for op in case["ops"]:
            w.do(op)
        w.finish()

    return gen, run, {"quick": quick, "thorough": thorough}
