"""Generators shared by the differential (twin) checks: configurations of every module kind and plain schedules for them."""
from __future__ import annotations

import numpy as np

from .. import gen as G


def toy_cfg(rng, algo, **kw):
    slack = G.chance(rng, kw.pop("slack_p", 0.2))
    cfg = G.gen_toy(rng, algo, slack=slack, **kw)
    if algo.endswith("asif") and G.chance(rng, 0.3):
        cfg["solver_exception"] = True
    return cfg


def custom_cfg(rng, system=None):
    system = system or G.gen_system(rng)
    m = 1 if system["name"] == "di1" else 2
    cfg = {"kind": "custom", "system": system, "constraints": [], "dt": G.pick(rng, *G.DTS), "safe": [G.dy(rng, -1, 1) for _ in range(m)],
           "radius": G.pick(rng, 0.5, 1.0, 2.0, 4.0), "x0": G.gen_x(rng, system, 0.5)}
    if G.chance(rng, 0.5):
        cfg["low"], cfg["high"] = G.gen_bounds(rng, m)
    return cfg


def cascade_cfg(rng, n=None, algos=("esimplex", "isimplex", "easif", "dasif"), custom=0.0, system=None, **kw):
    system = system or G.gen_system(rng)
    n = n or G.pick(rng, 1, 2, 2, 3)
    dt = G.pick(rng, *G.DTS)
    kids = []
    for j in range(n):
        if j > 0 and custom and G.chance(rng, custom):
            c = custom_cfg(rng, system) if G.chance(rng, 0.6) else cascade_cfg(rng, n=2, algos=algos, system=system, **kw)
        else:
            c = toy_cfg(rng, G.pick(rng, *algos), system=system, **kw)
        c["dt"] = dt
        kids.append(c)
    m = 1 if system["name"] == "di1" else 2
    cfg = {"kind": "cascade", "system": system, "children": kids, "dt": dt, "constraints": kids[0]["constraints"], "x0": kids[0]["x0"]}
    if G.chance(rng, 0.6):
        cfg["low"], cfg["high"] = G.gen_bounds(rng, m)
    return cfg


def deltav_x(rng, lim):
    r = G.pick(rng, 20.0, 100.0, 500.0)
    return ([G.r6(r * a) for a in G.unit(rng, 3)] + [G.r6(G.pick(rng, 0.05, 0.3, 1.0) * a) for a in G.unit(rng, 3)] +
            [G.r6(rng.uniform(-3, 3)), G.r6(max(0.0, lim - rng.choice([0.02, 0.1, 0.5, 2.0, 5.0]) * rng.random()))])


def deltav_cfg(rng, n_steps=None):
    kw = {"n_steps": n_steps or G.pick(rng, 5, 20, 60)}
    if G.chance(rng, 0.6):
        kw["delta_v_limit"] = G.pick(rng, 1.0, 3.0, 10.0)
    if G.chance(rng, 0.3):
        kw["m"] = G.pick(rng, 6.0, 20.0)
    if G.chance(rng, 0.3):
        kw["n"] = G.pick(rng, 0.002, 0.005)
    cfg = {"kind": "deltav", "kw": kw, "dt": G.pick(rng, 1.0, 0.5)}
    cfg["are"] = G.pick(rng, [6e6, 2e4, 0.0], [2e6, 1e5, 1e4], [2e7, 5e3, -1e4])
    cfg["x0"] = deltav_x(rng, kw.get("delta_v_limit", 20))
    return cfg


def steps(rng, cfg, n, mix=None, place=None):
    """a schedule for any module kind"""
    kind = cfg.get("kind")
    if kind in ("deltav", "inspcascade", "combined"):
        m = 3 * cfg["num"] if kind == "combined" else 3
        prof = G.Profile(rng, m)
        ops = []
        for _ in range(n):
            if G.chance(rng, (mix or {}).get("place", 0)):
                ops.append({"op": "place", "x": place(rng)})
            if G.chance(rng, (mix or {}).get("toggle", 0)):
                ops.append({"op": "enable", "v": G.chance(rng, 0.5)})
            if G.chance(rng, (mix or {}).get("reset", 0)):
                ops.append({"op": "reset"})
            ops.append({"op": "step", "dt": cfg["dt"], "ud": prof()})
        return ops
    if "zoo" in cfg:
        return G.gen_zoo_ops(rng, cfg, n, mix)
    return G.gen_ops(rng, cfg, n, mix)


def combined_x(rng, N):
    return G.gen_zoo_x(rng, {"zoo": "insp3d", "kw": {"num_deputies": N}})


def inspc_x(rng):
    x = G.gen_zoo_x(rng, {"zoo": "insp1v1", "kw": {}})
    x[7] = G.r6(20 - rng.random() * G.pick(rng, 0.2, 2.0, 10.0))
    return x


def prepared(op, x):
    """fresh, private input arrays for one call"""
    d = dict(op)
    d["ud_in"] = np.array(op["ud"], float)
    return d, np.array(x, float)
