"""C13: after reset() a module behaves like a newly constructed one, whatever happened before."""
from .. import gen as G, mods
from ..core import Violation
from . import _twin as T
from ._lock import REAL, STUB
import numpy as np

PLAN = {"quick": 252, "thorough": 4000}
RULE = ("a case is a seeded module, a history with interventions, disablings and injected failures, a reset at the end of it and a schedule "
        "after it; non-trivial when the module intervened or failed during the history")
STATE_MEASURE = "(module kind, intervening at the reset, enabled at the reset, last period failed, step after reset, intervening) tuples"
HIST = dict(place=.1, disturb=.1, toggle=.08, sensor=.1, stale=.05, fault=.1, solver=.1, reset=.02, telemetry=.05)


def gen(rng, index, tier):
    k = index % 12
    place = None
    if k in (0, 1):
        cfg = T.toy_cfg(rng, "esimplex" if k == 0 else "isimplex")
        if G.chance(rng, 0.7):
            cfg["latch"] = G.pick(rng, 3, 5, 9) * cfg["dt"]
    elif k == 2:
        cfg = T.toy_cfg(rng, "easif")
    elif k == 3:
        cfg = T.toy_cfg(rng, "iasif")
    elif k == 4:
        cfg = T.toy_cfg(rng, "dasif")
    elif k in (5, 6):
        cfg = T.cascade_cfg(rng, algos=("esimplex", "isimplex", "easif"), **({} if k == 5 else {"backup_kinds": ("counter", "integral", "mutating")}))
        for c in cfg["children"]:
            if c["algo"].endswith("simplex") and G.chance(rng, 0.7):
                c["latch"] = G.pick(rng, 3, 5, 9) * c["dt"]
    elif k in (7, 8):
        cfg = T.deltav_cfg(rng)
        place = lambda r: T.deltav_x(r, cfg["kw"].get("delta_v_limit", 20))  # noqa: E731
    elif k == 9:
        z, a = G.pick(rng, ("docking2d", "esimplex"), ("docking3d", "isimplex"), ("integrator", "isimplex"), ("docking2d", "iasif"))
        cfg = G.gen_zoo(rng, z, a)
        if a.endswith("simplex"):
            cfg["latch"] = G.pick(rng, 2, 5) * cfg["dt"]
    elif k == 10:
        cfg = T.toy_cfg(rng, "isimplex", backup_kinds=("counter", "integral", "mutating"))
    elif index % 48 == 11:
        cfg = {"kind": "combined", "num": 2, "dt": 1.0}
        cfg["x0"] = T.combined_x(rng, 2)
        place = lambda r: T.combined_x(r, 2)  # noqa: E731
    elif index % 48 == 23:
        cfg = {"kind": "inspcascade", "dt": 1.0, "x0": T.inspc_x(rng)}
        place = T.inspc_x
    else:
        cfg = T.toy_cfg(rng, G.pick(rng, "esimplex", "isimplex"), backup_kinds=("counter", "integral", "mutating"))
    short = cfg.get("kind") in ("combined", "inspcascade")
    pre = T.steps(rng, cfg, rng.randint(1, 8 if short else 20), HIST, place)
    post = T.steps(rng, cfg, 5 if short else 12, {"place": .1, "disturb": .1}, place)
    if G.chance(rng, 0.5):
        pre.append({"op": "revisit", "k": rng.randint(0, 5), "calm": True})
    if G.chance(rng, 0.7):
        post = [{"op": "revisit", "k": rng.randint(0, 5), "calm": False} for _ in range(rng.randint(1, 3))] + post
    return {"cfg": cfg, "ops": pre + [{"op": "reset!"}] + post}


def run(case, ctx):
    cfg = case["cfg"]
    a = mods.make(cfg)
    x = np.array(cfg["x0"], float)
    b = None
    kind = cfg.get("kind") or cfg.get("zoo") or cfg["algo"]
    last = None
    since = 0
    seen = None
    history = []
    for i, op in enumerate(case["ops"]):
        ctx.now = i
        ctx.op(op["op"])
        o = op["op"]
        if o == "place":
            x = np.array(op["x"], float)
        elif o == "disturb":
            x = x + np.array(op["d"], float)
        elif o == "enable":
            if b is None:
                a.rta.enable = op["v"]
                ctx.fault("disable" if not op["v"] else "enable")
        elif o == "reset":
            a.rta.reset()
            if b is not None:
                b.rta.reset()
        elif o == "telemetry":
            if hasattr(a.rta, "update_constraint_values"):
                a.rta.update_constraint_values(np.array(x))
        elif o == "reset!":
            ctx.state(kind, bool(a.rta.intervening), bool(a.rta.enable), bool(last and last["raised"]))
            if a.rta.intervening or (last and last["raised"]):
                ctx.nontrivial += 1
            a.rta.reset()
            b = mods.make(cfg)
            since = 0
            for r, who in ((a.rta, "a reset"), (b.rta, "a new")):
                ctx.check(r.enable and not r.intervening and r.control_actual is None and r.control_desired is None, "reset-flags",
                          lambda r=r, who=who: f"op {i}: {who} module has enable={r.enable} intervening={r.intervening} "
                          f"control_actual={r.control_actual}", i)
        if o == "revisit":
            # a state and command of the history, with or without an intervention then
            past = [h for h in history if h[2] is not op["calm"]]
            if not past:
                continue
            z0, d0, _ = past[op["k"] % len(past)]
            x, op, o = z0.copy(), {"op": "step", "dt": d0["dt"], "ud": d0["ud"]}, "step"
            ctx.fault("revisit-calm" if case["ops"][i]["calm"] else "revisit-intervention")
        if o == "step":
            if b is not None:
                op = dict(op, fault=None)
            d, z = T.prepared(op, x)
            if op.get("noise") is not None:
                z = z + np.array(op["noise"], float)
            if op.get("stale") and seen is not None:
                z = seen
            seen = z.copy()
            ra = mods.step(a, z.copy(), d, ctx)
            ctx.step(op["dt"])
            ctx.log(ra["raised"], ra.get("u"), ra["intervening"])
            if b is None and (ra["intervening"] or ra["raised"]):
                ctx.nontrivial += 1
            if b is not None:
                d2, _ = T.prepared(op, x)
                rb = mods.step(b, z.copy(), d2)
                diff = mods.same_rec(ra, rb)
                ctx.checks += 1
                ctx.state(kind, since, ra["intervening"])
                since += 1
                if diff:
                    raise Violation("reset", f"op {i}, {since} periods after reset, at {z.tolist()} desired {op['ud']}: the module that was "
                                    f"reset and a new one differ: {diff}", i)
                di = mods.same_info(mods.info_of(a.rta), mods.info_of(b.rta))
                ctx.check(di is None, "reset", lambda: f"op {i}, {since} periods after reset: info differs: {di}", i)
            last = ra
            if b is None and not ra["raised"] and a.rta.enable:
                history.append((z.copy(), op, bool(ra["intervening"])))
            if ra["raised"] is None:
                x = mods.tame(cfg, a.plant(x, op["dt"], ra["u"]))
