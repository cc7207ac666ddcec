"""C19: a cascade is the composition of its members, lowest priority first; the last member has the last word."""
from .. import gen as G, mods, toys
from ..core import Violation
from ..ref import toy_bound
from . import _twin as T
from ._lock import REAL, STUB  # noqa: F401
import numpy as np

PLAN = {"quick": 180, "thorough": 3000}
RULE = ("a case is a seeded cascade of one to three modules flown next to separately constructed twins of its members that the simulator chains "
        "itself; non-trivial when at least one member intervened")
STATE_MEASURE = "(kinds of the members, which intervened, which were enabled, cascade enabled, failure) tuples"


def gen(rng, index, tier):
    if index % 40 == 7:
        cfg = {"kind": "inspcascade", "dt": 1.0, "x0": T.inspc_x(rng)}
        ops = T.steps(rng, cfg, 10, dict(place=.4, toggle=.1, reset=.08), T.inspc_x)
        return {"cfg": cfg, "ops": ops}
    cfg = T.cascade_cfg(rng, algos=("esimplex", "isimplex", "easif", "easif", "dasif") + (("iasif",) if index % 5 == 0 else ()),
                        custom=G.pick(rng, 0.0, 0.0, 0.3))
    for c in cfg["children"]:
        if c.get("algo", "").endswith("simplex") and G.chance(rng, 0.4):
            c["latch"] = G.pick(rng, 2, 3, 5) * c["dt"]
    ops = T.steps(rng, cfg, 20, dict(place=.12, disturb=.1, toggle=.06, reset=.06, fault=.06, solver=.06, sensor=.1))
    out = []
    for op in ops:
        if G.chance(rng, 0.08):
            out.append({"op": "kid", "i": rng.randrange(len(cfg["children"])), "v": G.chance(rng, 0.5)})
        out.append(op)
    return {"cfg": cfg, "ops": out}


def twins(cfg):
    if cfg["kind"] == "inspcascade":
        from run_time_assurance.zoo.cwh.inspection_1v1 import Inspection1v1RTA, SwitchingDeltaVLimitRTA

        with mods.AreStub(mods.ARE):
            return [mods.Mod(Inspection1v1RTA(), None, 3), mods.Mod(SwitchingDeltaVLimitRTA(), None, 3)]
    return [mods.make(c) for c in cfg["children"]]


def run(case, ctx):
    cfg = case["cfg"]
    a = mods.make(cfg)
    kids = twins(cfg)
    names = tuple(c.get("algo", c.get("kind")) for c in cfg.get("children", [])) or ("asif", "deltav")
    low, high = toy_bound(cfg.get("low")), toy_bound(cfg.get("high"))
    x = np.array(cfg["x0"], float)
    enabled = True
    seen = None
    for i, op in enumerate(case["ops"]):
        ctx.now = i
        ctx.op(op["op"])
        o = op["op"]
        if o == "place":
            x = np.array(op["x"], float)
        elif o == "disturb":
            x = x + np.array(op["d"], float)
        elif o == "enable":
            a.rta.enable = enabled = op["v"]
        elif o == "kid":
            a.rta.rta_list[op["i"]].enable = op["v"]
            kids[op["i"]].rta.enable = op["v"]
            ctx.fault("member-" + ("enabled" if op["v"] else "disabled"))
        elif o == "reset":
            a.rta.reset()
            for k in kids:
                k.rta.reset()
            enabled = True
        elif o == "step":
            fault = op.get("fault")
            if fault and fault["site"] != "solver" and fault["kind"] == "nan":
                fault = None
            op = dict(op, fault=fault)
            d, z = T.prepared(op, x)
            if op.get("noise") is not None:
                z = z + np.array(op["noise"], float)
            if op.get("stale") and seen is not None:
                z = seen
            seen = z.copy()
            ra = mods.step(a, z.copy(), d, ctx)
            ctx.step(op["dt"])
            u = np.array(op["ud"], float)
            raised = None
            member = []
            warned = False
            if enabled:
                for j, k in enumerate(kids):
                    r = mods.step(k, z.copy(), {"dt": op["dt"], "ud_in": u.copy(), "fault": fault})
                    warned = warned or bool(r["warned"])
                    if r["raised"]:
                        raised = r["raised"]
                        break
                    u = r["u"]
                    member.append(r["intervening"])
                    if cfg["kind"] == "cascade":
                        ctx.check(bool(a.rta.rta_list[j].intervening) == r["intervening"], "member-state",
                                  lambda: f"op {i}: member {j} of the cascade reports intervening={a.rta.rta_list[j].intervening}, its twin {r['intervening']}", i)
                if low is not None:
                    u = np.maximum(u, low)
                if high is not None:
                    u = np.minimum(u, high)
            ctx.log(ra["raised"], ra.get("u"), ra["intervening"])
            ctx.state(names, tuple(member), enabled, raised)
            want = {"raised": raised, "u": u, "intervening": any(member), "warned": ["w"] if warned else []}
            if raised:
                want["intervening"] = ra["intervening"]  # not reported for a period that failed
            ctx.checks += 1
            diff = mods.same_rec(ra, want)
            if diff:
                raise Violation("cascade", f"op {i} at {z.tolist()} desired {op['ud']}: cascade against the chain of its members: {diff}", i)
            if any(member):
                ctx.nontrivial += 1
            if ra["raised"] is None:
                info = a.rta.generate_info()
                ctx.check(np.allclose(np.array(info["control_actual"], float), ra["u"], atol=1e-6) and
                          np.allclose(np.array(info["control_desired"], float), op["ud"], atol=1e-6), "cascade-info",
                          lambda: f"op {i}: info {info}", i)
                x = mods.tame(cfg, a.plant(x, op["dt"], ra["u"]))
