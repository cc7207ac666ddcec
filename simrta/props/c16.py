"""C16: a module neither modifies what it is given nor depends on what the caller later does with it, and records stay as reported."""
from .. import gen as G, mods
from ..core import Violation
from . import _twin as T
from ._lock import REAL, STUB  # noqa: F401
import numpy as np

PLAN = {"quick": 216, "thorough": 4000}
RULE = ("a case is a seeded module flown twice on the same schedule: once by a caller who overwrites every array and dictionary he passed in or "
        "got back after each call, once by a caller with private copies; non-trivial when the module intervened")
STATE_MEASURE = "(module kind, what was overwritten, intervening, enabled) tuples"
MIX = dict(place=.08, disturb=.1, toggle=.06, reset=.03, telemetry=.15, fault=.04)


def gen(rng, index, tier):
    k = index % 9
    place = None
    if k < 4:
        cfg = T.toy_cfg(rng, ("esimplex", "isimplex", "easif", "iasif")[k])
    elif k == 4:
        cfg = T.toy_cfg(rng, "dasif")
    elif k == 5:
        cfg = T.cascade_cfg(rng, custom=0.3)
    elif k == 6:
        cfg = T.deltav_cfg(rng)
        place = lambda r: T.deltav_x(r, cfg["kw"].get("delta_v_limit", 20))  # noqa: E731
    elif k == 7:
        z, a = G.pick(rng, ("docking2d", "esimplex"), ("docking3d", "easif"), ("integrator", "isimplex"), ("docking2d", "iasif"))
        cfg = G.gen_zoo(rng, z, a)
    elif index % 36 == 8:
        cfg = {"kind": "combined", "num": 2, "dt": 1.0}
        cfg["x0"] = T.combined_x(rng, 2)
        place = lambda r: T.combined_x(r, 2)  # noqa: E731
    elif index % 36 in (17, 26):
        cfg = T.custom_cfg(rng)
    else:
        cfg = T.toy_cfg(rng, G.pick(rng, "isimplex", "esimplex"), backup_kinds=("counter", "integral", "mutating"))
    ops = T.steps(rng, cfg, 6 if cfg.get("kind") == "combined" else 20, MIX, place)
    if "system" in cfg and "algo" in cfg and G.chance(rng, 0.5):
        cfg.setdefault("jit_dict", {})
        cfg["vandal_options"] = G.chance(rng, 0.6)
    for op in ops:
        if op["op"] == "step":
            op["vandal"] = [w for w in ("x", "ud", "out", "info") if G.chance(rng, 0.5)]
            op["in"] = G.pick(rng, "f64", "f64", "f32", "view", "jnp")
    return {"cfg": cfg, "ops": ops}


def as_in(v, how):
    if how == "jnp":
        import jax.numpy as jnp

        return jnp.array(v, dtype=float)
    if how == "f32":
        return np.array(v, np.float32)
    if how == "view":
        base = np.zeros((len(v), 2))
        base[:, 0] = v
        return base[:, 0]
    return np.array(v, float)


def same(a, b):
    return type(a) is type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b)


def run(case, ctx):
    cfg = case["cfg"]
    a, b = mods.make(cfg), mods.make(cfg)
    kind = cfg.get("kind") or cfg.get("zoo") or cfg["algo"]
    x = np.array(cfg["x0"], float)
    for s in a.seams:
        for k, v in s.given.items():
            ctx.check(same(v, s.given_as[k]), "input-changed", lambda: f"the constructor changed {k} from {s.given_as[k]} to {v}")
            if cfg.get("vandal_options"):
                ctx.fault("caller-overwrites-" + k)
                if isinstance(v, dict):
                    v.clear()
                elif isinstance(v, list):
                    v[:] = [0.0] * len(v)
                else:
                    v[:] = 0.0
    kept = []  # (what, live object, snapshot)
    seen = None
    for i, op in enumerate(case["ops"]):
        ctx.now = i
        ctx.op(op["op"])
        o = op["op"]
        if o == "place":
            x = np.array(op["x"], float)
        elif o == "disturb":
            x = x + np.array(op["d"], float)
        elif o == "enable":
            a.rta.enable = b.rta.enable = op["v"]
        elif o == "reset":
            a.rta.reset()
            b.rta.reset()
        elif o == "telemetry":
            if hasattr(a.rta, "update_constraint_values"):
                z = np.array(x)
                a.rta.update_constraint_values(z)
                ctx.check(np.array_equal(z, x), "input-changed", f"op {i}: update_constraint_values changed the state it was given", i)
                z[:] = 1e6
                b.rta.update_constraint_values(np.array(x))
        elif o == "step":
            z = seen if op.get("stale") and seen is not None else x
            seen = np.array(z)
            xin, ud = as_in(z, op["in"]), as_in(op["ud"], op["in"])
            sx, su = np.array(xin), np.array(ud)
            ra = mods.step(a, xin, dict(op, ud_in=ud), ctx)
            ctx.check(np.array_equal(np.array(xin), sx), "input-changed", lambda: f"op {i}: the state passed in was changed from {sx.tolist()} to {np.array(xin).tolist()}", i)
            ctx.check(np.array_equal(np.array(ud), su), "input-changed", lambda: f"op {i}: the desired control passed in was changed from {su.tolist()} to {np.array(ud).tolist()}", i)
            rb = mods.step(b, as_in(z, op["in"]), dict(op, ud_in=as_in(op["ud"], op["in"])))
            ctx.step(op["dt"])
            ctx.log(ra["raised"], ra.get("u"), ra["intervening"])
            ctx.state(kind, tuple(op["vandal"]), ra["intervening"], bool(a.rta.enable))
            diff = mods.same_rec(ra, rb)
            ctx.checks += 1
            if diff:
                raise Violation("aliasing", f"op {i}: a caller who reuses his arrays and one who does not get different results: {diff}", i)
            if ra["intervening"]:
                ctx.nontrivial += 1
            if ra["raised"] is None:
                ia, ib = mods.info_of(a.rta), mods.info_of(b.rta)
                before = ia
                d = mods.same_info(ia, ib)
                ctx.check(d is None, "aliasing", lambda: f"op {i}: info differs between the two callers: {d}", i)
                live = a.rta.generate_info()
                if "info" not in op["vandal"]:
                    kept.append((f"info of op {i}", {k: live[k] for k in ia}, ia))
                if "out" not in op["vandal"]:
                    kept.append((f"control returned at op {i}", ra["out"], np.array(ra["out"])))
                # overwrite
                for w in op["vandal"]:
                    ctx.fault("caller-overwrites-" + w)
                    if w == "x" and op["in"] != "jnp":
                        xin[:] = 1e3
                    if w == "ud" and op["in"] != "jnp":
                        ud[:] = -1e3
                    if w == "out" and isinstance(ra["out"], np.ndarray) and ra["out"].flags.writeable:
                        ra["out"][:] = 7e2
                        now = mods.info_of(a.rta)
                        ctx.check(np.array_equal(now["control_actual"], ia["control_actual"]), "aliasing",
                                  lambda: f"op {i}: writing into the returned control changed the recorded actual control", i)
                    if w == "ud" and "info" not in op["vandal"]:
                        now = mods.info_of(a.rta)
                        ctx.check(np.array_equal(now["control_desired"], ia["control_desired"]), "aliasing",
                                  lambda: f"op {i}: writing into the desired control passed in changed the recorded one", i)
                if "info" in op["vandal"]:
                    for v in live.values():
                        if isinstance(v, dict):
                            for k in v:
                                v[k] = -8e2
                        elif isinstance(v, np.ndarray) and v.flags.writeable:
                            v[:] = 9e2
                    again = mods.info_of(a.rta)
                    d = mods.same_info(again, before, 0.0)
                    ctx.check(d is None, "aliasing", lambda: f"op {i}: writing into a returned info dictionary changed what the module reports next: {d}", i)
                x = mods.tame(cfg, a.plant(x, op["dt"], ra["u"]))
    if not cfg.get("vandal_options"):
        for s in a.seams:
            for k, v in s.given.items():
                ctx.check(same(v, s.given_as[k]), "input-changed", lambda: f"{k} was changed from {s.given_as[k]} to {v}")
    for what, live, snap in kept:
        if isinstance(live, dict):
            got = {}
            for k, v in live.items():
                got[k] = dict(v) if isinstance(v, dict) else (v if v is None or isinstance(v, (bool, np.bool_)) else np.array(v, float))
            d = mods.same_info(got, snap, 0.0)
        else:
            d = None if np.array_equal(np.array(live), snap) else f"{np.array(live)} against {snap}"
        ctx.check(d is None, "record-changed", lambda: f"{what} was changed by later periods: {d}")
