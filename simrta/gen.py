"""Seeded generators of toy configurations and operation schedules (plain JSON)."""
from __future__ import annotations


def dy(rng, lo, hi, step=1 / 16):
    """a dyadic number: exactly representable in single precision"""
    return rng.randint(round(lo / step), round(hi / step)) * step


def pick(rng, *items):
    return items[rng.randrange(len(items))]


def chance(rng, p):
    return rng.random() < p


def gen_system(rng, name=None, plain=False):
    s = {"name": name or pick(rng, "di1", "di1", "di2")}
    if not plain:
        s["drag"] = pick(rng, 0.0, 0.0, 0.125, 0.25)
        s["mass"] = pick(rng, 1.0, 1.0, 0.5, 2.0)
        s["kg"] = pick(rng, 0.0, 0.0, 0.0, 0.03125, -0.0625)
    return s


ALPHAS = [[0, 0.5], [0, 0.25], [0, 1], [0, 0.25, 0, 0.125], [0, 0.5, 0, 0.03125], [0, 0.125, 0, 0.0625], [0, 2]]


def gen_constraint(rng, system, kind, idx, optim=False):
    n = 2 if system["name"] == "di1" else 4
    nv = n // 2
    s = {"type": kind, "name": f"{kind}{idx}"}
    if kind == "maxp":
        s.update(type="max", index=rng.randrange(nv), params={"limit_val": dy(rng, 1, 6)})
    elif kind == "minp":
        s.update(type="min", index=rng.randrange(nv), params={"limit_val": dy(rng, -6, -1)})
    elif kind == "maxv":
        s.update(type="max", index=nv + rng.randrange(nv), params={"limit_val": dy(rng, 0.25, 2)})
    elif kind == "minv":
        s.update(type="min", index=nv + rng.randrange(nv), params={"limit_val": dy(rng, -2, -0.25)})
    elif kind == "magv":
        s.update(type="mag", index=nv + rng.randrange(nv), params={"limit_val": dy(rng, 0.25, 2)})
    elif kind == "headway":
        s.update(index=rng.randrange(nv), params={"limit": dy(rng, 0.5, 5), "T": dy(rng, 0.5, 3, 0.25)})
    elif kind == "speed2":
        s.update(params={"vmax": dy(rng, 0.5, 2)})
    elif kind == "keepout":
        s.update(params={"r": dy(rng, 0.5, 2), "T": dy(rng, 0.5, 2, 0.25)})
    elif kind == "away":
        s.update(index=rng.randrange(nv), params={"c": dy(rng, -4, 4), "r": dy(rng, 0.25, 1.5)})
    elif kind == "hocbf":
        s.update(index=rng.randrange(nv), params={"limit_val": dy(rng, 1, 6)})
    if chance(rng, 0.4):
        s["bias"] = pick(rng, -0.125, -0.0625, -0.25, 0.125, -0.001)
    if optim:
        s["alpha"] = pick(rng, *ALPHAS)
        if chance(rng, 0.3):
            s["alpha_neg"] = pick(rng, [0, 4], [0, 1], [0, 2, 0, 1])
        if chance(rng, 0.3):
            s["bias_neg"] = pick(rng, 0.0, -0.125, -0.03125)
    if chance(rng, 0.1):
        s["enabled"] = False
    if s["type"] in LATE and chance(rng, 0.25):
        s["late"] = True
    return s


LATE = ("headway", "speed2", "keepout", "away")  # constraint classes a user wrote, which may set their parameters after construction

KINDS = {
    "esimplex": ["maxp", "minp", "maxv", "minv", "magv", "headway", "speed2", "keepout"],
    "isimplex": ["maxp", "minp", "maxv", "minv", "magv", "headway", "speed2", "keepout", "away"],
    "easif": ["maxv", "minv", "magv", "headway", "headway", "speed2", "keepout", "hocbf"],
    "iasif": ["maxp", "minp", "maxp", "minp", "magv", "headway", "maxv", "away", "away"],
    "dasif": ["headway", "headway", "maxv", "minv", "magv"],
    "diasif": ["headway", "maxv", "minv"],
}


def gen_bounds(rng, m, none_ok=True):
    k = rng.randrange(10)
    if k < 4:
        v = pick(rng, 1.0, 1, 0.5, 2.0)
        return -v, v
    if k < 6:
        hi = [dy(rng, 0.25, 2) for _ in range(m)]
        lo = [-dy(rng, 0.25, 2) for _ in range(m)]
        a = pick(rng, "list", "array")
        return {"as": a, "v": lo}, {"as": pick(rng, "list", "array"), "v": hi}
    if k < 7:
        if chance(rng, 0.3):
            return pick(rng, (0.0, dy(rng, 0.25, 2)), (-dy(rng, 0.25, 2), 0.0), (0, 1), ({"as": "array", "v": [0.0] * m}, dy(rng, 0.25, 2)))
        return -dy(rng, 0.25, 2), dy(rng, 0.25, 2)
    if k < 8:
        return {"as": "list", "v": [-dy(rng, 0.25, 2) for _ in range(m)]}, dy(rng, 0.5, 2)
    if not none_ok:
        return -1, 1
    return pick(rng, (None, 1.0), (-1.0, None), (None, None), (None, {"as": "list", "v": [0.75] * m}),
                (None, 0.0), (0.0, None), (0, None), (None, {"as": "list", "v": [0.0] * m}))


def gen_backup(rng, m, kinds=("brake", "counter", "integral", "mutating")):
    kind = pick(rng, *kinds)
    s = {"kind": kind, "k": pick(rng, 0.25, 0.5, 1.0, 2.0), "q": pick(rng, 0.125, 0.25, 0.0625)}
    if chance(rng, 0.4):
        s["const"] = [dy(rng, -0.5, 0.5) for _ in range(m)]
    s["jit"] = chance(rng, 0.5 if kind == "brake" else 0.3)
    if kind == "counter" and chance(rng, 0.5):
        s["init"] = [dy(rng, 0, 2), 0.0]
    if kind in ("integral", "mutating") and chance(rng, 0.5):
        s["init"] = [dy(rng, -1, 1) for _ in range(m)]
    return s


def gen_sub(rng, num):
    s = {}
    if chance(rng, 0.5):
        s["num_check_all"] = rng.randint(0, max(1, num - 1)) if chance(rng, 0.8) else num + rng.randint(0, 2)
    if chance(rng, 0.5):
        s["skip_length"] = rng.randint(1, 4)
    if chance(rng, 0.35):
        s["subsample_constraints_num_least"] = rng.randint(1, 3)
    if chance(rng, 0.3):
        s["keep_first"] = True
    if chance(rng, 0.3):
        s["keep_last"] = True
    return s


# (steps, step size): the window steps * step size is a whole number of steps that floating point division falls short of
ODD_WINDOWS = [(k, dt) for dt in (0.1, 0.2, 0.4, 0.4, 0.8, 1.1) for k in (3, 6, 7, 12) if int(round(k * dt, 9) / dt) < k]


def odd_window(rng, cfg):
    k, cfg["dt"] = pick(rng, *ODD_WINDOWS)
    cfg["window"] = round(k * cfg["dt"], 9)


def edgy_sub(rng, cfg):
    """subsampling options at and beyond the ends of the trajectory"""
    num = round(cfg["window"] / cfg["dt"]) + 1
    for c in cfg["constraints"]:
        c["sub"] = {"num_check_all": pick(rng, -1, 0, 1, num - 1, num, num + 1, num + 2), "skip_length": pick(rng, 1, 2, num - 1 or 1, num + 1)}
        if chance(rng, 0.6):
            c["sub"]["subsample_constraints_num_least"] = pick(rng, 1, 2, 2, 3, num)
        if chance(rng, 0.2):
            c["sub"]["keep_first"] = True
        if chance(rng, 0.2):
            c["sub"]["keep_last"] = True


def turning_sub(rng, cfg):
    """the backup trajectory turns around inside a long window of which only some points are kept, so that which ones matters"""
    m = 1 if cfg["system"]["name"] == "di1" else 2
    cfg["dt"] = pick(rng, 0.25, 0.5)
    num = rng.randint(7, 12)
    cfg["window"] = num * cfg["dt"]
    cfg["backup"] = {"kind": "brake", "k": pick(rng, 0.25, 0.5), "q": 0.125, "const": [pick(rng, -0.5, 0.5, -0.25, 0.25, -0.75, 0.75) for _ in range(m)],
                     "jit": chance(rng, 0.5)}
    for c in cfg["constraints"]:
        c["sub"] = {"num_check_all": pick(rng, 0, 0, 1, 2), "skip_length": rng.randint(2, 4), "subsample_constraints_num_least": pick(rng, 1, 1, 2)}
        if chance(rng, 0.2):
            c["sub"]["keep_first"] = True
        if chance(rng, 0.2):
            c["sub"]["keep_last"] = True


def long_window(rng, cfg):
    cfg["dt"] = pick(rng, 0.125, 0.25)
    cfg["window"] = rng.randint(13, 40) * cfg["dt"]


def turning_window(rng, cfg):
    """a long window in which the backup controller first brakes and then turns around, so that the worst point lies anywhere in it"""
    m = 1 if cfg["system"]["name"] == "di1" else 2
    cfg["dt"] = pick(rng, 0.25, 0.5)
    cfg["window"] = rng.randint(3, 34) * cfg["dt"]
    cfg["backup"]["k"] = pick(rng, 0.0, 0.25, 0.5)
    cfg["backup"]["const"] = [pick(rng, -0.5, 0.5, -0.25, 0.25, -0.75, 0.75) for _ in range(m)]


DTS = [0.25, 0.5, 1.0, 0.125]


def gen_toy(rng, algo, system=None, ncon=None, none_bounds=True, backup_kinds=None, plain=False, direct=True, slack=False,
            latch=True, kinds=None):
    system = system or gen_system(rng, plain=plain)
    m = 1 if system["name"] == "di1" else 2
    cfg = {"algo": algo, "system": system}
    pool = list(kinds or KINDS[algo])
    if system["name"] == "di1":
        pool = [k for k in pool if k != "keepout"]
    ncon = ncon or pick(rng, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 4, 5)
    cfg["constraints"] = [gen_constraint(rng, system, pick(rng, *pool), i, algo.endswith("asif")) for i in range(ncon)]
    if all(c.get("enabled") is False for c in cfg["constraints"]):
        cfg["constraints"][0].pop("enabled")
    cfg["low"], cfg["high"] = gen_bounds(rng, m, none_bounds)
    dt = pick(rng, *DTS)
    cfg["dt"] = dt
    if algo in ("esimplex", "isimplex"):
        cfg["backup"] = gen_backup(rng, m, backup_kinds or ("brake", "brake", "counter", "integral", "mutating"))
        if latch and chance(rng, 0.5):
            cfg["latch"] = pick(rng, dt, 2 * dt, 3 * dt, 5 * dt, 2.5 * dt, 0.5 * dt)
        cfg["pred"] = pick(rng, "np", "np", "np", "jnp", "jit")
        if algo == "isimplex":
            cfg["window"] = pick(rng, 1, 2, 3, 4, 6) * dt + pick(rng, 0.0, 0.0, 0.0625)
            if chance(rng, 0.1):
                cfg["window"] = 0.5 * dt
    else:
        if chance(rng, 0.25):
            cfg["epsilon"] = pick(rng, 0.125, 0.5, 0.001)
    if algo == "iasif":
        cfg["backup"] = gen_backup(rng, m, backup_kinds or ("brake", "brake", "counter", "integral"))
        cfg["pred"] = "np"
        if chance(rng, 0.2):
            cfg["library_pred"] = True
        num = pick(rng, 2, 3, 4, 5, 7)
        cfg["window"] = num * dt
        for c in cfg["constraints"]:
            if chance(rng, 0.7):
                c["sub"] = gen_sub(rng, num + 1)
    if direct and algo in ("easif", "iasif") and chance(rng, 0.3):
        cfg["direct"] = [{"name": f"dir{j}", "params": {"w": direct_weight(rng, m), "b": dy(rng, -1, 0.25), "k": pick(rng, 0.0, 0.0625, -0.0625)}}
                         for j in range(pick(rng, 1, 1, 2))]
        for d in cfg["direct"]:
            if chance(rng, 0.2):
                d["enabled"] = False
    if slack and algo != "diasif":
        for c in cfg["constraints"]:
            if chance(rng, 0.5):
                c["slack"] = pick(rng, 1e12, 1e6, 1e4, 1.0)
    if chance(rng, 0.12) and ncon > 1:
        cfg["use"] = [c["name"] for c in cfg["constraints"] if chance(rng, 0.6)] or [cfg["constraints"][0]["name"]]
    cfg["x0"] = gen_x(rng, system, 0.5)
    return cfg


def soft_mix(rng, cfg):
    """hard and soft constraints in any order, with priorities the reference can resolve"""
    cfg["system"]["kg"] = 0.0
    pool = ["headway", "maxv", "minv"] if cfg["algo"] == "dasif" else [k for k in KINDS[cfg["algo"]] if k != "keepout"]
    cfg["constraints"] = [gen_constraint(rng, cfg["system"], pick(rng, *pool), i, True) for i in range(pick(rng, 2, 3, 3, 4))]
    cfg.pop("use", None)
    for c in cfg["constraints"]:
        c.pop("enabled", None)
        if chance(rng, 0.7):
            c["slack"] = pick(rng, 1.0, 4.0, 100.0, 1e4)


def direct_weight(rng, m):
    w = [dy(rng, -1, 1, 0.25) for _ in range(m)]
    if not any(w):
        w[0] = 1.0
    return w


def gen_x(rng, system, spread=1.0):
    nv = 1 if system["name"] == "di1" else 2
    return [dy(rng, -6 * spread, 6 * spread) for _ in range(nv)] + [dy(rng, -2 * spread, 2 * spread) for _ in range(nv)]


class Profile:
    """desired control in segments, so that the plant is pushed somewhere instead of jittering in place"""

    def __init__(self, rng, m, mag=None):
        self.rng, self.m, self.left = rng, m, 0
        self.mag = mag or [0.25, 0.5, 1.0, 1.0, 1.5, 3.0]

    def __call__(self):
        if self.left <= 0:
            self.left = self.rng.randint(1, 8)
            self.kind = pick(self.rng, "push", "push", "push", "rand", "zero")
            a = pick(self.rng, *self.mag)
            self.d = [a * pick(self.rng, 1, -1, 0.5, -0.5, 1) for _ in range(self.m)]
        self.left -= 1
        if self.kind == "push":
            return list(self.d)
        if self.kind == "zero":
            return [0.0] * self.m
        return [dy(self.rng, -2, 2) for _ in range(self.m)]


def gen_ops(rng, cfg, n, mix=None, dts=None, jitter=0.1):
    """mix: {op kind: weight per step}. Steps dominate; other operations are sprinkled between them."""
    mix = mix or {}
    system = cfg["system"]
    m = 1 if system["name"] == "di1" else 2
    prof = Profile(rng, m)
    ops = []
    active = {k: v for k, v in mix.items() if chance(rng, 0.75)}  # swarm: each run enables a random subset
    names = [c["name"] for c in cfg["constraints"] if cfg.get("use") is None or c["name"] in cfg["use"]]
    byname = {c["name"]: c for c in cfg["constraints"]}
    enabled = True
    last = None
    for _ in range(n):
        before = len(ops)
        for k in sorted(active):
            if not chance(rng, active[k]):
                continue
            if k == "place":
                ops.append({"op": "place", "x": gen_x(rng, system, 0.8)})
            elif k == "reset":
                ops.append({"op": "reset"})
                enabled = True
            elif k == "toggle":
                enabled = not enabled
                ops.append({"op": "enable", "v": enabled})
            elif k == "param":
                c = byname[pick(rng, *names)]
                key = pick(rng, *sorted(c["params"]))
                fresh = gen_constraint(rng, system, _kind_of(c, system), 0)["params"][key]
                ops.append({"op": "param", "name": c["name"], "key": key, "v": fresh, "how": pick(rng, "item", "item", "dict")})
            elif k == "cenable":
                ops.append({"op": "cenable", "name": pick(rng, *names), "v": chance(rng, 0.5)})
            elif k == "direct" and cfg.get("direct"):
                key = pick(rng, "b", "k", "w", "enabled")
                v = {"b": dy(rng, -1, 0.25), "k": pick(rng, 0.0, 0.0625, -0.0625), "w": direct_weight(rng, m), "enabled": chance(rng, 0.5)}[key]
                ops.append({"op": "direct", "name": pick(rng, *cfg["direct"])["name"], "key": key, "v": v})
            elif k == "telemetry":
                ops.append({"op": "telemetry", "as": pick(rng, None, None, "box", "jnp")})
            elif k == "probe":
                ops.append({"op": "probe", "dt": cfg["dt"], "runs": [rng.randint(0, 4) for _ in range(rng.randint(1, 3))],
                            "peek": chance(rng, 0.5)})
            elif k == "disturb":
                ops.append({"op": "disturb", "d": [dy(rng, -0.5, 0.5) for _ in range(2 * m)]})
        dt = cfg["dt"]
        if dts:
            dt = pick(rng, *dts)
        elif chance(rng, jitter):
            dt = pick(rng, *DTS)
        st = {"op": "step", "dt": dt, "ud": prof()}
        if chance(rng, 0.08):  # values single precision cannot hold
            st["ud"] = [v + pick(rng, 0.1, 0.001, -0.03, 1e-5) for v in st["ud"]]
        if "sensor" in active and chance(rng, active["sensor"]):
            st["noise"] = [dy(rng, -0.25, 0.25, 1 / 64) for _ in range(2 * m)]
        if "stale" in active and chance(rng, active["stale"]):
            st["stale"] = True
        if chance(rng, 0.15):
            st["as"] = pick(rng, "jnp", "f32", "box", "int")
            if st["as"] == "int":
                st["ud"] = [float(round(v)) for v in st["ud"]]
        if "aim" in active and chance(rng, active["aim"]):
            st["aim"] = {"worst": pick(rng, 0, 1, 1, 1, 2), "pick": rng.randint(0, 5)}
        if "edge" in active and chance(rng, active["edge"]):
            st["aim"] = {"worst": 0, "pick": rng.randint(0, 5), "edge": True}
            st.pop("noise", None)
            st.pop("stale", None)
            ops.append({"op": "place", "x": gen_x(rng, system, 0.5)})
        if "fault" in active and chance(rng, active["fault"]):
            st["fault"] = {"site": pick(rng, "backup", "pred"), "nth": rng.randint(1, 6), "kind": "raise"}
        if "nanpred" in active and chance(rng, active["nanpred"]):
            st["fault"] = {"site": "pred", "nth": rng.randint(1, 4), "kind": "nan"}
        if "solver" in active and chance(rng, active["solver"]):
            st["fault"] = {"site": "solver", "nth": 1, "kind": pick(rng, "inconsistent", "inconsistent", "other", "memory")}
        if last and chance(rng, 0.3 if any(o["op"] in CHANGES for o in ops[before:]) else 0.05):
            st.pop("as", None)
            st.update(again(last))
        last = st
        ops.append(st)
    return ops


CHANGES = ("param", "cenable", "direct", "enable", "reset", "telemetry")


def again(last):
    """the very same measurement and command as in the period before"""
    st = {"dt": last["dt"], "ud": list(last["ud"]), "stale": True}
    if "as" in last:
        st["as"] = last["as"]
    return st


def _kind_of(c, system):
    nv = 1 if system["name"] == "di1" else 2
    t = c["type"]
    if t in ("max", "min"):
        return t + ("v" if c["index"] >= nv else "p")
    if t == "mag":
        return "magv"
    return t


# ---------------------------------------------------------------------------------------------------------------------
# zoo


def unit(rng, dim):
    while True:
        v = [rng.gauss(0, 1) for _ in range(dim)]
        n = sum(a * a for a in v)**0.5
        if n > 1e-3:
            return [a / n for a in v]


def r6(v):
    return float(f"{v:.6g}")


def gen_zoo(rng, zoo, algo, plain=False):
    """configuration of a zoo module; plain: the documented defaults"""
    cfg = {"zoo": zoo, "algo": algo, "kw": {}}
    kw = cfg["kw"]
    cfg["dt"] = 1.0
    if zoo.startswith("docking"):
        dim = int(zoo[-2])
        if not plain:
            # few distinct values: every combination is compiled anew
            if chance(rng, 0.5):
                kw["n"] = pick(rng, 0.005, 0.02)
            if chance(rng, 0.3):
                kw["m"] = pick(rng, 1.0, 100.0)
            if chance(rng, 0.3):
                kw["v0"] = pick(rng, 0.5, 1.0)
            if chance(rng, 0.25):
                kw["v1_coef"] = pick(rng, 1.0, 3)
            if chance(rng, 0.25):
                kw["v0_distance"] = pick(rng, 5.0, 50.0)
            for ax in "xyz"[:dim]:
                if chance(rng, 0.35):
                    kw[f"{ax}_vel_limit"] = pick(rng, 0.5, 1.0, 3.0)
            if chance(rng, 0.3):
                kw["control_bounds_high"], kw["control_bounds_low"] = pick(rng, (0.5, -0.5), (2.0, -1.0), ([1.0] * dim, [-0.75] * dim))
            if algo != "easif" and chance(rng, 0.3):
                kw["integration_method"] = "Euler"
            if chance(rng, 0.1):
                kw["constraints_to_use"] = pick(rng, ["rel_vel"], ["rel_vel", "y_vel"], ["x_vel", "y_vel"])
            cfg["dt"] = pick(rng, 1.0, 1.0, 0.5)
            if algo in ("isimplex", "iasif"):
                if chance(rng, 0.5):
                    cfg["window"] = pick(rng, 2.0, 3.0, 4.5)
    elif zoo == "integrator":
        cfg["dt"] = 1.0
        if not plain:
            cfg["dt"] = pick(rng, 1.0, 0.5, 0.125, 0.25)
            if chance(rng, 0.3):
                kw["m"] = pick(rng, 2.0, 0.5)
            if algo != "easif" and chance(rng, 0.5):
                kw["integration_method"] = pick(rng, "RK45", "Euler")
            if algo in ("isimplex", "iasif") and chance(rng, 0.5):
                cfg["window"] = pick(rng, 1.0, 3.0)
            if chance(rng, 0.2):
                kw["control_bounds_high"], kw["control_bounds_low"] = pick(rng, (2, -2), (0.5, -1))
    else:
        if not plain:
            if chance(rng, 0.4):
                kw["n"] = pick(rng, 0.002, 0.003)
            if chance(rng, 0.25):
                kw["m"] = pick(rng, 8.0, 20.0)
            if chance(rng, 0.3):
                kw["sun_vel"] = pick(rng, 0.005, -0.003)
            if chance(rng, 0.25):
                kw["r_max"] = 300
            if chance(rng, 0.25):
                kw["fov"] = 1.5
            if chance(rng, 0.2):
                kw["vel_limit"] = 0.5
            if chance(rng, 0.2):
                kw["chief_radius"] = 8
            if chance(rng, 0.2):
                kw["deputy_radius"] = 3
            if chance(rng, 0.2):
                kw["v0"] = 0.5
            if chance(rng, 0.2):
                kw["v1_coef"] = 3
            if chance(rng, 0.15):
                kw["v0_distance"] = 20
            if zoo == "insp1v1" and algo == "easif" and chance(rng, 0.3):
                kw["use_hocbf"] = True
            if kw.get("n") == 0.003 and kw.get("m") == 20.0:
                kw["r_max"] = 300
        if zoo == "insp3d":
            kw["num_deputies"] = pick(rng, 2, 2, 3)
    if algo in ("esimplex", "isimplex") and not plain and chance(rng, 0.4):
        cfg["latch"] = pick(rng, 1, 2, 3, 5) * cfg["dt"]
    if algo in ("easif", "iasif", "dasif") and not plain and chance(rng, 0.2):
        cfg["solver_exception"] = True
    cfg["x0"] = gen_zoo_x(rng, cfg)
    return cfg


def gen_zoo_x(rng, cfg, inside=False):
    """a state near the boundary of one of the constraints"""
    z, kw = cfg["zoo"], cfg["kw"]
    if z == "integrator":
        v = rng.uniform(-0.3, 1.6)
        if inside:
            v = rng.uniform(0, 1.2)
            return [r6(-v * v / 2 - rng.choice([0.05, 0.3, 1.0]) * rng.random() - 0.02), r6(v)]
        return [r6(-v * v / 2 + rng.uniform(-0.6, 0.15)), r6(v)]
    n = kw.get("n", 0.001027)
    if z.startswith("docking"):
        dim = int(z[-2])
        r = pick(rng, 0.5, 5.0, 50.0, 500.0, 2000.0) * rng.uniform(0.5, 1.5)
        coef = kw.get("v1_coef", 2 if dim == 2 else 4)
        lim = kw.get("v0", 0.2) + coef * n * (r - kw.get("v0_distance", 0))
        lim = max(lim, 0.02)
        for ax in "xyz"[:dim]:
            lim = min(lim, kw.get(f"{ax}_vel_limit", 10) * 1.2)
        s = lim * (rng.uniform(0.1, 0.8) if inside else rng.choice([rng.uniform(0.2, 1.2), rng.uniform(0.9, 1.02)]))
        return [r6(r * a) for a in unit(rng, dim)] + [r6(s * a) for a in unit(rng, dim)]
    R = kw.get("chief_radius", 5) + kw.get("deputy_radius", 5)
    rmax = kw.get("r_max", 1000)
    if cfg.get("focus"):
        return focus_x(rng, cfg, R, rmax, n)

    def craft():
        k = rng.randrange(5)
        d = unit(rng, 3)
        sun = rng.uniform(-3.1, 3.1)
        if k == 0:  # near the chief, moving in
            r, s, dv = R + rng.uniform(0.3, 12), rng.uniform(0, 1.0), [-a + 0.5 * b for a, b in zip(d, unit(rng, 3))]
        elif k == 1:  # near the outer limit, moving out
            r, s, dv = rmax - rng.uniform(2, 40), rng.uniform(0, 1.2), [a + 0.5 * b for a, b in zip(d, unit(rng, 3))]
        elif k == 2:  # near the sun cone
            th = kw.get("fov", 1.0472) / 2 + rng.uniform(0.02, 0.3)
            d = unit(rng, 3)
            import math
            c = [-math.cos(sun), -math.sin(sun), 0.0]
            dot = sum(a * b for a, b in zip(c, d))
            e = [a - dot * b for a, b in zip(d, c)]
            ne = sum(a * a for a in e)**0.5
            e = [a / ne for a in e]
            d = [math.cos(th) * a + math.sin(th) * b for a, b in zip(c, e)]
            r, s = rng.choice([30.0, 80.0, 250.0]), rng.uniform(0, 0.9)
            dv = [-a + 0.6 * b for a, b in zip(e, unit(rng, 3))]
        else:
            r, s, dv = rng.uniform(R + 5, 0.9 * rmax), rng.uniform(0, 1.1), unit(rng, 3)
        nv = sum(a * a for a in dv)**0.5
        lim = kw.get("v0", 0.2) + kw.get("v1_coef", 2) * n * (r - kw.get("v0_distance", 0))
        s = min(s, max(lim, 0.05) * (0.8 if inside else rng.uniform(0.5, 1.15)))
        return [r * a for a in d], [s * a / nv for a in dv], sun

    p, v, sun = craft()
    if z == "insp1v1":
        return [r6(a) for a in p + v] + [r6(sun), 0.0]
    out = [r6(a) for a in p + v]
    for _ in range(1, kw["num_deputies"]):
        if chance(rng, 0.6):  # close to the first one
            d = unit(rng, 3)
            g = 2 * kw.get("deputy_radius", 5) + rng.uniform(0.5, 20)
            w = unit(rng, 3)
            out += [r6(a + g * b) for a, b in zip(p, d)] + [r6(a + rng.uniform(0, 0.4) * b) for a, b in zip(v, w)]
        else:
            q, w, _ = craft()
            out += [r6(a) for a in q + w]
    return out + [r6(sun)]


def isolate(rng, cfg):
    """one constraint alone, around its boundary on either side, with room to act: what is enforced is this constraint's condition and nothing else"""
    kw = cfg["kw"]
    kw.pop("use_hocbf", None)
    names = ["rel_vel", "r_max", "PSM", "chief_collision", pick(rng, "x_vel", "y_vel", "z_vel")]
    if cfg["zoo"] == "insp1v1":
        names += ["sun"] * 2
        if cfg["algo"] == "easif" and chance(rng, 0.1):
            kw["use_hocbf"] = True
    else:
        kw["num_deputies"] = pick(rng, 2, 3, 3, 4, 4, 5)
        i = kw["num_deputies"] - 1 if chance(rng, 0.6) else rng.randint(1, kw["num_deputies"] - 1)
        names += ["chief_sun"] + [f"{a}_{i}" for a in ("deputy_collision", "deputy_sun", "deputy_sun", "deputy_PSM")] * 2
    name = pick(rng, *names)
    if kw.get("use_hocbf"):
        name = "chief_collision_hocbf"
    cfg["focus"] = name
    kw["constraints_to_use"] = [name]
    if chance(rng, 0.8):
        kw["control_bounds_high"], kw["control_bounds_low"] = 50.0, -50.0
    cfg.pop("solver_exception", None)
    cfg["x0"] = gen_zoo_x(rng, cfg)


def focus_x(rng, cfg, R, rmax, n):
    import math

    kw, name = cfg["kw"], cfg["focus"]
    sun = rng.uniform(-3.1, 3.1)
    c = [-math.cos(sun), -math.sin(sun), 0.0]

    def cone_dir():
        th = kw.get("fov", 1.0472) / 2 + pick(rng, -1, 1, 1) * rng.uniform(0.04, 0.4)
        d = unit(rng, 3)
        dot = sum(a * b for a, b in zip(c, d))
        e = [a - dot * b for a, b in zip(d, c)]
        ne = sum(a * a for a in e)**0.5
        return [math.cos(th) * a + math.sin(th) * b / ne for a, b in zip(c, e)]

    def vel(d, top):
        s = rng.uniform(0, top)
        w = unit(rng, 3)
        v = [pick(rng, -1, -1, 1) * a + 0.7 * b for a, b in zip(d, w)]
        return [s * a for a in v]

    d = unit(rng, 3)
    r, top = rng.uniform(20, 200), 1.0
    if name.startswith("chief_collision"):
        r = R * rng.uniform(0.4, 0.97) if chance(rng, 0.4) else R + rng.uniform(0.3, 12)
    elif name == "r_max":
        r = rmax + rng.uniform(-40, 30)
    elif name in ("sun", "chief_sun"):
        d = cone_dir()
    elif name == "PSM":
        r = R + rng.uniform(2, 60)
    elif name == "rel_vel":
        top = 2 * (kw.get("v0", 0.2) + kw.get("v1_coef", 2) * n * r)
    elif name.endswith("_vel"):
        top = 1.5 * kw.get("vel_limit", 1)
    p = [r * a for a in d]
    v = vel(d, top)
    if cfg["zoo"] == "insp1v1":
        return [r6(a) for a in p + v] + [r6(sun), 0.0]
    out = [r6(a) for a in p + v]
    for i in range(1, kw["num_deputies"]):
        g, e = rng.uniform(10, 100), unit(rng, 3)
        if name == f"deputy_collision_{i}":
            g = 2 * kw.get("deputy_radius", 5)
            g = g * rng.uniform(0.3, 0.97) if chance(rng, 0.4) else g + rng.uniform(0.3, 12)
        elif name == f"deputy_sun_{i}":
            e = cone_dir()
            if chance(rng, 0.5):
                e = [-a for a in e]
        elif name == f"deputy_PSM_{i}":
            g = R + rng.uniform(2, 40)
        w = vel(e, 1.0)
        out += [r6(a - g * b) for a, b in zip(p, e)] + [r6(a - b) for a, b in zip(v, w)]
    return out + [r6(sun)]


def gen_zoo_ops(rng, cfg, n, mix=None, pin=False):
    z = cfg["zoo"]
    m = {"integrator": 1, "docking2d": 2}.get(z, 3)
    mix = mix or {}
    active = {k: v for k, v in mix.items() if chance(rng, 0.75)}
    prof = Profile(rng, m)
    ops = []
    enabled = True
    names = {"integrator": ["rel_vel"], "docking2d": ["rel_vel", "x_vel", "y_vel"], "docking3d": ["rel_vel", "x_vel", "z_vel"],
             "insp1v1": ["rel_vel", "sun", "r_max", "PSM", "x_vel", "chief_collision"],
             "insp3d": ["rel_vel", "chief_sun", "r_max", "PSM", "y_vel", "chief_collision", "deputy_collision_1", "deputy_sun_1", "deputy_PSM_1"]}[z]
    if cfg["kw"].get("constraints_to_use"):
        names = [k for k in names if k in cfg["kw"]["constraints_to_use"]]
    if cfg.get("focus"):
        names = [cfg["focus"]]
    if cfg["kw"].get("use_hocbf"):
        names = [k if k != "chief_collision" else "chief_collision_hocbf" for k in names]
    last = None
    for _ in range(n):
        before = len(ops)
        for k in sorted(active):
            if not chance(rng, active[k]):
                continue
            if k == "place":
                ops.append({"op": "place", "x": gen_zoo_x(rng, cfg)})
            elif k == "reset":
                ops.append({"op": "reset"})
                enabled = True
            elif k == "toggle":
                enabled = not enabled
                ops.append({"op": "enable", "v": enabled})
            elif k == "telemetry":
                ops.append({"op": "telemetry"})
            elif k == "cenable":
                ops.append({"op": "cenable", "name": pick(rng, *names), "v": chance(rng, 0.5)})
            elif k == "param" and z != "integrator":
                nm = pick(rng, *names)
                key, v = {
                    f"deputy_sun_{nm[-1]}": ("fov", pick(rng, 0.8, 1.2)), f"deputy_collision_{nm[-1]}": ("collision_radius", pick(rng, 8, 12)),
                    f"deputy_PSM_{nm[-1]}": ("collision_radius", pick(rng, 8, 12)),
                    "rel_vel": pick(rng, ("v0", pick(rng, 0.1, 0.3, 1.0)), ("v1", pick(rng, 0.001, 0.01, 0.05))),
                    "r_max": ("r_max", pick(rng, 400, 800, 1200)), "PSM": ("collision_radius", pick(rng, 8, 15)),
                    "chief_collision": ("collision_radius", pick(rng, 8, 12)), "chief_collision_hocbf": ("collision_radius", pick(rng, 8, 12)),
                    "sun": ("fov", pick(rng, 0.8, 1.2)), "chief_sun": ("fov", pick(rng, 0.8, 1.2)), "deputy_sun_1": ("fov", pick(rng, 0.8, 1.2)),
                    "deputy_collision_1": ("collision_radius", pick(rng, 8, 12)), "deputy_PSM_1": ("collision_radius", pick(rng, 8, 12)),
                }.get(nm, ("limit_val", pick(rng, 0.25, 0.75, 2.0, 8.0)))
                ops.append({"op": "param", "name": nm, "key": key, "v": v, "how": "item" if nm.endswith("hocbf") else pick(rng, "item", "dict")})
        st = {"op": "step", "dt": cfg["dt"], "ud": prof()}
        if chance(rng, 0.15):
            st["as"] = pick(rng, "jnp", "f32", "int")
            if st["as"] == "int":
                st["ud"] = [float(round(v)) for v in st["ud"]]
        if "solver" in active and chance(rng, active["solver"]):
            st["fault"] = {"site": "solver", "nth": 1, "kind": pick(rng, "inconsistent", "inconsistent", "other", "memory")}
        if last and chance(rng, 0.3 if any(o["op"] in CHANGES for o in ops[before:]) else 0.05):
            st.pop("as", None)
            st.update(again(last))
        last = st
        ops.append(st)
    return ops
