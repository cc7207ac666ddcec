"""C25: the delta-v module switches exactly when the command could make the budget unreachable, stays switched until reset, and keeps the budget."""
from .. import gen as G, mods, zoo
from ..core import Violation
from . import _twin as T
from ._lock import REAL, STUB as _STUB
import numpy as np

STUB = _STUB + ["Riccati solver while constructing (the installed scipy cannot solve this equation): fixed stand-in solutions; the gains are derived by the real code"]
PLAN = {"quick": 1600, "thorough": 24000}
RULE = ("a case is a seeded budget, horizon, mass, orbit and gain and a schedule of control periods with disturbances, disabling and resets, in "
        "lockstep with a reference model; non-trivial when the module switched")
STATE_MEASURE = "(switched, enabled, periods since the switch capped, horizon, disturbed) tuples"


def gen(rng, index, tier):
    cfg = T.deltav_cfg(rng)
    cfg["kw"]["n_steps"] = G.pick(rng, 1, 2, 5, 10, 20, 60)
    if G.chance(rng, 0.05):
        del cfg["kw"]["n_steps"]
    if G.chance(rng, 0.2):
        cfg["kw"]["control_bounds_high"], cfg["kw"]["control_bounds_low"] = G.pick(rng, (0.5, -0.5), ([0.25, 1.0, 0.5], [-1.0, -0.25, -0.5]))
    lim = cfg["kw"].get("delta_v_limit", 20)
    n = rng.randint(15, 40) if G.chance(rng, 0.9) else rng.randint(60, 160)
    mix = dict(place=.03, toggle=.03, reset=.03) if G.chance(rng, 0.7) else {}
    ops = T.steps(rng, cfg, n, mix, lambda r: start(r, lim))
    scale = G.pick(rng, 1.0, 0.3, 0.1)
    for op in ops:
        if op["op"] == "step":
            op["ud"] = [max(-1.0, min(1.0, G.r6(v * scale))) if G.chance(rng, 0.9) else v for v in op["ud"]]
            if G.chance(rng, 0.05):
                op["disturb"] = [G.r6(rng.gauss(0, 1)) for _ in range(3)] + [G.r6(rng.gauss(0, 0.02)) for _ in range(3)] + [0.0, 0.0]
    if G.chance(rng, 0.1):  # resting, with exactly the budget spent: within the limit, nothing more will be spent
        ops[0:0] = [{"op": "place", "x": [0.0] * 6 + [0.0, float(lim)]}] + [{"op": "step", "dt": cfg["dt"], "ud": [0.0] * 3} for _ in range(rng.randint(1, 3))]
    return {"cfg": cfg, "ops": ops}


def start(rng, lim):
    x = T.deltav_x(rng, lim)
    if G.chance(rng, 0.1):  # more spent than the budget allows
        x[7] = G.r6(lim + rng.choice([1e-3, 0.1, 2.0]) * (0.1 + rng.random()))
    return x


class Ref:
    def __init__(self, cfg):
        kw = cfg["kw"]
        self.n, self.m = kw.get("n", zoo.N0), kw.get("m", zoo.M0)
        self.limit, self.steps = kw.get("delta_v_limit", 20), kw.get("n_steps", 500)
        self.A, self.B = zoo.cwh(self.n, self.m, 3)
        self.K1, self.K2 = mods.deltav_gains(self.m, cfg["are"])
        self.hi = np.broadcast_to(np.array(kw.get("control_bounds_high", 1), float), (3,))
        self.lo = np.broadcast_to(np.array(kw.get("control_bounds_low", -1), float), (3,))
        self.reset()

    def clip(self, u):
        return np.clip(u, self.lo, self.hi)

    def reset(self):
        self.latched = False
        self.e = np.zeros(6)

    def backup(self, x, dt, e):
        err = np.array([0, 0, 0, x[3] - self.n / 2 * x[1], x[4] + 2 * self.n * x[0], 0])
        return self.clip(np.clip(-self.K1 @ err - self.K2 @ e, -1, 1)), e + err * dt

    def euler(self, x, dt, u):
        return x + dt * np.concatenate((self.A @ x[:6] + self.B @ u, [-self.n, np.sum(np.abs(u)) / self.m]))

    def spent(self, x, dt, ud):
        """delta-v spent at the end of the command followed by the manoeuvre onto the safe orbit"""
        y, e = self.euler(x, dt, self.clip(ud)), self.e
        for _ in range(self.steps):
            u, e = self.backup(y, dt, e)
            y = self.euler(y, dt, u)
        return y[7]


def run(case, ctx):
    cfg = case["cfg"]
    mod = mods.make(cfg)
    r = Ref(cfg)
    rta = mod.rta
    x = np.array(cfg["x0"], float)
    credit = -1  # control periods for which the budget is guaranteed from here
    since = 0
    for i, op in enumerate(case["ops"]):
        ctx.now = i
        ctx.op(op["op"])
        if op["op"] == "place":
            x = np.array(op["x"], float)
            ctx.fault("teleport")
            credit = -1
            continue
        if op["op"] == "enable":
            rta.enable = op["v"]
            ctx.fault("enable" if op["v"] else "disable")
            credit = -1
            continue
        if op["op"] == "reset":
            rta.reset()
            r.reset()
            ctx.fault("reset")
            credit = -1
            since = 0
            continue
        dt = op["dt"]
        if op.get("disturb"):
            x = x + np.array(op["disturb"], float)
            ctx.fault("disturbance")
            credit = -1
        ud = np.array(op["ud"], float)
        rec = mods.step(mod, x.copy(), {"dt": dt, "ud_in": ud.copy()})
        u = rec["u"]
        ctx.step(dt)
        ctx.log(u, rec["intervening"])
        where = f"op {i}: at {x.tolist()} desired {ud.tolist()} (limit {r.limit}, horizon {r.steps})"
        if not rta.enable:
            ctx.check(np.array_equal(u, ud) and not rec["intervening"], "disabled", f"{where}: disabled, but returned {u.tolist()}", i)
        else:
            was = r.latched
            if not was:
                dv = r.spent(x, dt, ud)
                rest = not np.any(x[:6]) and not np.any(ud) and not np.any(r.e) and x[7] == r.limit  # no rounding then
                if abs(dv - r.limit) < 1e-8 * (1 + r.limit) and not rest:
                    return
                switch = dv > r.limit
            else:
                switch = True
            ctx.check(rec["intervening"] == switch, "switch", lambda: f"{where}: {'switched before' if was else f'{dv:.6f} would be spent'}, "
                      f"but the module {'intervenes' if rec['intervening'] else 'lets the command pass'}", i)
            if switch:
                want, r.e = r.backup(x, dt, r.e)
                r.latched = True
                since += 1
            else:
                want = ud
            want = r.clip(want)
            ctx.check(bool(np.all(np.abs(u - want) <= 1e-6 * (1 + np.abs(want)))), "backup" if switch else "passthrough",
                      lambda: f"{where}: {'switched' if switch else 'not switched'}, returned {u.tolist()}, expected {want.tolist()}", i)
            if switch:
                credit -= 1
                ctx.nontrivial += 1
            else:
                credit = r.steps + 1
        ctx.state(r.latched, bool(rta.enable), min(since, 6), r.steps, bool(op.get("disturb")))
        # the module's own model of the spacecraft is the plant: then the budget must hold for the whole horizon
        x = r.euler(x, dt, u)
        if credit > 0 and dt == cfg["dt"]:
            ctx.check(x[7] <= r.limit + 1e-7 * (1 + r.limit), "budget", lambda: f"{where}: applying {u.tolist()} the spent delta-v is {x[7]}", i)
