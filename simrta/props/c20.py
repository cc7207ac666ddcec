"""C20: the multi-agent module filters every agent's command from that agent's own point of view, and nothing else."""
from .. import gen as G, mods, zoo
from ..core import Violation
from . import _twin as T
from ._lock import REAL
import numpy as np

PLAN = {"quick": 240, "thorough": 3000}
RULE = ("a case is a seeded formation of 1 to 5 deputies and a schedule of commands, disablings and resets; either with a stateless or stateful stand-in "
        "per-deputy module whose answers are known exactly, or with the real per-deputy module next to a twin; non-trivial when a deputy intervened")
STATE_MEASURE = "(number of deputies, per-deputy module, which deputies intervened, enabled) tuples"
STUB = ["plant (exact Clohessy-Wiltshire propagation)", "command sequence", "per-deputy module in most strata: a stand-in with known answers"]


def gen(rng, index, tier):
    real = index % 24 == 3
    N = G.pick(rng, 2, 3) if real else G.pick(rng, 1, 2, 2, 3, 3, 4, 5, 6, 9, 12)
    cfg = {"kind": "combined", "num": N, "dt": G.pick(rng, 1.0, 0.5), "real": real, "x0": T.combined_x(rng, N)}
    if not real:
        cfg["thr"] = G.pick(rng, 0.25, 0.5, 1.0)
        cfg["stand"] = G.pick(rng, "pure", "pure", "count")
        if G.chance(rng, 0.4):
            lim = [G.dy(rng, 0.25, 2) for _ in range(3 * N)]
            cfg["high"], cfg["low"] = lim, [-v for v in lim[::-1]]
    ops = T.steps(rng, cfg, 8 if real else 30, dict(place=.3, toggle=.08, reset=.06), lambda r: T.combined_x(r, N))
    out = []
    for op in ops:
        if not real and G.chance(rng, 0.06):
            out.append({"op": "fail", "agent": rng.randrange(N)})
        out.append(op)
    return {"cfg": cfg, "ops": out}


def answer(thr, x, u, count):
    """what the stand-in does for a deputy: pull the command towards its own velocity and the others' centroid"""
    n = (len(x) - 1) // 6
    v = u - 0.25 * x[3:6] + 0.5 * np.sin(x[-1]) + 0.01 * count
    for j in range(1, n):
        v = v + (0.1 / j) * np.tanh((x[:3] - x[6 * j:6 * j + 3]) / 50) + 0.05 / j * x[6 * j + 3:6 * j + 6]
    return (v, True) if np.linalg.norm(u) > thr else (u, False)


def stand_in(cfg, log):
    from run_time_assurance.rta import RTAModule

    class Stand(RTAModule):
        count = 0
        fail_at = None

        def compute_filtered_control(self, input_state, step_size, control_desired):
            if self.fail_at is not None:
                self.fail_at -= 1
                if self.fail_at < 0:
                    self.fail_at = None
                    raise mods.InjectedFault("deputy module failed")
            u, self.intervening = answer(cfg["thr"], np.array(input_state, float), np.array(control_desired, float), self.count)
            log.append((np.array(input_state, float), float(step_size)))
            if cfg["stand"] == "count":
                self.count += 1
            return u

        def reset(self):
            super().reset()
            self.count = 0

    return Stand()


def view(x, i):
    """the state as agent i sees it: itself first, the others in order, the sun last"""
    return np.concatenate((x[6 * i:6 * i + 6], x[:6 * i], x[6 * i + 6:]))


def run(case, ctx):
    from run_time_assurance.zoo.cwh.inspection_3d import CombinedInspectionRTA, InspectionRTA

    cfg = case["cfg"]
    N = cfg["num"]
    log = []
    kw = {}
    twin = None
    if cfg["real"]:
        twin = mods.Mod(InspectionRTA(num_deputies=N), None, 3)
    else:
        kw["deputy_rta"] = stand_in(cfg, log)
        if "high" in cfg:
            kw.update(control_bounds_high=list(cfg["high"]), control_bounds_low=list(cfg["low"]))
    rta = CombinedInspectionRTA(num_deputies=N, **kw)
    high, low = np.array(cfg.get("high", [1] * 3 * N), float), np.array(cfg.get("low", [-1] * 3 * N), float)
    a = mods.Mod(rta, zoo.insp3d_problem({"kw": {"num_deputies": N}}).plant, 3 * N)
    x = np.array(cfg["x0"], float)
    enabled, count, fail = True, 0, None
    for i, op in enumerate(case["ops"]):
        ctx.now = i
        ctx.op(op["op"])
        o = op["op"]
        if o == "place":
            x = np.array(op["x"], float)
        elif o == "enable":
            rta.enable = enabled = op["v"]
        elif o == "reset":
            rta.reset()
            enabled, count = True, 0
            if twin:
                twin.rta.reset()
        elif o == "fail":
            fail = op["agent"]
        elif o == "step":
            ud = np.array(op["ud"], float)
            del log[:]
            raised = None
            if fail is not None and enabled:
                rta.deputy_rta.fail_at = fail
                ctx.fault("deputy-module-raise")
            try:
                ra = mods.step(a, x.copy(), dict(op, ud_in=ud.copy()))
                raised = ra["raised"]
            finally:
                if not cfg["real"]:
                    rta.deputy_rta.fail_at = None
            ctx.step(op["dt"])
            want, flags = ud.copy(), []
            if enabled:
                for k in range(N):
                    if fail == k:
                        break
                    if twin:
                        r = mods.step(twin, view(x, k), {"dt": op["dt"], "ud_in": ud[3 * k:3 * k + 3].copy()})
                        u, flag = r["u"], r["intervening"]
                    else:
                        u, flag = answer(cfg["thr"], view(x, k), ud[3 * k:3 * k + 3], count)
                        count += cfg["stand"] == "count"
                        ctx.check(k < len(log) and np.allclose(log[k][0], view(x, k), rtol=1e-6, atol=1e-6) and abs(log[k][1] - op["dt"]) < 1e-12, "view",
                                  lambda: f"op {i}: deputy {k} was filtered on {[v.tolist() for v, _ in log[k:k + 1]]}, its state is {view(x, k).tolist()}", i)
                    want[3 * k:3 * k + 3] = u
                    flags.append(bool(flag))
                want = np.minimum(np.maximum(want, low), high)
            ctx.log(raised, ra.get("u"), ra["intervening"])
            ctx.state(N, cfg["real"] or cfg["stand"], tuple(flags), enabled)
            if fail is not None and enabled:
                fail = None
                ctx.check(raised == "InjectedFault", "swallowed", f"op {i}: the failure of a deputy's module went unnoticed", i)
                continue
            fail = None
            exp = {"raised": None, "u": want, "intervening": any(flags), "warned": ra["warned"]}
            ctx.checks += 1
            diff = mods.same_rec(ra, exp, 2e-5)
            if diff:
                raise Violation("combined", f"op {i}: {N} deputies at {x.tolist()} desired {ud.tolist()}: {diff} (members intervening: {flags})", i)
            if any(flags):
                ctx.nontrivial += 1
            x = a.plant(x, op["dt"], ra["u"])
