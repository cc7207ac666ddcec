"""C01: from a safe start no primary controller can drive the plant out of the safe set while the module is on and reports no failure."""
import warnings

from .. import gen as G, mods, ref, zoo
from ..core import Inconclusive, Violation
from ._lock import REAL, STUB
import numpy as np

PLAN = {"quick": 200, "thorough": 5000}
RULE = ("a case is a seeded module, a safe initial state and an adversarial command sequence flown in closed loop on the modelled plant; every state "
        "reached is judged by the reference safety functions; non-trivial when the module had to intervene")
STATE_MEASURE = "(module, constraint closest to its limit, margin decade, intervening, guarantee in force) tuples"
ASSUMPTIONS = [
    "the plant is the module's own model (toys) or the exact solution of the zoo's equations of motion; measurements are exact",
    "implicit simplex: the guarantee covers the backup window after the last command that passed, as the method promises",
    "toy optimisation modules: constraints linear in the state and alpha' * dt <= 1, for which the sampled system inherits the barrier condition",
    "zoo optimisation modules: sampling error allowed for (a fraction of the speed that one control period can add); runs end when the solver reports failure",
]


# -- adversarial primary controllers

def commands(rng, m, n, mag=None):
    prof = G.Profile(rng, m, mag)
    return [prof() for _ in range(n)]


def greedy(rng, n):
    """at these periods the primary controller pushes straight at the nearest limit"""
    p = G.pick(rng, 0.0, 0.3, 0.8)
    if G.chance(rng, 0.5):
        return [G.chance(rng, p) for _ in range(n)]
    # or rushes towards it and then asks for more braking than there is
    return [G.pick(rng, True, True, "brake") for _ in range(n)]


def safe_start(rng, cfg, prob, draw):
    for _ in range(300):
        x = draw()
        y = np.array(x, float)
        if all(c.h(y) >= 0.02 * c.scale(y) and c.phi(y) >= 0.02 for c in prob.constraints if c.enabled):
            return x
    return None


def toy_case(rng, algo, k):
    n = 40
    for _ in range(50):
        if algo == "isimplex":
            cfg = G.gen_toy(rng, algo)
            cfg["window"] = G.pick(rng, 4, 8, 16, 24) * cfg["dt"]
        elif algo == "esimplex":
            cfg = G.gen_toy(rng, algo, kinds=["maxv", "minv", "magv", "headway", "speed2", "maxp"], backup_kinds=("brake",))
        else:
            cfg = G.gen_toy(rng, algo, direct=False, kinds=["maxv", "minv", "headway", "headway"], ncon=G.pick(rng, 1, 2))
            for c in cfg["constraints"]:
                c["alpha"] = G.pick(rng, [0, 0.25], [0, 0.5], [0, 1]) if cfg["dt"] <= 1 else [0, 0.25]
            if G.chance(rng, 0.3):
                cfg["solver_exception"] = True
        cfg.pop("use", None)
        for c in cfg["constraints"]:
            c.pop("enabled", None)
        prob = ref.toy_problem(cfg)
        x = safe_start(rng, cfg, prob, lambda: G.gen_x(rng, cfg["system"], G.pick(rng, 0.3, 0.6, 1.0)))
        if x is not None:
            break
    else:
        x = cfg["x0"]
    cfg["x0"] = x
    return cfg, n, prob.m


ZOO = [("docking2d", "esimplex"), ("docking3d", "isimplex"), ("docking2d", "easif"), ("docking3d", "iasif"), ("insp1v1", "easif"), ("integrator", "isimplex"),
       ("docking3d", "esimplex"), ("docking2d", "isimplex"), ("docking3d", "easif"), ("docking2d", "iasif"), ("insp1v1", "dasif"), ("integrator", "esimplex"),
       ("insp3d", "easif")]


def zoo_case(rng, z, a):
    cfg = G.gen_zoo(rng, z, a, plain=True)
    kw = cfg["kw"]
    n = 60
    if z.startswith("docking"):
        cfg["dt"] = 0.25
        if a.endswith("simplex"):
            cfg["dt"] = G.pick(rng, 0.25, 1.0)
        if G.chance(rng, 0.4):
            kw["v0"] = 0.5
        if G.chance(rng, 0.3):
            kw["x_vel_limit"] = 1.0
    elif z == "integrator":
        cfg["dt"] = G.pick(rng, 0.125, 0.25, 0.1)
        kw["integration_method"] = "RK45"
        if a == "isimplex" and G.chance(rng, 0.5):
            cfg["window"] = G.pick(rng, 2.0, 3.0)
    else:
        cfg["dt"] = 1.0 if a == "dasif" else G.pick(rng, 0.5, 1.0)
        n = 25 if z == "insp3d" or a == "dasif" else 50
    prob = zoo.problem(cfg)
    x = safe_start(rng, cfg, prob, lambda: G.gen_zoo_x(rng, cfg, inside=True))
    if x is not None:
        cfg["x0"] = x
    return cfg, n, prob.m


def gen(rng, index, tier):
    k = index % 10
    if k in (0, 5):
        cfg, n, m = toy_case(rng, "isimplex", k)
    elif k in (1, 6):
        cfg, n, m = toy_case(rng, "esimplex", k)
    elif k in (2, 7):
        cfg, n, m = toy_case(rng, "easif", k)
    elif k == 3:
        cfg, n, m = toy_case(rng, "dasif", k)
    else:
        j = (index // 10) * 3 + {4: 0, 8: 1, 9: 2}[k]
        cfg, n, m = zoo_case(rng, *ZOO[j % len(ZOO)])
    g = greedy(rng, n)
    ops = [{"op": "step", "dt": cfg["dt"], "ud": u, "greedy": b} for u, b in zip(commands(rng, m, n), g)]
    if G.chance(rng, 0.5):
        episodes(rng, cfg, ops)
    return {"cfg": cfg, "ops": ops}


def episodes(rng, cfg, ops):
    """the same module flies several episodes, is switched off and on, reset: from every safe state on the promise holds again"""
    prob = zoo.problem(cfg) if "zoo" in cfg else ref.toy_problem(cfg)

    def draw():
        return G.gen_zoo_x(rng, cfg, inside=True) if "zoo" in cfg else G.gen_x(rng, cfg["system"], G.pick(rng, 0.3, 0.6, 1.0))

    for _ in range(G.pick(rng, 1, 2, 4)):
        at = rng.randrange(1, len(ops))
        new = []
        k = G.pick(rng, "off", "reset", "reset", "peek", "place")
        if k == "off":
            # off for a while (anything may happen), then a new safe start
            new = [{"op": "off", "n": rng.randint(1, 4)}]
            k = "place"
        elif k == "reset" and G.chance(rng, 0.4):
            k = None
            new = [{"op": "reset"}]
        elif k == "peek":
            k = None
            new = [{"op": "peek"}]
        elif k == "reset":
            new = [{"op": "reset"}]
        if k:
            x = safe_start(rng, cfg, prob, draw)
            if x is None:
                continue
            new.append({"op": "place", "x": x})
        ops[at:at] = new


def push(prob, x, ud):
    """the command that shrinks the smallest margin fastest (how: gradient of the margin through the input matrix)"""
    best = None
    for c in prob.constraints:
        if not c.enabled or not c.smooth(x):
            continue
        v = c.h(x) / c.scale(x)
        if best is None or v < best[0]:
            best = (v, c)
    if best is None:
        return ud
    d = best[1].grad(x) @ prob.g(x)
    nrm = float(np.linalg.norm(d))
    return ud if not np.isfinite(nrm) or nrm < 1e-9 else -d / nrm * (0.5 + float(np.linalg.norm(ud)))


POSITION = ("chief_collision", "r_max", "PSM", "sun", "chief_sun", "deputy_collision", "deputy_PSM")


class Guarantee:
    """which constraints must hold at the next state, and how tightly"""

    def __init__(self, cfg, prob):
        self.cfg, self.prob, self.algo = cfg, prob, cfg["algo"]
        self.zoo = cfg.get("zoo")
        self.credit = 0
        self.alive = True  # no solver failure so far
        self.steps = 0
        if self.algo == "isimplex":
            w = cfg.get("window", {"docking2d": 5, "docking3d": 5, "integrator": 2}.get(self.zoo))
            self.steps = ref.window_steps(w, cfg["dt"])

    def note(self, rec, failed):
        if failed:
            self.alive = False
        if self.algo.endswith("simplex"):
            if rec["intervening"]:
                self.credit -= 1
            else:
                self.credit = self.steps + 1

    def margin(self, c, x):
        """None: nothing promised; otherwise a number that must not be negative"""
        if not self.alive:
            return None
        if not self.zoo:
            tol = 2e-4 * c.scale(x)
            if self.algo.endswith("simplex"):
                if self.credit > 0:
                    return c.h(x) + tol
                if self.algo == "esimplex" and self.monotone(c):
                    return c.h(x) + tol
                return None
            return c.h(x) + tol
        if self.zoo == "integrator":
            if self.algo == "isimplex":
                return c.phi(x) + 1e-3 if self.credit > 0 else None
            return c.phi(x) + 0.02
        if self.zoo.startswith("docking"):
            if self.credit > 0 and self.cfg["kw"].get("integration_method", "RK45") == "RK45":
                return c.phi(x) + 1e-3
            if c.name == "rel_vel":
                return c.phi(x) + 0.05
            return c.phi(x) + 0.05 * (1 + c.params["limit_val"])
        if c.name.startswith(POSITION):
            return c.phi(x) + (0.02 if "sun" in c.name else 0.1)
        if c.name.startswith("deputy_sun"):
            return None
        return c.phi(x) + 0.1

    def monotone(self, c):
        """the braking backup controller can only reduce speeds: velocity limits stay satisfied once they are"""
        b = self.cfg["backup"]
        s = self.cfg["system"]
        if b["kind"] != "brake" or b.get("const") or s.get("kg"):
            return False
        gain = (b["k"] / s.get("mass", 1.0) + s.get("drag", 0.0)) * self.cfg["dt"]
        if gain > 1 or np.any(self.prob.low > 0) or np.any(self.prob.high < 0):
            return False
        t = [q for q in self.cfg["constraints"] if q["name"] == c.name][0]
        nv = 1 if s["name"] == "di1" else 2
        slow = t["type"] in ("speed2",) or (t["type"] in ("max", "min", "mag") and t["index"] >= nv)
        # a limit on a velocity below zero margin by its bias is still reduced, only a limit excluding standstill is not
        zero = np.zeros(2 * nv)
        return slow and c.h(zero) >= 0


def run(case, ctx):
    cfg = case["cfg"]
    mod = mods.make(cfg)
    prob = zoo.problem(cfg) if "zoo" in cfg else ref.toy_problem(cfg)
    x = np.array(cfg["x0"], float)
    if not all(c.h(x) >= 0 and c.phi(x) >= 0 for c in prob.constraints):
        raise Inconclusive("no safe start")
    g = Guarantee(cfg, prob)
    from run_time_assurance.utils import SolverError

    for i, op in enumerate(case["ops"]):
        ctx.now = i
        if op["op"] != "step":
            ctx.op(op["op"])
            ctx.fault(op["op"])
            if op["op"] == "place":
                x = np.array(op["x"], float)
                g = Guarantee(cfg, prob)
            elif op["op"] == "reset":
                mod.rta.reset()
                g.credit = 0  # the controller the rollout trusted may have had a memory
            elif op["op"] == "peek":
                mod.rta.generate_info()
                mod.rta.update_constraint_values(x.copy())
            else:
                mod.rta.enable = False
                for _ in range(op["n"]):
                    mod.rta.filter_control(x.copy(), cfg["dt"], np.zeros(prob.m))
                mod.rta.enable = True
            continue
        ctx.op({True: "greedy", "brake": "brake"}.get(op["greedy"], "step"))
        dt = op["dt"]
        ud = np.array(op["ud"], float)
        if op["greedy"]:
            ud = ref.f32(push(prob, x, ud))
            if op["greedy"] == "brake":
                ud = ref.f32(-4 * ud)
            ctx.fault("adversarial-command")
        failed = False
        with warnings.catch_warnings(record=True) as warned:
            warnings.simplefilter("always")
            try:
                u = np.array(mod.rta.filter_control(x.copy(), dt, ud.copy()), float)
            except SolverError:
                ctx.fault("solver-gave-up")
                return
        if any("Solver" in w.category.__name__ or "Solver Failure" in str(w.message) for w in warned):
            failed = True
            ctx.fault("solver-gave-up")
        rec = {"intervening": bool(mod.rta.intervening)}
        g.note(rec, failed)
        ctx.step(dt)
        ctx.log(u, rec["intervening"])
        if not np.all(np.isfinite(u)):
            raise Violation("safe", f"op {i}: returned control {u.tolist()} is not finite", i)
        prev = x
        x = prob.plant(x, dt, u)
        if not np.all(np.abs(x) < (1e5 if g.zoo else 1e3)):
            raise Inconclusive("runs away")
        worst = None
        for c in prob.constraints:
            v = g.margin(c, x)
            if v is None:
                continue
            ctx.check(v >= 0, "safe", lambda c=c, v=v: f"op {i} t={(i + 1) * dt:g}: {c.name} is violated at {x.tolist()} "
                      f"(h={c.h(x):g} phi={c.phi(x):g}, beyond tolerance by {-v:g}) after {u.tolist()} was applied at {prev.tolist()} "
                      f"(desired {ud.tolist()}, intervening={rec['intervening']})", i)
            if worst is None or v < worst[0]:
                worst = (v, c.name)
        if rec["intervening"]:
            ctx.nontrivial += 1
        ctx.state(g.zoo, g.algo, worst and worst[1], worst and max(-5, int(np.floor(np.log10(worst[0] + 1e-9)))), rec["intervening"], worst is not None)
        if not g.alive:
            return
