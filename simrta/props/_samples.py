"""Shared by the sample-testing checks: scripted test modules around real RTA modules, and the reference episode."""
from __future__ import annotations

import contextlib
import io

import numpy as np

from .. import gen as G, mods, ref, toys
from ..core import Inconclusive


def gen_episode_cfg(rng, algo=None, points=None):
    """an rta for which verdicts are decidable with a margin"""
    algo = algo or G.pick(rng, "esimplex", "isimplex", "isimplex", "easif", "easif", "iasif")
    cfg = G.gen_toy(rng, algo, slack=False, direct=False, ncon=G.pick(rng, 1, 2))
    for c in cfg["constraints"]:
        c.pop("enabled", None)
        if G.chance(rng, 0.15):
            c["enabled"] = False  # not enforced, but still judged
    cfg.pop("use", None)
    if algo.endswith("asif"):
        cfg["solver_exception"] = G.chance(rng, 0.6)
    if algo.endswith("simplex") and G.chance(rng, 0.4):
        cfg["latch"] = G.pick(rng, 3, 6, 12) * cfg["dt"]
    return cfg


def gen_plan(rng, cfg, n, extra=6):
    m = 1 if cfg["system"]["name"] == "di1" else 2
    t = {"n": n, "sim": G.pick(rng, 3, 5, 8) * cfg["dt"] - (G.pick(rng, 0.0, 0.0, 0.5) * cfg["dt"])}
    # offset by an odd 1/64 so that limits (multiples of 1/16) are never hit exactly
    t["starts"] = [[v + 1 / 64 for v in G.gen_x(rng, cfg["system"], G.pick(rng, 0.4, 0.7, 1.0))] for _ in range(n + extra)]
    t["gain"] = [G.dy(rng, -1.5, 1.5) for _ in range(m)]
    t["kx"] = G.pick(rng, 0.0, 0.25, -0.25)
    t["push"] = [G.dy(rng, -0.25, 0.25) for _ in range(2 * m)] if G.chance(rng, 0.4) else None
    t["stop"] = G.pick(rng, None, None, 0.5, 2.0)
    t["mirror"] = G.chance(rng, 0.25)
    line = [c for c in cfg["constraints"] if c["type"] in ("max", "min") and not c.get("bias")]
    if line and G.chance(rng, 0.4):
        # a start exactly on a limit, which is safe
        c = G.pick(rng, *line)
        x = G.pick(rng, *t["starts"][:2])
        x[c["index"]] = c["params"]["limit_val"] * (-1 if t["mirror"] else 1)
    return t


def desired(t, x):
    return np.array(t["gain"], float) + t["kx"] * np.asarray(x, float)[:len(t["gain"])]


def plant(t, prob, x, dt, u):
    y = prob.plant(np.asarray(x, float), dt, np.asarray(u, float))
    if t["push"] is not None:
        y = y + np.array(t["push"], float)
    return y


def is_done(t, x, time):
    if t["stop"] is not None and abs(float(x[0])) > 4 * t["stop"] + 2:
        return True
    return bool(time >= t["sim"])


class Band(Exception):
    pass


def sign(v, scale, tol=3e-5):
    if v >= tol * scale:
        return True
    if v < -tol * scale:
        return False
    raise Band()


def start_safe(prob, x):
    """is this a safe start? both what is measured and the control invariant function count"""
    ok = True
    for c in prob.constraints:
        if c.phi(x) == 0.0 and c.h(x) == 0.0 and c.straight:
            continue  # exactly on the limit, without rounding
        if not sign(c.phi(x), c.scale(x)):
            ok = False
        elif not sign(c.h(x), c.scale(x)):
            ok = False
    return ok


def episode(cfg, t, prob, x, enable=True):
    """the reference episode with a module of its own. Returns (verdict, states)"""
    x = np.asarray(x, float)
    if not start_safe(prob, ref.f32(x)):
        return None, [x]
    mod = mods.make(cfg)
    mod.rta.enable = enable
    time = 0.0
    states = [x]
    while True:
        r = mods.step(mod, x.copy(), {"dt": cfg["dt"], "ud_in": desired(t, x)})
        if r["raised"]:
            if r["raised"] != "SolverError":
                raise Inconclusive("episode failed")
            return False, states
        x = plant(t, prob, x, cfg["dt"], r["u"])
        if not np.all(np.abs(x) < 200):
            raise Inconclusive("runs away")
        states.append(x)
        time += cfg["dt"]
        fin = is_done(t, x, time)
        for c in prob.constraints:
            if not sign(c.phi(ref.f32(x)), c.scale(x)):
                return False, states
        if fin:
            return True, states


def transform(t, x):
    return -np.asarray(x, float) if t["mirror"] else np.asarray(x, float)


def tester(cfg, t, prob, rta, base=None, kw=None, sample=True, hooks=None):
    """the real sample testing module with scripted surroundings"""
    from run_time_assurance.utils import sample_testing as S

    base = base or S.SafetyAssuranceSampleTestingModule
    hooks = hooks or {}

    class Scripted(base):
        served = 0
        statuses = None

        def _pred_state(self, state, step_size, control):
            if "pred" in hooks:
                hooks["pred"]()
            return plant(t, prob, state, step_size, control)

        def _desired_control(self, state):
            return desired(t, state)

        def _check_done_conditions(self, state, time):
            if t["stop"] is None:
                return super()._check_done_conditions(state, time)
            return is_done(t, state, time)

        def _transform_state(self, state):
            return transform(t, state)

        def _update_status(self, state, time):
            if self.statuses is None:
                self.statuses = []
            self.statuses.append((np.array(state, float), float(time)))

    class Sampled(Scripted):

        def _get_initial_state(self):
            x = np.array(t["starts"][self.served % len(t["starts"])], float)
            self.served += 1
            return x

    n, m = toys.dims(cfg["system"])
    args = dict(rta=rta, simulation_time=t["sim"], step_size=cfg["dt"], control_dim=m, state_dim=n)
    args.update(kw or {})
    return (Sampled if sample else Scripted)(**args)


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()):
        yield
