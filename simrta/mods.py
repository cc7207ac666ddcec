"""Every kind of RTA module behind one interface, and a driver that performs control periods without judging them.

Mod: the real module, its fault seams, the simulated plant it flies on.
"""
from __future__ import annotations

import warnings

import numpy as np

from . import ref, toys, zoo
from .toys import InjectedFault
from .world import SolverSeam


class AreStub:
    """scipy cannot solve the Riccati equation SwitchingDeltaVLimitRTA poses (ill conditioned), so that no instance can be
    constructed here with the library function.  While one is being constructed the solver is replaced by a stand-in with
    a fixed solution; everything downstream (gain, switching logic) is the real code."""

    def __init__(self, par):
        self.par = par

    def solution(self, n):
        P = np.zeros((n, n))
        a, b, c = self.par
        k = n // 2
        for i in range(3):
            P[3 + i, 3 + i] = a
            P[3 + i, k + 3 + i] = P[k + 3 + i, 3 + i] = b
            P[3 + i, i] = P[i, 3 + i] = c
        return P

    def __enter__(self):
        import scipy.linalg
        from run_time_assurance.zoo.cwh import inspection_1v1

        def stand_in(A, *_, **__):
            return self.solution(np.asarray(A).shape[0])

        self.saved = [(scipy.linalg, scipy.linalg.solve_continuous_are)]
        scipy.linalg.solve_continuous_are = stand_in
        if hasattr(inspection_1v1, "solve_continuous_are"):
            self.saved.append((inspection_1v1, inspection_1v1.solve_continuous_are))
            inspection_1v1.solve_continuous_are = stand_in
        return self

    def __exit__(self, *_):
        for mod, fn in self.saved:
            mod.solve_continuous_are = fn


ARE = (6e6, 2e4, 0.0)


def deltav_gains(m, par=ARE):
    """what the constructor must make of the stand-in solution: K = R^-1 B^T P with R = 1e5 I"""
    P = AreStub(par).solution(12)
    K = 1e-5 / m * P[3:6, :]
    return K[:, :6], K[:, 6:]


class Mod:
    def __init__(self, rta, plant, m, seams=None, parts=()):
        self.rta, self.plant, self.m = rta, plant, m
        self.seams = seams or []
        self.parts = list(parts)

    def arm(self, fault):
        for s in self.seams:
            s.arm(fault)

    def fired(self):
        return sum(s.fired for s in self.seams)


def make_cascade(cfg):
    from run_time_assurance.rta import CascadedRTA

    mods = [make(c) for c in cfg["children"]]

    class ToyCascade(CascadedRTA):
        def _setup_rta_list(self):
            return [k.rta for k in mods]

    rta = ToyCascade(control_bounds_high=toys.bound(cfg.get("high")), control_bounds_low=toys.bound(cfg.get("low")))
    return Mod(rta, mods[0].plant, mods[0].m, [s for k in mods for s in k.seams], parts=mods)


def make_custom(cfg):
    """a user's own module, straight from the base class: hands on the very array it was given, or the one it keeps as its safe command"""
    from run_time_assurance.rta import RTAModule

    class Custom(RTAModule):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.safe = np.array(cfg["safe"], float)

        def compute_filtered_control(self, input_state, step_size, control_desired):
            self.intervening = bool(np.linalg.norm(np.asarray(input_state)) > cfg["radius"])
            return self.safe if self.intervening else control_desired

    f, g, _, m = ref.toy_f_g(cfg["system"])
    rta = Custom(control_bounds_high=toys.bound(cfg.get("high")), control_bounds_low=toys.bound(cfg.get("low")))
    return Mod(rta, lambda x, dt, u: x + dt * (f(x) + g(x) @ u), m)


def insp_plant8(n, m, sun_vel):
    A, B = zoo.cwh(n, m, 3)
    lin = zoo.Linear(A, B)

    def plant(x, dt, u):
        return np.concatenate((lin.step(x[:6], dt, u), [x[6] + sun_vel * dt, x[7] + float(np.sum(np.abs(u))) / m * dt]))

    return plant


def make(cfg):
    kind = cfg.get("kind")
    if kind == "cascade":
        return make_cascade(cfg)
    if kind == "custom":
        return make_custom(cfg)
    if kind == "combined":
        from run_time_assurance.zoo.cwh.inspection_3d import CombinedInspectionRTA

        N = cfg["num"]
        prob = zoo.insp3d_problem({"kw": {"num_deputies": N}})
        return Mod(CombinedInspectionRTA(num_deputies=N), prob.plant, 3 * N)
    if kind == "deltav":
        from run_time_assurance.zoo.cwh.inspection_1v1 import SwitchingDeltaVLimitRTA

        with AreStub(cfg.get("are", ARE)):
            rta = SwitchingDeltaVLimitRTA(**{k: toys.bound(v) for k, v in cfg.get("kw", {}).items()})
        return Mod(rta, insp_plant8(cfg["kw"].get("n", zoo.N0), cfg["kw"].get("m", zoo.M0), -cfg["kw"].get("n", zoo.N0)), 3)
    if kind == "inspcascade":
        from run_time_assurance.zoo.cwh.inspection_1v1 import InspectionCascadedRTA

        with AreStub(cfg.get("are", ARE)):
            rta = InspectionCascadedRTA()
        return Mod(rta, insp_plant8(zoo.N0, zoo.M0, -zoo.N0), 3)
    if "zoo" in cfg:
        prob = zoo.problem(cfg)
        return Mod(zoo.build(cfg), prob.plant, prob.m)
    rta, seams = toys.build(cfg)
    prob = ref.toy_problem(cfg)
    return Mod(rta, prob.plant, prob.m, [seams])


def tame(cfg, x):
    """toy plants may run away; keep them where single precision means something"""
    if "system" in cfg or cfg.get("kind") in ("cascade", "custom"):
        return np.clip(np.nan_to_num(x), -16, 16)
    return x


def step(mod, x, op, ctx=None, rta=None):
    """One control period. Returns a record of everything observable."""
    rta = rta or mod.rta
    fault = op.get("fault")
    solver = None
    if fault and fault["site"] == "solver":
        solver = SolverSeam(fault["kind"])
    elif fault:
        mod.arm(fault)
    rec = {"raised": None}
    with warnings.catch_warnings(record=True) as warned:
        warnings.simplefilter("always")
        try:
            if solver:
                with solver:
                    out = rta.filter_control(x, op["dt"], op["ud_in"])
            else:
                out = rta.filter_control(x, op["dt"], op["ud_in"])
            rec["out"] = out
            rec["u"] = np.array(out, float)
        except (InjectedFault, MemoryError) as e:
            rec["raised"] = type(e).__name__
        except Exception as e:  # noqa: BLE001
            from run_time_assurance.utils import SolverError

            if isinstance(e, SolverError) or (isinstance(e, ValueError) and solver is not None):
                rec["raised"] = type(e).__name__
            else:
                raise
    fired = solver.fired if solver else mod.fired()
    mod.arm(None)
    if fault and fired and ctx is not None:
        ctx.fault(f"{fault['site']}-{fault['kind']}")
    rec["warned"] = sorted(w.category.__name__ for w in warned if w.category.__name__ == "SolverWarning")
    rec["intervening"] = bool(rta.intervening)
    return rec


def same_rec(a, b, tol=1e-5):
    """first difference between two records, or None"""
    if a["raised"] != b["raised"]:
        return f"raised {a['raised']} against {b['raised']}"
    if a["intervening"] != b["intervening"]:
        return f"intervening {a['intervening']} against {b['intervening']}"
    if a["raised"] is None:
        if a["u"].shape != b["u"].shape or not np.all(np.abs(a["u"] - b["u"]) <= tol * (1 + np.abs(b["u"]))):
            if not (np.isnan(a["u"]).any() and np.isnan(b["u"]).any()):
                return f"control {a['u'].tolist()} against {b['u'].tolist()}"
    if bool(a["warned"]) != bool(b["warned"]):
        return f"warned {a['warned']} against {b['warned']}"
    return None


def info_of(rta):
    info = rta.generate_info()
    out = {}
    for k, v in info.items():
        if isinstance(v, dict):
            out[k] = {kk: float(vv) for kk, vv in v.items()}
        elif v is None or isinstance(v, (bool, np.bool_)):
            out[k] = v if v is None else bool(v)
        else:
            out[k] = np.array(v, float)
    return out


def same_info(a, b, tol=1e-5):
    if set(a) != set(b):
        return f"keys {sorted(a)} against {sorted(b)}"
    for k in a:
        va, vb = a[k], b[k]
        if isinstance(va, dict):
            if not isinstance(vb, dict) or set(va) != set(vb) or any(abs(va[i] - vb[i]) > tol * (1 + abs(vb[i])) for i in va):
                return f"{k}: {va} against {vb}"
        elif isinstance(va, np.ndarray):
            if not isinstance(vb, np.ndarray) or va.shape != vb.shape or not np.allclose(va, vb, rtol=tol, atol=tol, equal_nan=True):
                return f"{k}: {va} against {vb}"
        elif va is not vb and va != vb:
            return f"{k}: {va} against {vb}"
    return None
