"""The modules of the zoo (docking 2d/3d, 1d integrator, inspection) and their reference problems.

build(cfg) constructs the real module with documented constructor arguments only.  problem(cfg) describes the same
system independently in double precision: Clohessy-Wiltshire dynamics written out here and integrated exactly (matrix
exponential), constraints from their published formulas, gradients by hand or by central differences.
"""
from __future__ import annotations

import math

import numpy as np
import scipy.linalg

from . import ref
from .ref import Problem, RefBackup, RefConstraint

N0, M0 = 0.001027, 12.0


def cwh(n, m, dim):
    """dx/dt = A x + B u in Hill's frame, states [pos, vel]"""
    A = np.zeros((2 * dim, 2 * dim))
    B = np.zeros((2 * dim, dim))
    for i in range(dim):
        A[i, dim + i] = 1.0
        B[dim + i, i] = 1.0 / m
    A[dim, 0] = 3 * n * n
    A[dim, dim + 1] = 2 * n
    A[dim + 1, dim] = -2 * n
    if dim == 3:
        A[5, 2] = -n * n
    return A, B


class Linear:
    """Exact zero-order-hold propagation of dx/dt = A x + B u"""

    def __init__(self, A, B):
        self.A, self.B = A, B
        self.cache = {}

    def step(self, x, dt, u):
        if dt not in self.cache:
            n, m = self.B.shape
            M = np.zeros((n + m, n + m))
            M[:n, :n], M[:n, n:] = self.A, self.B
            E = scipy.linalg.expm(M * dt)
            self.cache[dt] = (E[:n, :n], E[:n, n:])
        F, G = self.cache[dt]
        return F @ x + G @ u

    def euler(self, x, dt, u):
        return x + dt * (self.A @ x + self.B @ u)


# ---------------------------------------------------------------------------------------------------------------------
# constraints


def rel_vel(dim, v0, v1, v0d, delta=1e-5, **kw):
    def split(x):
        p, v = x[:dim], x[dim:2 * dim]
        return p, v, math.sqrt(float(p @ p) + delta), math.sqrt(float(v @ v) + delta)

    def h(x, q):
        _, _, np_, nv = split(x)
        return q["v0"] + q["v1"] * (np_ - q["v0_distance"]) - nv

    def grad(x, q):
        p, v, np_, nv = split(x)
        out = np.zeros(len(x))
        out[:dim] = q["v1"] * p / np_
        out[dim:2 * dim] = -v / nv
        return out

    def scale(x, q):
        _, _, np_, nv = split(x)
        return 0.1 + abs(q["v0"]) + abs(q["v1"]) * (np_ + abs(q["v0_distance"])) + nv

    return RefConstraint("rel_vel", h, {"v0": v0, "v1": v1, "v0_distance": v0d}, grad=grad, scale=scale, **kw)


def mag(name, idx, limit, alpha=(0, 0.0005, 0, 0.001), bias=0.0):
    def grad(x, q):
        out = np.zeros(len(x))
        out[idx] = -2 * x[idx]
        return out

    return RefConstraint(name, lambda x, q: q["limit_val"]**2 - x[idx]**2, {"limit_val": limit}, grad=grad, alpha=list(alpha), bias=bias,
                         scale=lambda x, q: 0.1 + q["limit_val"]**2 + x[idx]**2)


def _sqrt_signed(v):
    return math.sqrt(v) if v >= 0 else -math.sqrt(-v)


def range_rate(name, params, rel, side, factor, alpha=(0, 0.01, 0, 0.001), bias=0.0):
    """stop before reaching a sphere: side=+1 stay outside (collision), side=-1 stay inside (maximum distance)

    h = sqrt(factor * a * margin) + side * d(range)/dt with the sign of the margin carried out of the root"""
    key = "collision_radius" if side > 0 else "r_max"

    def parts(x, q):
        p, v = rel(x)
        r = float(np.linalg.norm(p))
        return p, v, r, side * (r - q[key])

    def h(x, q):
        p, v, r, d = parts(x, q)
        return _sqrt_signed(factor * q["a_max"] * d) + side * float(p @ v) / r

    def phi(x, q):
        return parts(x, q)[3]

    def scale(x, q):
        p, v, r, d = parts(x, q)
        return 0.1 + abs(h(x, q)) + float(np.linalg.norm(v)) + (r + q[key]) * math.sqrt(factor * q["a_max"]) / math.sqrt(max(abs(d), 1e-3))

    def smooth(x, q):
        p, v, r, d = parts(x, q)
        return abs(d) > 0.002 * (r + q[key]) and r > 0.5

    return RefConstraint(name, h, params, phi=phi, alpha=list(alpha), bias=bias, scale=scale, smooth=smooth, grel=8.0)


def cone(name, params, rel, sun, sun_vel, alpha, bias=-1e-3, mirrored=False):
    """keep-out cone around the direction from sun to chief, rotating about z"""
    w = np.array([0.0, 0.0, sun_vel])

    def parts(x, q):
        p, v = rel(x)
        c = sun(x)
        c = c / np.linalg.norm(c)
        th = q["fov"] / 2
        along = float(p @ c)
        perp = p - along * c
        np_ = float(np.linalg.norm(perp))
        ang = math.acos(max(-1.0, min(1.0, along / float(np.linalg.norm(p)))))
        return p, v, c, th, along, perp, np_, ang

    def h(x, q):
        p, v, c, th, along, perp, np_, ang = parts(x, q)
        e = perp / np_  # unit vector away from the cone axis
        dist = math.cos(th) * (np_ - math.tan(th) * along)  # signed distance from the cone surface
        outward = math.cos(th) * e - math.sin(th) * c  # surface normal
        proj = p - dist * outward
        dv = v - np.cross(w, proj)
        d = float(np.linalg.norm(p)) * math.sin(ang - th)
        return _sqrt_signed(2 * q["a_max"] * d) + float((p - proj) @ dv) / d

    def phi(x, q):
        p, v, c, th, along, perp, np_, ang = parts(x, q)
        return ang - th

    def scale(x, q):
        p, v, c, th, along, perp, np_, ang = parts(x, q)
        r = float(np.linalg.norm(p))
        d = max(abs(r * math.sin(ang - th)), 1e-3)
        return 0.1 + abs(h(x, q)) + r * math.sqrt(2 * q["a_max"] / d) + (float(np.linalg.norm(v)) + abs(sun_vel) * r) * r / d

    def smooth(x, q):
        p, v, c, th, along, perp, np_, ang = parts(x, q)
        r = float(np.linalg.norm(p))
        if mirrored and abs(along) < 0.01 * r:
            return False  # which half of the double cone is nearer flips here
        return r > 0.5 and np_ > 0.05 * r and abs(r * math.sin(ang - th)) > 0.03 * r and ang < 3.05

    return RefConstraint(name, h, params, phi=phi, alpha=list(alpha), bias=bias, scale=scale, smooth=smooth, grel=40.0)


_psm_cache = {}


def _psm_rows(n, dt, steps):
    key = (n, dt, steps)
    if key not in _psm_cache:
        A, _ = cwh(n, 1.0, 3)
        _psm_cache[key] = np.array([scipy.linalg.expm(A * dt * (k + 1))[:3] for k in range(steps)])
    return _psm_cache[key]


def psm(name, radius, n, pick, ntot, dt=1, steps=100, alpha=(0, 0.01, 0, 0.001)):
    """coasting from here, the smallest distance over the next steps stays above the collision radius"""
    rows = _psm_rows(n, dt, steps)

    def dist(x):
        pos = rows @ pick(x)
        return pos, np.linalg.norm(pos, axis=1)

    def h(x, q):
        return float(np.min(dist(x)[1])) - q["collision_radius"]

    lift = np.array([pick(e) for e in np.eye(ntot)]).T  # 6 x ntot

    def cands(x, q):
        pos, d = dist(x)
        t = 2e-5 * (1 + float(np.max(d)) * 0.05 + float(np.min(d)))
        out = []
        for k in np.nonzero(d <= d.min() + t)[0]:
            if d[k] < 1e-3:
                return None
            out.append((float(d[k]) - q["collision_radius"], (pos[k] / d[k]) @ rows[k] @ lift))
        return out

    def scale(x, q):
        pos, d = dist(x)
        return 1 + q["collision_radius"] + float(np.min(d)) + 0.05 * float(np.max(np.abs(pick(x)[:3])))

    return RefConstraint(name, h, {"collision_radius": radius, "dt": dt}, alpha=list(alpha), scale=scale, cands=cands, grel=8.0)


# ---------------------------------------------------------------------------------------------------------------------
# docking and integrator


def lqr_gain(n, m, dim):
    A, B = cwh(n, m, dim)
    P = scipy.linalg.solve_continuous_are(A, B, 0.05 * np.eye(2 * dim), 1000 * np.eye(dim))
    return (B.T @ P) / 1000


def docking_problem(cfg):
    dim = 2 if cfg["zoo"] == "docking2d" else 3
    kw = dict(cfg.get("kw", {}))
    n, m = kw.get("n", N0), kw.get("m", M0)
    A, B = cwh(n, m, dim)
    lin = Linear(A, B)
    pred = lin.euler if kw.get("integration_method", "RK45") == "Euler" else lin.step
    alpha = [0, 0.01, 0, 0.1] if dim == 2 else [0, 0.05, 0, 0.005]
    cons = [rel_vel(dim, kw.get("v0", 0.2), kw.get("v1_coef", 2 if dim == 2 else 4) * n, kw.get("v0_distance", 0), alpha=alpha, bias=-1e-4)]
    for i, ax in enumerate("xyz"[:dim]):
        cons.append(mag(f"{ax}_vel", dim + i, kw.get(f"{ax}_vel_limit", 10)))
    if kw.get("constraints_to_use"):
        cons = [c for c in cons if c.name in kw["constraints_to_use"]]
    K = lqr_gain(n, m, dim)[:, dim:]
    backup = None
    if cfg["algo"] != "easif":
        backup = RefBackup(lambda x, dt, s: (-K @ x[dim:], None), None)
    low, high = kw.get("control_bounds_low", -1), kw.get("control_bounds_high", 1)
    p = Problem(2 * dim, dim, lambda x: A @ x, lambda x: B, pred, cons, backup, low, high)
    p.limit = 1e6
    p.plant = lin.step
    return p


def integrator_problem(cfg):
    kw = dict(cfg.get("kw", {}))
    m = kw.get("m", 1.0)
    A = np.array([[0.0, 1.0], [0.0, 0.0]])
    B = np.array([[0.0], [1.0 / m]])
    lin = Linear(A, B)
    pred = lin.step if kw.get("integration_method", "Euler") == "RK45" else lin.euler
    if cfg["algo"] in ("esimplex", "easif"):
        c = RefConstraint("rel_vel", lambda x, q: -2 * x[0] - x[1]**2, {}, grad=lambda x, q: np.array([-2.0, -2 * x[1]]), alpha=[0, 1, 0, 30],
                          scale=lambda x, q: 0.1 + 2 * abs(x[0]) + x[1]**2)
    else:
        c = RefConstraint("rel_vel", lambda x, q: -x[0], {}, grad=lambda x, q: np.array([-1.0, 0.0]), alpha=[0, 10, 0, 30],
                          scale=lambda x, q: 0.1 + abs(x[0]), sub={"subsample_constraints_num_least": 1})
    backup = None if cfg["algo"] == "easif" else RefBackup(lambda x, dt, s: (np.array([-1.0]), None), None)
    p = Problem(2, 1, lambda x: A @ x, lambda x: B, pred, [c], backup, kw.get("control_bounds_low", -1), kw.get("control_bounds_high", 1))
    p.plant = lin.step
    return p


# ---------------------------------------------------------------------------------------------------------------------
# inspection

INSP = dict(m=M0, n=N0, chief_radius=5, deputy_radius=5, v0=0.2, v1_coef=2, v0_distance=0, r_max=1000, fov=math.pi / 3, vel_limit=1,
            sun_vel=-N0, control_bounds_high=1, control_bounds_low=-1)


def insp_par(kw):
    p = dict(INSP)
    p.update({k: v for k, v in kw.items() if k in p})
    p["v1"] = p["v1_coef"] * p["n"]
    vmax = min(p["vel_limit"], p["v0"] + p["v1"] * p["r_max"])
    p["a_max"] = 1 / p["m"] - 3 * p["n"]**2 * p["r_max"] - 2 * p["n"] * vmax
    return p


def insp1v1_problem(cfg):
    kw = dict(cfg.get("kw", {}))
    q = insp_par(kw)
    disc = cfg["algo"] == "dasif"
    n, m, a, R = q["n"], q["m"], q["a_max"], q["chief_radius"] + q["deputy_radius"]
    A6, B6 = cwh(n, m, 3)
    lin = Linear(A6, B6)
    A = np.zeros((8, 8))
    A[:6, :6] = A6
    B = np.vstack((B6, np.zeros((2, 3))))
    drift = np.concatenate((np.zeros(6), [q["sun_vel"], 0.0]))

    def plant(x, dt, u):
        return np.concatenate((lin.step(x[:6], dt, u), [x[6] + q["sun_vel"] * dt, x[7] + float(np.sum(np.abs(u))) / m * dt]))

    def own(x):
        return x[:3], x[3:6]

    def sun(x):
        return -np.array([math.cos(x[6]), math.sin(x[6]), 0.0])

    def pick(x):
        return x[:6]

    chief = range_rate("chief_collision", {"collision_radius": R, "a_max": a}, own, +1, 2.0)
    rv = rel_vel(3, q["v0"], q["v1"], q["v0_distance"], bias=-1e-3, alpha=[0, 0.01, 0, 0.001] if disc else [0, 0.05, 0, 0.005])
    sn = cone("sun", {"fov": q["fov"], "a_max": a}, own, sun, q["sun_vel"], [0, 0.001, 0, 0.001] if disc else [0, 0.001, 0, 0.0001])
    rm = range_rate("r_max", {"r_max": q["r_max"], "a_max": a}, own, -1, 2.0, alpha=[0, 0.001, 0, 0.001] if disc else [0, 0.01, 0, 0.001], bias=-1e-3)
    ps = psm("PSM", R, n, pick, 8, alpha=[0, 0.001, 0, 0.001] if disc else [0, 0.01, 0, 0.001])
    vel = [mag(f"{ax}_vel", 3 + i, q["vel_limit"], alpha=[0, 0.1, 0, 0.01], bias=-0.001) for i, ax in enumerate("xyz")]
    cons = [chief, rv, sn, rm, ps] + vel if disc else [rv, sn, rm, ps] + vel
    if not disc:
        if kw.get("use_hocbf"):
            al = [0, 0.1, 0, 0.1]

            def h(x, p):
                r = float(np.linalg.norm(x[:3]))
                return float(x[:3] @ x[3:6]) / r + ref.poly(al, r - p["collision_radius"])

            cons.append(RefConstraint(
                "chief_collision_hocbf", h, {"collision_radius": R}, phi=lambda x, p: float(np.linalg.norm(x[:3])) - p["collision_radius"],
                alpha=al, grel=8.0, scale=lambda x, p: 1 + abs(h(x, p)) + 3 * 0.1 * (float(np.linalg.norm(x[:3])) + R)**3 / 4))
        else:
            cons.append(chief)
    if kw.get("constraints_to_use"):
        cons = [c for c in cons if c.name in kw["constraints_to_use"]]
    p = Problem(8, 3, lambda x: A @ x + drift, lambda x: B, plant, cons, None, q["control_bounds_low"], q["control_bounds_high"])
    p.limit = 1e6
    p.plant = plant
    return p


def insp3d_problem(cfg):
    kw = dict(cfg.get("kw", {}))
    q = insp_par(kw)
    N = kw["num_deputies"]
    n, m, a, R = q["n"], q["m"], q["a_max"], q["chief_radius"] + q["deputy_radius"]
    A6, B6 = cwh(n, m, 3)
    nt = 6 * N + 1
    A = np.zeros((nt, nt))
    for i in range(N):
        A[6 * i:6 * i + 6, 6 * i:6 * i + 6] = A6
    B = np.zeros((nt, 3))
    B[:6] = B6
    drift = np.zeros(nt)
    drift[-1] = q["sun_vel"]

    def own(x):
        return x[:3], x[3:6]

    def sun(x):
        return -np.array([math.cos(x[-1]), math.sin(x[-1]), 0.0])

    cons = [
        range_rate("chief_collision", {"collision_radius": R, "a_max": a}, own, +1, 2.0),
        rel_vel(3, q["v0"], q["v1"], q["v0_distance"], bias=-2e-3, alpha=[0, 0, 0, 0.1]),
        cone("chief_sun", {"fov": q["fov"], "a_max": a}, own, sun, q["sun_vel"], [0, 0.001, 0, 0.0001]),
        range_rate("r_max", {"r_max": q["r_max"], "a_max": a}, own, -1, 2.0),
        psm("PSM", R, n, lambda x: x[:6], nt),
    ] + [mag(f"{ax}_vel", 3 + i, q["vel_limit"], alpha=[0, 0.1, 0, 0.01], bias=-0.001) for i, ax in enumerate("xyz")]
    for i in range(1, N):

        def other(x, i=i):
            return x[:3] - x[6 * i:6 * i + 3], x[3:6] - x[6 * i + 3:6 * i + 6]

        def flipped(x, other=other):
            p, v = other(x)
            s = -1.0 if float(p @ sun(x)) < 0 else 1.0
            return s * p, s * v

        def diff(x, i=i):
            return x[:6] - x[6 * i:6 * i + 6]

        cons.append(range_rate(f"deputy_collision_{i}", {"collision_radius": 2 * q["deputy_radius"], "a_max": a}, other, +1, 4.0))
        cons.append(cone(f"deputy_sun_{i}", {"fov": q["fov"], "a_max": a}, flipped, sun, q["sun_vel"], [0, 0, 0, 0.1], mirrored=True))
        cons.append(psm(f"deputy_PSM_{i}", R, n, diff, nt))
    if kw.get("constraints_to_use"):
        cons = [c for c in cons if c.name in kw["constraints_to_use"]]
    p = Problem(nt, 3, lambda x: A @ x + drift, lambda x: B, None, cons, None, q["control_bounds_low"], q["control_bounds_high"])
    p.limit = 1e6
    lin = Linear(A6, B6)

    def plant(x, dt, us):
        """every agent moves under its own control (coasting where none is given)"""
        us = np.concatenate((us, np.zeros(3 * N - len(us))))
        out = [lin.step(x[6 * i:6 * i + 6], dt, us[3 * i:3 * i + 3]) for i in range(N)]
        return np.concatenate(out + [[x[-1] + q["sun_vel"] * dt]])

    p.plant = plant
    return p


def problem(cfg):
    z = cfg["zoo"]
    if z.startswith("docking"):
        return docking_problem(cfg)
    if z == "integrator":
        return integrator_problem(cfg)
    if z == "insp1v1":
        return insp1v1_problem(cfg)
    return insp3d_problem(cfg)


CLASS = {
    ("docking2d", "esimplex"): ("cwh.docking_2d", "Docking2dExplicitSwitchingRTA"),
    ("docking2d", "isimplex"): ("cwh.docking_2d", "Docking2dImplicitSwitchingRTA"),
    ("docking2d", "easif"): ("cwh.docking_2d", "Docking2dExplicitOptimizationRTA"),
    ("docking2d", "iasif"): ("cwh.docking_2d", "Docking2dImplicitOptimizationRTA"),
    ("docking3d", "esimplex"): ("cwh.docking_3d", "Docking3dExplicitSwitchingRTA"),
    ("docking3d", "isimplex"): ("cwh.docking_3d", "Docking3dImplicitSwitchingRTA"),
    ("docking3d", "easif"): ("cwh.docking_3d", "Docking3dExplicitOptimizationRTA"),
    ("docking3d", "iasif"): ("cwh.docking_3d", "Docking3dImplicitOptimizationRTA"),
    ("integrator", "esimplex"): ("integrators.integrator_1d", "Integrator1dDockingExplicitSwitchingRTA"),
    ("integrator", "isimplex"): ("integrators.integrator_1d", "Integrator1dDockingImplicitSwitchingRTA"),
    ("integrator", "easif"): ("integrators.integrator_1d", "Integrator1dDockingExplicitOptimizationRTA"),
    ("integrator", "iasif"): ("integrators.integrator_1d", "Integrator1dDockingImplicitOptimizationRTA"),
    ("insp1v1", "easif"): ("cwh.inspection_1v1", "Inspection1v1RTA"),
    ("insp1v1", "dasif"): ("cwh.inspection_1v1", "DiscreteInspection1v1RTA"),
    ("insp3d", "easif"): ("cwh.inspection_3d", "InspectionRTA"),
}


def build(cfg):
    import importlib

    mod, name = CLASS[(cfg["zoo"], cfg["algo"])]
    cls = getattr(importlib.import_module("run_time_assurance.zoo." + mod), name)
    kw = dict(cfg.get("kw", {}))
    if "latch" in cfg:
        kw["latch_time"] = cfg["latch"]
    if "window" in cfg:
        kw["backup_window"] = cfg["window"]
    if "epsilon" in cfg:
        kw["epsilon"] = cfg["epsilon"]
    if cfg.get("solver_exception"):
        kw["solver_exception"] = True
    if cfg.get("jit_enable") is False:
        kw["jit_enable"] = False
    return cls(**kw)
