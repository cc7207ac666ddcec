"""Executable reference models (numpy, float64), independent of the code under test.

A *problem* describes a plant, constraints, backup controller and bounds; the reference algorithms below say which
controls an RTA may return for a measured state and a desired control.  Single precision and solver tolerances are
handled by bands: where a decision is closer to a threshold than rounding can resolve, both outcomes are allowed and the
model adopts the one observed.
"""
from __future__ import annotations

import copy
import math

import numpy as np
import quadprog as _quadprog

from .core import Inconclusive

_solve_qp = _quadprog.solve_qp  # captured before any fault injection patches the module


def f32(v):
    """What single precision makes of a measurement or command."""
    return np.asarray(np.asarray(v, np.float64).astype(np.float32), np.float64)


def poly(coefs, x):
    return sum(c * x**i for i, c in enumerate(coefs))


def num_grad(fn, x, rel=1e-6):
    x = np.asarray(x, float)
    out = np.zeros(len(x))
    for i in range(len(x)):
        e = rel * max(1.0, abs(x[i]))
        a, b = x.copy(), x.copy()
        a[i] += e
        b[i] -= e
        out[i] = (fn(a) - fn(b)) / (2 * e)
    return out


class RefConstraint:
    """h(x) + bias >= 0 with everything the optimisation methods need to know about it"""

    def __init__(self, name, h, params, phi=None, grad=None, bias=0.0, alpha=None, alpha_neg=None, bias_neg=-0.01,
                 slack=None, enabled=True, sub=None, scale=None, smooth=None, cands=None, grel=1.0):
        self.name = name
        self._h = h
        self._phi = phi or h
        self._grad = grad
        self.params = dict(params)
        self.bias = bias
        self.straight = False  # one component of the state against a limit: the sign of the value is exact
        self.alpha_coefs = alpha
        self.alpha_neg_coefs = alpha_neg
        self.bias_neg = bias_neg
        self.slack = slack
        self.enabled = enabled
        self.sub = sub or {}
        self._scale = scale
        self._smooth = smooth  # False where h has a kink or is too ill-conditioned to be judged
        self._cands = cands  # possible (h, gradient) pairs where h is a minimum of several functions
        self.grel = grel  # how much worse than the default the single precision gradient is

    def smooth(self, x):
        return self._smooth is None or bool(self._smooth(x, self.params))

    def branches(self, x):
        """the (h, gradient) pairs single precision may end up with; None: cannot be judged here"""
        if not self.smooth(x):
            return None
        if self._cands is None:
            return [(self.h(x), self.grad(x))]
        got = self._cands(x, self.params)
        return None if got is None else [(v + self.bias, g) for v, g in got]

    def h(self, x):
        return float(self._h(x, self.params)) + self.bias

    def phi(self, x):
        return float(self._phi(x, self.params))

    def grad(self, x):
        if self._grad is not None:
            return np.asarray(self._grad(x, self.params), float)
        return num_grad(lambda y: float(self._h(y, self.params)), x)

    def scale(self, x):
        """magnitude of the terms summed in h: what single precision errors are relative to"""
        if self._scale is not None:
            return float(self._scale(x, self.params))
        return 1.0 + abs(self._h(x, self.params)) + float(np.sum(np.abs(self.grad(x)) * np.abs(x)))

    def alpha(self, v):
        return poly(self.alpha_coefs, v)

    def alpha_negative(self, v):
        return 10 * self.alpha(v) if self.alpha_neg_coefs is None else poly(self.alpha_neg_coefs, v)

    def slope(self, v):
        """bound on how strongly an error of h is amplified by alpha near v"""
        a = sum(i * abs(c) * abs(v)**(i - 1) for i, c in enumerate(self.alpha_coefs) if i > 0)
        b = 10 * a
        if self.alpha_neg_coefs is not None:
            b = sum(i * abs(c) * abs(v)**(i - 1) for i, c in enumerate(self.alpha_neg_coefs) if i > 0)
        return max(a, b) if v < 0 else a


class RefBackup:
    """u, new_state = law(x, dt, state); gain(x, dt, state) = du/dx"""

    def __init__(self, law, gain, init=None):
        self.law = law
        self.gain = gain
        self.init = copy.deepcopy(init)
        self.state = copy.deepcopy(init)

    def reset(self):
        self.state = copy.deepcopy(self.init)


class Problem:
    def __init__(self, n, m, f, g, pred, constraints, backup=None, low=None, high=None, direct=()):
        self.n, self.m = n, m
        self.f, self.g, self.pred = f, g, pred
        self.constraints = constraints
        self.backup = backup
        self.low = np.broadcast_to(-np.inf if low is None else np.asarray(low, float), (m,)).astype(float)
        self.high = np.broadcast_to(np.inf if high is None else np.asarray(high, float), (m,)).astype(float)
        self.has_low = low is not None
        self.has_high = high is not None
        self.direct = list(direct)
        self.plant = pred  # what really happens; pred is what the rta may assume
        self.limit = 1e4  # beyond this the prediction is considered to diverge

    def clip(self, u):
        return np.minimum(np.maximum(u, self.low), self.high)

    def constraint(self, name):
        for c in self.constraints:
            if c.name == name:
                return c
        raise KeyError(name)


# ---------------------------------------------------------------------------------------------------------------------
# toy problems from the same JSON spec toys.build() uses


def toy_f_g(system):
    c, m, kg = float(system.get("drag", 0.0)), float(system.get("mass", 1.0)), float(system.get("kg", 0.0))
    nv = 1 if system["name"] == "di1" else 2

    def f(x):
        return np.concatenate((x[nv:], -c * x[nv:]))

    def g(x):
        return np.vstack((np.zeros((nv, nv)), np.eye(nv) * (1.0 + kg * x[0]) / m))

    return f, g, 2 * nv, nv


def toy_constraint(s, system):
    _, _, n, nv = toy_f_g(system)
    t = s["type"]
    i = s.get("index")
    common = dict(bias=s.get("bias", 0.0), alpha=s.get("alpha") or [0, 0.0005, 0, 0.001], alpha_neg=s.get("alpha_neg"),
                  bias_neg=s.get("bias_neg", -0.01), slack=s.get("slack"), enabled=s.get("enabled", True), sub=s.get("sub"))

    def unit(j, v=1.0):
        e = np.zeros(n)
        e[j] = v
        return e

    if t == "mag":
        return RefConstraint(s["name"], lambda x, p: p["limit_val"]**2 - x[i]**2, s["params"], grad=lambda x, p: unit(i, -2 * x[i]),
                             scale=lambda x, p: 1 + p["limit_val"]**2 + x[i]**2, **common)
    if t in ("max", "min"):
        sg = 1.0 if t == "max" else -1.0
        c = RefConstraint(s["name"], lambda x, p: sg * (p["limit_val"] - x[i]), s["params"], grad=lambda x, p: unit(i, -sg),
                          scale=lambda x, p: 1 + abs(p["limit_val"]) + abs(x[i]), **common)
        c.straight = not common["bias"]
        return c
    if t == "headway":
        return RefConstraint(s["name"], lambda x, p: p["limit"] - x[i] - p["T"] * x[i + nv], s["params"],
                             phi=lambda x, p: p["limit"] - x[i], grad=lambda x, p: unit(i, -1.0) + unit(i + nv, -p["T"]),
                             scale=lambda x, p: 1 + abs(p["limit"]) + abs(x[i]) + abs(p["T"] * x[i + nv]), **common)
    if t == "speed2":
        return RefConstraint(s["name"], lambda x, p: p["vmax"]**2 - float(x[nv:] @ x[nv:]), s["params"],
                             grad=lambda x, p: np.concatenate((np.zeros(nv), -2 * x[nv:])),
                             scale=lambda x, p: 1 + p["vmax"]**2 + float(x[nv:] @ x[nv:]), **common)
    if t == "keepout":
        return RefConstraint(s["name"], lambda x, p: float(x[:nv] @ x[:nv]) - p["r"]**2 + 2 * p["T"] * float(x[:nv] @ x[nv:]),
                             s["params"], phi=lambda x, p: float(x[:nv] @ x[:nv]) - p["r"]**2,
                             grad=lambda x, p: np.concatenate((2 * x[:nv] + 2 * p["T"] * x[nv:], 2 * p["T"] * x[:nv])),
                             scale=lambda x, p: 1 + float(x[:nv] @ x[:nv]) + p["r"]**2 + 2 * p["T"] * float(np.abs(x[:nv]) @ np.abs(x[nv:])),
                             **common)
    if t == "away":
        return RefConstraint(s["name"], lambda x, p: (x[i] - p["c"])**2 - p["r"]**2, s["params"], grad=lambda x, p: unit(i, 2 * (x[i] - p["c"])),
                             scale=lambda x, p: 1 + (abs(x[i]) + abs(p["c"]))**2 + p["r"]**2, **common)
    if t == "hocbf":
        # base limit - x[i], relative degree 2: psi1 = d/dt(base) along f + alpha(base)
        al = common["alpha"]
        return RefConstraint(s["name"], lambda x, p: -x[i + nv] + poly(al, p["limit_val"] - x[i]), s["params"],
                             phi=lambda x, p: p["limit_val"] - x[i], **common)
    raise KeyError(t)


def toy_backup(spec, system):
    _, _, n, nv = toy_f_g(system)
    k, q = float(spec.get("k", 0.5)), float(spec.get("q", 0.25))
    const = np.array(spec.get("const", [0.0] * nv), float)
    kind = spec["kind"]

    def gain(v):
        return np.hstack((np.zeros((nv, nv)), -v * np.eye(nv)))

    if kind == "brake":
        return RefBackup(lambda x, dt, s: (const - k * x[nv:], None), lambda x, dt, s: gain(k))
    if kind == "counter":
        return RefBackup(lambda x, dt, s: (const - (k + q * s[0]) * x[nv:], s + np.array([1.0, dt])),
                         lambda x, dt, s: gain(k + q * s[0]), np.array(spec.get("init", [0.0, 0.0]), float))
    return RefBackup(
        lambda x, dt, s: (const - k * x[nv:] - q * s["integ"], {"integ": s["integ"] + x[nv:] * dt, "n": s["n"] + 1.0}),
        lambda x, dt, s: gain(k), {"integ": np.array(spec.get("init", [0.0] * nv), float), "n": np.array(0.0)})


def toy_bound(v):
    if isinstance(v, dict):
        return np.array(v["v"], float)
    return v


class RefDirect:
    def __init__(self, s):
        self.name = s["name"]
        self.params = {k: (np.array(v, float) if k == "w" else v) for k, v in s["params"].items()}
        self.enabled = s.get("enabled", True)

    def row(self, x):
        return np.array(self.params["w"], float), float(self.params["b"] + self.params["k"] * x[0])


def toy_problem(cfg):
    f, g, n, m = toy_f_g(cfg["system"])

    def pred(x, dt, u):
        return x + dt * (f(x) + g(x) @ u)

    specs = [s for s in cfg["constraints"] if cfg.get("use") is None or s["name"] in cfg["use"]]
    return Problem(n, m, f, g, pred, [toy_constraint(s, cfg["system"]) for s in specs],
                   backup=toy_backup(cfg["backup"], cfg["system"]) if "backup" in cfg else None,
                   low=toy_bound(cfg.get("low")), high=toy_bound(cfg.get("high")), direct=[RefDirect(s) for s in cfg.get("direct", [])])


# ---------------------------------------------------------------------------------------------------------------------
# simplex


def window_steps(window, dt):
    return int(math.floor(window / dt + 1e-6))


def coarse(*arrays):
    """all multiples of 1/64 and small: sums and products of two of them are exact in single precision"""
    return all(np.all(np.abs(a) < 16) and np.all(np.asarray(a, float) * 64 == np.round(np.asarray(a, float) * 64)) for a in arrays)


def rollout(prob, x, dt, steps, first=None):
    """States of the plant under (optionally one step of `first`, then) the clipped backup control; backup state untouched."""
    s = copy.deepcopy(prob.backup.state) if prob.backup is not None else None
    xs = []
    if first is not None:
        x = prob.pred(x, dt, first)
        if not np.all(np.abs(x) < prob.limit):
            raise Inconclusive("diverging prediction")
    xs.append(x)
    states = [s]
    for _ in range(steps):
        u, s = prob.backup.law(x, dt, s)
        x = prob.pred(x, dt, prob.clip(u))
        if not np.all(np.abs(x) < prob.limit):
            raise Inconclusive("diverging backup prediction")
        xs.append(x)
        states.append(s)
    return xs, states


BAND = 2e-5


def margins(prob, xs, tol=BAND, exact=()):
    """(surely violated?, surely satisfied?, worst constraint, value) over the points

    exact: names of constraints whose values carry no rounding error, so that zero is zero (and satisfied)
    """
    bad, sure_ok = False, True
    worst = (None, math.inf, 0)
    for j, x in enumerate(xs):
        for c in prob.constraints:
            if not c.enabled:
                continue
            v = c.h(x)
            t = tol * c.scale(x) * (1 + 0.2 * j)
            if v < worst[1]:
                worst = (c.name, v, j)
            if v == 0.0 and c.name in exact:
                continue
            if not v >= -t:
                bad = True
            if not v >= t:
                sure_ok = False
    return bad, sure_ok, worst


# ---------------------------------------------------------------------------------------------------------------------
# quadratic programs


class Row:
    __slots__ = ("name", "w", "b", "tol", "slack", "sure")

    def __init__(self, name, w, b, tol, slack=None, sure=True):
        self.name, self.w, self.b, self.tol, self.slack, self.sure = name, np.asarray(w, float), float(b), float(tol), slack, sure


def solve(rows, ud, m, weights, shift=0.0):
    """argmin 1/2|u-ud|^2 + 1/2 sum weights s^2 with w.u - s >= b + shift*tol. None if infeasible."""
    ns = len(weights)
    G = np.diag(np.concatenate((np.ones(m), np.asarray(weights, float))) if ns else np.ones(m))
    a = np.concatenate((ud, np.zeros(ns)))
    if not rows:
        return np.array(ud, float)
    C = np.zeros((m + ns, len(rows)))
    b = np.zeros(len(rows))
    for j, r in enumerate(rows):
        C[:m, j] = r.w
        if r.slack is not None:
            C[m + r.slack, j] = -1.0
        b[j] = r.b + shift * r.tol
    # normalise rows: conditioning only, does not change the feasible set
    nz = np.linalg.norm(C, axis=0)
    for j in range(len(rows)):
        if nz[j] < 1e-13:
            if b[j] > 1e-13:
                return None
            C[:, j], b[j] = 0.0, 0.0
        else:
            C[:, j] /= nz[j]
            b[j] /= nz[j]
    keep = nz >= 1e-13
    if not keep.any():
        return np.array(ud, float)
    try:
        return _solve_qp(G, a, C[:, keep], b[keep], 0)[0][:m]
    except ValueError as e:
        if "inconsistent" not in str(e):
            raise
    if ns and solve([r for r in rows if r.slack is None], ud, m, [], shift) is not None:
        raise Unsolved()  # slack makes it feasible, but the weights are beyond what the reference solver resolves
    return None


class Unsolved(Exception):
    pass


class Unjudged(Exception):
    """the state is too close to a kink of this constraint for a verdict on this step"""


def penalty(u, rows, ud, weights):
    """1/2|u-ud|^2 plus the optimal slack penalty for the given u (violations smaller than the row's tolerance are free)"""
    J = 0.5 * float((u - ud) @ (u - ud))
    if len(weights):
        worst = np.zeros(len(weights))
        for r in rows:
            if r.slack is not None:
                worst[r.slack] = max(worst[r.slack], r.b - float(r.w @ u) - r.tol)
        J += 0.5 * float(np.sum(np.asarray(weights) * worst**2))
    return J


def bound_rows(prob):
    rows = []
    for i in range(prob.m):
        if prob.has_low:
            rows.append(Row(f"u{i + 1}_min", np.eye(prob.m)[i], prob.low[i], 1e-6 * (1 + abs(prob.low[i]))))
    for i in range(prob.m):
        if prob.has_high:
            rows.append(Row(f"u{i + 1}_max", -np.eye(prob.m)[i], -prob.high[i], 1e-6 * (1 + abs(prob.high[i]))))
    return rows


def slack_index(prob):
    idx, weights = {}, []
    for c in prob.constraints:
        if c.slack is not None:
            idx[c.name] = len(weights)
            weights.append(math.sqrt(c.slack))
    return idx, weights


REL = 2e-5


def explicit_rows(prob, x, rel=REL):
    """Barrier rows at the current state. A row whose branch (h < 0?) is undecidable in single precision appears twice:
    the weaker version is certain, the stronger one possible."""
    rows = bound_rows(prob)
    sidx, weights = slack_index(prob)
    fx, gx = prob.f(x), prob.g(x)
    for c in prob.constraints:
        if not c.enabled:
            continue
        pairs = c.branches(x)
        if pairs is None:
            raise Unjudged(c.name)
        s = sidx.get(c.name)
        tol_h = rel * c.scale(x)
        for h, gr in pairs:
            w = gr @ gx
            base = -float(gr @ fx)
            tol = rel * c.grel * (1e-2 + float(np.abs(gr) @ np.abs(fx)) + float(np.sum(np.abs(w))) + abs(c.alpha(h)) + abs(c.bias_neg)) + \
                tol_h * (0.02 + c.slope(h))
            bp = base - c.alpha(h)
            bn = base - (c.alpha_negative(h) + c.bias_neg)
            sure = len(pairs) == 1
            if h >= tol_h:
                rows.append(Row(c.name, w, bp, tol, s, sure))
            elif h < -tol_h:
                rows.append(Row(c.name, w, bn, tol, s, sure))
            else:
                rows.append(Row(c.name, w, min(bp, bn), tol, s, sure))
                rows.append(Row(c.name, w, max(bp, bn), tol, s, sure=False))
    rows += direct_rows(prob, x)
    return rows, weights


def direct_rows(prob, x, rel=REL):
    out = []
    for d in prob.direct:
        if d.enabled:
            w, b = d.row(x)
            out.append(Row(d.name, w, b, rel * (1 + abs(b) + float(np.sum(np.abs(w))))))
    return out


def check_points(sub, num):
    nca = max(int(sub.get("num_check_all", -1)), 0)
    return list(range(0, min(nca, num))) + list(range(nca, num, int(sub.get("skip_length", 1))))


def implicit_rows(prob, x, dt, window, rel=4e-5):
    """Barrier rows along the backup trajectory, with the subsampling each constraint asks for."""
    rows = bound_rows(prob)
    sidx, weights = slack_index(prob)
    num = window_steps(window, dt) + 1
    xs, states = rollout(prob, x, dt, num - 1)
    S = [np.eye(prob.n)]
    for k in range(1, num):
        J = jac_closed_loop(prob, xs[k], dt, states[k])
        S.append(S[-1] + (J @ S[-1]) * dt)
    fx, gx = prob.f(x), prob.g(x)
    for c in prob.constraints:
        if not c.enabled:
            continue
        cand = check_points(c.sub, num)
        hs = {k: c.h(xs[k]) for k in set(cand) | {0, num - 1}}
        tolh = {k: rel * c.scale(xs[k]) * (1 + 0.2 * k) for k in hs}
        sure, maybe = list(cand), []
        least = c.sub.get("subsample_constraints_num_least")
        if least is not None and least < len(cand):
            order = sorted(cand, key=lambda k: hs[k])
            cut_in, cut_out = hs[order[least - 1]], hs[order[least]]
            gap = 4 * max(tolh[order[least - 1]], tolh[order[least]])
            sure = [k for k in order[:least] if hs[k] < cut_out - gap]
            maybe = [k for k in order if k not in sure and hs[k] <= cut_in + gap]
        if c.sub.get("keep_first") and 0 not in sure:
            sure.append(0)
            maybe = [k for k in maybe if k != 0]
        if c.sub.get("keep_last") and num - 1 not in sure:
            sure.append(num - 1)
            maybe = [k for k in maybe if k != num - 1]
        for k in sure + maybe:
            gr = c.grad(xs[k]) @ S[k]
            w = gr @ gx
            a = c.alpha(hs[k])
            mag = np.abs(c.grad(xs[k])) @ np.abs(S[k])
            tol = (1 + 0.2 * k) * rel * (1e-2 + float(mag @ np.abs(fx)) + float(np.sum(mag @ np.abs(gx))) + abs(a)) + tolh[k] * (1 + c.slope(hs[k]))
            rows.append(Row(c.name, w, -float(gr @ fx) - a, tol, sidx.get(c.name), sure=k in sure))
    rows += direct_rows(prob, x)
    return rows, weights


def jac_closed_loop(prob, x, dt, s):
    """d/dx [f(x) + g(x) backup(x)] (the backup control as the controller issues it, before clipping)"""
    def F(y):
        u, _ = prob.backup.law(y, dt, copy.deepcopy(s))
        return prob.f(y) + prob.g(y) @ u

    out = np.zeros((prob.n, prob.n))
    for i in range(prob.n):
        e = 1e-6 * max(1.0, abs(x[i]))
        a, b = x.copy(), x.copy()
        a[i] += e
        b[i] -= e
        out[:, i] = (F(a) - F(b)) / (2 * e)
    return out


class QPVerdict:
    """What the reference says about a quadratic program: feasible / infeasible / undecidable, and how to judge a control"""

    def __init__(self, prob, rows, weights, ud, infeasible_if=None):
        self.m = prob.m
        self.rows, self.weights, self.ud = rows, weights, np.asarray(ud, float)
        self.must = [r for r in rows if r.sure]
        self.ambiguous = any(not r.sure for r in rows)
        try:
            self.tight = solve(rows, self.ud, self.m, weights, +1.0)
            self.loose = solve(self.must, self.ud, self.m, weights, -1.0)
        except Unsolved:
            self.tight = self.loose = None
            self.status = "unclear"
            return
        self.status = "feasible" if self.tight is not None else ("infeasible" if self.loose is None else "unclear")

    def residual(self, u):
        """worst violated certain hard row: (name, amount beyond tolerance)"""
        worst = (None, 0.0)
        for r in self.must:
            if r.slack is None:
                v = r.b - float(r.w @ u) - 2 * r.tol - 1e-6 * float(np.abs(r.w) @ np.abs(u))
                if not v <= worst[1]:
                    worst = (r.name, v)
        return worst

    def excess(self, u):
        """how much further from the desired control than necessary (in objective terms), beyond tolerance"""
        if self.tight is None:
            return -math.inf
        Ju, Jt = penalty(u, self.must, self.ud, self.weights), penalty(self.tight, self.rows, self.ud, self.weights)
        if Jt <= 1e-12:  # nothing stands in the way of the desired control, even with every constraint tightened
            return Ju - 0.5 * (3e-4 * (1 + float(np.linalg.norm(self.ud))))**2
        # the tightened optimum pays at most its own slack tolerance on top
        return Ju - Jt - 2e-4 * (0.1 + Jt) - 1e-5 * float(np.linalg.norm(u))

    def explains(self, u, names):
        """Is u the optimum of the problem restricted to the named constraints?  Returns excess beyond tolerance."""
        sub = [r for r in self.rows if r.name in names]
        try:
            t = solve(sub, self.ud, self.m, self.weights, +1.0)
        except Unsolved:
            t = None
        if t is None:
            return -math.inf
        Ju, Jt = penalty(u, [r for r in sub if r.sure], self.ud, self.weights), penalty(t, sub, self.ud, self.weights)
        return Ju - Jt - 5e-4 * (1 + Jt) - 1e-5 * float(np.linalg.norm(u))

    def slackness(self, u, name):
        """smallest distance of the named constraint's rows from being active at u (<= 0: active), beyond tolerance"""
        best = math.inf
        for r in self.rows:
            if r.name == name:
                best = min(best, float(r.w @ u) - r.b - 3 * r.tol - 1e-4 * float(np.sum(np.abs(r.w))))
        return best
