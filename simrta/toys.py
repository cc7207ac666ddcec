"""Toy systems: real RTA algorithms of the code under test (simplex, ASIF) around small plants written here.

Everything in this file that touches run_time_assurance uses only its documented extension points (subclass hooks,
constructor arguments, public attributes).  The numpy twins used by the reference models live in ref.py and share no
code with it beyond the plain JSON specs.
"""
from __future__ import annotations

import copy
from collections import OrderedDict

import numpy as np


class InjectedFault(Exception):
    """A failure of a user supplied component (sensor, model, backup controller, solver) injected by the simulator."""


class Seams:
    """Counts calls of the user supplied callbacks and fails one of them when the schedule says so."""

    def __init__(self):
        self.armed = None  # {"site": ..., "nth": k, "kind": "raise" | "nan"}
        self.count = 0
        self.fired = 0
        self.on_call = None  # scheduler hook: called with the site name at every callback (interleaving point)
        self.calls = {}
        self.given = {}  # option objects handed to the constructor

    def arm(self, spec):
        self.armed = dict(spec) if spec else None
        self.count = 0
        self.fired = 0

    def visit(self, site):
        self.calls[site] = self.calls.get(site, 0) + 1
        if self.on_call is not None:
            self.on_call(site)
        a = self.armed
        if a is None or a["site"] != site:
            return None
        self.count += 1
        if self.count != a["nth"]:
            return None
        self.fired += 1
        if a["kind"] == "raise":
            raise InjectedFault(f"injected failure at {site} call {self.count}")
        return a["kind"]


def dims(system):
    return {"di1": (2, 1), "di2": (4, 2)}[system["name"]]


def make_f_g(system, xp):
    """State derivative parts f(x), g(x) in terms of array module xp."""
    c = float(system.get("drag", 0.0))
    m = float(system.get("mass", 1.0))
    kg = float(system.get("kg", 0.0))
    if system["name"] == "di1":

        def f(x):
            return xp.array([x[1], -c * x[1]])

        def g(x):
            return xp.array([[0.0], [(1.0 + kg * x[0]) / m]])
    else:

        def f(x):
            return xp.array([x[2], x[3], -c * x[2], -c * x[3]])

        def g(x):
            e = (1.0 + kg * x[0]) / m
            z = 0.0 * e
            return xp.array([[z, z], [z, z], [e, z], [z, e]])

    return f, g


# ---------------------------------------------------------------------------------------------------------------------
# constraints


def _alpha(coefs):
    from run_time_assurance.constraint import PolynomialConstraintStrengthener

    return None if coefs is None else PolynomialConstraintStrengthener(list(coefs))


_classes = {}


def _custom_classes():
    """Constraint classes a user would write (built lazily, run_time_assurance must be importable first)."""
    if _classes:
        return _classes
    import jax.numpy as jnp
    from run_time_assurance.constraint import ConstraintModule, DirectInequalityConstraint

    class Headway(ConstraintModule):
        def __init__(self, index, nvel, **kw):
            self.index, self.nvel = index, nvel
            super().__init__(**kw)

        def _compute(self, state, params):
            return params["limit"] - state[self.index] - params["T"] * state[self.index + self.nvel]

        def _phi(self, state, params):
            return params["limit"] - state[self.index]

    class Speed2(ConstraintModule):
        def __init__(self, nvel, **kw):
            self.nvel = nvel
            super().__init__(**kw)

        def _compute(self, state, params):
            return params["vmax"]**2 - jnp.sum(state[self.nvel:]**2)

    class KeepOut(ConstraintModule):
        def __init__(self, nvel, **kw):
            self.nvel = nvel
            super().__init__(**kw)

        def _compute(self, state, params):
            p, v = state[:self.nvel], state[self.nvel:]
            return jnp.sum(p**2) - params["r"]**2 + 2 * params["T"] * jnp.dot(p, v)

        def _phi(self, state, params):
            return jnp.sum(state[:self.nvel]**2) - params["r"]**2

    class Away(ConstraintModule):
        def __init__(self, index, **kw):
            self.index = index
            super().__init__(**kw)

        def _compute(self, state, params):
            return (state[self.index] - params["c"])**2 - params["r"]**2

    class Direct(DirectInequalityConstraint):
        """w . u >= b + k * x[0] with live params"""

        def ineq_weight(self, state, params):
            return jnp.array(params["w"], dtype=float)

        def ineq_constant(self, state, params):
            return params["b"] + params["k"] * state[0]

    _classes.update(headway=Headway, speed2=Speed2, keepout=KeepOut, away=Away, direct=Direct)
    return _classes


def make_constraint(spec, system, f=None):
    from run_time_assurance import constraint as C

    n, m = dims(system)
    cc = _custom_classes()
    kw = dict(bias=spec.get("bias", 0), alpha=_alpha(spec.get("alpha")), alpha_negative=_alpha(spec.get("alpha_neg")))
    if "bias_neg" in spec:
        kw["bias_negative"] = spec["bias_neg"]
    if spec.get("slack") is not None:
        kw["slack_priority_scale"] = spec["slack"]
    if "enabled" in spec:
        kw["enabled"] = spec["enabled"]
    kw.update(spec.get("sub") or {})
    t = spec["type"]
    p = dict(spec["params"])
    if t in ("mag", "max", "min"):
        cls = {"mag": C.ConstraintMagnitudeStateLimit, "max": C.ConstraintMaxStateLimit, "min": C.ConstraintMinStateLimit}[t]
        return cls(limit_val=p["limit_val"], state_index=spec["index"], **kw)
    if t in ("headway", "speed2", "keepout", "away"):
        if not spec.get("late"):
            kw["params"] = p
        args = {"headway": (spec.get("index"), n // 2), "away": (spec.get("index"),)}.get(t, (n // 2,))
        c = cc[t](*args, **kw)
        if spec.get("late"):
            c.params.update(p)
        return c
    if t == "hocbf":
        base = C.ConstraintMaxStateLimit(limit_val=p["limit_val"], state_index=spec["index"], alpha=_alpha([0, 1]))
        return C.HOCBFConstraint(base, relative_degree=2, state_transition_system=f, **kw)
    raise KeyError(t)


def make_direct(spec):
    kw = {}
    if "enabled" in spec:
        kw["enabled"] = spec["enabled"]
    return _custom_classes()["direct"](params={k: (np.array(v, float) if k == "w" else v) for k, v in spec["params"].items()}, **kw)


# ---------------------------------------------------------------------------------------------------------------------
# backup controllers


class Law:
    """the numbers of one backup controller and the seam its calls pass"""

    def __init__(self, spec, system, seams):
        self.n, self.m = dims(system)
        self.k = float(spec.get("k", 0.5))
        self.q = float(spec.get("q", 0.25))
        self.const = np.array(spec.get("const", [0.0] * self.m), float)
        self.seams = seams


def backup_classes(cache):
    if cache:
        return cache
    import jax.numpy as jnp
    from run_time_assurance.controller import RTABackupController

    class Based(RTABackupController):
        def __init__(self, law, **kw):
            self.law = law
            super().__init__(**kw)

        def _generate_control(self, state, step_size, controller_state=None):
            fault = self.law.seams.visit("backup")
            u, new = self.compute(self.law, state, state[self.law.n // 2:], step_size, controller_state)
            if fault == "nan":
                u = u * jnp.nan
            return u, new

    class Brake(Based):
        def compute(self, law, state, v, step_size, s):
            return law.const - law.k * v, None

    class Counter(Based):
        """array state: [calls made, accumulated time]"""

        def compute(self, law, state, v, step_size, s):
            return law.const - (law.k + law.q * s[0]) * v, s + jnp.array([1.0, step_size])

    class Integral(Based):
        """dict state"""

        def compute(self, law, state, v, step_size, s):
            return law.const - law.k * v - law.q * s["integ"], {"integ": s["integ"] + v * step_size, "n": s["n"] + 1.0}

    class Mutating(Based):
        """dict state, updated in place and returned"""

        def compute(self, law, state, v, step_size, s):
            u = law.const - law.k * v - law.q * s["integ"]
            s["integ"] = s["integ"] + v * step_size
            s["n"] = s["n"] + 1.0
            return u, s

    cache.update(brake=Brake, counter=Counter, integral=Integral, mutating=Mutating)
    return cache


def make_backup(spec, system, seams, share=None):
    """Backup controllers of every kind the interface allows: stateless, array state, dict state, mutating dict."""
    import jax.numpy as jnp

    law = Law(spec, system, seams)
    kind = spec["kind"]
    cls = backup_classes({} if share is None else share.setdefault("backups", {}))[kind]
    if kind == "brake":
        return cls(law, jit_enable=bool(spec.get("jit", True)))
    if kind == "counter":
        return cls(law, controller_state_initial=jnp.array(spec.get("init", [0.0, 0.0]), float), jit_enable=bool(spec.get("jit")))
    return cls(law, controller_state_initial={"integ": jnp.array(spec.get("init", [0.0] * law.m), float), "n": jnp.array(0.0)},
               jit_enable=bool(spec.get("jit")))


# ---------------------------------------------------------------------------------------------------------------------
# RTA modules


def bound(v):
    """Bounds come in every form the constructor documents."""
    if v is None:
        return None
    if isinstance(v, dict):
        if v["as"] == "array":
            return np.array(v["v"], float)
        return list(v["v"])
    return v


class Toy:
    """what one toy module needs beside its class: configuration, model and seams"""

    def __init__(self, cfg, seams):
        import jax.numpy as jnp

        self.cfg, self.seams, self.system = cfg, seams, cfg["system"]
        self.fj, self.gj = make_f_g(self.system, jnp)
        self.fn, self.gn = make_f_g(self.system, np)
        self.in_numpy = cfg.get("pred", "np") == "np"

    def pred(self, state, step_size, control):
        fault = self.seams.visit("pred")
        if not self.in_numpy:
            return state + step_size * (self.fj(state) + self.gj(state) @ control)
        x = np.asarray(state, np.float32)
        u = np.asarray(control, np.float32)
        out = (x + np.float32(step_size) * (self.fn(x) + self.gn(x) @ u)).astype(np.float32)
        if fault == "nan":
            out = out * np.float32("nan")
        return out


def module_class(algo, library_pred, cache):
    """the class a user would write; modules of one cache share it"""
    key = (algo, bool(library_pred))
    if key in cache:
        return cache[key]
    from run_time_assurance import rta as R
    from run_time_assurance.rta import asif as A

    from run_time_assurance.state import RTAStateWrapper

    class Hooks:
        def __init__(self, toy, **kw):
            self.toy = toy
            super().__init__(**kw)

        def _get_state(self, input_state):
            if isinstance(input_state, RTAStateWrapper):  # the documented way to use a state type of one's own
                input_state = input_state.vector
            return super()._get_state(input_state)

        def _setup_constraints(self):
            return OrderedDict((s["name"], make_constraint(s, self.toy.system, self.state_transition_system)) for s in self.toy.cfg["constraints"])

        def state_transition_system(self, state):
            return self.toy.fj(state)

        def state_transition_input(self, state):
            return self.toy.gj(state)

    class WithPred(Hooks):
        def _pred_state(self, state, step_size, control):
            return self.toy.pred(state, step_size, control)

    class WithDirect(Hooks):
        def _setup_direct_constraints(self):
            return OrderedDict((s["name"], make_direct(s)) for s in self.toy.cfg.get("direct", []))

    if algo == "esimplex":
        cls = type("ToyExplicitSimplex", (WithPred, R.ExplicitSimplexModule), {})
    elif algo == "isimplex":
        cls = type("ToyImplicitSimplex", (WithPred, R.ImplicitSimplexModule), {})
    elif algo == "easif":
        cls = type("ToyExplicitASIF", (WithDirect, R.ExplicitASIFModule), {})
    elif algo == "iasif":
        cls = type("ToyImplicitASIF", (WithDirect, R.ImplicitASIFModule) if library_pred else (WithPred, WithDirect, R.ImplicitASIFModule), {})
    elif algo == "dasif":

        class ToyDiscrete(Hooks, R.DiscreteASIFModule):
            def next_state_differentiable(self, state, step_size, control):
                return state + step_size * (self.toy.fj(state) + self.toy.gj(state) @ control)

        cls = ToyDiscrete
    elif algo == "diasif":

        class ToyDiscreteIntegrator(Hooks, A.DiscreteASIFIntegratorModule):
            def compute_state_dot(self, t, state, control):
                return self.toy.fj(state) + self.toy.gj(state) @ control

        cls = ToyDiscreteIntegrator
    else:
        raise KeyError(algo)
    cache[key] = cls
    return cls


def build(cfg, seams=None, share=None):
    """The RTA module under test for a toy configuration. Returns (rta, seams).

    share: a dictionary in which modules built from it find the classes and option objects to use in common."""
    seams = seams or Seams()
    algo = cfg["algo"]
    cls = module_class(algo, cfg.get("library_pred"), {} if share is None else share.setdefault("modules", {}))

    kw = dict(control_bounds_high=bound(cfg.get("high")), control_bounds_low=bound(cfg.get("low")))
    if cfg.get("jit_enable") is False:
        kw["jit_enable"] = False
    jd = {}
    if cfg.get("pred") == "jit":
        jd["pred_state"] = True
    jd.update(cfg.get("jit_dict") or {})
    if share is not None and cfg.get("share_jit"):
        jd = share.setdefault("jit", jd)
        kw["jit_compile_dict"] = jd
    elif jd or "jit_dict" in cfg:
        kw["jit_compile_dict"] = jd
    if cfg.get("use") is not None:
        kw["constraints_to_use"] = list(cfg["use"])
    seams.given = {k: v for k, v in kw.items() if isinstance(v, (dict, list, np.ndarray))}
    seams.given_as = copy.deepcopy(seams.given)

    if algo in ("esimplex", "isimplex", "iasif"):
        kw["backup_controller"] = make_backup(cfg["backup"], cfg["system"], seams, share)
    if algo in ("isimplex", "iasif"):
        kw["backup_window"] = cfg["window"]
    if algo in ("esimplex", "isimplex"):
        if "latch" in cfg:
            kw["latch_time"] = cfg["latch"]
    else:
        if "epsilon" in cfg:
            kw["epsilon"] = cfg["epsilon"]
        if cfg.get("solver_exception"):
            kw["solver_exception"] = True
        kw["control_dim"] = dims(cfg["system"])[1]
    if algo == "iasif":
        kw["integration_method"] = cfg.get("integration", "Euler")
    return cls(Toy(cfg, seams), **kw), seams
