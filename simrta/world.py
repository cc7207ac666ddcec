"""The simulated world of one toy RTA: plant, sensor, primary controller, faults, and the reference model run in lockstep.

World.do(op) performs one operation on the real module and checks everything the reference model can say about it.  Each
discrepancy carries a rule name; a property check owns some rules, a discrepancy under any other rule ends the run without
a verdict (it is another property's business).
"""
from __future__ import annotations

import contextlib
import copy
import warnings

import numpy as np

from . import ref, toys, zoo
from .core import Inconclusive, Violation
from .ref import f32

U_TOL = 3e-5


def close(a, b, tol=U_TOL):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


class SolverSeam:
    """Fails the quadratic programming solver on demand."""

    def __init__(self, kind):
        self.kind = kind
        self.fired = 0

    def __enter__(self):
        import quadprog

        self.mod = quadprog
        self.real = quadprog.solve_qp

        def failing(*a, **k):
            self.fired += 1
            if self.kind == "inconsistent":
                raise ValueError("constraints are inconsistent, no solution")
            if self.kind == "other":
                raise ValueError("matrix G is not positive definite")
            raise MemoryError("injected")

        quadprog.solve_qp = failing
        # ... and wherever the code under test holds the function under a name of its own
        from run_time_assurance.rta import asif

        self.names = [k for k, v in vars(asif).items() if v is self.real]
        for k in self.names:
            setattr(asif, k, failing)
        self.asif = asif
        return self

    def __exit__(self, *_):
        self.mod.solve_qp = self.real
        for k in self.names:
            setattr(self.asif, k, self.real)


def copy_state(s):
    """a private copy of a backup controller's internal state (None, array, or dict of arrays)"""
    import jax.numpy as jnp

    return None if s is None else {k: jnp.array(v) for k, v in s.items()} if isinstance(s, dict) else jnp.array(s)


def controller_state_of(rta):
    return rta.backup_controller.controller_state


def same_state(a, b, tol=1e-4):
    if b is None or a is None:
        return a is None and b is None
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(close(a[k], b[k], tol) for k in b)
    return not isinstance(a, dict) and close(a, b, tol)


class World:
    def __init__(self, cfg, ctx, own, rta=None, seams=None, prob=None, label="", share=None):
        self.cfg, self.ctx, self.own, self.label = cfg, ctx, set(own), label
        if rta is None:
            if "zoo" in cfg:
                rta = zoo.build(cfg)
            else:
                rta, seams = toys.build(cfg, share=share)
        self.rta, self.seams = rta, seams or toys.Seams()
        if prob is None:
            prob = zoo.problem(cfg) if "zoo" in cfg else ref.toy_problem(cfg)
        self.prob = prob
        self.algo = cfg["algo"]
        self.simplex = self.algo in ("esimplex", "isimplex")
        self.discrete = self.algo in ("dasif", "diasif")
        self.x = np.array(cfg["x0"], float)
        self.last_meas = self.x.copy()
        self.enable = True
        self.latch = float(cfg.get("latch", 0.0))
        self.intervening = False
        self.elapsed = 0.0
        self.latch_unknown = False  # a call failed half way: the simulator does not presume whether a hold is in progress
        self.t = 0.0
        self.i = -1
        self.last_u = None
        self.since = 0
        self.lost = None  # why the reference model stopped following
        self.aside = None
        self.quiet = False  # do not touch the interpreter's (global) warning filters

    # -- verdicts
    def want(self, ok, rule, message):
        self.ctx.checks += 1
        if ok:
            return
        msg = message() if callable(message) else message
        if rule in self.own:
            raise Violation(rule, f"{self.label}op {self.i} t={self.t:g}: {msg}", self.i)
        raise Inconclusive(f"{rule}: {msg}")

    # -- operations
    def do(self, op):
        self.i += 1
        self.ctx.now = self.i
        self.ctx.op(op["op"])
        getattr(self, "op_" + op["op"])(op)

    def op_place(self, op):
        self.x = np.array(op["x"], float)
        self.ctx.fault("teleport")

    def op_disturb(self, op):
        self.x = self.x + np.array(op["d"], float)
        self.ctx.fault("disturbance")

    def op_reset(self, op):
        self.rta.reset()
        self.enable = True
        self.intervening = False
        self.elapsed = 0.0
        self.latch_unknown = False
        if self.prob.backup is not None:
            self.prob.backup.reset()
        self.ctx.log("reset")

        def checks(_):
            self.want(self.rta.enable is True and not self.rta.intervening, "reset-flags",
                      lambda: f"after reset enable={self.rta.enable} intervening={self.rta.intervening}")
            self.want(self.rta.control_desired is None and self.rta.control_actual is None, "reset-flags",
                      "after reset the last controls are still there")
            self.check_backup_state("reset-backup")

        self.part(checks, None)

    def op_enable(self, op):
        self.rta.enable = op["v"]
        self.enable = op["v"]
        self.ctx.fault("disable" if not op["v"] else "enable")

    def op_param(self, op):
        c = self.rta.constraints[op["name"]]
        if op["how"] == "item" or self.cfg_type(op["name"]) == "hocbf":
            c.params[op["key"]] = op["v"]
        else:
            c.params = dict(c.params, **{op["key"]: op["v"]})
        self.prob.constraint(op["name"]).params[op["key"]] = op["v"]
        self.ctx.fault("param-change")

    def cfg_type(self, name):
        for s in self.cfg.get("constraints", []):
            if s["name"] == name:
                return s["type"]
        return None

    def op_cenable(self, op):
        self.rta.constraints[op["name"]].enabled = op["v"]
        self.prob.constraint(op["name"]).enabled = op["v"]
        self.ctx.fault("constraint-enable" if op["v"] else "constraint-disable")

    def op_direct(self, op):
        d = self.rta.direct_inequality_constraints[op["name"]]
        r = [r for r in self.prob.direct if r.name == op["name"]][0]
        if op["key"] == "enabled":
            d.enabled = r.enabled = op["v"]
        elif op["key"] == "w":
            d.params["w"], r.params["w"] = np.array(op["v"], float), np.array(op["v"], float)
        else:
            d.params[op["key"]] = r.params[op["key"]] = op["v"]
        self.ctx.fault("direct-constraint-change")

    def op_probe(self, op):
        """look ahead by hand through the backup controller's own save and restore, as any user of it may"""
        bc = getattr(self.rta, "backup_controller", None)
        if bc is None or self.prob.backup is None:
            return
        x = np.array(self.x, np.float32)
        bc.save()
        for k in op["runs"]:
            for _ in range(k):
                bc.generate_control(x, op["dt"])
            bc.restore()
            self.part(lambda _: self.check_backup_state("backup-state"), None)
        if op.get("peek"):
            given = copy_state(bc.controller_state)
            u, _ = bc.generate_control_with_controller_state(x, op["dt"], given)
            jac = np.array(bc.jacobian(x, op["dt"]), float)

            def checks(_):
                self.check_backup_state("backup-state")
                self.want(same_state(given, self.prob.backup.state), "backup-state", "evaluating the controller at a given internal state changed that state")
                b, z = self.prob.backup, f32(x)
                want = b.law(z, op["dt"], copy.deepcopy(b.state))[0]
                self.want(close(u, want), "backup-value", lambda: f"the controller gives {np.array(u).tolist()} at {z.tolist()}, expected {want.tolist()}")
                g = np.asarray(b.gain(z, op["dt"], b.state), float)
                self.want(close(jac, g, 1e-4), "backup-value", lambda: f"the controller's jacobian is {jac.tolist()}, expected {g.tolist()}")

            self.part(checks, None)
        self.ctx.log("probe", op["runs"])

    def op_telemetry(self, op):
        self.rta.update_constraint_values(self.as_input(np.array(self.x), op.get("as")))
        info = self.rta.generate_info()

        def checks(_):
            self.want("constraints" in info and "constraints_at_last_state" not in info, "telemetry-constraints",
                      lambda: f"after update_constraint_values the info keys are {sorted(info)}")
            self.check_phi(info["constraints"], f32(self.x))

        self.part(checks, None)
        self.ctx.log("telemetry", info.get("constraints"))

    def check_phi(self, got, x):
        self.want(set(got) == {c.name for c in self.prob.constraints}, "telemetry-constraints",
                  lambda: f"constraint values reported for {sorted(got)}, constraints are {[c.name for c in self.prob.constraints]}")
        for c in self.prob.constraints:
            v = c.phi(x)
            self.want(abs(got[c.name] - v) <= 1e-4 * c.scale(x), "telemetry-constraints",
                      lambda c=c, v=v: f"reported value of {c.name} is {got[c.name]}, it is {v} at {x.tolist()}")

    def aim(self, op, z, dt, ud):
        """the operator moves a limit to where only the `worst` points of the coming prediction, or none of them, lie beyond it"""
        names = [c.name for c in self.prob.constraints if self.cfg_type(c.name) in ("max", "min", "headway")]
        if not names or not self.simplex or not self.enable or self.lost is not None:
            return
        name = names[op["aim"]["pick"] % len(names)]
        c = self.prob.constraint(name)
        steps = ref.window_steps(self.window, dt) if self.algo == "isimplex" else 0
        try:
            xs, _ = ref.rollout(self.prob, f32(z), dt, steps, first=self.prob.clip(f32(ud)))
        except Inconclusive:
            return
        h = sorted(c.h(x) for x in xs)
        if op["aim"].get("edge"):
            # exactly onto the limit, which counts as satisfied: only where no rounding can blur it
            drag = self.cfg["system"].get("drag", 0.0)
            if steps or self.cfg_type(name) == "headway" or c.bias or self.cfg["system"].get("kg") or not ref.coarse(f32(z), self.prob.clip(f32(ud)), drag) or dt > 1:
                return
            if abs(c.params["limit_val"]) + abs(h[0]) > 16:
                return
            self.edge = name
            op = dict(op, aim=dict(op["aim"], worst=-1))
            self.ctx.fault("exactly-on-the-limit")
        k = min(op["aim"]["worst"], len(h))
        if k < 0:
            cut = h[0]
        elif k == 0:
            cut = h[0] - 1 / 256
        elif k == len(h):
            cut = h[-1] + 1 / 256
        else:
            cut = (h[k - 1] + h[k]) / 2
        key = "limit" if self.cfg_type(name) == "headway" else "limit_val"
        v = c.params[key] + (cut if self.cfg_type(name) == "min" else -cut)
        self.op_param({"name": name, "key": key, "v": float(np.float32(v)), "how": "item"})

    # -- one control period
    def measure(self, op):
        if op.get("stale"):
            self.ctx.fault("stale-measurement")
            return self.last_meas.copy()
        z = self.x.copy()
        if op.get("noise") is not None:
            self.ctx.fault("sensor-noise")
            z = z + np.array(op["noise"], float)
        self.last_meas = z.copy()
        return z

    def as_input(self, z, how):
        if how == "jnp":
            import jax.numpy as jnp

            return jnp.array(z)
        if how == "f32":
            return z.astype(np.float32)
        if how == "box":
            from run_time_assurance.state import RTAStateWrapper

            return RTAStateWrapper(z)
        return z

    def as_command(self, ud, how):
        if how == "int":
            return ud.astype(np.int64)
        return self.as_input(ud, how) if how in ("jnp", "f32") else ud

    def op_step(self, op):
        dt = op["dt"]
        ud = np.array(op["ud"], float)
        z = self.measure(op)
        self.edge = None
        if op.get("aim"):
            self.aim(op, z, dt, ud)
        fault = op.get("fault")
        solver = None
        if fault and fault["site"] == "solver":
            solver = SolverSeam(fault["kind"])
        elif fault:
            self.seams.arm(fault)
        inp = self.as_input(z, op.get("as"))
        ud_in = self.as_command(ud, op.get("as"))
        given = np.array(ud_in, float)
        raised = None
        with (contextlib.nullcontext([]) if self.quiet else warnings.catch_warnings(record=True)) as warned:
            if not self.quiet:
                warnings.simplefilter("always")
            try:
                if solver is not None:
                    with solver:
                        out = self.rta.filter_control(inp, dt, ud_in)
                else:
                    out = self.rta.filter_control(inp, dt, ud_in)
            except (toys.InjectedFault, MemoryError) as e:
                raised = e
            except Exception as e:  # noqa: BLE001
                from run_time_assurance.utils import SolverError

                if isinstance(e, SolverError) or (isinstance(e, ValueError) and solver is not None):
                    raised = e
                else:
                    raise
        fired = self.seams.fired if solver is None else solver.fired
        self.seams.arm(None)
        if fault and fired:
            self.ctx.fault(f"{fault['site']}-{fault['kind']}")
        else:
            fault = None
        self.ctx.step(dt)
        self.t += dt
        self.since += 1
        rec = {"dt": dt, "ud": f32(ud), "x": f32(z), "z": z, "raised": raised, "warned": warned, "fault": fault, "udraw": ud, "given": given}
        if raised is None:
            u = np.array(out, float)
            rec["u"] = u
            self.want(u.shape == (self.prob.m,), "shape", lambda: f"control has shape {u.shape}")
            self.ctx.log("u", u, bool(self.rta.intervening))
        else:
            self.ctx.log("raised", type(raised).__name__)
        self.judge(rec)
        if raised is None:
            self.x = self.prob.plant(self.x, dt, rec["u"]) if np.all(np.isfinite(rec["u"])) else self.x
            if "zoo" not in self.cfg and not np.all(np.abs(self.x) < 64):
                self.x = np.clip(np.nan_to_num(self.x), -8, 8)
            self.last_u = rec["u"]

    # -- judging
    def judge(self, r):
        # what needs no model of the decision first
        if r["raised"] is None and self.enable:
            self.part(self.judge_bounds, r)
        if r["raised"] is None:
            self.part(self.judge_telemetry, r)
        if not self.enable:
            self.part(self.judge_disabled, r)
        elif self.lost is None:
            try:
                if self.simplex:
                    self.judge_simplex(r)
                elif self.discrete:
                    self.judge_discrete(r)
                else:
                    self.judge_asif(r)
                self.check_backup_state("backup-state")
            except Inconclusive as e:
                self.lost = str(e)  # the model no longer knows where the module is: only model-free checks from here

    def part(self, fn, r):
        try:
            fn(r)
        except Inconclusive as e:
            self.aside = str(e)

    def finish(self):
        if self.lost is not None:
            raise Inconclusive(self.lost)

    def judge_disabled(self, r):
        self.want(r["raised"] is None, "disabled", lambda: f"a disabled rta raised {r['raised']!r}")
        self.want(np.array_equal(r["u"], r["given"]), "disabled",
                  lambda: f"a disabled rta returned {r['u'].tolist()} for desired {r['udraw'].tolist()}")
        self.want(not self.rta.intervening, "disabled", "a disabled rta reports that it is intervening")
        self.intervening = False
        self.elapsed = 0.0
        self.latch_unknown = False

    def judge_bounds(self, r):
        u = r["u"]
        if not np.all(np.isfinite(u)):
            self.want(False, "bounds", f"returned control {u.tolist()} is not finite")
        lo, hi = self.prob.low, self.prob.high
        self.want(bool(np.all(u >= lo - 1e-6 * (1 + np.abs(lo))) and np.all(u <= hi + 1e-6 * (1 + np.abs(hi)))), "bounds",
                  lambda: f"returned control {u.tolist()} outside [{lo.tolist()}, {hi.tolist()}] (desired {r['ud'].tolist()})")

    def judge_telemetry(self, r):
        info = self.rta.generate_info()
        for k in ("enable", "intervening", "control_desired", "control_actual"):
            self.want(k in info, "telemetry-info", lambda k=k: f"{k} missing from the info dictionary")
        self.want(bool(info["enable"]) == self.enable, "telemetry-info", lambda: f"info says enable={info['enable']}")
        self.want(bool(info["intervening"]) == bool(self.rta.intervening), "telemetry-info", "info and attribute disagree on intervening")
        self.want(np.array_equal(np.asarray(info["control_desired"], float), r["given"]), "telemetry-info",
                  lambda: f"logged desired control {info['control_desired']}, it was {r['udraw'].tolist()}")
        self.want(np.array_equal(np.asarray(info["control_actual"], float), r["u"]), "telemetry-info",
                  lambda: f"logged actual control {info['control_actual']}, {r['u'].tolist()} was returned")
        if self.enable and hasattr(self.rta, "constraints"):
            self.want("constraints_at_last_state" in info and "constraints" not in info, "telemetry-constraints",
                      lambda: f"after filtering the info keys are {sorted(info)}")
            self.check_phi(info["constraints_at_last_state"], r["x"])

    def check_backup_state(self, rule):
        if self.prob.backup is None or self.lost is not None or not hasattr(self.rta, "backup_controller"):
            return
        got, want = controller_state_of(self.rta), self.prob.backup.state
        self.want(same_state(got, want), rule, lambda: f"backup controller state is {got}, expected {want}")

    # simplex ---------------------------------------------------------------------------------------------------------
    def judge_simplex(self, r):
        prob, x, dt, ud = self.prob, r["x"], r["dt"], r["ud"]
        held = self.intervening and self.elapsed < self.latch - 1e-9
        unclear_hold = self.intervening and abs(self.elapsed - self.latch) <= 1e-9 and self.latch > 0 and \
            self.elapsed not in (self.latch,)
        steps = ref.window_steps(self.window, dt) if self.algo == "isimplex" else 0
        fault = r["fault"]

        if r["raised"] is not None:
            # the call failed; nothing was applied and the lookahead must have left no trace in the backup controller
            self.want(isinstance(r["raised"], toys.InjectedFault), "unexpected-raise", lambda: f"raised {r['raised']!r}")
            if self.latch > 0:
                # no intervention begins with a prediction that failed; it may have begun if the backup controller failed after the decision,
                # and whether one in progress goes on is not specified
                only_predicting = fault is not None and fault["site"] == "pred"
                if not only_predicting and not self.intervening:
                    only_predicting = ref.margins(prob, ref.rollout(prob, x, dt, steps, first=prob.clip(ud))[0])[1]
                if self.intervening or not only_predicting:
                    self.latch_unknown = True
            return
        self.want(not (fault and fault["kind"] == "raise"), "swallowed", "a failure of a user component was swallowed")

        xs, _ = ref.rollout(prob, x, dt, steps, first=prob.clip(ud))
        bad, ok, worst = ref.margins(prob, xs, exact=(self.edge, ) if self.edge else ())
        if fault and fault["kind"] == "nan":
            bad = any(c.enabled for c in prob.constraints)
            ok = not bad
            worst = ("prediction is not a number", float("nan"), 0)
        u_pass = prob.clip(ud)
        u_back, s_back = prob.backup.law(x, dt, copy.deepcopy(prob.backup.state))
        u_back = prob.clip(u_back)
        u = r["u"]
        is_pass, is_back = close(u, u_pass), close(u, u_back)
        distinct = not close(u_pass, u_back)
        if fault and fault["kind"] == "nan" and not distinct:
            pass
        self.ctx.state(self.algo, "held" if held else ("bad" if bad else "ok" if ok else "edge"), self.intervening, worst[0],
                       min(int(worst[2]), 3), self.prob.backup.state is not None)

        def where():
            return (f"x={x.tolist()} dt={dt} desired={ud.tolist()} returned={u.tolist()} pass={u_pass.tolist()} "
                    f"backup={u_back.tolist()} worst={worst} held={held} elapsed={self.elapsed} latch={self.latch}")

        if self.latch_unknown:
            # a hold may or may not be in progress: an unsafe prediction needs the backup either way
            if bad and distinct:
                self.want(is_back, "decision", lambda: "unsafe, but the backup control was not used: " + where())
            self.want(is_pass or is_back, "backup-value", lambda: "neither the desired nor the backup control: " + where())
            took = is_back if distinct else bool(self.rta.intervening)
            if distinct and is_pass:
                self.latch_unknown = False
                self.intervening, self.elapsed = False, 0.0
            elif took:
                self.intervening = True
        elif unclear_hold:
            self.want(is_pass or is_back, "backup-value", lambda: "neither the desired nor the backup control: " + where())
            took = is_back if distinct else bool(self.rta.intervening)
            raise Inconclusive("latch deadline hit only by rounding")
        elif held:
            self.elapsed += dt
            if distinct:
                self.want(is_back or not is_pass, "latch", lambda: "released before the latch time: " + where())
            self.want(is_back, "backup-value", lambda: "held, but not the backup control: " + where())
            self.want(bool(self.rta.intervening), "intervening", lambda: "holding the backup control without reporting it: " + where())
            took = True
        else:
            self.elapsed = 0.0
            if distinct:
                if bad:
                    self.want(is_back or not is_pass, "decision", lambda: "unsafe, but the desired control was let through: " + where())
                    self.want(is_back, "backup-value", lambda: "intervened with something else than the backup control: " + where())
                elif ok:
                    self.want(is_pass or not is_back, "decision", lambda: "safe, but the backup control was used: " + where())
                    self.want(is_pass, "backup-value", lambda: "safe, but the control is neither desired nor backup: " + where())
                else:
                    self.want(is_pass or is_back, "backup-value", lambda: "neither the desired nor the backup control: " + where())
                took = is_back
            else:
                self.want(is_pass, "backup-value", lambda: "neither the desired nor the backup control: " + where())
                took = bad if (bad or ok) else bool(self.rta.intervening)
            self.want(bool(self.rta.intervening) == took, "intervening",
                      lambda: f"intervening={self.rta.intervening}, but {'backup' if took else 'desired'} control expected: " + where())
            self.intervening = took
        if took:
            prob.backup.state = s_back
            self.ctx.nontrivial += 1

    # ASIF ------------------------------------------------------------------------------------------------------------
    @property
    def window(self):
        return self.cfg.get("window", self.cfg.get("kw", {}).get("backup_window", {"integrator": 2}.get(self.cfg.get("zoo"), 5)))

    def rows(self, x, dt):
        if self.algo == "easif":
            return ref.explicit_rows(self.prob, x)
        return ref.implicit_rows(self.prob, x, dt, self.window)

    def judge_asif(self, r):
        from run_time_assurance.utils import SolverError, SolverWarning

        prob, x, dt, ud = self.prob, r["x"], r["dt"], r["ud"]
        try:
            rows, weights = self.rows(x, dt)
        except ref.Unjudged:
            self.ctx.op("unjudged-step")
            return
        v = ref.QPVerdict(prob, rows, weights, ud)
        fault = r["fault"]
        status = v.status
        strict = bool(self.cfg.get("solver_exception"))
        if fault and fault["site"] == "solver":
            status = "infeasible" if fault["kind"] == "inconsistent" else "broken"
        self.ctx.state(self.algo, status, len(v.must), self.intervening, strict)

        def where():
            return f"x={x.tolist()} dt={dt} desired={ud.tolist()} returned={r.get('u', np.array([])).tolist()} reference={status}"

        if r["raised"] is not None and isinstance(r["raised"], toys.InjectedFault):
            return
        self.want(not (fault and fault["kind"] == "raise"), "swallowed", "a failure of a user component was swallowed")
        if status == "broken":
            self.want(r["raised"] is not None and not isinstance(r["raised"], SolverError), "solver-error",
                      lambda: f"a broken solver went unnoticed: raised={r['raised']!r} " + where())
            return
        solver_warn = [w for w in r["warned"] if issubclass(w.category, SolverWarning)]
        failed = r["raised"] is not None or bool(solver_warn)
        if status == "feasible":
            self.want(not failed, "infeasible-policy", lambda: f"solver failure reported for a feasible problem ({r['raised']!r}): " + where())
        if status == "infeasible":
            self.want(failed, "infeasible-policy", lambda: "no solver failure reported for an infeasible problem: " + where())
            self.ctx.nontrivial += 1
        if failed:
            self.want((r["raised"] is not None) == strict, "infeasible-policy",
                      lambda: f"solver_exception={strict} but raised={r['raised']!r} warned={len(solver_warn)}: " + where())
            if r["raised"] is None:
                self.want(close(r["u"], prob.clip(ud)), "infeasible-policy",
                          lambda: "after a solver failure the desired control must pass: " + where())
                self.want(not self.rta.constraints_causing_intervention, "attrib",
                          lambda: f"solver failed, yet {self.rta.constraints_causing_intervention} are said to cause the intervention: " + where())
            self.intervening = False
            return
        u = r["u"]
        name, amount = v.residual(u)
        self.want(name is None, "qp-feasible", lambda: f"constraint {name} is violated by {amount:g}: " + where())
        self.want(v.excess(u) <= 0, "qp-optimal",
                  lambda: f"needlessly far from the desired control (excess {v.excess(u):g}, optimum near {None if v.tight is None else v.tight.tolist()}): " + where())
        d = float(np.linalg.norm(u - ud))
        eps = self.cfg.get("epsilon", 1e-2)
        if abs(d - eps) > 1e-4 * (1 + d):
            self.want(bool(self.rta.intervening) == (d > eps), "intervening",
                      lambda: f"intervening={self.rta.intervening} at distance {d} (threshold {eps}): " + where())
        self.intervening = d > eps
        names = self.rta.constraints_causing_intervention
        self.want(names is not None and len(set(names)) == len(names), "attrib", lambda: f"constraints causing intervention: {names}: " + where())
        known = {q.name for q in rows}
        for nm in names:
            self.want(nm in known, "attrib", lambda: f"{nm} is said to cause the intervention, enforced are {sorted(known)}: " + where())
            self.want(v.slackness(u, nm) <= 0, "attrib", lambda: f"{nm} is said to cause the intervention but is not active: " + where())
        if not v.ambiguous:
            self.want(v.explains(u, set(names)) <= 0, "attrib",
                      lambda: f"{names} do not explain the control (excess {v.explains(u, set(names)):g}): " + where())
        if d > 1e-3:
            self.ctx.nontrivial += 1

    # discrete ASIF ---------------------------------------------------------------------------------------------------
    def dcbf(self, c, x, dt, u):
        return (c.h(self.next_state(x, dt, u)) - c.h(x)) / dt + c.alpha(c.h(x))

    def next_state(self, x, dt, u):
        if self.algo == "dasif":
            return self.prob.pred(x, dt, u)
        y, h = x.copy(), dt / 16
        for _ in range(16):
            k1 = self.prob.f(y) + self.prob.g(y) @ u
            k2 = self.prob.f(y + h / 2 * k1) + self.prob.g(y + h / 2 * k1) @ u
            k3 = self.prob.f(y + h / 2 * k2) + self.prob.g(y + h / 2 * k2) @ u
            k4 = self.prob.f(y + h * k3) + self.prob.g(y + h * k3) @ u
            y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        return y

    def judge_discrete(self, r):
        from run_time_assurance.utils import SolverError

        prob, x, dt, ud = self.prob, r["x"], r["dt"], r["ud"]
        on = [c for c in prob.constraints if c.enabled]
        sidx, weights = ref.slack_index(prob)
        # the discrete objective weighs slack with the square of the diagonal weight
        weights = [w * w for w in weights]
        linear = "zoo" not in self.cfg and all(self.cfg_type(c.name) in ("headway", "max", "min") for c in on) and not self.cfg["system"].get("kg")
        strict = bool(self.cfg.get("solver_exception"))
        rows = ref.bound_rows(prob)
        m = prob.m
        for c in on:
            b0 = self.dcbf(c, x, dt, np.zeros(m))
            w = np.array([self.dcbf(c, x, dt, e) - b0 for e in np.eye(m)])
            tol = 1e-4 * (1 + c.scale(x) / dt * 0.1 + float(np.sum(np.abs(w))))
            rows.append(ref.Row(c.name, w, -b0, tol, sidx.get(c.name)))

        def where():
            return f"x={x.tolist()} dt={dt} desired={ud.tolist()} returned={r.get('u', np.array([])).tolist()}"

        failed = isinstance(r["raised"], SolverError) or any("Solver Failure" in str(w.message) for w in r["warned"])
        v = ref.QPVerdict(prob, rows, weights, ud) if linear else None
        status = v.status if v else "nonlinear"
        self.ctx.state(self.algo, status, len(on), failed, strict)
        if failed:
            self.want((r["raised"] is not None) == strict, "infeasible-policy",
                      lambda: f"solver_exception={strict} but raised={r['raised']!r}: " + where())
            if status == "feasible" and not weights:
                self.ctx.fault("slsqp-gave-up")
            return
        self.want(r["raised"] is None, "unexpected-raise", lambda: f"raised {r['raised']!r}")
        u = r["u"]
        if status == "infeasible":
            self.want(False, "infeasible-policy", lambda: "an infeasible problem was reported as solved: " + where())
        if v:
            name, amount = v.residual(u)
            self.want(name is None, "qp-feasible", lambda: f"discrete barrier {name} violated by {amount:g}: " + where())
            if not weights or max(weights) <= 1e4:
                self.want(v.excess(u) <= 2e-3 * (1 + float(np.linalg.norm(ud))), "qp-optimal",
                          lambda: f"needlessly far from the desired control (excess {v.excess(u):g}, optimum near {None if v.tight is None else v.tight.tolist()}): " + where())
        else:
            worst_desired = None
            for c in on:
                if c.slack is not None:
                    continue
                t = 1e-3 * (1 + c.scale(x) / dt * 0.1)
                val = self.dcbf(c, x, dt, u)
                self.want(val >= -t, "qp-feasible", lambda c=c, val=val: f"discrete barrier {c.name} violated by {-val:g}: " + where())
            if all(self.dcbf(c, x, dt, prob.clip(ud)) >= 1e-3 * (1 + c.scale(x) / dt * 0.1) for c in on):
                self.want(close(u, prob.clip(ud), 2e-3), "qp-optimal", lambda: "the desired control was safe but not returned: " + where())
            del worst_desired
        d = float(np.linalg.norm(u - ud))
        eps = self.cfg.get("epsilon", 1e-2)
        if abs(d - eps) > 1e-4 * (1 + d):
            self.want(bool(self.rta.intervening) == (d > eps), "intervening",
                      lambda: f"intervening={self.rta.intervening} at distance {d} (threshold {eps}): " + where())
        self.intervening = d > eps
        if d > 1e-3:
            self.ctx.nontrivial += 1


ALL_RULES = {
    "bounds", "decision", "latch", "backup-value", "backup-state", "reset-flags", "reset-backup", "intervening", "telemetry-info",
    "telemetry-constraints", "disabled", "qp-feasible", "qp-optimal", "infeasible-policy", "attrib", "solver-error", "swallowed",
    "unexpected-raise", "shape",
}
