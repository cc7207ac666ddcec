"""C26: a tracked episode is recorded as it was flown: states, applied controls and interventions, from a safe start."""
import warnings

from .. import gen as G, mods, ref
from ..core import Inconclusive, Violation
from . import _samples as S, _twin as T
from ._lock import REAL as _REAL
import numpy as np

REAL = _REAL + ["run_time_assurance.utils.sample_testing.DataTrackingSampleTestingModule"]
STUB = ["simulated plant with a persistent push", "scripted initial states and primary controller"]
PLAN = {"quick": 480, "thorough": 4000}
RULE = ("a case is a module, scripted initial states (some or all unsafe) and one to three episodes; every array is compared with a reference flight; "
        "non-trivial when an unsafe start was skipped or the module intervened")
STATE_MEASURE = "(algorithm, starts skipped, interventions, periods, outcome) tuples"


def gen(rng, index, tier):
    if index % 6 == 5:
        cfg = T.cascade_cfg(rng, n=2, algos=("esimplex", "easif"), direct=False)
        check = False
    else:
        cfg = S.gen_episode_cfg(rng)
        check = not G.chance(rng, 0.2)
    t = S.gen_plan(rng, cfg, 1, extra=8)
    t["mirror"] = False
    t["check"] = check
    t["unsafe"] = check and index % 10 == 3
    if check and not t["unsafe"] and G.chance(rng, 0.1):
        t["pad"] = G.pick(rng, 25, 60)  # many unsafe starts before a safe one
    return {"cfg": dict(cfg, plan=t), "ops": [{"op": G.pick(rng, "episode", "episode", "episode", "one")} for _ in range(G.pick(rng, 1, 2, 3))]}


def run(case, ctx):
    from run_time_assurance.utils.sample_testing import DataTrackingSampleTestingModule as Base
    from run_time_assurance.utils import SolverError

    cfg = case["cfg"]
    t = cfg["plan"]
    prob = ref.toy_problem(cfg if "algo" in cfg else cfg["children"][0])
    if t["unsafe"]:
        try:
            t["starts"] = [s for s in t["starts"] if not S.start_safe(prob, ref.f32(s))]
        except S.Band:
            raise Inconclusive("start closer than rounding")
        if not t["starts"]:
            raise Inconclusive("no unsafe start")
    if t.get("pad"):
        try:
            unsafe = [s for s in t["starts"] if not S.start_safe(prob, ref.f32(s))]
        except S.Band:
            raise Inconclusive("start closer than rounding")
        if len(unsafe) < len(t["starts"]):
            t = dict(t, starts=unsafe[:1] * t["pad"] + t["starts"])
    mod = mods.make(cfg)
    kw = {"check_init_state": t["check"]} if not t["check"] or cfg["dt"] == 0.5 else {}
    test = S.tester(cfg, t, prob, mod.rta, base=Base, kw=kw)
    k = 0
    for i, op in enumerate(case["ops"]):
        ctx.now = i
        ctx.op(op["op"])
        mod.rta.reset()
        test.statuses = []
        twin = mods.make(cfg)
        # the reference flight
        skipped = 0
        try:
            if op["op"] == "episode" and t["check"] and not t["unsafe"]:
                while not S.start_safe(prob, ref.f32(t["starts"][k % len(t["starts"])])):
                    k += 1
                    skipped += 1
                    if skipped > 90:
                        raise Inconclusive("no safe start")
        except S.Band:
            raise Inconclusive("start closer than rounding")
        x = np.array(t["starts"][k % len(t["starts"])], float)
        k += 1
        start = x
        n, m = len(x), len(t["gain"])
        X, U, V, time, failed = [x], [np.zeros(m)], [False], 0.0, False
        while not t["unsafe"] or op["op"] == "one":
            r = mods.step(twin, x.copy(), {"dt": cfg["dt"], "ud_in": S.desired(t, x)})
            if r["raised"]:
                failed = True
                break
            x = S.plant(t, prob, x, cfg["dt"], r["u"])
            if not np.all(np.abs(x) < 500):
                raise Inconclusive("runs away")
            time += cfg["dt"]
            ctx.step(cfg["dt"])
            X.append(x)
            U.append(r["u"])
            V.append(r["intervening"])
            if S.is_done(t, x, time) or op["op"] == "one":
                break
        # the recorded one
        raised = None
        served = test.served
        with S.silent(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                got = test.simulate_episode() if op["op"] == "episode" else test.run_one_step()
            except SolverError as e:
                raised = e
            except ValueError as e:
                if not (t["unsafe"] and op["op"] == "episode"):
                    raise
                raised = e
        used = test.served - served
        if t["unsafe"] and op["op"] == "episode":
            ctx.fault("no-safe-start")
            ctx.check(isinstance(raised, ValueError), "unsafe-start", f"op {i}: every start is unsafe, yet an episode was flown", i)
            ctx.check(90 <= used <= 110, "unsafe-start", f"op {i}: gave up after {used} starts", i)
            ctx.log("refused", used)
            ctx.nontrivial += 1
            k += used - 1
            continue
        ctx.check(used == skipped + 1, "starts", f"op {i}: {used} starts drawn, {skipped} of which had to be skipped", i)
        ctx.fault("unsafe-start", skipped)
        if failed:
            ctx.check(isinstance(raised, SolverError), "solver-error", f"op {i}: the filter failed at period {len(X) - 1}, the episode was recorded all the same", i)
            ctx.log("solver error")
            continue
        ctx.check(raised is None, "solver-error", lambda: f"op {i}: {raised!r}", i)
        if op["op"] == "one":
            ctx.check(bool(mod.rta.intervening) == V[1] and np.allclose(mod.rta.control_actual, U[1], rtol=1e-5, atol=1e-5), "one-step",
                      lambda: f"op {i}: one step from {start.tolist()} applied {mod.rta.control_actual}, expected {U[1].tolist()}", i)
            ctx.log(U[1])
            continue
        ctx.check(len(got) == 3, "arrays", f"op {i}: {len(got)} arrays", i)
        for name, g, w in zip(("states", "controls", "interventions"), got, (X, U, V)):
            ctx.check(isinstance(g, np.ndarray), "arrays", lambda: f"op {i}: {name} come as {type(g).__name__}, not as an array", i)
            w = np.asarray(w)
            ctx.check(g.shape == w.shape, name, lambda: f"op {i}: {name} recorded with shape {g.shape}, flown {w.shape}", i)
            ctx.check(np.allclose(np.asarray(g, float), np.asarray(w, float), rtol=1e-5, atol=1e-5), name,
                      lambda: f"op {i}: recorded {name} {g.tolist()}, flown {w.tolist()}", i)
            ctx.log(g)
        ctx.check(len(test.statuses) == len(X) - 1, "status", f"op {i}: {len(test.statuses)} status updates in {len(X) - 1} periods", i)
        for j, (sx, st) in enumerate(test.statuses):
            ctx.check(np.allclose(sx, X[j + 1], rtol=1e-5, atol=1e-5) and abs(st - (j + 1) * cfg["dt"]) < 1e-9 * (1 + st), "status",
                      lambda: f"op {i}: status update {j} is ({sx.tolist()}, {st}), the episode was at ({X[j + 1].tolist()}, {(j + 1) * cfg['dt']})", i)
        ctx.state(cfg.get("algo", "cascade"), min(skipped, 3), min(sum(V), 4), len(X))
        if skipped or any(V):
            ctx.nontrivial += 1
