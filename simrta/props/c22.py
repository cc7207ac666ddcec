"""C22: a recorded verdict of a sample test is the truth about one episode flown from the recorded state by a module of its own."""
import ast
import csv
import os
import shutil
import tempfile
import warnings

from .. import gen as G, mods, ref
from ..core import Inconclusive
from . import _samples as S
from ._lock import REAL as _REAL
import numpy as np

REAL = _REAL + ["run_time_assurance.utils.sample_testing (run_sample_test, file writing)"]
STUB = ["simulated plant with a persistent push", "scripted initial states and primary controller"]
PLAN = {"quick": 360, "thorough": 3000}
RULE = ("a case is a module, a list of initial states (some unsafe) and an episode set-up; every recorded row is compared with a reference episode; "
        "non-trivial when the recorded verdicts include a failure or an initial state was skipped")
STATE_MEASURE = "(algorithm, latch configured, sequence of verdicts including skipped starts) tuples"


def gen(rng, index, tier):
    cfg = S.gen_episode_cfg(rng)
    many = cfg["algo"].endswith("simplex") and G.chance(rng, 0.08)
    t = S.gen_plan(rng, cfg, G.pick(rng, 10, 12) if many else G.pick(rng, 2, 3, 4))
    t["enable"] = not G.chance(rng, 0.15)
    if G.chance(rng, 0.15):
        t["pad"] = {"at": rng.randint(0, 3), "n": G.pick(rng, 25, 60, 130)}  # a long run of unsafe starts
    return {"cfg": dict(cfg, plan=t), "ops": [{"op": "run"}] * G.pick(rng, 1, 1, 2)}


def run(case, ctx):
    cfg = case["cfg"]
    t = cfg["plan"]
    prob = ref.toy_problem(cfg)
    if t.get("pad"):
        try:
            unsafe = [s for s in t["starts"] if not S.start_safe(prob, ref.f32(S.transform(t, s)))]
        except S.Band:
            raise Inconclusive("start closer than rounding")
        t = dict(t, starts=t["starts"][:t["pad"]["at"]] + unsafe[:1] * t["pad"]["n"] + t["starts"][t["pad"]["at"]:])
    # what must be recorded
    seq, rows, k = [], [], 0
    per_run = []
    try:
        for _ in case["ops"]:
            rows = []
            while len(rows) < t["n"]:
                if k > 4 * len(t["starts"]):
                    raise Inconclusive("too few safe starts")
                x = S.transform(t, t["starts"][k % len(t["starts"])])
                k += 1
                v, states = S.episode(cfg, t, prob, x, t["enable"])
                seq.append(v)
                ctx.steps += len(states) - 1
                ctx.sim_time += (len(states) - 1) * cfg["dt"]
                if v is not None:
                    rows.append((v, x))
            per_run.append(rows)
    except S.Band:
        raise Inconclusive("verdict closer than rounding")
    mod = mods.make(cfg)
    mod.rta.enable = t["enable"]
    test = S.tester(cfg, t, prob, mod.rta, kw={"n_points": t["n"]})
    out = tempfile.mkdtemp(prefix="simrta-c22-")
    try:
        for i, rows in enumerate(per_run):
            ctx.op("run")
            d = os.path.join(out, f"r{i}")
            with S.silent(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                test.run_sample_test(d)
            files = sorted(os.listdir(d))
            ctx.check(len(files) == 1, "file", f"run {i} left files {files}")
            with open(os.path.join(d, files[0]), newline="", encoding="utf-8") as f:
                got = [r for r in csv.reader(f) if r]
            ctx.check(len(got) == t["n"], "rows", f"run {i}: {len(got)} rows for {t['n']} points")
            for j, (g, (v, x)) in enumerate(zip(got, rows)):
                gx = np.array(ast.literal_eval(g[1]), float)
                ctx.check(gx.shape == x.shape and np.allclose(gx, x, rtol=0, atol=1e-12), "state",
                          lambda: f"run {i} row {j}: recorded state {gx.tolist()}, expected {x.tolist()} (sequence of verdicts {seq})")
                ctx.check(g[0] in ("True", "False") and (g[0] == "True") == v, "verdict",
                          lambda: f"run {i} row {j}: from {x.tolist()} the record says {g[0]}, an episode of its own gives {v} (sequence {seq})")
                ctx.log(g[0], gx)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    ctx.check(bool(mod.rta.enable) == t["enable"], "enable", "the test changed whether the rta is enabled")
    ctx.state(cfg["algo"], "latch" in cfg, tuple(seq))
    if None in seq or False in seq:
        ctx.nontrivial += 1
    for v in seq:
        ctx.fault({None: "unsafe-start", True: "episode-safe", False: "episode-unsafe"}[v])
