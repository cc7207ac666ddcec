"""C24: sample tests draw the initial states they were asked for: stratified for latin hypercube, by distribution for parametric."""
import contextlib
import shutil
import tempfile
import ast
import csv
import os
import warnings

from .. import gen as G, mods, ref, toys, zoo
from ..core import Inconclusive, Violation
from . import _samples as S
from ._lock import REAL as _REAL
import numpy as np

REAL = _REAL + ["run_time_assurance.utils.sample_testing (Latin hypercube and parametric modules)", "run_time_assurance.zoo.cwh.random_sample_testing", "scipy.stats.qmc"]
STUB = ["entropy: numpy's global generator and every generator created without a seed are seeded by the case", "simulated plant, scripted primary controller"]
PLAN = {"quick": 450, "thorough": 4000}
RULE = ("a case is a sampling set-up (bounds or distributions, number of points, interleaved constructions) and a seed for the entropy source; "
        "non-trivial when at least twenty states were drawn")
STATE_MEASURE = "(kind of test, distributions used, number of samples, number skipped as unsafe) tuples"


@contextlib.contextmanager
def entropy(seed):
    """all randomness of the code under test comes from the case"""
    real = np.random.default_rng
    saved = np.random.get_state()
    count = [0]

    def seeded(s=None):
        if s is None:
            count[0] += 1
            return real([seed, count[0]])
        return real(s)

    np.random.default_rng = seeded
    np.random.seed(seed % 2**32)
    try:
        yield
    finally:
        np.random.default_rng = real
        np.random.set_state(saved)


def gen(rng, index, tier):
    k = index % 6
    seed = rng.randrange(2**31)
    if k in (0, 1):
        dim = G.pick(rng, 2, 4)
        lo = [G.dy(rng, -6, 4) for _ in range(dim)]
        hi = [a + G.dy(rng, 0.5, 8) for a in lo]
        if G.chance(rng, 0.3):  # widely different magnitudes
            lo[0], hi[0] = -10000.0, G.pick(rng, 10000.0, -9000.0)
        cfg = {"kind": "lhs", "dim": dim, "lo": lo, "hi": hi, "n": rng.randint(1, 12) if G.chance(rng, 0.85) else rng.randint(20, 120), "mult": rng.randint(1, 5), "tests": G.pick(rng, 1, 1, 2)}
    elif k == 2:
        ecfg = S.gen_episode_cfg(rng, "esimplex")
        ecfg.pop("latch", None)
        t = S.gen_plan(rng, ecfg, G.pick(rng, 1, 2, 3))
        t["sim"] = 2 * ecfg["dt"]
        t["mirror"] = False
        dim = toys.dims(ecfg["system"])[0]
        cfg = {"kind": "lhs-run", "rta": dict(ecfg, plan=t), "dim": dim, "lo": [-3.0] * (dim // 2) + [-1.0] * (dim // 2),
               "hi": [3.0] * (dim // 2) + [1.0] * (dim // 2), "n": t["n"], "mult": 12}
    elif k in (3, 4):
        dim = G.pick(rng, 2, 4)
        pdfs = [G.pick(rng, "gaussian", "uniform", "constant") for _ in range(dim)]
        p0, p1 = [], []
        for f in pdfs:
            a = G.dy(rng, -8, 8)
            p0.append(a)
            p1.append({"gaussian": G.dy(rng, 0.25, 4), "uniform": a + G.dy(rng, 0.5, 8), "constant": 0.0}[f])
        cfg = {"kind": "par", "dim": dim, "pdfs": pdfs, "p0": p0, "p1": p1, "bad": G.chance(rng, 0.15)}
    else:
        cfg = {"kind": "zoo", "which": G.pick(rng, "lhs", "par"), "n": rng.randint(1, 6),
               "probe": [{"x": [G.r6(rng.uniform(-1, 1) * s) for s in (500, 500, 5, 5)], "u": [G.dy(rng, -1, 1) for _ in range(2)],
                          "dt": G.pick(rng, 1.0, 0.5)} for _ in range(4)]}
    return {"cfg": dict(cfg, entropy=seed), "ops": [{"op": "draw"}]}


def strata(ctx, xs, lo, hi, what):
    """one sample in each of the equal slices of every dimension: the definition of a latin hypercube"""
    n = len(xs)
    lo, hi = np.array(lo, float), np.array(hi, float)
    z = (np.array(xs) - lo) / (hi - lo)
    ctx.check(bool(np.all(z >= -1e-9) and np.all(z <= 1 + 1e-9)), "bounds", lambda: f"{what}: a sampled state lies outside {lo.tolist()}..{hi.tolist()}")
    for d in range(z.shape[1]):
        cells = np.floor(np.clip(z[:, d], 0, 1 - 1e-12) * n + 0.0).astype(int)
        near = np.abs(z[:, d] * n - np.round(z[:, d] * n)) < 1e-6
        if not near.any():
            ctx.check(len(set(cells.tolist())) == n, "strata",
                      lambda: f"{what}: component {d} of {n} samples covers only {len(set(cells.tolist()))} of {n} slices")


class Rta:
    """never consulted when only initial states are drawn"""
    constraints = {}


def lhs(ctx, cfg):
    from run_time_assurance.utils.sample_testing import LatinHypercubeRandomSampleTestingModule as Base

    class T(Base):
        def _pred_state(self, state, step_size, control):
            raise AssertionError("not simulated")

    total = cfg["n"] * cfg["mult"]
    tests = [T(rta=Rta(), n_points=cfg["n"], simulation_time=1.0, step_size=1.0, control_dim=1, state_dim=cfg["dim"],
               bounds=np.array([cfg["lo"], cfg["hi"]], float), multiplier=cfg["mult"]) for _ in range(cfg["tests"])]
    got = [[] for _ in tests]
    for i in range(total):  # several tests drawn from alternately
        for g, t in zip(got, tests):
            x = np.array(t._get_initial_state(), float)
            ctx.check(x.shape == (cfg["dim"],), "shape", lambda: f"sampled state has shape {x.shape}")
            g.append(x)
            ctx.log(x)
    for j, g in enumerate(got):
        strata(ctx, g, cfg["lo"], cfg["hi"], f"test {j}")
    if len(got) == 2 and total > 1:
        ctx.check(not np.allclose(got[0], got[1]), "independent", "two tests drew the same states")
    # beyond the prepared samples: anything but a sample used before
    for g, t in zip(got, tests):
        try:
            x = np.array(t._get_initial_state(), float)
        except Exception:  # noqa: BLE001
            continue
        ctx.check(not any(np.array_equal(x, y) for y in g), "reused", f"after all {total} samples one was handed out again")
    ctx.state("lhs", cfg["dim"], total, len(tests))
    if total >= 20:
        ctx.nontrivial += 1


def lhs_run(ctx, cfg):
    from run_time_assurance.utils.sample_testing import LatinHypercubeRandomSampleTestingModule as Base

    rc = cfg["rta"]
    t = rc["plan"]
    prob = ref.toy_problem(rc)
    mod = mods.make(rc)
    test = S.tester(rc, t, prob, mod.rta, base=Base, sample=False, kw={"n_points": cfg["n"], "bounds": np.array([cfg["lo"], cfg["hi"]]), "multiplier": cfg["mult"]})
    drawn = []
    inner = test._get_initial_state

    def spy():
        x = inner()
        drawn.append(np.array(x, float))
        return x

    test._get_initial_state = spy
    out = tempfile.mkdtemp(prefix="simrta-c24-")
    try:
        with S.silent(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                test.run_sample_test(out)
            except IndexError:
                raise Inconclusive("not enough safe samples")
        f = os.path.join(out, os.listdir(out)[0])
        with open(f, newline="", encoding="utf-8") as fh:
            rows = [np.array(ast.literal_eval(r[1]), float) for r in csv.reader(fh) if r]
    finally:
        shutil.rmtree(out, ignore_errors=True)
    try:
        keep = [x for x in drawn if S.start_safe(prob, ref.f32(x))]
    except S.Band:
        raise Inconclusive("start closer than rounding")
    ctx.check(len(rows) == len(keep) == cfg["n"] and all(np.allclose(a, b, rtol=0, atol=1e-12) for a, b in zip(rows, keep)), "recorded",
              lambda: f"{len(drawn)} states drawn, {len(keep)} of them safe, {len(rows)} recorded: {[r.tolist() for r in rows]} against {[k.tolist() for k in keep]}")
    ctx.check(len({tuple(x) for x in drawn}) == len(drawn), "reused", "a sample was used twice")
    ctx.check(bool(np.all(np.array(drawn) >= np.array(cfg["lo"]) - 1e-9) and np.all(np.array(drawn) <= np.array(cfg["hi"]) + 1e-9)), "bounds", "sample out of bounds")
    ctx.fault("unsafe-start", len(drawn) - len(keep))
    ctx.log(drawn)
    ctx.state("lhs-run", cfg["dim"], cfg["n"], len(drawn) - len(keep))
    ctx.nontrivial += len(drawn) > cfg["n"]


N = 400


def stats(ctx, xs, pdfs, p0, p1, what):
    xs = np.array(xs)
    n = len(xs)
    for d, f in enumerate(pdfs):
        v = xs[:, d]
        if f == "constant":
            ctx.check(bool(np.all(np.abs(v - p0[d]) <= 1e-12 * (1 + abs(p0[d])))), "constant", lambda: f"{what}: component {d} should be {p0[d]}, drawn {v[:5].tolist()}")
        elif f == "uniform":
            w = p1[d] - p0[d]
            ctx.check(bool(np.all(v >= p0[d] - 1e-9 * w) and np.all(v <= p1[d] + 1e-9 * w)), "bounds", lambda: f"{what}: component {d} leaves {p0[d]}..{p1[d]}: {v.min()}..{v.max()}")
            if n >= 100:
                hist = np.histogram((v - p0[d]) / w, bins=4, range=(0, 1))[0]
                dev = np.abs(hist - n / 4) / np.sqrt(n * 3 / 16)
                ctx.check(bool(np.all(dev < 6)), "distribution", lambda: f"{what}: component {d} is not uniform over {p0[d]}..{p1[d]}: quarters {hist.tolist()} of {n}")
        else:
            if n >= 100:
                ctx.check(abs(v.mean() - p0[d]) < 6 * p1[d] / np.sqrt(n), "distribution", lambda: f"{what}: component {d} has mean {v.mean()}, asked for {p0[d]} +- {p1[d]}")
                ctx.check(abs(v.std() / p1[d] - 1) < 6 / np.sqrt(2 * n), "distribution", lambda: f"{what}: component {d} has standard deviation {v.std()}, asked for {p1[d]}")
                inner = np.mean(np.abs(v - p0[d]) < p1[d] * 0.6745)
                ctx.check(abs(inner - 0.5) < 6 * 0.5 / np.sqrt(n), "distribution", lambda: f"{what}: component {d} has {inner:.2f} of its mass within the quartiles of a gaussian")
    rand = [d for d, f in enumerate(pdfs) if f != "constant"]
    for i in rand:
        ctx.check(len(np.unique(xs[:, i])) == n, "independent", lambda: f"{what}: component {i} repeats values")
        for j in rand:
            if i < j and n >= 100:
                r = np.corrcoef(xs[:, i], xs[:, j])[0, 1]
                ctx.check(abs(r) < 6 / np.sqrt(n), "independent", lambda: f"{what}: components {i} and {j} are correlated ({r:.2f})")


def par(ctx, cfg):
    from run_time_assurance.utils.sample_testing import ParametricRandomSampleTestingModule as Base

    class T(Base):
        def _pred_state(self, state, step_size, control):
            raise AssertionError("not simulated")

    pdfs = list(cfg["pdfs"])
    if cfg["bad"]:
        pdfs[-1] = "triangular"
    test = T(rta=Rta(), n_points=1, simulation_time=1.0, step_size=1.0, control_dim=1, state_dim=cfg["dim"], state_pdfs=pdfs,
             distribution_params=np.array([cfg["p0"], cfg["p1"]], float))
    xs = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if cfg["bad"]:
            ctx.fault("unknown-distribution")
            try:
                x = test._get_initial_state()
            except ValueError:
                ctx.log("refused")
                return
            raise Violation("unknown", f"an unknown distribution was sampled as {np.asarray(x).tolist()}")
        for _ in range(N):
            x = np.array(test._get_initial_state(), float)
            ctx.check(x.shape == (cfg["dim"],), "shape", lambda: f"sampled state has shape {x.shape}")
            xs.append(x)
    stats(ctx, xs, cfg["pdfs"], cfg["p0"], cfg["p1"], "parametric")
    ctx.log(xs[:10])
    ctx.state("par", tuple(cfg["pdfs"]))
    ctx.nontrivial += 1


def zoo_test(ctx, cfg):
    from run_time_assurance.zoo.cwh import random_sample_testing as R

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if cfg["which"] == "lhs":
            test = R.Docking2DLatinHypercubeRandomSampleTest(rta=Rta(), n_points=cfg["n"])
            strata(ctx, [np.array(test._get_initial_state(), float) for _ in range(3 * cfg["n"])], [-10000, -10000, -5, -5], [10000, 10000, 5, 5], "docking")
        else:
            test = R.Docking2DParametricRandomSampleTest(rta=Rta(), n_points=cfg["n"])
            stats(ctx, [np.array(test._get_initial_state(), float) for _ in range(N)], ["gaussian"] * 4, [0] * 4, [5000, 5000, 2, 2], "docking")
    lin = zoo.Linear(*zoo.cwh(zoo.N0, zoo.M0, 2))
    for p in cfg["probe"]:
        x, u = np.array(p["x"], float), np.array(p["u"], float)
        y = np.array(test._pred_state(x, p["dt"], u), float)
        want = lin.step(x, p["dt"], u)
        ctx.step(p["dt"])
        ctx.check(y.shape == (4,) and bool(np.all(np.abs(y - want) <= 1e-4 * (1e-2 + np.abs(want) + np.abs(x)))), "plant",
                  lambda: f"the simulated spacecraft moves from {x.tolist()} under {u.tolist()} to {y.tolist()}, the equations of motion say {want.tolist()}")
        ctx.log(y)
    ctx.state("zoo", cfg["which"], cfg["n"])
    ctx.nontrivial += 1


def run(case, ctx):
    cfg = case["cfg"]
    ctx.op(cfg["kind"])
    ctx.fault("entropy-seeded")
    with entropy(cfg["entropy"]):
        {"lhs": lhs, "lhs-run": lhs_run, "par": par, "zoo": zoo_test}[cfg["kind"]](ctx, cfg)
