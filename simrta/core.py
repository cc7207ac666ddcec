"""Deterministic simulation core: seeds, cases, contexts, worker pool, minimiser, evidence.

A *case* is plain JSON: {"prop", "seed", "cfg": {...}, "ops": [...]}.  The seeded generator of a property decides the
whole case (configuration, schedule of operations, every fault and when it strikes) before anything runs; executing a
case consults no other source of randomness, time or I/O than the ones the case prescribes.  One case is therefore one
exactly repeatable execution, and a failing case *is* its replay file.
"""
from __future__ import annotations

import copy
import hashlib
import importlib
import json
import math
import os
import random
import signal
import sys
import tempfile
import shutil
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RTA_REPO", "/repo")

ENV = {
    "HOME": os.environ.get("HOME", "/root"),
    "JAX_PLATFORMS": "cpu",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}

CASE_LIMIT_S = 300  # liveness bound: a case takes a few seconds, one that is still running after this long is stuck


class Violation(Exception):
    """The property under check does not hold on this execution."""

    def __init__(self, rule: str, message: str, step=None):
        super().__init__(message)
        self.rule = rule
        self.message = message
        self.step = step


class Inconclusive(Exception):
    """The run left the domain of the property (e.g. another property's business): stop without a verdict."""


class CaseTimeout(BaseException):
    pass


def rng_for(*parts) -> random.Random:
    """A generator that depends on the parts only (not on PYTHONHASHSEED, process, or order of use)."""
    digest = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(digest[:8], "big"))


class Ctx:
    """What an execution reports: counters for evidence, an event log for the determinism digest."""

    def __init__(self):
        self.faults = {}
        self.ops = {}
        self.sim_time = 0.0
        self.steps = 0
        self.states = set()
        self.checks = 0
        self.nontrivial = 0
        self._log = hashlib.sha256()
        self.events = 0
        self.trace = []

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def op(self, kind):
        self.ops[kind] = self.ops.get(kind, 0) + 1

    def step(self, dt):
        self.steps += 1
        self.sim_time += float(dt)

    def state(self, *abstract):
        self.states.add(hashlib.sha256(repr(abstract).encode()).hexdigest()[:12])

    def log(self, *items):
        self.events += 1
        self._log.update(repr([canon(i) for i in items]).encode())

    def digest(self):
        return self._log.hexdigest()[:16]

    def check(self, ok, rule, message, step=None):
        self.checks += 1
        if not ok:
            raise Violation(rule, message() if callable(message) else message, step)


def canon(v):
    """Canonical, exactly comparable form of a value for the event log."""
    import numpy as np

    if isinstance(v, dict):
        return [[k, canon(v[k])] for k in sorted(v)]
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    if isinstance(v, float):
        return "nan" if math.isnan(v) else v.hex()
    try:
        a = np.asarray(v)
        return [canon(float(x)) if a.dtype.kind == "f" else str(x) for x in a.ravel()]
    except Exception:  # noqa: BLE001
        return str(v)


def jsonable(v):
    import numpy as np

    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if hasattr(v, "tolist"):
        return v.tolist()
    return v


# ---------------------------------------------------------------------------------------------------------------------
# running cases


def load_prop(pid: str):
    return importlib.import_module(f"simrta.props.{pid.lower()}")


def setup_process(cache_dir=None):
    """Make this process ready to import the code under test from REPO."""
    for k, v in ENV.items():
        os.environ[k] = v
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import warnings

    warnings.filterwarnings("ignore", category=DeprecationWarning)
    import jax

    if cache_dir:
        jax.config.update("jax_compilation_cache_dir", cache_dir)
        jax.config.update("jax_persistent_cache_min_compile_time_secs", 0)
        jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
    import run_time_assurance

    got = os.path.realpath(os.path.dirname(run_time_assurance.__file__))
    want = os.path.realpath(os.path.join(REPO, "run_time_assurance"))
    if got != want:
        raise RuntimeError(f"run_time_assurance imported from {got}, not from {want}")


def in_repo(exc: BaseException) -> bool:
    """Does the traceback of exc pass through the code under test?"""
    root = os.path.realpath(REPO) + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def execute(case: dict) -> dict:
    """Run one case. Returns a JSON-able outcome."""
    prop = load_prop(case["prop"])
    ctx = Ctx()
    out = {"status": "ok"}

    def on_alarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_LIMIT_S)
    t0 = time.monotonic()
    try:
        prop.run(copy.deepcopy(case), ctx)
    except Violation as v:
        out = {"status": "violation", "rule": v.rule, "message": v.message, "step": v.step}
    except Inconclusive as e:
        out = {"status": "inconclusive", "message": str(e)}
    except CaseTimeout:
        out = {"status": "violation", "rule": "no-progress", "message": f"still running after {CASE_LIMIT_S} s", "step": None}
    except Exception as e:  # noqa: BLE001
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
        if in_repo(e):
            out = {
                "status": "violation",
                "rule": "unexpected-exception",
                "message": f"{type(e).__name__}: {str(e)[:400]}",
                "step": getattr(ctx, "now", None),
                "traceback": tb[-3000:],
            }
        elif isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError)):
            # what the code under test handed over could not even be read as the number, vector or record it is documented to be
            out = {"status": "violation", "rule": "unreadable-result", "message": f"{type(e).__name__}: {str(e)[:400]}", "step": getattr(ctx, "now", None),
                   "traceback": tb[-3000:]}
        else:
            out = {"status": "harness-error", "message": f"{type(e).__name__}: {e}", "traceback": tb[-4000:]}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    out.update(
        digest=ctx.digest(),
        events=ctx.events,
        faults=ctx.faults,
        ops=ctx.ops,
        sim_time=ctx.sim_time,
        steps=ctx.steps,
        states=sorted(ctx.states),
        checks=ctx.checks,
        nontrivial=ctx.nontrivial,
        wall=time.monotonic() - t0,
    )
    return out


def generate(pid: str, seed: int, index: int, tier: str) -> dict:
    prop = load_prop(pid)
    rng = rng_for(pid, seed, index)
    case = prop.gen(rng, index, tier)
    case["prop"] = pid
    case["seed"] = seed
    case["index"] = index
    # exactly what a replay file would contain
    return json.loads(json.dumps(jsonable(case)))


_worker_count = 0


def _worker_init(base):
    global _worker_count
    cache = tempfile.mkdtemp(prefix="jaxcache", dir=base)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    setup_process(cache)


def _worker_run(args):
    global _worker_count
    pid, seed, index, tier = args
    case = generate(pid, seed, index, tier)
    out = execute(case)
    out["index"] = index
    _worker_count += 1
    if _worker_count % 40 == 0:
        import gc
        import jax

        jax.clear_caches()
        gc.collect()
    return out


def _worker_case(case):
    return execute(case)


class Pool:
    """Worker processes, each a clean interpreter (spawn), with a scratch directory that goes away with the pool."""

    def __init__(self, workers):
        import multiprocessing as mp

        for k, v in ENV.items():
            os.environ[k] = v
        os.environ["PYTHONPATH"] = VERIF
        os.environ.setdefault("PYTHONHASHSEED", "0")
        self.base = tempfile.mkdtemp(prefix="simrta-")
        self.workers = workers
        self.mp = mp.get_context("spawn")
        self.pool = self.mp.Pool(workers, initializer=_worker_init, initargs=(self.base,))

    def imap(self, fn, it):
        return self.pool.imap(fn, it, chunksize=1)

    def close(self):
        self.pool.terminate()
        self.pool.join()
        shutil.rmtree(self.base, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


# ---------------------------------------------------------------------------------------------------------------------
# minimisation


def minimise(case: dict, rule: str, pool: Pool, budget_s: float = 90.0):
    """Shrink the schedule (delta debugging over ops, then simpler op fields) keeping the same rule violated."""
    t0 = time.monotonic()

    def attempt(cands):
        for cand, out in zip(cands, pool.imap(_worker_case, cands)):
            if out["status"] == "violation" and out["rule"] == rule:
                return cand, out
        return None, None

    best = case
    best_out = None
    n = 2
    while len(best["ops"]) > 1 and time.monotonic() - t0 < budget_s:
        ops = best["ops"]
        n = min(n, len(ops))
        size = math.ceil(len(ops) / n)
        cands = []
        for i in range(0, len(ops), size):
            cands.append(dict(best, ops=ops[:i] + ops[i + size:]))
        found, out = attempt([c for c in cands if c["ops"]])
        if found is not None:
            best, best_out = found, out
            n = max(n - 1, 2)
        elif n >= len(ops):
            break
        else:
            n = min(len(ops), 2 * n)
    # drop faults attached to ops that do not matter
    for i in range(len(best["ops"])):
        if time.monotonic() - t0 > budget_s:
            break
        op = best["ops"][i]
        for key in ("fault", "noise", "disturb"):
            if isinstance(op, dict) and op.get(key) is not None:
                ops = copy.deepcopy(best["ops"])
                ops[i][key] = None
                found, out = attempt([dict(best, ops=ops)])
                if found is not None:
                    best, best_out = found, out
    return best, best_out


# ---------------------------------------------------------------------------------------------------------------------
# known findings


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == pid]


# ---------------------------------------------------------------------------------------------------------------------
# a check


def run_check(pid: str, tier: str, seed: int, cases=None, workers=None, time_cap=None, quiet=False) -> int:
    t0 = time.monotonic()
    sys.path.insert(0, VERIF)
    prop = load_prop(pid)
    plan = prop.PLAN
    total = cases if cases is not None else plan[tier]
    workers = workers or int(os.environ.get("SIMRTA_WORKERS", "0")) or max(1, os.cpu_count() or 1)
    time_cap = time_cap or {"quick": 600, "thorough": 3 * 3600}[tier]

    agg = {"faults": {}, "ops": {}, "sim_time": 0.0, "steps": 0, "states": set(), "checks": 0, "nontrivial": 0, "events": 0}
    digests = set()
    nontrivial_digests = set()
    done = 0
    inconclusive = 0
    violations = []
    harness_error = None
    capped = False
    samples = []

    known = []
    for k in known_findings(pid):
        known.append(k)

    with Pool(min(workers, total)) as pool:
        tasks = ((pid, seed, i, tier) for i in range(total))
        for out in pool.imap(_worker_run, tasks):
            done += 1
            for d in ("faults", "ops"):
                for k, v in out[d].items():
                    agg[d][k] = agg[d].get(k, 0) + v
            for k in ("sim_time", "steps", "checks", "nontrivial", "events"):
                agg[k] += out[k]
            agg["states"].update(out["states"])
            digests.add(out["digest"])
            if out["nontrivial"]:
                nontrivial_digests.add(out["digest"])
            if out["status"] == "harness-error":
                harness_error = out
                break
            if out["status"] == "inconclusive":
                inconclusive += 1
            if out["status"] == "violation":
                violations.append(out)
                break
            if len(samples) < 2 and out["nontrivial"]:
                c = generate_sample(pid, seed, out["index"], tier)
                samples.append({"index": out["index"], "digest": out["digest"], "case": c})
            if time.monotonic() - t0 > time_cap:
                capped = True
                break

        # known findings are re-executed, so that they are reported while (and only while) they still occur
        known_lines = []
        for k in known:
            out = next(iter(pool.imap(_worker_case, [k["case"]])))
            if out["status"] == "violation" and out["rule"] == k["rule"]:
                known_lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")

        code = 0
        lines = []
        if harness_error is not None:
            code = 2
            lines.append(f"HARNESS-ERROR property={pid} index={harness_error.get('index')}: {harness_error['message']}")
            lines.append(harness_error.get("traceback", ""))
        elif violations:
            v = violations[0]
            case = generate(pid, seed, v["index"], tier)
            best, bout = minimise(case, v["rule"], pool)
            if bout is None:
                bout = v
                best = case
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", f"{pid}-{v['rule']}-s{seed}-i{v['index']}.json")
            replay = dict(best, expect={"rule": bout["rule"], "message": bout["message"], "step": bout.get("step"),
                                        "digest": bout["digest"]}, original_ops=len(case["ops"]))
            with open(path, "w", encoding="utf-8") as f:
                json.dump(replay, f, indent=1)
            code = 1
            lines.append(f"VIOLATION property={pid} replay={path}")
            lines.append(f"  rule: {bout['rule']}  seed: {seed}  index: {v['index']}  ops: {len(case['ops'])} -> {len(best['ops'])}")
            lines.append(f"  {bout['message']}")
            if bout.get("traceback"):
                lines.append("  " + bout["traceback"].replace("\n", "\n  "))

    wall = time.monotonic() - t0
    for line in known_lines + lines:
        print(line)
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(nontrivial_digests),
            "rule": prop.RULE,
            "samples": samples or [generate_sample(pid, seed, 0, tier)],
            "distinct_executions_by_event_digest": len(digests),
            "distinct_abstract_states": len(agg["states"]),
            "abstract_state_measure": prop.STATE_MEASURE,
            "inconclusive_runs": inconclusive,
            "filter_steps": agg["steps"],
            "simulated_seconds": round(agg["sim_time"], 3),
            "oracle_checks": agg["checks"],
            "events_logged": agg["events"],
            "operations": dict(sorted(agg["ops"].items())),
            "faults_injected": dict(sorted(agg["faults"].items())),
            "runs_per_hour": round(done / wall * 3600) if wall else 0,
            "planned_runs": total,
            "stopped_by_time_cap": capped,
            "workers": min(workers, total),
            "components_real": prop.REAL,
            "components_stubbed": prop.STUB,
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(jsonable(evidence), f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    if not quiet:
        print(
            f"{pid} [{tier}] runs={done}/{total} steps={agg['steps']} sim_s={agg['sim_time']:.0f} checks={agg['checks']} "
            f"states={len(agg['states'])} nontrivial={len(nontrivial_digests)} inconclusive={inconclusive} "
            f"faults={sum(agg['faults'].values())} wall={wall:.1f}s exit={code}"
        )
    return code


def generate_sample(pid, seed, index, tier):
    c = generate(pid, seed, index, tier)
    ops = c["ops"]
    if len(ops) > 6:
        c["ops"] = ops[:6] + [f"... {len(ops) - 6} more"]
    return c


def replay(path: str) -> int:
    with open(path, encoding="utf-8") as f:
        case = json.load(f)
    expect = case.pop("expect", None)
    sys.path.insert(0, VERIF)
    base = tempfile.mkdtemp(prefix="simrta-")
    try:
        setup_process(base)
        out = execute(case)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if out["status"] == "violation":
        same = expect is None or (out["rule"] == expect["rule"] and out["digest"] == expect["digest"])
        print(f"VIOLATION property={case['prop']} replay={path}")
        print(f"  rule: {out['rule']}\n  {out['message']}\n  digest: {out['digest']} ({'same execution' if same else 'differs from the recorded one'})")
        if out.get("traceback"):
            print(out["traceback"])
        return 1
    if out["status"] == "harness-error":
        print("HARNESS-ERROR", out["message"], out["traceback"])
        return 2
    print(f"no violation: {out['status']} digest {out['digest']}")
    return 0
