"""C23: saved results are never lost: a finished run leaves all its rows in a file of its own, and no run harms earlier files."""
import ast
import builtins
import csv
import datetime as _datetime
import errno
import io
import os
import shutil
import tempfile
import warnings

from .. import gen as G, mods, ref
from ..core import Inconclusive, Violation
from ..toys import InjectedFault
from . import _samples as S
from ._lock import REAL as _REAL
import numpy as np

REAL = _REAL + ["run_time_assurance.utils.sample_testing (run_sample_test, file naming and writing)", "csv"]
STUB = ["clock (frozen, stepping, jumping back)", "disk: failing open, full disk after k bytes, error on close, crash of the process at any simulation step",
        "simulated plant, scripted initial states"]
PLAN = {"quick": 480, "thorough": 4000}
RULE = ("a case is a sequence of sample test runs into one or two directories under a seeded clock, disk faults and crashes; after every run all files "
        "ever completed are compared byte by byte; non-trivial when two runs shared a second or a fault struck")
STATE_MEASURE = "(outcome of the run, fault, clock movement, files present) tuples"


class Crash(BaseException):
    """the process dies here; only what is on disk survives"""


def gen(rng, index, tier):
    cfg = G.gen_toy(rng, "esimplex", slack=False, direct=False, ncon=1, latch=False, backup_kinds=("brake",))
    cfg["constraints"][0].pop("enabled", None)
    cfg.pop("use", None)
    n = G.pick(rng, 1, 1, 2, 2, 3, 3, 12)
    t = S.gen_plan(rng, cfg, n, extra=12)
    t["starts"] = [[v * 0.25 for v in s] for s in t["starts"]]
    t["sim"] = 2 * cfg["dt"]
    ops = []
    burst = G.chance(rng, 0.08)  # many runs within the same second
    for _ in range(13 if burst else rng.randint(2, 7)):
        ops.append({"op": "run", "clock": 0 if burst else G.pick(rng, 0, 0, 0, 1, 60, -1, -3600, 0.4), "dir": G.pick(rng, "a", "a", "a", "b/c"),
                    "fault": G.pick(rng, None, None, None, {"kind": "open", "err": "EACCES"}, {"kind": "open", "err": "ENOSPC"}, {"kind": "write", "after": rng.randint(0, 60)},
                                    {"kind": "close"}, {"kind": "crash", "after": rng.randint(0, 5)}, {"kind": "model", "after": rng.randint(0, 5)}),
                    "same": G.chance(rng, 0.5)})
    return {"cfg": dict(cfg, plan=t, t0=rng.randint(0, 10**8)), "ops": ops}


class FaultyFile:
    """a text file on a disk that fills up or fails"""

    def __init__(self, f, spec, note):
        self.f, self.spec, self.note, self.left = f, spec, note, spec.get("after", 0)

    def write(self, s):
        if self.spec["kind"] == "write":
            part = s[:self.left]
            self.left -= len(part)
            self.f.write(part)
            if len(part) < len(s):
                self.note()
                raise OSError(errno.ENOSPC, "No space left on device (simulated)")
            return len(s)
        return self.f.write(s)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def close(self):
        if not self.f.closed:
            self.f.close()
            if self.spec["kind"] == "close":
                self.note()
                raise OSError(errno.EIO, "Input/output error (simulated)")

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def __getattr__(self, k):
        return getattr(self.f, k)


class Disk:
    """open() for paths below root goes through the fault plan of the current run"""

    def __init__(self, root, spec):
        self.root, self.spec, self.fired = os.path.realpath(root), spec, 0

    def hit(self):
        self.fired += 1

    def __enter__(self):
        self.real, self.real_io = builtins.open, io.open

        def sim_open(file, mode="r", *a, **k):
            inside = isinstance(file, (str, bytes, os.PathLike)) and os.path.realpath(os.fspath(file)).startswith(self.root + os.sep)
            writing = any(c in mode for c in "wxa+")
            if not (inside and writing and self.spec and self.spec["kind"] in ("open", "write", "close")):
                return self.real(file, mode, *a, **k)
            if self.spec["kind"] == "open":
                self.hit()
                raise OSError(getattr(errno, self.spec["err"]), "simulated")
            if "b" in mode:
                return self.real(file, mode, *a, **k)
            return FaultyFile(self.real(file, mode, *a, **k), self.spec, self.hit)

        builtins.open = sim_open
        io.open = sim_open
        return self

    def __exit__(self, *_):
        builtins.open, io.open = self.real, self.real_io


class Clock:
    """the module's clock: datetime.now() under control of the case"""

    def __init__(self, now):
        self.value = now

    def __enter__(self):
        from run_time_assurance.utils import sample_testing

        clock = self
        self.mod = sample_testing
        self.saved = {}
        real = getattr(sample_testing, "datetime", None)

        class SimDatetime(_datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return _datetime.datetime.fromtimestamp(clock.value, _datetime.timezone.utc if tz is None else tz).replace(tzinfo=tz)

            @classmethod
            def utcnow(cls):
                return cls.now()

            @classmethod
            def today(cls):
                return cls.now()

        if isinstance(real, type) and issubclass(real, _datetime.datetime):
            self.saved["datetime"] = real
            sample_testing.datetime = SimDatetime
        elif real is _datetime:
            import types

            fake = types.SimpleNamespace(**vars(_datetime))
            fake.datetime = SimDatetime
            self.saved["datetime"] = real
            sample_testing.datetime = fake
        return self

    def __exit__(self, *_):
        for k, v in self.saved.items():
            setattr(self.mod, k, v)


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def parse(data):
    rows = []
    for r in csv.reader(io.StringIO(data.decode("utf-8"), newline="")):
        if r:
            rows.append((r[0], ast.literal_eval(r[1])))
    return rows


def run(case, ctx):
    cfg = case["cfg"]
    t = cfg["plan"]
    prob = ref.toy_problem(cfg)
    try:
        is_good = [S.start_safe(prob, ref.f32(S.transform(t, s))) for s in t["starts"]]
    except S.Band:
        raise Inconclusive("start closer than rounding")
    if not any(is_good):
        raise Inconclusive("no safe start")
    root = tempfile.mkdtemp(prefix="simrta-c23-")
    safe = {}  # completed files: relative path -> bytes
    now = 1.7e9 + cfg["t0"]
    seen = set()
    test, hooks, outcome = None, {}, None
    try:
        for i, op in enumerate(case["ops"]):
            ctx.now = i
            ctx.op("run")
            now += op["clock"]
            fault = op["fault"]
            left = [None if not fault or fault["kind"] not in ("crash", "model") else fault["after"]]

            def pred_hook(left=left, fault=fault):
                if left[0] is not None:
                    left[0] -= 1
                    if left[0] < 0:
                        left[0] = None
                        raise Crash() if fault["kind"] == "crash" else InjectedFault("model")

            hooks["pred"] = pred_hook
            if test is None or outcome == "crashed" or not op.get("same"):
                test = S.tester(cfg, t, prob, mods.make(cfg).rta, kw={"n_points": t["n"]}, hooks=hooks)
            else:
                ctx.fault("same-module-again")
            k = test.served
            before = tree(root)
            out_dir = os.path.join(root, op["dir"])
            outcome = "finished"
            disk = Disk(root, fault)
            try:
                with S.silent(), warnings.catch_warnings(), Clock(now), disk:
                    warnings.simplefilter("ignore")
                    test.run_sample_test(out_dir)
            except Crash:
                outcome = "crashed"
                ctx.fault("process-crash")
            except InjectedFault:
                outcome = "failed"
                ctx.fault("model-failure")
            except OSError:
                if disk.fired == 0:
                    raise
                outcome = "failed"
                ctx.fault("disk-" + fault["kind"])
            after = tree(root)
            ctx.step(t["sim"])
            for p, data in safe.items():
                ctx.check(after.get(p) == data, "earlier-results",
                          lambda p=p: f"run {i} ({outcome}) {'removed' if p not in after else 'changed'} {p}, the result of an earlier run", i)
            new = [p for p in after if after[p] != before.get(p)]
            ctx.log(outcome, len(after))
            ctx.state(outcome, fault and fault["kind"], op["clock"] <= 0, min(len(after), 4))
            if outcome == "finished":
                ctx.check(disk.fired == 0, "error-swallowed", f"run {i} returned normally although the disk failed ({fault})", i)
                ctx.check(len(new) == 1, "own-file", f"run {i} finished and left new files {new}", i)
                ctx.check(os.path.dirname(new[0]) == op["dir"] and new[0].endswith(".csv"), "own-file", f"run {i} into {op['dir']} wrote {new[0]}", i)
                try:
                    rows = parse(after[new[0]])
                except Exception as e:  # noqa: BLE001
                    raise Violation("content", f"run {i}: {new[0]} cannot be read back: {e!r}", i)
                ctx.check(len(rows) == t["n"] and all(v in ("True", "False") for v, _ in rows), "content",
                          f"run {i}: {new[0]} holds {len(rows)} rows of {t['n']}: {rows}", i)
                for j, (v, x) in enumerate(rows):
                    while not is_good[k % len(is_good)]:
                        k += 1
                    want = S.transform(t, t["starts"][k % len(is_good)])
                    k += 1
                    ctx.check(np.allclose(x, want, rtol=0, atol=1e-12), "content", lambda: f"run {i} row {j}: recorded {x}, sampled {want.tolist()}", i)
                safe[new[0]] = after[new[0]]
            key = (op["dir"], int(now))
            if key in seen or outcome != "finished":
                ctx.nontrivial += 1
            if key in seen:
                ctx.fault("same-second")
            seen.add(key)
            if op["clock"] < 0:
                ctx.fault("clock-jump-back")
    finally:
        shutil.rmtree(root, ignore_errors=True)
