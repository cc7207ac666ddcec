"""Command line of the simulation checks.

  run.py check PID [--tier quick|thorough] [--seed N] [--cases N] [--workers N]
  run.py replay FILE
  run.py digests PID [--cases N] [--workers N]     print index, status and event digest of every run (determinism)
  run.py case PID INDEX [--tier T] [--seed N]      print and execute one case
"""
import argparse
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from simrta import core  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument("cmd", choices=["check", "replay", "digests", "case"])
    p.add_argument("arg")
    p.add_argument("index", nargs="?", type=int)
    p.add_argument("--tier", default=None, choices=["quick", "thorough"])
    p.add_argument("--seed", type=int, default=None)
    p.add_argument("--cases", type=int)
    p.add_argument("--workers", type=int)
    p.add_argument("--time-cap", type=float)
    a = p.parse_args()
    tier = a.tier or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    if a.cmd == "check":
        return core.run_check(a.arg, tier, seed, a.cases, a.workers, a.time_cap)
    if a.cmd == "replay":
        return core.replay(a.arg)
    if a.cmd == "digests":
        total = a.cases or core.load_prop(a.arg).PLAN[tier]
        with core.Pool(a.workers or os.cpu_count()) as pool:
            for out in pool.imap(core._worker_run, ((a.arg, seed, i, tier) for i in range(total))):
                print(out["index"], out["status"], out["digest"])
        return 0
    if a.cmd == "case":
        core.setup_process()
        case = core.generate(a.arg, seed, a.index, tier)
        print(json.dumps(case, indent=1)[:20000])
        out = core.execute(case)
        out["states"] = len(out["states"])
        print(json.dumps(out, indent=1))
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
