"""C18: modules do not influence each other, however their control periods interleave, including in the middle of a lookahead."""
import threading

from .. import gen as G
from ..core import Violation
from ..world import ALL_RULES, World
from . import _twin as T
from ._lock import REAL, STUB  # noqa: F401

PLAN = {"quick": 196, "thorough": 3000}
RULE = ("a case is two to four modules, each with its own seeded schedule, and a seeded interleaving: of whole operations in one thread, or of one "
        "thread per module switched at every call of a model or backup controller; every module is compared with its own reference model; "
        "non-trivial when a module intervened")
STATE_MEASURE = "(module kinds, pair of modules switched between and the call at which the switch happened) tuples"
OWN = set(ALL_RULES)
MIX = dict(place=.06, disturb=.1, reset=.04, toggle=.05, param=.08, cenable=.05, sensor=.1, fault=.05)


def gen(rng, index, tier):
    threads = index % 2 == 0
    k = G.pick(rng, 2, 2, 3) if index % 4 else G.pick(rng, 2, 3, 4)
    mods, ops = [], []
    same = G.chance(rng, 0.6)
    zoo = not threads and index % 5 == 1
    algo = G.pick(rng, "esimplex", "isimplex", "isimplex") if threads else G.pick(rng, "esimplex", "isimplex", "easif", "iasif", "dasif")
    if zoo:
        z = G.pick(rng, ("docking2d", "esimplex"), ("docking3d", "easif"), ("docking2d", "iasif"), ("integrator", "isimplex"), ("docking3d", "isimplex"), ("insp1v1", "easif"))
    system = G.gen_system(rng)
    share = G.chance(rng, 0.4)
    for j in range(k):
        if zoo:
            cfg = G.gen_zoo(rng, *z)
            o = G.gen_zoo_ops(rng, cfg, 12, dict(place=.1, reset=.04, toggle=.05, param=.1, cenable=.05))
        else:
            if not same:
                algo = G.pick(rng, "esimplex", "isimplex") if threads else G.pick(rng, "esimplex", "isimplex", "easif", "iasif", "dasif")
            kinds = ("counter", "integral", "mutating") if threads else None
            cfg = T.toy_cfg(rng, algo, system=system if same else None, backup_kinds=kinds if algo != "iasif" else ("brake", "counter", "integral"))
            if "pred" in cfg:
                cfg["pred"] = "np"
            if share:
                cfg["share_jit"] = True
            o = G.gen_ops(rng, cfg, 12, MIX)
        mods.append(cfg)
        ops += [dict(op, who=j) for op in o]
    # interleave: a seeded merge that keeps each module's own order
    queues = [[o for o in ops if o["who"] == j] for j in range(k)]
    merged = []
    while any(queues):
        j = G.pick(rng, *[q for q in range(k) if queues[q]])
        for _ in range(rng.randint(1, 3)):
            if queues[j]:
                merged.append(queues[j].pop(0))
    case = {"cfg": {"mods": mods, "threads": threads, "lazy": G.chance(rng, 0.5)}, "ops": merged}
    if threads:
        case["cfg"]["turns"] = [rng.randrange(1 << 16) for _ in range(400)]
    return case


class Baton:
    """Runs one thread at a time; at every switch point the next thread is taken from the case's list of turns."""

    def __init__(self, n, turns, ctx, kinds):
        self.n, self.turns, self.ctx, self.kinds = n, turns, ctx, kinds
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.pos = 0
        self.current = None
        self.all_done = threading.Semaphore(0)
        self.stop = False

    def choose(self):
        alive = [i for i in range(self.n) if not self.done[i]]
        if not alive:
            return None
        t = self.turns[self.pos % len(self.turns)]
        self.pos += 1
        return alive[t % len(alive)]

    def switch(self, me, site):
        if self.stop:
            raise SystemExit
        nxt = self.choose()
        if nxt == me:
            return
        self.ctx.fault("preemption")
        self.ctx.state(self.kinds[me], self.kinds[nxt], site)
        self.current = nxt
        self.locks[nxt].release()
        self.locks[me].acquire()
        if self.stop:
            raise SystemExit

    def finish(self, me):
        self.done[me] = True
        nxt = self.choose()
        if nxt is None:
            self.all_done.release()
        else:
            self.current = nxt
            self.locks[nxt].release()


def run(case, ctx):
    cfg = case["cfg"]
    share = {}

    def make(j):
        return World(cfg["mods"][j], ctx, OWN, label=f"module {j}: ", share=share)

    lazy = cfg.get("lazy")
    ws = [None if lazy else make(j) for j in range(len(cfg["mods"]))]
    kinds = [c.get("zoo", "") + c["algo"] for c in cfg["mods"]]
    lost = None
    if not cfg["threads"]:
        last = None
        for op in case["ops"]:
            j = op["who"]
            if last is not None and last != j:
                ctx.state(kinds[last], kinds[j], op["op"])
            last = j
            if ws[j] is None:
                ws[j] = make(j)
            ws[j].do(op)
        for w in ws:
            if w is not None:
                w.finish()
        return
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        baton = Baton(len(ws), cfg["turns"], ctx, kinds)
        errors = [None] * len(ws)

        def body(j):
            baton.locks[j].acquire()
            try:
                if baton.stop:
                    return
                w = ws[j] = ws[j] or make(j)
                w.quiet = True
                w.seams.on_call = lambda site: baton.switch(j, site)
                for op in case["ops"]:
                    if op["who"] == j:
                        baton.switch(j, "between")
                        w.do(op)
                w.finish()
            except SystemExit:
                return
            except BaseException as e:  # noqa: BLE001
                errors[j] = e
            finally:
                if not baton.stop:
                    baton.finish(j)

        threads = [threading.Thread(target=body, args=(j,), daemon=True) for j in range(len(ws))]
        for t in threads:
            t.start()
        try:
            first = baton.choose()
            baton.locks[first].release()
            baton.all_done.acquire()
        except BaseException:
            baton.stop = True
            for s in baton.locks:
                s.release()
            raise
        for t in threads:
            t.join()
        for e in errors:
            if isinstance(e, Violation):
                raise e
        for e in errors:
            if e is not None:
                lost = e
        if lost is not None:
            raise lost
