"""C05: implicit simplex intervenes exactly when the lookahead (desired control once, then backup for the window) meets a violation."""
from .. import gen as G
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo

OWN = {"decision", "backup-value", "intervening", "unexpected-raise", "swallowed"}
def single(rng, cfg):
    """a window shorter than a step: one predicted point, with nothing to blur its value"""
    cfg["system"]["kg"] = 0.0
    cfg["window"] = 0.125
    cfg["dt"] = G.pick(rng, 0.25, 0.5, 1.0)
    cfg["constraints"][0].pop("bias", None)


STRATA = [
    toy("isimplex", latch=False), toy("isimplex", latch=False, extra=dict(nanpred=.06)), zoo("docking2d", "isimplex"), toy("isimplex", 20, latch=False, kinds=["maxp", "minp"], tweak=G.odd_window),
    zoo("docking3d", "isimplex"), toy("isimplex"), zoo("integrator", "isimplex"), toy("isimplex", latch=False, extra=dict(fault=.08)),
    toy("isimplex", 16, latch=False, tweak=G.long_window),
    toy("isimplex", 20, latch=False, kinds=["maxp", "minp", "headway"], ncon=1, extra=dict(aim=.6), tweak=G.turning_window), toy("isimplex", 20, latch=False, kinds=["maxp", "minp", "headway", "maxv"], extra=dict(aim=.4)),
    toy("isimplex", 20, latch=False, kinds=["maxp", "minp", "maxv", "minv"], ncon=1, extra=dict(edge=.5), tweak=single),
]
gen, run, PLAN = pack(STRATA, OWN, 360, 9000)
