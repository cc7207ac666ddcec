"""C03: explicit simplex switches to the backup exactly when the predicted next state violates an enabled constraint."""
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo

OWN = {"decision", "backup-value", "intervening", "unexpected-raise", "swallowed"}
nolatch = dict(latch=False)


def plain(rng, cfg):
    cfg["system"]["kg"] = 0.0
    cfg["constraints"][0].pop("bias", None)


STRATA = [
    toy("esimplex", extra=dict(nanpred=.06), **nolatch), toy("esimplex", **nolatch), zoo("docking2d", "esimplex"), toy("esimplex", **nolatch),
    zoo("docking3d", "esimplex"), toy("esimplex"), zoo("integrator", "esimplex"), toy("esimplex", extra=dict(nanpred=.1, fault=.05), **nolatch),
    toy("esimplex", kinds=["maxp", "minp", "headway", "maxv"], extra=dict(aim=.5), **nolatch),
    toy("esimplex", 20, kinds=["maxp", "minp", "maxv", "minv"], ncon=1, extra=dict(edge=.5), tweak=plain, **nolatch),
]
gen, run, PLAN = pack(STRATA, OWN, 360, 9000)
