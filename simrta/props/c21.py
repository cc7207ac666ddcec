"""C21: a failure inside one control period (model, backup controller, solver) costs that period and nothing after it."""
from .. import gen as G
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo
from ..world import ALL_RULES

OWN = set(ALL_RULES)
F = dict(fault=.25, nanpred=.1, place=.08, disturb=.1, reset=.03, stale=.1, sensor=.1)
S = dict(solver=.3, fault=.0, place=.08, disturb=.1, reset=.03, stale=.1, sensor=.1, cenable=.05)
STRATA = [
    toy("isimplex", mix=F), toy("esimplex", mix=F), toy("easif", mix=S, strict_p=0.5), toy("iasif", mix=S, strict_p=0.5), toy("isimplex", mix=F, backup_kinds=("counter", "integral", "mutating")),
    zoo("docking3d", "easif", extra=dict(solver=.25)), toy("easif", mix=S, slack_p=0.5), zoo("docking2d", "iasif", extra=dict(solver=.25)),
]
gen, run, PLAN = pack(STRATA, OWN, 240, 6000)
