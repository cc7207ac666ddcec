"""C12: parameter and enable changes of constraints are effective from the next control period, and only there."""
from .. import gen as G
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo

OWN = {"decision", "qp-feasible", "qp-optimal", "infeasible-policy", "telemetry-constraints", "intervening", "attrib"}
live = dict(param=.4, cenable=.3, direct=.3, telemetry=.15, place=.1, disturb=.05, reset=.04, toggle=.04)
STRATA = [
    toy("esimplex", mix=live, ncon=2), toy("easif", mix=live, ncon=2), toy("isimplex", mix=live, ncon=2), toy("iasif", mix=live, ncon=2), toy("dasif", mix=live, ncon=2),
    zoo("docking2d", "esimplex", mix=dict(param=.4, cenable=.2, place=.2, telemetry=.1, reset=.05)), zoo("docking3d", "easif", mix=dict(param=.4, cenable=.2, place=.2, telemetry=.1, reset=.05)),
    toy("easif", mix=live, ncon=3, kinds=["hocbf", "headway", "maxv", "speed2"]), zoo("docking2d", "iasif", mix=dict(param=.4, cenable=.2, place=.2)),
    toy("esimplex", mix=live, ncon=3), toy("iasif", 24, mix=live, ncon=2, kinds=["away", "away", "magv", "maxp"], tweak=G.turning_sub),
]
gen, run, PLAN = pack(STRATA, OWN, 242, 6000)
