"""C09: the constraints reported as causing an intervention are exactly the ones that explain it."""
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo

OWN = {"attrib"}
busy = dict(place=.1, disturb=.1, param=.08, cenable=.08, direct=.1, reset=.03, toggle=.05, solver=.06)
STRATA = [
    toy("easif", ncon=3, mix=busy, strict_p=0.0), toy("iasif", ncon=2, mix=busy, strict_p=0.0), toy("easif", ncon=2, mix=busy, none_bounds=True), toy("iasif", ncon=3, mix=busy),
    zoo("docking2d", "easif", extra=dict(solver=.05)), zoo("docking3d", "iasif", extra=dict(solver=.05)), toy("easif", ncon=3, mix=busy, slack_p=0.5), zoo("docking3d", "easif"),
]
gen, run, PLAN = pack(STRATA, OWN, 240, 6000)
