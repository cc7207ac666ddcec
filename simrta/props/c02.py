"""C02: whatever an enabled module returns is inside its actuator limits, on every path."""
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo

OWN = {"bounds", "shape"}
faulty = dict(fault=.06, solver=.06, nanpred=.05)
STRATA = [
    toy("esimplex", extra=faulty), toy("isimplex", extra=faulty), toy("easif", extra=faulty, slack_p=0.4), toy("iasif", slack_p=0.3, extra=dict(solver=.06)),
    toy("dasif"), zoo("docking2d", "esimplex"), toy("esimplex"), toy("easif", strict_p=0.0, extra=dict(solver=.2)), zoo("docking3d", "iasif"), toy("isimplex"),
    zoo("insp1v1", "easif", 20), toy("dasif", slack_p=0.5), zoo("docking2d", "isimplex"), zoo("docking3d", "easif", extra=dict(solver=.1)), zoo("integrator", "iasif"),
    toy("iasif", strict_p=0.0, extra=dict(solver=.2)), zoo("integrator", "esimplex"), zoo("docking3d", "isimplex"), zoo("docking2d", "iasif"), toy("easif"),
]
gen, run, PLAN = pack(STRATA, OWN, 200, 4000)
