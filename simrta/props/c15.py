"""C15: the information a module reports about a control period is the truth about that period."""
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo

OWN = {"telemetry-info", "telemetry-constraints", "intervening", "reset-flags"}
T = dict(telemetry=.3, toggle=.06, reset=.05, place=.08, param=.1, cenable=.06, disturb=.05, sensor=.2, stale=.1)
Z = dict(telemetry=.3, toggle=.06, reset=.05, place=.15, param=.1, cenable=.06)
STRATA = [
    toy("esimplex", mix=dict(T, fault=.05)), toy("easif", mix=dict(T, solver=.05)), toy("isimplex", mix=T), toy("iasif", mix=T), toy("dasif", mix=T),
    zoo("docking2d", "esimplex", mix=Z), zoo("docking3d", "easif", mix=Z), zoo("insp1v1", "easif", 15, mix=Z), zoo("integrator", "iasif", mix=Z), toy("easif", mix=T, slack_p=0.4),
]
gen, run, PLAN = pack(STRATA, OWN, 200, 5000)
