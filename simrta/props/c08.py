"""C08: when no admissible control exists the failure is reported as configured; slack makes soft what was asked to be soft, nothing else."""
from .. import gen as G
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo

OWN = {"infeasible-policy", "solver-error", "swallowed", "qp-feasible", "qp-optimal", "unexpected-raise"}
hard = dict(place=.2, disturb=.2, param=.1, cenable=.04, reset=.03, solver=.1, direct=.1)
STRATA = [
    toy("easif", mix=hard, none_bounds=False, strict_p=0.5), toy("easif", mix=hard, slack_p=1.0, strict_p=0.5), toy("iasif", mix=hard, none_bounds=False, strict_p=0.5),
    toy("dasif", mix=dict(hard, solver=0), none_bounds=False, strict_p=0.5), toy("easif", mix=hard, none_bounds=False, strict_p=0.0), toy("iasif", mix=hard, slack_p=1.0, strict_p=0.5),
    zoo("docking2d", "easif", extra=dict(solver=.1)), toy("dasif", mix=dict(hard, solver=0), slack_p=0.7, strict_p=0.3),
    toy("dasif", mix=dict(hard, solver=0), tweak=G.soft_mix), toy("easif", mix=hard, tweak=G.soft_mix), toy("iasif", 20, mix=hard, tweak=G.soft_mix),
]
gen, run, PLAN = pack(STRATA, OWN, 264, 6000)
