"""C04: once switched, a simplex module with a latch time holds the backup control for the whole latch time, and then lets go."""
from .. import gen as G
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo

OWN = {"latch", "decision", "intervening", "backup-value", "disabled"}


def latched(rng, cfg):
    dt = cfg["dt"]
    cfg["latch"] = G.pick(rng, dt, 2 * dt, 3 * dt, 5 * dt, 2.5 * dt, 0.5 * dt, 8 * dt)


# short excursions: the reason to intervene is over long before the latch time is
MIX = dict(place=.12, reset=.04, toggle=.06, disturb=.08, param=.04, cenable=.06, sensor=.1, stale=.05)
STRATA = [
    toy("esimplex", 40, mix=MIX, tweak=latched), toy("isimplex", 40, mix=MIX, tweak=latched), toy("esimplex", 40, mix=dict(MIX, nanpred=.08), tweak=latched),
    zoo("docking2d", "esimplex", 40, mix=dict(place=.15, reset=.04, toggle=.06, cenable=.06), tweak=latched),
    toy("isimplex", 40, mix=dict(MIX, fault=.06), tweak=latched), zoo("docking3d", "isimplex", 40, mix=dict(place=.15, reset=.04, toggle=.06), tweak=latched),
    zoo("integrator", "isimplex", 40, mix=dict(place=.2, reset=.04, toggle=.06), tweak=latched), toy("esimplex", 40, mix=dict(MIX, fault=.06), tweak=latched),
]
gen, run, PLAN = pack(STRATA, OWN, 320, 8000)
