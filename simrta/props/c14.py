"""C14: a disabled module passes every command through untouched and reports no intervention; re-enabling takes effect at once."""
from .. import gen as G
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo

OWN = {"disabled", "decision", "latch", "qp-feasible", "intervening", "telemetry-info", "unexpected-raise"}


def latched(rng, cfg):
    cfg["latch"] = G.pick(rng, 2, 3, 5) * cfg["dt"]


T = dict(toggle=.2, place=.1, reset=.03, disturb=.05)
Z = dict(toggle=.2, place=.15, reset=.03)
STRATA = [
    toy("esimplex", mix=dict(T, fault=.08), tweak=latched), toy("isimplex", mix=dict(T, fault=.08), tweak=latched), toy("easif", mix=dict(T, solver=.1)), toy("iasif", mix=T),
    toy("dasif", mix=T), zoo("docking2d", "esimplex", mix=Z, tweak=latched), zoo("docking3d", "easif", mix=Z), zoo("integrator", "isimplex", mix=Z), toy("esimplex", mix=T), toy("easif", mix=T),
]
gen, run, PLAN = pack(STRATA, OWN, 240, 6000)
