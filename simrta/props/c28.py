"""C28: the inspection modules enforce every documented constraint on the documented dynamics, for any number of deputies."""
from .. import gen as G
from ..world import ALL_RULES
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, zoo

OWN = set(ALL_RULES)
ALONE = dict(place=.4, cenable=.02, toggle=.02, telemetry=.05, param=.08, reset=.04)


def alone(zoo_, algo, steps):
    return zoo(zoo_, algo, steps, mix=ALONE, tweak=G.isolate)


STRATA = [alone("insp3d", "easif", 10), alone("insp3d", "easif", 10), alone("insp3d", "easif", 12), alone("insp1v1", "easif", 12), alone("insp3d", "easif", 12), zoo("insp1v1", "easif", 25), zoo("insp3d", "easif", 25), zoo("insp1v1", "dasif", 12), zoo("insp1v1", "easif", 25), zoo("insp3d", "easif", 25), alone("insp1v1", "dasif", 8)]
gen, run, PLAN = pack(STRATA, OWN, 198, 4950)
