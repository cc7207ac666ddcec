"""C27: the docking and integrator modules are the algorithms they name applied to the documented dynamics, limits and backup."""
from ..world import ALL_RULES
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, zoo

OWN = set(ALL_RULES)
STRATA = [zoo(z, a, 30) for a in ("esimplex", "easif", "isimplex", "iasif") for z in ("docking2d", "docking3d", "integrator")]
gen, run, PLAN = pack(STRATA, OWN, 192, 4800)
