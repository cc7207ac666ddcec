"""C07: explicit ASIF returns the control closest to the desired one among those satisfying every enabled barrier condition and limit."""
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo

OWN = {"qp-feasible", "qp-optimal", "intervening", "infeasible-policy", "bounds", "unexpected-raise"}
STRATA = [toy("easif"), toy("easif", slack_p=0.0, none_bounds=False), toy("easif", slack_p=1.0), zoo("docking2d", "easif"), toy("easif"), zoo("docking3d", "easif"),
          toy("easif", kinds=["hocbf", "headway", "keepout"]), zoo("integrator", "easif")]
gen, run, PLAN = pack(STRATA, OWN, 320, 8000)
