"""C10: implicit ASIF enforces its barrier conditions along the backup trajectory at the points each constraint asks for, minimally."""
from .. import gen as G
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo

OWN = {"qp-feasible", "qp-optimal", "intervening", "infeasible-policy", "bounds", "backup-state", "unexpected-raise"}
STRATA = [toy("iasif"), toy("iasif", none_bounds=False), zoo("integrator", "iasif"), toy("iasif", slack_p=0.6), zoo("docking2d", "iasif"), toy("iasif"),
          toy("iasif", kinds=["maxp", "minp"], ncon=1), zoo("docking3d", "iasif"), toy("iasif", tweak=G.edgy_sub), toy("iasif", 20, tweak=G.odd_window),
          toy("iasif", kinds=["maxp", "minp"], ncon=1, tweak=G.turning_sub, direct=False)]
gen, run, PLAN = pack(STRATA, OWN, 242, 6050)
