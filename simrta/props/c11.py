"""C11: discrete ASIF keeps the one-step discrete barrier condition of the sampled system and stays as close as possible to the command."""
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo

OWN = {"qp-feasible", "qp-optimal", "intervening", "infeasible-policy", "bounds", "unexpected-raise", "shape"}
STRATA = [toy("dasif"), toy("dasif", none_bounds=False), toy("dasif"), toy("dasif", slack_p=0.5), toy("diasif", 12), toy("dasif"), zoo("insp1v1", "dasif", 15), toy("dasif")]
gen, run, PLAN = pack(STRATA, OWN, 160, 4000)
