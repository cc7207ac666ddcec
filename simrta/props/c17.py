"""C17: compiling is transparent: with any subset of the routines compiled, or none, a module makes the same decisions."""
from .. import gen as G
from ..world import ALL_RULES
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy, zoo

OWN = set(ALL_RULES)
KEYS = {
    "esimplex": ["constraint_violation", "pred_state"], "isimplex": ["constraint_violation", "pred_state", "integrate"],
    "easif": ["generate_barrier_constraint_mats", "update_ineq_mats"], "iasif": ["jacobian", "generate_ineq_constraint_mats", "update_ineq_mats", "pred_state", "integrate"],
    "dasif": [],
}


def jits(rng, cfg):
    algo = cfg["algo"]
    if G.chance(rng, 0.45):
        cfg["jit_enable"] = False
        return
    d = {}
    if algo == "iasif" and G.chance(rng, 0.6):
        cfg["pred"] = "jnp"
        cfg.pop("library_pred", None)
    for k in KEYS[algo]:
        if k == "pred_state" and cfg.get("pred", "np") == "np":
            continue
        if k == "integrate" and (cfg["backup"]["kind"] != "brake" or cfg.get("pred", "np") == "np"):
            continue  # a compiled rollout needs a backup controller without memory and a model written for jax
        if G.chance(rng, 0.6):
            d[k] = G.chance(rng, 0.5)
    if cfg.get("pred") == "jit" and "pred_state" not in d:
        d["pred_state"] = True
    cfg["jit_dict"] = d


def whole(rng, cfg):
    """the backup rollout itself compiled"""
    cfg["pred"] = "jnp"
    cfg.pop("library_pred", None)
    cfg["jit_dict"] = {"integrate": True, "pred_state": G.chance(rng, 0.5)}


def nojit(rng, cfg):
    cfg["jit_enable"] = False


STRATA = [toy("esimplex", 24, tweak=jits), toy("easif", 20, tweak=jits), toy("isimplex", 20, tweak=jits), toy("iasif", 8, tweak=jits, backup_kinds=("brake", "counter", "integral", "mutating"), extra=dict(probe=.1)), toy("esimplex", 24, tweak=nojit),
          toy("dasif", 12, tweak=nojit), zoo("docking2d", "esimplex", 12, tweak=nojit), toy("easif", 16, tweak=nojit, slack_p=0.4), zoo("integrator", "isimplex", 12, tweak=nojit), toy("isimplex", 16, tweak=nojit, extra=dict(aim=.5)),
          zoo("docking3d", "easif", 6, tweak=nojit), toy("isimplex", 20, tweak=whole, backup_kinds=("brake",)), toy("iasif", 10, tweak=whole, backup_kinds=("brake",))]
gen, run, PLAN = pack(STRATA, OWN, 195, 3900)
