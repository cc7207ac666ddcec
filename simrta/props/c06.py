"""C06: the backup controller's state moves only with backup controls that are applied; lookaheads, failures and resets leave no trace."""
from ._lock import REAL, RULE, STATE as STATE_MEASURE, STUB, pack, toy

OWN = {"backup-state", "reset-backup", "backup-value", "decision"}
KINDS = ("counter", "integral", "mutating")


def uncompiled(rng, cfg):
    if rng.random() < 0.25:
        cfg["jit_enable"] = False
        cfg["window"] = min(cfg["window"], 3 * cfg["dt"])


STRATA = [
    toy("isimplex", backup_kinds=KINDS, extra=dict(fault=.12)), toy("iasif", backup_kinds=KINDS, direct=False, extra=dict(probe=.05), tweak=uncompiled),
    toy("isimplex", backup_kinds=KINDS, extra=dict(reset=.12)), toy("esimplex", backup_kinds=KINDS, extra=dict(reset=.1, fault=.1, probe=.06)),
    toy("isimplex", backup_kinds=("mutating",), extra=dict(probe=.06)), toy("isimplex", backup_kinds=KINDS, extra=dict(nanpred=.1)),
]
gen, run, PLAN = pack(STRATA, OWN, 240, 6000)
