from ..history import *

RULE = ("Cases: histories on one provider built from generated episodes (grant types enabled or not, registered or not, with all authentication methods), correct requests altered by 0-2 generated flaws, with clock and registration "
        "changes in between; each response and storage effect is compared with the reference model. Non-trivial: some token request.")
QUICK, THOROUGH = 4800, 250000


def strategy(tier):
    return histories((("cc", 4), ("code", 2), ("refresh", 2), ("change", 2), ("again-cc", 1), ("again-refresh", 1), ("many", 1), ("par-cc", 1), ("par-mix", 2), ("par-code", 1)), (("grant", 5), ("auth", 2)), False, 3 if tier == "quick" else 6)


def run(case):
    labels = run_history(case)
    return {"nontrivial": any(l.startswith("token") for l in labels), "labels": set(labels)}
