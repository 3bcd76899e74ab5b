from ..history import *

RULE = ("Cases: histories on one provider built from generated episodes (scopes in all flows, with registrations shrinking and growing), correct requests altered by 0-2 generated flaws, with clock and registration "
        "changes in between; each response and storage effect is compared with the reference model. Non-trivial: a request issued with scopes or refused for its scope.")
QUICK, THOROUGH = 4400, 200000


def strategy(tier):
    return histories((("refresh", 4), ("cc", 4), ("authorize", 3), ("change", 1), ("again-cc", 1), ("again-authorize", 1), ("lost", 2), ("many", 1), ("par-refresh", 1), ("par-authorize", 1)), (("scope", 8),), False, 3 if tier == "quick" else 6)


def run(case):
    labels = run_history(case)
    return {"nontrivial": any("issued" in l or "scope" in l or "authorized" in l for l in labels), "labels": set(labels)}
