from ..history import *

RULE = ("Cases: histories on one provider built from generated episodes (refresh requests with wrong tokens, clients, times and scopes), correct requests altered by 0-2 generated flaws, with clock and registration "
        "changes in between; each response and storage effect is compared with the reference model. Non-trivial: a refresh request for a known refresh token.")
QUICK, THOROUGH = 4000, 150000


def strategy(tier):
    return histories((("refresh", 8), ("happy", 1), ("again-refresh", 1), ("lost", 1), ("many", 1), ("par-refresh", 2)), (("refresh", 5), ("scope", 2)), False, 3 if tier == "quick" else 6)


def run(case):
    labels = run_history(case)
    return {"nontrivial": any(l == "token issued:refresh_token" or "refused" in l and "unknown" not in l for l in labels), "labels": set(labels)}
