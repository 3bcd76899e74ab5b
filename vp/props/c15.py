from ..history import *

RULE = ("Cases: histories on one provider built from generated episodes (authorization and consent requests with near misses of registered redirect URIs and client IDs), correct requests altered by 0-2 generated flaws, with clock and registration "
        "changes in between; each response and storage effect is compared with the reference model. Non-trivial: an authorization or consent request naming an existing client or URI variant.")
QUICK, THOROUGH = 7200, 400000


def strategy(tier):
    return histories((("authorize", 6), ("consent", 2), ("again-authorize", 1), ("many", 1), ("par-authorize", 1)), (("redir", 6),), False, 4 if tier == "quick" else 8)


def run(case):
    labels = run_history(case)
    return {"nontrivial": any(l.startswith(("authorize", "consent")) for l in labels), "labels": set(labels)}
