from ..history import *

RULE = ("Cases: histories on one provider built from generated episodes (authorization requests with missing, altered and boundary parameters), correct requests altered by 0-2 generated flaws, with clock and registration "
        "changes in between; each response and storage effect is compared with the reference model. Non-trivial: an authorization request past the client and redirect URI checks.")
QUICK, THOROUGH = 7200, 400000


def strategy(tier):
    return histories((("authorize", 8), ("happy", 1), ("again-authorize", 1), ("many", 1), ("par-authorize", 1)), (("authz", 3), ("scope", 2), ("redir", 1)), False, 4 if tier == "quick" else 8)


def run(case):
    labels = run_history(case)
    return {"nontrivial": any(l.startswith("authorize") and "fatal" not in l for l in labels), "labels": set(labels)}
