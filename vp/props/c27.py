from ..history import *

RULE = ("Cases: histories on one provider built from generated episodes (consent queries, some followed by the authorization with the same request), correct requests altered by 0-2 generated flaws, with clock and registration "
        "changes in between; each response and storage effect is compared with the reference model. Non-trivial: consent data returned, or a query refused to a registered URI.")
QUICK, THOROUGH = 7200, 400000


def strategy(tier):
    return histories((("consent", 8), ("again-consent", 1), ("many", 1), ("par-consent", 1)), (("scope", 2), ("authz", 2), ("redir", 2)), False, 4 if tier == "quick" else 8)


def run(case):
    labels = run_history(case)
    return {"nontrivial": any(l.startswith("consent") and "fatal" not in l for l in labels), "labels": set(labels)}
