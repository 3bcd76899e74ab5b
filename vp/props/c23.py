from ..history import *

RULE = ("Cases: histories on one provider built from generated episodes (revocations with wrong clients, tokens and hints followed by refreshes), correct requests altered by 0-2 generated flaws, with clock and registration "
        "changes in between; each response and storage effect is compared with the reference model. Non-trivial: a revocation by an authenticated client, or refused.")
QUICK, THOROUGH = 3000, 150000


def strategy(tier):
    return histories((("revoke", 8), ("happy", 1), ("many", 1), ("par-revoke", 2)), (("revoke", 4), ("auth", 2)), False, 3 if tier == "quick" else 6)


def run(case):
    labels = run_history(case)
    return {"nontrivial": any(l.startswith("revoke") and "no token" not in l for l in labels), "labels": set(labels)}
