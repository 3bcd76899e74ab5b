from ..history import *

RULE = ("Cases: histories on one provider built from generated episodes (every way of presenting client credentials at token and revocation endpoints), correct requests altered by 0-2 generated flaws, with clock and registration "
        "changes in between; each response and storage effect is compared with the reference model. Non-trivial: some token or revocation request.")
QUICK, THOROUGH = 4800, 300000


def strategy(tier):
    return histories((("cc", 5), ("code", 3), ("refresh", 1), ("revoke", 3), ("change", 1), ("again-cc", 2), ("again-revoke", 1), ("many", 1), ("par-cc", 1), ("par-revoke", 1), ("par-code", 1), ("par-clients", 1)), (("auth", 8), ("grant", 0)), False, 3 if tier == "quick" else 6)


def run(case):
    labels = run_history(case)
    return {"nontrivial": any(l.startswith(("token", "revoke")) for l in labels), "labels": set(labels)}
