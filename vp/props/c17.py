from ..history import *

RULE = ("Cases: histories on one provider built from generated episodes (code exchanges with wrong codes, clients, URIs, verifiers and times), correct requests altered by 0-2 generated flaws, with clock and registration "
        "changes in between; each response and storage effect is compared with the reference model. Non-trivial: a code exchange that is issued, or refused for another reason than an unknown code.")
QUICK, THOROUGH = 3600, 200000


def strategy(tier):
    return histories((("code", 6), ("codes", 2), ("challenge", 2), ("verifier", 2), ("twin", 1), ("again", 1), ("happy", 1), ("many", 1), ("par-code", 1)), (("code", 5), ("auth", 1), ("grant", 1)), False, 3 if tier == "quick" else 6)


def run(case):
    labels = run_history(case)
    return {"nontrivial": any(l.startswith("token issued:authorization_code") or l.startswith("token refused") and "unknown code" not in l for l in labels), "labels": set(labels)}
