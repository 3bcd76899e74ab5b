from ..history import *

RULE = ("Cases: histories on one provider built from generated episodes (code exchanges with and without OpenID Connect, all key types, signing keys replaced in between), correct requests altered by 0-2 generated flaws, with clock and registration "
        "changes in between; each response and storage effect is compared with the reference model. Non-trivial: an ID token was issued.")
QUICK, THOROUGH = 2400, 100000


def _openid(case):
    """Mostly let 'openid' be available and requested."""
    w = case["world"]
    if case["ops"] and case["ops"][0].get("s", 1) % 8 == 7:
        return case
    for sc in [w["cfg"]["scopes"]] + [c["scopes"] for c in w["db"]["clients"].values()]:
        if "openid" not in sc:
            sc.insert(0, "openid")
    for c in w["db"]["clients"].values():
        c["scopes"].sort(key=lambda s: s != "openid")
    w["db"]["sk"] = w["cfg"]["id_lifespan"] % 2 if w["cfg"].get("alt") else 0
    for o in case["ops"]:
        if o["o"] == "authorize" and o["s"] % 4:
            o["s"] |= 1
    return case


def strategy(tier):
    return _histories(tier).map(copy.deepcopy).map(_openid)


def _histories(tier):
    return histories((("happy", 6), ("code", 2), ("refresh", 1), ("many", 1), ("change", 1), ("again", 4), ("par-code", 2)), (("scope", 3),), True, 3 if tier == "quick" else 5)


def run(case):
    labels = run_history(case)
    return {"nontrivial": any(l.endswith("openid") for l in labels), "labels": set(labels)}
