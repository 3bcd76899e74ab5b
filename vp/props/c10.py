import json

from psion.jose.exceptions import ExpiredToken, NotYetValidToken
from psion.oidc.claims import IDToken

from .. import env
from ..jose import *

RULE = ("Cases: a clock reading (with fractions of a second), a time zone, 1-5 claim sets whose exp/nbf/iat are offsets from now (dense around "
        "0, multiples of hours, extremes) or wrong types, each judged by one or more routes (claims, ID-token claims, issuing, decoding with "
        "and without validation of the signature), with clock advances in between. Non-trivial: a time claim within a day of now, or of a wrong type.")
QUICK, THOROUGH = 7200, 300000
TZS = ["UTC", "JST-9", "EST5EDT", "NPT-5:45", "XXX12", "XXX-14", "CET-1CEST,M3.5.0,M10.5.0/3", "ABC0:30", "NZST-12NZDT,M9.5.0,M4.1.0/3"]
KEY = {"t": "oct", "k": "11" * 32}
_off = gen.weighted((5, st.integers(-3, 3)), (2, st.sampled_from([s * h * 3600 + d for h in (1, 2, 5, 9, 12, 14) for s in (1, -1) for d in (-1, 0, 1)])),
                    (1, st.integers(-100000, 100000)), (1, st.sampled_from([-86400, 86400, 10 ** 6, -10 ** 6, 10 ** 9])))
if gen.NEW_I:
    _off = gen.weighted((4, _off), (1, st.sampled_from(sorted({s * i + d for i in gen.NEW_I for s in (1, -1) for d in (-1, 0, 1)}))))
ABS = [0, 1, -1, -(10 ** 15), 2 ** 70] + [b ** k + d for b, ks in ((10, range(8, 20)), (2, (31, 32, 33, 40, 53, 63, 64))) for k in ks for d in (-1, 0, 1)] + [i + d for i in env.NEW_INTS if abs(i) < 2 ** 80 for d in (-1, 0, 1)]
_wrong = st.sampled_from(["str", "strnum", "float", "true", "false", "list", "dict", "empty", "strdate"])
_claim = gen.weighted((6, _off.map(lambda o: {"off": o})), (1, _wrong.map(lambda w: {"bad": w})), (1, st.sampled_from(ABS).map(lambda v: {"abs": v})))
_now = gen.weighted((3, st.integers(10 ** 8, 4 * 10 ** 9)), (1, st.sampled_from([1616889600, 1635642000, 1604210400, 1583046000, 951782399, 1709164799, 1 << 31, (1 << 31) - 1, 1111111111, 86400])))
_routes = st.lists(st.sampled_from(["claims", "id", "issue", "decode", "decode", "unvalidated", "options", "reissue"]), min_size=1, max_size=3)


@st.composite
def _case(draw):
    sets = []
    for _ in range(draw(st.integers(1, 4))):
        s = {"routes": draw(_routes), "claims": {}, "sub": draw(FLIP), "advance": draw(st.sampled_from([0, 0, 1, 1, 2, 3600, 0.5, 0.25, -1, -3600]))}
        for name in ("exp", "nbf", "iat"):
            if draw(FLIP):
                s["claims"][name] = draw(_claim)
        s["order"] = draw(st.permutations(["exp", "nbf", "iat", "sub"])) if draw(FLIP) else ["exp", "nbf", "iat", "sub"]
        sets.append(s)
    return {"now": draw(_now), "ms": draw(st.sampled_from([0, 0, 1, 250, 499, 500, 750, 999])), "tz": draw(st.sampled_from(TZS)), "sets": sets}


def strategy(tier):
    return _case()


def _value(c, now):
    if "off" in c:
        return now + c["off"]
    if "abs" in c:
        return c["abs"]
    return {"str": "soon", "strnum": str(now + 1000), "float": now + 1000.5, "true": True, "false": False, "list": [now], "dict": {"t": now},
            "empty": "", "strdate": "2030-01-01T00:00:00Z"}[c["bad"]]


def judge(claims, now, name, fn):
    why = []
    for k in ("exp", "nbf", "iat"):
        if k in claims and type(claims[k]) is not int:
            why.append(k + " type")
    if type(claims.get("exp")) is int and claims["exp"] <= now:
        why.append("exp")
    if type(claims.get("nbf")) is int and claims["nbf"] > now:
        why.append("nbf")
    if type(claims.get("iat")) is int and claims["iat"] > now:
        why.append("iat")
    got, err = attempt(fn)
    desc = f"{name} at {now}: {claims}"
    if not why:
        check(err is None, f"valid times refused ({err!r}): {desc}")
    else:
        check(err is not None, f"accepted in spite of {why}: {desc}")
        if why == ["exp"]:
            check(isinstance(err, ExpiredToken), f"expired claims refused with {err!r}: {desc}")
        if why == ["nbf"]:
            check(isinstance(err, NotYetValidToken), f"not yet valid claims refused with {err!r}: {desc}")
    return why


def run(case):
    labels, nontrivial = set(), False
    key = make({"spec": KEY})
    with env.world_time(case["now"] + case["ms"] / 1000, case["tz"]) as clock:
        for s in case["sets"]:
            now = int(clock.now)
            values = {k: _value(c, now) for k, c in s["claims"].items()}
            if s["sub"] or not values:
                values["sub"] = "user"
            claims = {k: values[k] for k in s["order"] if k in values}
            nontrivial |= any("off" in c and abs(c["off"]) <= 86400 or "bad" in c for c in s["claims"].values())
            token = ref.token({"alg": "HS256"}, json.dumps(claims).encode(), "HS256", keys.jwk(KEY)).decode()
            old, _ = attempt(lambda: JsonWebTokenClaims(dict(claims)))
            for step, route in enumerate(s["routes"]):
                if route == "reissue" and old is None:
                    continue
                fn = {"claims": lambda: JsonWebTokenClaims(dict(claims)), "id": lambda: IDToken(dict(claims)),
                      "issue": lambda: JsonWebToken(dict(claims), {"alg": "HS256"}).encode(key),
                      "decode": lambda: JsonWebToken.decode(token, key, "HS256"), "unvalidated": lambda: JsonWebToken.decode(token, key, None, False),
                      "options": lambda: JsonWebTokenClaims(dict(claims), {}), "reissue": lambda: JsonWebToken(old, {"alg": "HS256"}).encode(key)}[route]
                why = judge(claims, int(clock.now), route, fn)
                labels.add(route)
                labels.add("refused:" + why[0] if len(why) == 1 else "refused" if why else "accepted")
                clock.advance(s["advance"])
    return {"nontrivial": nontrivial, "labels": labels}
