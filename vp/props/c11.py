import json

from psion.oidc.claims import IDToken

from .. import env
from ..jose import *

RULE = ("Cases: 1-4 claim sets with generated requirements (essential, value, values; several claims in any order) and claim types, judged by "
        "an independent predicate for building claims, ID-token claims and decoding; also ill-shaped claim objects. Non-trivial: a requirement "
        "on a claim, or an ill-typed claim, was judged.")
QUICK, THOROUGH = 7200, 300000
KEY = {"t": "oct", "k": "22" * 32}
NAMES = ["iss", "aud", "sub", "jti", "role", "nonce", "acr", "groups", "Iss", "azp"]
_name = gen.weighted((8, st.sampled_from(NAMES)), (1, gen.text(1, 6).filter(lambda n: n not in ("exp", "nbf", "iat", "auth_time", "max_age"))))
_tname = st.sampled_from(["exp", "nbf", "iat", "auth_time", "max_age"])
_scalar = gen.weighted((6, st.sampled_from(["a", "b", "A", "a ", "ab", "", "https://a", "c"])), (1, gen.text(0, 6)))
_vals = gen.weighted((6, _scalar), (2, st.lists(_scalar, max_size=3)), (1, st.sampled_from([2, 3, 77, -5])), (1, st.sampled_from([{"x": "a"}, {}, [["a"]], [2, 3]])))
_badtyped = st.sampled_from([2, 0, -1, True, False, [], ["a", 2], [None], {}, {"a": "b"}, [["a"]], 1.5, [""], [True]])


@st.composite
def _option(draw):
    o = {}
    if draw(FLIP):
        o["essential"] = draw(FLIP)
    if draw(ONE_IN_3):
        o["value"] = draw(gen.weighted((8, _vals), (1, st.none()), (1, st.sampled_from([0, "", []]))))
    if draw(ONE_IN_3):
        o["values"] = draw(st.lists(_vals, min_size=1, max_size=3)) if draw(st.integers(0, 7)) else draw(st.sampled_from(["abc", "a", {"a": "b"}, 77, 2.5, True]))
    return o


def _like(v, a):
    """A value that a lenient comparison might take for v."""
    if v is None:
        return ["None", "null", "", 0, "none", [], {}][a % 7]
    t = v if isinstance(v, str) else str(v)
    opts = [t, [v], json.dumps(v), {"value": v}, t.swapcase(), t + " ", " " + t, t.strip(), t[:-1], t + "x", [t], list(t), sorted(v, key=str)[::-1] if isinstance(v, list) else [v, v],
            v[0] if isinstance(v, list) and v else "x", int(t) if t.isascii() and t.isdigit() else -1, " ".join(map(str, v)) if isinstance(v, list) else "y", t.replace("://", ":"), t + "/", "*"]
    return opts[a % len(opts)]


@st.composite
def _set(draw):
    if draw(st.integers(0, 19)) == 0:
        return {"shape": draw(st.sampled_from([{}, [], None, "", "x", 5, 0, [["a", "b"]], True]))}
    claims = draw(st.dictionaries(_name, _vals, max_size=5))
    for std in ("iss", "sub", "jti", "aud"):
        if std in claims and not isinstance(claims[std], str) and draw(st.integers(0, 3)):
            claims[std] = draw(_scalar)
        elif std not in claims and draw(st.integers(0, 19)) == 0:
            claims[std] = draw(_badtyped)
    if draw(ONE_IN_4):
        if draw(ONE_IN_3):
            claims["max_age"] = draw(st.sampled_from([1, 300, 10 ** 6]))
        if "max_age" not in claims or draw(FLIP):
            claims["auth_time"] = draw(st.sampled_from([1, 10 ** 9, 1700000000, "x", "1", 1.5])) if "max_age" in claims else draw(st.sampled_from([0, 1, 10 ** 9, 2 ** 33, "x", "1", 1.5, True, False, [], {}]))
    if draw(st.integers(0, 9)) == 0:
        claims[draw(_name)] = None
    timed = draw(ONE_IN_3)
    if timed:   # valid times, which may be required like any other claim
        for n, v in (("exp", 1700000100), ("nbf", 1699999900), ("iat", 1700000000)):
            if draw(FLIP):
                claims[n] = v
    claims = claims or {"role": "a"}
    opts = []
    if draw(st.integers(0, 4)):
        # a requirement derived from the claims as well as free ones, so that many are met
        for _ in range(draw(st.integers(0, 4))):
            name = draw(st.sampled_from(sorted(claims))) if draw(FLIP) else draw(_tname) if timed else draw(_name)
            o = draw(_option())
            v = claims.get(name)
            if isinstance(v, (bool, float)):   # whether true equals 1 is left open
                o = {k: x for k, x in o.items() if k == "essential"}
            if v is not None and name != "auth_time" and not isinstance(v, (bool, float)):
                if "value" in o and draw(FLIP):
                    o["value"] = v
                if isinstance(o.get("values"), list) and draw(FLIP):
                    item = v[-1] if isinstance(v, list) and v and draw(FLIP) else v
                    o["values"] = o["values"] + [item] if draw(FLIP) else [item] + o["values"]
            like = draw(st.integers(0, 11))
            if like < 3 and not isinstance(v, (bool, float)):
                o = {**o, **({"value": _like(v, like * 3 + draw(st.integers(0, 8)))} if draw(FLIP) else {"values": [_like(v, draw(st.integers(0, 20)))]})}
            if name not in [n for n, _ in opts]:
                opts.append([name, o])
        if draw(ONE_IN_4):
            opts.append(["other", draw(st.sampled_from(["x", None, ["a"], 5]))])
        opts = draw(st.permutations(opts))
    else:
        opts = None
    return {"claims": [[k, v] for k, v in claims.items()], "opts": opts, "routes": draw(st.lists(st.sampled_from(["claims", "id", "decode", "jwt", "unvalidated"]), min_size=1, max_size=2)),
            "nonce": draw(st.one_of(st.none(), _scalar))}


def strategy(tier):
    return st.lists(_set(), min_size=1, max_size=4)


def typed(claims):
    out = []
    aud = claims.get("aud")
    if aud is not None and not isinstance(aud, str) and not (isinstance(aud, list) and all(isinstance(a, str) for a in aud)):
        out.append("aud type")
    for n in ("iss", "sub", "jti"):
        if claims.get(n) is not None and not isinstance(claims[n], str):
            out.append(n + " type")
    return out


def _eq(a, b):
    return gen.strict_equal(a, b)


def met(claims, opts):
    out = []
    for name, o in opts:
        if not isinstance(o, dict):
            continue
        v = claims.get(name)
        if o.get("essential") and v is None:
            out.append(f"{name} essential")
        if o.get("value") is not None and not _eq(v, o["value"]):
            out.append(f"{name} value")
        if o.get("values"):
            ok = isinstance(o["values"], list) and (any(_eq(v, w) for w in o["values"]) or isinstance(v, list) and any(_eq(i, w) for i in v for w in o["values"]))
            if not ok:
                out.append(f"{name} values")
    return out


def run(case):
    labels, nontrivial = set(), False
    key = make({"spec": KEY})
    j = keys.jwk(KEY)
    with env.world_time(1700000000.25):
        for s in case:
            if "shape" in s:
                got, err = attempt(JsonWebTokenClaims, s["shape"])
                check(err is not None, f"claims built from {s['shape']!r}")
                token = ref.token({"alg": "HS256"}, json.dumps(s["shape"]).encode(), "HS256", j)
                got, err = attempt(JsonWebToken.decode, token, key)
                check(err is not None, f"token decoded with claims {s['shape']!r}")
                labels.add("shape")
                nontrivial = True
                continue
            claims = pairs(s["claims"])
            for route in s["routes"]:
                opts = s["opts"]
                why = typed(claims)
                if route == "id":
                    if opts is not None:
                        opts = [[n, o] for n, o in opts if n != "nonce"]
                        if s["nonce"]:
                            opts = opts + [["nonce", s["nonce"]]]
                            if not _eq(claims.get("nonce"), s["nonce"]):
                                why.append("nonce")
                    if claims.get("max_age") and claims.get("auth_time") is None:
                        why.append("max_age without auth_time")
                    if claims.get("auth_time") is not None and type(claims["auth_time"]) is not int:
                        why.append("auth_time type")
                if route in ("claims", "id", "decode") and opts is not None:
                    why += met(claims, opts)
                o = None if opts is None else pairs(opts)
                if all(v is None for v in claims.values()) and route in ("decode", "unvalidated", "jwt"):
                    continue
                token = ref.token({"alg": "HS256"}, json.dumps(claims).encode(), "HS256", j)
                fn = {"claims": lambda: JsonWebTokenClaims(dict(claims), o), "id": lambda: IDToken(dict(claims), o),
                      "decode": lambda: JsonWebToken.decode(token, key, options=o) if len(claims) % 2 else JsonWebToken.decode(token, key, None, True, o),
                      "unvalidated": lambda: JsonWebToken.decode(token, key, "HS256", False),
                      "jwt": lambda: JsonWebToken(dict(claims), {"alg": "HS256"})}[route]
                got, err = attempt(fn)
                desc = f"{route}: claims {claims} requirements {opts}"
                if why:
                    check(err is not None, f"accepted in spite of {why}: {desc}")
                else:
                    check(err is None, f"refused ({err!r}) although all is met: {desc}")
                labels.update({route, "refused:" + why[0].split()[-1] if len(why) == 1 else "refused" if why else "accepted" + (":opts" if opts else "")})
                nontrivial |= bool(opts) or bool(why)
    return {"nontrivial": nontrivial, "labels": labels}
