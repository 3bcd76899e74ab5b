import json

from .. import env
from ..jose import *

RULE = ("Cases: 1-3 claim sets (any JSON nesting, numbers and Unicode text; registered claims valid at the current time), key, algorithm and header; "
        "encode, decode as text and bytes, with and without validation, then 0-4 tamperings of the claims or the signature without the key, and "
        "foreign keys. Non-trivial: two or more claims, or a tampering judged.")
QUICK, THOROUGH = 2700, 90000
NOW = 1700000000
_names = gen.text(1, 12).filter(lambda n: n not in ("exp", "nbf", "iat", "aud", "iss", "sub", "jti"))
_values = gen.json_values(8)
_alg = st.sampled_from(ref.ALGS + ["HS256", "HS256", "ES256", "none"])


_big = st.tuples(st.sampled_from(["lists", "objects", "wide", "claims", "text", "text", "pairs", "number"]), gen.lengths(3000), st.sampled_from(["[", "[", "{", "{", "}", "]", ",", "a", "é", "\"", "\\", ".", "🔑", " "]))


def big(kind, n, c):
    """Claims too large to be listed in the case: deeply nested, wide or long."""
    if kind == "claims":
        return {"c%d" % i: i for i in range(n)}
    v = {"text": c * n, "wide": [c] * n, "pairs": [[c, {}]] * n, "number": 10 ** min(n, 2000)}.get(kind)
    if kind in ("lists", "objects"):
        v = c
        for _ in range(min(n, 90)):
            v = [v] if kind == "lists" else {c: v}
    return {"big": v}


@st.composite
def _case(draw):
    out = []
    for _ in range(draw(st.integers(1, 3))):
        alg = draw(_alg)
        entry = draw(key_entries(alg))
        claims = draw(st.dictionaries(_names, _values, max_size=4))
        if draw(FLIP):
            claims["exp"] = NOW + draw(st.integers(1, 10 ** 6))
        if draw(ONE_IN_4):
            claims["iat"] = NOW - draw(st.integers(0, 10 ** 6))
        if draw(ONE_IN_4):
            claims["nbf"] = NOW - draw(st.integers(0, 10 ** 6))
        for n in ("iss", "sub", "jti"):
            if draw(ONE_IN_4):
                claims[n] = draw(gen.text(0, 10))
        if draw(ONE_IN_4):
            claims["aud"] = draw(st.one_of(gen.text(0, 10), st.lists(gen.text(0, 6), max_size=3)))
        if not any(v is not None for v in claims.values()):
            claims["sub"] = "u"
        big = draw(_big) if draw(st.integers(0, 4)) == 0 else None
        kid = pairs(entry["attrs"]).get("kid")
        tam = draw(st.lists(st.tuples(st.sampled_from(["set", "add", "del", "dup", "reorder", "dropsig", "none", "trunc", "foreign", "space", "alg"]),
                                      st.integers(0, 50), _values).map(list), max_size=4))
        out.append({"alg": alg, "key": entry, "hdr": draw(headers(alg, kid)), "claims": [[k, v] for k, v in claims.items()], "tamper": tam, "big": big, "named": draw(FLIP),
                    "pub": draw(FLIP)})
    return out


def strategy(tier):
    return _case()


def tampered(tok, claims, t, header):
    h, p, s = tok.split(".")
    kind, n, value = t
    names = list(claims)
    new = dict(claims)
    if kind == "set":
        new[names[n % len(names)]] = value
    elif kind == "add":
        new["admin"] = value
    elif kind == "del":
        new.pop(names[n % len(names)])
    elif kind == "reorder":
        new = {k: claims[k] for k in reversed(names)}
    elif kind == "space":
        return ".".join([h, ref.b64e(json.dumps(claims, indent=1).encode()), s])
    elif kind == "dup":
        text = json.dumps(claims, ensure_ascii=False)
        return ".".join([h, ref.b64e((text[:-1] + ', "sub": "admin"}').encode()), s])
    elif kind == "dropsig":
        return ".".join([h, p, ""])
    elif kind == "trunc":
        return ".".join([h, p, s[: len(s) // 2]])
    elif kind == "none":
        return ".".join([ref.b64e(b'{"alg":"none"}'), p, s])
    elif kind == "alg":
        return ".".join([ref.b64e(json.dumps(dict(header, alg=ref.ALGS[n % len(ref.ALGS)])).encode()), p, s])
    return ".".join([h, ref.b64e(json.dumps(new, ensure_ascii=False).encode()), s])


def run(case):
    labels, nontrivial = set(), False
    with env.world_time(NOW + 0.5):
        issued = []
        for item in case:
            entry, alg = item["key"], item["alg"]
            claims, header = pairs(item["claims"]), pairs(item["hdr"])
            if item.get("big"):
                claims.update(big(*item["big"]))
                labels.add("large: " + item["big"][0])
            want = {k: v for k, v in claims.items() if v is not None}
            jwt = JsonWebToken(json.loads(json.dumps(claims)), header)
            tok = jwt.encode(make(entry))
            check(isinstance(tok, str), f"encode returned {type(tok)}")
            dec = ref.decode(tok, keys.public(keys.jwk(entry["spec"])) if alg != "none" else None)
            check(dec is not None, f"{alg}: issued token is not validly signed")
            check(gen.strict_equal(json.loads(dec[1]), want), f"token carries {json.loads(dec[1])!r} instead of {want!r}")
            issued.append((item, tok, want, header))
            nontrivial |= len(claims) > 1
        for item, tok, want, header in issued:
            entry, alg = item["key"], item["alg"]
            expected = alg if item["named"] else None
            key = make(entry, item["pub"])
            for form in (tok, tok.encode()):
                for validate in (True, False, None):  # None: as it is by default
                    got, err = attempt(JsonWebToken.decode, form, key, expected, *(() if validate is None else (validate,)))
                    check(err is None, f"{alg}: own token refused (validate={validate}): {err!r}")
                    check(gen.strict_equal(dict(got.claims), want), f"claims changed (validate={validate}): {want!r} -> {dict(got.claims)!r}")
                    check(gen.strict_equal(dict(got.header), header), f"header changed (validate={validate}): {header!r} -> {dict(got.header)!r}")
            if alg == "none":
                continue
            for t in item["tamper"]:
                if t[0] == "foreign":
                    other = dict(keys.RSA and entry["spec"])
                    if other["t"] == "oct":
                        other["k"] = (bytes.fromhex(other["k"]) + b"\x01").hex()
                    elif other["t"] == "rsa":
                        other["i"] = (other["i"] + 1 + t[1] % 14) % len(keys.RSA)
                    else:
                        other["d"] = hex(int(other["d"], 16) % 1000 + 1000)[2:]
                    if keys.jwk(other) == keys.jwk(entry["spec"]):
                        continue
                    new, k = tok, make({"spec": other, "attrs": entry["attrs"]})
                else:
                    new, k = tampered(tok, want, t, header), key
                    if new == tok or ref.b64d(new.split(".")[1]) == ref.b64d(tok.split(".")[1]) and new.split(".")[::2] == tok.split(".")[::2]:
                        continue
                for args in ((expected, True), (expected,)) + (() if expected else ((),)):
                    got, err = attempt(JsonWebToken.decode, new, k, *args)
                    check(err is not None, f"{alg}: tampered token ({t}) decoded to {got and dict(got.claims)!r}")
                labels.add("tamper:" + t[0])
                nontrivial = True
            labels.add(alg)
    return {"nontrivial": nontrivial, "labels": labels}
