from cryptography.hazmat.primitives import serialization

from ..jose import *

RULE = ("Cases: 1-3 keys with generated restrictions (alg, use, key_ops, kid), 1-8 operations: sign, or verify a token whose signature "
        "was made independently (correct for the algorithm, an HMAC keyed by public key bytes, empty, or junk for none), with or without "
        "an expected algorithm. Oracle: truth table. Non-trivial: both an allowed and a refused operation, or one refused for exactly one reason.")
QUICK, THOROUGH = 2400, 100000
ALL = ref.ALGS + ["none"]
USES = ["sig", "sig", "enc", "signature", "SIG", "Sig"]
OPS = [["sign"], ["verify"], ["sign", "verify"], ["verify", "sign"], ["encrypt"], ["deriveBits"], ["sign", "encrypt"], ["verify", "decrypt"],
       ["wrapKey", "sign", "verify"], ["sign", "verify", "unwrapKey"]]
_alg = st.sampled_from(ALL)
_kalg = st.sampled_from(ALL + ["RSA-OAEP", "hs256", "ES256K"])
_use, _kops = st.sampled_from(USES), st.sampled_from(OPS)
_kid = st.one_of(st.sampled_from(["a", "A", "b", "a ", "ab"]), gen.text(1, 6))


def _near(s):
    return st.sampled_from([x for x in (s + "x", s[:-1], s.swapcase(), s + " ", " " + s, s + s, s[1:], s.upper(), s + "\0", s + ".", s + "-1") if x])


@st.composite
def _case(draw):
    entries = []
    for _ in range(draw(st.integers(1, 3))):
        alg = draw(_alg)
        spec = draw(keys.specs() if alg == "none" else keys.spec_for(alg))
        attrs = []
        if draw(FLIP):
            attrs.append(["kid", draw(_kid)])
        if draw(ONE_IN_3):
            attrs.append(["alg", draw(_kalg) if draw(FLIP) else alg])
        if draw(ONE_IN_3):
            attrs.append(["use", draw(_use)])
        if draw(ONE_IN_3):
            attrs.append(["key_ops", draw(_kops)])
        entries.append({"spec": spec, "attrs": attrs, "algo": alg})
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, len(entries) - 1))
        natural = entries[k]["algo"]
        alg = natural if draw(st.integers(0, 3)) else draw(_alg)
        own = pairs(entries[k]["attrs"]).get("kid")
        kid = draw(st.sampled_from([None, None, own, own, "a", "zz"])) if draw(st.integers(0, 2)) else draw(_near(own or "a"))
        ops.append({"k": k, "op": draw(st.sampled_from(["sign", "verify", "verify", "verify"])), "alg": alg, "kid": kid,
                    "public": draw(FLIP), "expected": draw(st.one_of(st.none(), st.just(alg), st.just(natural), _alg, _near(alg))),
                    "sig": draw(st.sampled_from(["good", "good", "good", "empty", "pem", "raw"])), "payload": draw(gen.payload_bytes(60))})
    return {"keys": entries, "ops": ops}


def strategy(tier):
    return _case()


def fits(alg, spec):
    return alg == "none" or alg in keys.fit_algs(spec)


def reasons(entry, op):
    a, out = pairs(entry["attrs"]), []
    if not fits(op["alg"], entry["spec"]):
        out.append("type")
    if a.get("alg") and a["alg"] != op["alg"]:
        out.append("alg")
    if op["kid"] is not None and a.get("kid") != op["kid"]:
        out.append("kid")
    if a.get("use") and a["use"] != "sig":
        out.append("use")
    if a.get("key_ops") and any(o not in ("sign", "verify") for o in a["key_ops"]):
        out.append("key_ops")
    if op["op"] == "sign":
        if op["public"] and entry["spec"]["t"] != "oct" and op["alg"] != "none":
            out.append("public")
    elif op["expected"] is not None and op["expected"] != op["alg"]:
        out.append("expected")
    return out


def run(case):
    entries = case["keys"]
    labels = set()
    built = {}
    for op in case["ops"]:
        entry = entries[op["k"]]
        ident = (op["k"], op["public"])
        key = built.setdefault(ident, make(entry, op["public"]))
        spec, alg, payload = entry["spec"], op["alg"], bytes.fromhex(op["payload"])
        header = {"alg": alg}
        if op["kid"] is not None:
            header["kid"] = op["kid"]
        why = reasons(entry, op)
        small = spec["t"] == "rsa" and alg[0] in "RP" and not fits(alg, spec)
        if small:  # an RSA key too small for the hash: outside the property
            continue
        if op["op"] == "sign":
            value, err = attempt(lambda: JsonWebSignature(payload, header).serialize(key))
            if not why and err is None and alg != "none" and alg[0] != "E":
                h, p, s = value.split(b".")
                check(ref.verify(alg, h + b"." + p, material(entry), ref.b64d(s)), f"{alg}: signature is wrong")
        else:
            j = material(entry)
            msg = (ref.b64e(__import__("json").dumps(header).encode()) + "." + ref.b64e(payload)).encode()
            if alg == "none":
                sig = {"good": b"", "empty": b"", "pem": b"\0", "raw": b"sig"}[op["sig"]]
                if sig:
                    why.append("none-signature")
            elif fits(alg, spec) and op["sig"] not in ("empty",):
                sig = ref.sign(alg, msg, j)
            elif alg.startswith("HS") and spec["t"] != "oct":
                pub = keys.crypto_private(spec).public_key()
                secret = pub.public_bytes(serialization.Encoding.PEM, serialization.PublicFormat.SubjectPublicKeyInfo)
                if op["sig"] == "raw":
                    secret = ref.b64d(j.get("n") or j["x"])
                elif op["sig"] == "empty":
                    secret = b""
                sig = ref.sign(alg, msg, {"k": ref.b64e(secret)})
            elif alg.startswith("ES") and spec["t"] == "ec":  # right signature, wrong curve
                sig = ref.sign(alg, msg, j)
            elif spec["t"] == "oct" and not fits(alg, spec):
                sig = ref.sign("HS" + alg[2:], msg, j)
            else:
                sig = b""
                why.append("signature")
            value, err = attempt(JsonWebSignature.deserialize, msg + b"." + ref.b64e(sig).encode(), key, op["expected"])
            if err is None and not why:
                check(value.payload == payload, "payload changed")
            if "expected" in why:
                _, off = attempt(JsonWebSignature.deserialize, msg + b"." + ref.b64e(sig).encode(), key, op["expected"], False)
                check(off is not None, f"parsed without checking the signature although {op['expected']!r} was expected and the token says {alg}")
        desc = f"{op['op']} {alg} expected={op['expected']} header kid={op['kid']!r} key={spec['t']} {spec.get('crv', '')} {entry['attrs']} public={op['public']}"
        if why:
            check(err is not None, f"went through although restricted by {why}: {desc}")
        else:
            check(err is None, f"refused ({err!r}) although nothing restricts it: {desc}")
        labels.add("allowed" if not why else "refused" if len(why) > 1 else "refused:" + why[0])
    return {"nontrivial": len(labels) > 1 or any(":" in l for l in labels), "labels": labels}
