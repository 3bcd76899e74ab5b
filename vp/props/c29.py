import json, warnings

from ..jose import *
from .c06 import _attrs

RULE = ("Cases: 1-5 keys generated with generated type, size or curve (or none) and attributes; each is judged independently (size, curve, point and RSA arithmetic), signs and verifies under every "
        "algorithm it is large enough for (checked with the independent implementation, both directions) and is dumped and reloaded; all keys of a case differ. Non-trivial: two keys or attributes.")
QUICK, THOROUGH = 1500, 60000
_kid = st.lists(st.tuples(st.sampled_from(["kid", "use", "key_ops"]), st.just(0)), max_size=3, unique_by=lambda t: t[0]).map(
    lambda l: [[k, {"kid": "k1", "use": "sig", "key_ops": ["sign", "verify"]}[k]] for k, _ in l])
_octs = gen.weighted((1, st.none()), (3, st.integers(32, 200)), (2, st.sampled_from([32, 33, 48, 63, 64, 65, 127, 128, 129, 255, 256, 512, 1024, 4096])), (1, gen.lengths(3000).filter(lambda n: n >= 32)))
_crv = st.sampled_from(sorted(ref.CURVES))
_rsas = gen.weighted((12, st.sampled_from([512, 600, 640, 768, 800, 1000, 1023, 1024, 1025])), (3, st.integers(512, 1100)), (1, st.sampled_from([None, None, 2048, 1536, 2047, 2049])))
_key = st.tuples(gen.weighted((3, st.tuples(st.just("oct"), _octs)), (4, st.tuples(st.just("EC"), _crv)), (1, st.tuples(st.just("RSA"), _rsas))), gen.weighted((1, _attrs), (1, _kid))).map(
    lambda t: {"kty": t[0][0], "opt": t[0][1], "attrs": t[1]})


def strategy(tier):
    return st.fixed_dictionaries({"keys": st.lists(_key, min_size=1, max_size=5), "msg": gen.payload_bytes(300)})


def probable_prime(n):
    return n > 3 and all(pow(a, n - 1, n) == 1 for a in (2, 3, 5, 7, 11))


def judge_material(d, kty, opt, what):
    """The dumped private key against what was asked; returns the algorithms it is fit for."""
    check(d.get("kty") == kty, f"{what}: kty is {d.get('kty')!r}")
    if kty == "oct":
        k = ref.b64d(d["k"])
        check(len(k) == (32 if opt is None else opt), f"{what}: secret of {len(k)} bytes")
        check(len(set(k)) > 8, f"{what}: secret is {k.hex()}")
        return ["HS256", "HS384", "HS512"]
    if kty == "EC":
        check(d.get("crv") == opt, f"{what}: curve is {d.get('crv')!r}")
        c = ref.CURVES[opt]
        x, y, dd = (ref.b2i(d[f]) for f in "xyd")
        check(0 < dd < c.n, f"{what}: private value out of range")
        check(keys.numbers(keys.jwk({"t": "ec", "crv": opt, "d": "%x" % dd})) == keys.numbers(d), f"{what}: public point does not belong to the private value")
        check(dd.bit_length() > 8 * c.size - 80, f"{what}: private value has only {dd.bit_length()} bits")
        return [ref.ALG_OF_CRV[opt]]
    nums = keys.numbers(d) if "d" in d else None
    check(nums is not None, f"{what}: private part missing or inconsistent: {sorted(d)}")
    want = 2048 if opt is None else opt
    p, q = nums["primes"]
    check(nums["n"].bit_length() == want, f"{what}: modulus of {nums['n'].bit_length()} bits")
    check(p * q == nums["n"] and p != q and probable_prime(p) and probable_prime(q), f"{what}: not a product of two primes")
    check(abs(p.bit_length() - q.bit_length()) <= 2 and abs(p - q).bit_length() > want // 2 - 100, f"{what}: unbalanced or close primes")
    check(nums["e"] % 2 == 1 and nums["e"] >= 3 and (nums["d"] * nums["e"]) % (p - 1) == 1 and (nums["d"] * nums["e"]) % (q - 1) == 1, f"{what}: exponents do not match")
    return [a for a in ref.ALGS if a[0] in "RP" and (want + 7) // 8 >= ref.min_bytes(a)]


def run(case):
    msg = bytes.fromhex(case["msg"])
    seen, labels = set(), set()
    for k in case["keys"]:
        kty, opt, attrs = k["kty"], k["opt"], pairs(k["attrs"])
        what = f"generate({kty!r}, {opt!r}, {attrs!r})"
        key = JsonWebKey.generate(kty, opt, **attrs) if opt is not None else JsonWebKey.generate(kty, **attrs)
        check(isinstance(key, JsonWebKey), f"{what}: returned {key!r}")
        d = key.dump(False)
        algs = judge_material(d, kty, opt, what)
        for name, v in attrs.items():
            check(name in d and gen.strict_equal(d[name], v), f"{what}: attribute {name!r} is {d.get(name)!r} in the dump")
            check(gen.strict_equal(key.data.get(name), v), f"{what}: attribute {name!r} is {key.data.get(name)!r}")
        fields = set(d) - set(attrs) - {"kty"}
        check(fields == {"oct": {"k"}, "EC": {"crv", "x", "y", "d"}, "RSA": {"n", "e", "d", "p", "q", "dp", "dq", "qi"}}[kty], f"{what}: parameters {sorted(fields)}")
        ident = d["k"] if kty == "oct" else d["d"]
        check(ident not in seen, f"{what}: the same key again")
        seen.add(ident)
        again = JsonWebKey(json.loads(json.dumps(d)))
        check(gen.strict_equal(again.dump(False), d), f"{what}: reloaded as {sorted(again.dump(False))}")
        secret = {f: v for f, v in d.items() if f not in attrs or f == "kty"}
        use = {f: v for f, v in attrs.items() if (f, str(v)) in (("use", "sig"), ("kid", "k1"), ("key_ops", "['sign', 'verify']"))}
        usable = use == attrs or not set(attrs) & {"use", "key_ops", "alg", "kid"}
        for alg in algs:
            if not usable:
                break
            hdr = {"alg": alg}
            tok, err = attempt(JsonWebSignature(msg, hdr).serialize, key)
            check(err is None, f"{what}: cannot sign with {alg}: {err!r}")
            got = ref.decode(tok.decode(), secret)
            check(got is not None and got[1] == msg, f"{what}: {alg} signature does not verify independently")
            for who, other in (("itself", key), ("its reloaded copy", again)):
                jws, err = attempt(JsonWebSignature.deserialize, tok, other, alg)
                check(err is None and jws.payload == msg, f"{what}: {alg} signature refused by {who}: {err!r}")
            theirs = ref.token(hdr, msg, alg, secret)
            jws, err = attempt(JsonWebSignature.deserialize, theirs, key, alg)
            check(err is None and jws.payload == msg, f"{what}: independent {alg} signature refused: {err!r}")
            labels.add(alg)
        labels.add(f"{kty} default" if opt is None else kty)
    return {"nontrivial": len(case["keys"]) > 1 or bool(case["keys"][0]["attrs"]), "labels": labels}
