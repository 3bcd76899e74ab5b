import base64, json

from ..jose import *
from .c06 import _attrs, _form, _how, _pw, parse

RULE = ("Cases: 1-4 keys (asymmetric private ones, possibly an oct one beside them, with attributes) and 2-10 operations on them interleaved "
        "(private dumps, exports, signings and the public views). Every public view is searched for every private number and values derived "
        "from it (only those of 64 bits or more, in base64, hex, decimal and DER form), reloaded, and the reloaded key must verify the "
        "private key's signatures and refuse to sign or to be dumped or exported as private. Non-trivial: a view judged after another operation.")
QUICK, THOROUGH = 1200, 50000
OPS = ["dump", "dump()", "export", "parsepub", "parsepriv", "keyset", "keyset()", "chain"]
_op = gen.weighted((3, st.sampled_from(OPS)), (1, st.sampled_from(["privdump", "privexport", "sign", "privkeyset", "corrupt"])))


@st.composite
def _case(draw):
    entries = []
    for i in range(draw(st.integers(1, 4))):
        spec = draw(keys.asym_specs() if i == 0 or draw(ONE_IN_4) is False else keys.oct_specs())
        attrs = [[k, v] for k, v in draw(_attrs) if k != "kid"] + [["kid", f"key{i}"]]
        entries.append({"spec": spec, "attrs": attrs, "short": draw(ONE_IN_3)})
    ops = [{"k": draw(st.integers(0, len(entries) - 1)), "op": draw(_op), "how": draw(_how), "form": draw(_form),
            "pw": draw(_pw) if draw(ONE_IN_4) else None} for _ in range(draw(st.integers(2, 10)))]
    return {"keys": entries, "ops": ops}


def strategy(tier):
    return _case()


def secrets_of(j):
    """Private and derived numbers (name, value) of at least 64 bits."""
    if j["kty"] == "EC":
        d, n = ref.b2i(j["d"]), ref.CURVES[j["crv"]].n
        vals = {"d": d, "n-d": n - d, "1/d": pow(d, -1, n)}
    else:
        v = {f: ref.b2i(j[f]) for f in ("d", "p", "q", "dp", "dq", "qi")}
        p, q = v["p"], v["q"]
        vals = dict(v, phi=(p - 1) * (q - 1), psum=p + q, pi=pow(p, -1, q), p1=p - 1, q1=q - 1)
    return {k: v for k, v in vals.items() if v.bit_length() >= 64}


def search(text, j, what):
    raw = text if isinstance(text, bytes) else json.dumps(text, sort_keys=True, default=repr).encode()
    low = raw.lower()
    blobs = []
    if raw.startswith(b"-----"):
        check(b"PRIVATE" not in raw, f"{what}: private PEM")
        blobs.append(base64.b64decode(b"".join(l for l in raw.splitlines() if not l.startswith(b"-----"))))
    for name, v in secrets_of(j).items():
        b = v.to_bytes((v.bit_length() + 7) // 8, "big")
        size = ref.CURVES[j["crv"]].size if j["kty"] == "EC" else len(b)
        wide = v.to_bytes(max(size, len(b)), "big")
        forms = [ref.b64e(b).encode(), ref.b64e(wide).encode(), base64.b64encode(b).rstrip(b"="), base64.b64encode(wide).rstrip(b"="), str(v).encode()]
        for f in forms:
            check(f not in raw, f"{what} contains the private value {name}")
        check(b.hex().encode() not in low, f"{what} contains the private value {name} in hexadecimal")
        for blob in blobs:
            check(b not in blob, f"{what} contains the private value {name}")


def refuses(fn, *args, **kw):
    try:
        value = fn(*args, **kw)
    except Exception:
        return True
    return value is None


def public_only(key, entry, j, signed, what):
    """`key`, built from a public view, verifies and can do nothing private."""
    search(dict(key.data), j, what + " (reloaded)")
    alg, msg, sig = signed
    h = "SHA" + (alg or "RS256")[2:]
    kw = {} if j["kty"] == "EC" else {"rsa_padding": "PSS" if alg and alg[0] == "P" else "PKCS1v15"}
    if alg:
        _, err = attempt(key.verify, sig, msg, h, **kw)
        check(err is None, f"{what}: the public view does not verify a {alg} signature: {err!r}")
    check(refuses(key.sign, msg, h, **kw), f"{what}: the public view can sign")
    check(refuses(key.dump, False), f"{what}: the public view can be dumped as private")
    check(refuses(key.export, False), f"{what}: the public view can be exported as private")
    check(refuses(key.export), f"{what}: the public view can be exported as private")
    if alg:
        check(refuses(JsonWebSignature(b"x", {"alg": alg}).serialize, key), f"{what}: the public view can sign a token")


def judge_dump(d, entry, j, what):
    attrs = pairs(entry["attrs"])
    want = set(keys.PUBLIC_FIELDS[j["kty"]]) | {"kty"} | set(attrs)
    check(set(d) == want, f"{what} has {sorted(d)} instead of {sorted(want)}")
    search({k: v for k, v in d.items() if k not in attrs}, j, what)
    check(keys.numbers({k: v for k, v in d.items() if k not in attrs}) == keys.numbers(keys.public(j)), f"{what} describes another key")
    check(all(gen.strict_equal(d[k], v) for k, v in attrs.items()), f"{what}: attributes changed")


def run(case):
    from .c06 import partial
    labels, judged = set(), 0
    entries = case["keys"]
    built, jwks, signed = [], [], []
    for e in entries:
        j = keys.jwk(e["spec"])
        given = partial(j, "ned") if e["short"] else dict(j)
        built.append(JsonWebKey(dict(given, **pairs(e["attrs"]))))
        jwks.append(j)
        algs = keys.fit_algs(e["spec"])
        alg = algs[len(e["attrs"]) % len(algs)] if algs and j["kty"] != "oct" else None
        msg = b"view"
        signed.append((alg, msg, ref.sign(alg, msg, j) if alg else None))
    keyset = JsonWebKeySet(built)
    for n, op in enumerate(case["ops"]):
        i, kind = op["k"], op["op"]
        key, e, j = built[i], entries[i], jwks[i]
        what = f"op {n} {kind} of {j['kty']}"
        if kind in ("keyset", "keyset()"):
            d = keyset.dump() if kind == "keyset()" else keyset.dump(True)
            check(set(d) == {"keys"} and len(d["keys"]) == len(entries), f"{what}: wrong shape")
            for k, item in enumerate(d["keys"]):
                if jwks[k]["kty"] != "oct":
                    judge_dump(item, entries[k], jwks[k], what)
                    judged += 1
            again = JsonWebKeySet.load(json.loads(json.dumps(d)))
            if j["kty"] != "oct":
                public_only(again.get_key(pairs(e["attrs"])["kid"]), e, j, signed[i], what)
            labels.add(kind)
            continue
        if kind == "privkeyset":
            keyset.dump(False)
            continue
        if j["kty"] == "oct":
            continue
        if kind in ("dump", "dump()"):
            d = key.dump() if kind == "dump()" else key.dump(True)
            judge_dump(d, e, j, what)
            public_only(JsonWebKey(d), e, j, signed[i], what)
        elif kind == "export":
            pem = key.export(True)
            search(pem, j, what)
            public_only(JsonWebKey.parse(pem, j["kty"], True), e, j, signed[i], what)
        elif kind in ("parsepub", "parsepriv"):
            pw = bytes.fromhex(op["pw"]) if op["pw"] and kind == "parsepriv" else None
            pem = keys.pem(e["spec"], "spki" if kind == "parsepub" else op["form"], pw)
            got = parse(pem, op["how"], j["kty"], True, pairs(e["attrs"]), **({"password": pw} if pw else {}))
            judge_dump(got.dump(), e, j, what)
            public_only(got, e, j, signed[i], what)
        elif kind == "chain":
            a = JsonWebKey(key.dump(True))
            b = JsonWebKey.parse(a.export(True), j["kty"], True, **pairs(e["attrs"]))
            judge_dump(b.dump(True), e, j, what)
            public_only(b, e, j, signed[i], what)
        else:
            if kind == "privdump":
                check(keys.numbers(key.dump(False)) == keys.numbers(j), f"{what}: private dump is wrong")
            elif kind == "privexport":
                key.export()
            elif kind == "corrupt":  # what the caller does with a dump does not come back
                key.dump(False).clear()
                key.dump(True).update(d="x")
            continue
        judged += 1
        labels.add(kind)
    return {"nontrivial": judged > 1, "labels": labels}
