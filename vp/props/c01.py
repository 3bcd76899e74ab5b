import json, re

from ..jose import *

RULE = ("Cases: 1-6 signings (algorithm, fit key, header, payload; keys and algorithms repeat and interleave), every token "
        "created just before signing or all up front and signed in a generated order, "
        "some twice by one object, verified 1-2 times in a generated order with the private key, a rebuilt key or only the public half, naming the "
        "algorithm or not. Non-trivial: a non-empty payload and (two or more tokens or a header parameter beyond alg).")
QUICK, THOROUGH = 3600, 120000
SEGMENT = re.compile(rb"[A-Za-z0-9_-]*\Z")


@gen.cached
def _specs(algs):
    return st.fixed_dictionaries({a: keys.spec_for(a) for a in algs if a != "none"})


def _spec(algs):
    return _specs(tuple(sorted(set(algs))))


@st.composite
def _ops(draw, tier):
    n = draw(st.integers(1, 3))
    algs = [draw(st.sampled_from(ref.ALGS + ["none"])) for _ in range(n)]
    entries = [dict(draw(key_entries(a)), algo=a) for a in algs]
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, n - 1))
        kid = pairs(entries[k]["attrs"]).get("kid")
        ops.append({"k": k, "hdr": draw(headers(algs[k], kid)), "payload": draw(gen.payload_bytes(70000 if tier != "quick" else 9000)),
                    "wrap": draw(st.booleans())})
    order = draw(st.lists(st.tuples(st.integers(0, len(ops) - 1), st.sampled_from(["same", "rebuilt", "public"]), st.booleans()),
                          max_size=8))
    return {"keys": entries, "ops": ops, "order": [list(o) for o in order],
            "again": [[draw(st.integers(0, len(ops) - 1)), draw(_spec(algs))] for _ in range(draw(st.integers(0, 2)))], "upfront": draw(st.booleans()), "sequence": draw(st.permutations(range(len(ops))))}


def strategy(tier):
    return _ops(tier)


def run(case):
    entries = case["keys"]
    built = [make(e) for e in entries]
    tokens = {}
    labels = set()
    upfront = case.get("upfront", False)

    def create(op):
        header, payload = pairs(op["hdr"]), bytes.fromhex(op["payload"])
        return JsonWebSignature(payload, JsonWebSignatureHeader(header) if op["wrap"] else header)

    def verify(i, how, named):
        op, entry = case["ops"][i], entries[case["ops"][i]["k"]]
        header, payload, alg = pairs(op["hdr"]), bytes.fromhex(op["payload"]), entry["algo"]
        key = built[op["k"]] if how == "same" else make(entry, how == "public")
        jws, err = attempt(JsonWebSignature.deserialize, tokens[i], key, alg if named else None)
        check(err is None, f"{alg} token #{i} by its own key ({how}) refused: {err!r}")
        check(jws.payload == payload, f"{alg} payload changed: {payload[:60]!r} -> {jws.payload[:60]!r}")
        check(gen.strict_equal(dict(jws.header), header), f"{alg} header changed: {header!r} -> {dict(jws.header)!r}")

    objs = [create(op) for op in case["ops"]] if upfront else None
    sequence = list(case.get("sequence", range(len(case["ops"]))))
    for i in sequence + ([sequence[0]] if upfront else []):  # the first object once more, after all the others
        op = case["ops"][i]
        entry = entries[op["k"]]
        header, payload = pairs(op["hdr"]), bytes.fromhex(op["payload"])
        obj = objs[i] if upfront else create(op)
        tok, err = attempt(obj.serialize, built[op["k"]])
        check(err is None, f"{entry['algo']}: signing with a fit key refused: {err!r}")
        check(type(tok) is bytes and tok.count(b".") == 2, f"not a compact token: {tok[:80]!r}")
        segs = tok.split(b".")
        check(all(SEGMENT.match(s) for s in segs), f"segment is not unpadded base64url: {tok[:200]!r}")
        try:
            h, p = json.loads(ref.b64d(segs[0]).decode("utf-8")), ref.b64d(segs[1])
        except ValueError as exc:
            raise Violation(f"segments do not decode: {exc}")
        check(gen.strict_equal(h, header), f"token header {h!r} is not {header!r}")
        check(p == payload, "token payload segment is not the payload")
        check((segs[2] == b"") == (entry["algo"] == "none"), "signature segment empty or present wrongly")
        tokens[i] = tok
        labels.add(entry["algo"])
        verify(i, "public" if entry["spec"]["t"] != "oct" and i % 2 else "same", i % 3 == 0)
    for i, specs in case.get("again", []):   # the same object signed once more with another key
        op = case["ops"][i]
        header, alg = pairs(op["hdr"]), entries[op["k"]]["algo"]
        if not upfront or alg not in specs:
            continue
        key = make({"spec": specs[alg], "attrs": [["kid", header["kid"]]] if "kid" in header else []})
        tok, err = attempt(objs[i].serialize, key)
        check(err is None, f"{alg}: signing once more with another key refused: {err!r}")
        jws, err = attempt(JsonWebSignature.deserialize, tok, key)
        check(err is None and jws.payload == bytes.fromhex(op["payload"]) and gen.strict_equal(dict(jws.header), header), f"{alg}: the token of an object signed with a second key does not verify with that key: {err!r}")
        labels.add("two keys")
    for i, how, named in case["order"]:
        verify(i, how, named)
    nontrivial = any(op["payload"] for op in case["ops"]) and (len(tokens) > 1 or len(case["ops"][0]["hdr"]) > 1)
    return {"nontrivial": nontrivial, "labels": labels}
