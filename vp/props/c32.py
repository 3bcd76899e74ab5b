import base64, copy, hashlib, json

from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import serialization

from .. import env
from ..jose import *

RULE = ("Cases: a pool of shared key objects, header, claim and option dicts and a key set, used by 6-16 generated operations (sign, verify genuine, tampered or foreign tokens, encode, decode with "
        "options, dump, export, look up, change what was handed out or, at any depth, what had been passed in); each outcome is judged by the reference implementation and, after each, every object passed in and "
        "every key is compared with its description. Non-trivial: four or more operations used one key.")
QUICK, THOROUGH = 2400, 150000
NOW = 1_700_000_000


@st.composite
def _key(draw, i):
    alg = draw(st.sampled_from(ref.ALGS + ["HS256", "ES256", "RS256"]))
    attrs = [["kid", "k%d" % i]] + [[k, v] for k, v in draw(key_attrs(alg)) if k != "kid"]
    if draw(ONE_IN_4):
        attrs.append(["x5c", ["MII", "abc"]])
    return {"spec": draw(keys.spec_for(alg)), "attrs": attrs, "algo": alg, "public": draw(ONE_IN_4) and not alg.startswith("HS")}


@st.composite
def _loose(draw, entries):
    """A key outside the set that resembles one in it: same type, attributes and ID (or no ID), other material."""
    e = entries[draw(st.integers(0, len(entries) - 1))]
    spec = draw(keys.spec_for(e["algo"]))
    kid = draw(st.sampled_from(["same", "same", "none", "other"]))
    attrs = [a for a in e["attrs"] if a[0] != "kid"] + ([] if kid == "none" else [["kid", "other"]] if kid == "other" else [a for a in e["attrs"] if a[0] == "kid"])
    return {"spec": spec, "attrs": attrs, "algo": e["algo"], "public": draw(ONE_IN_4) and spec["t"] != "oct"}


_payload = gen.weighted((1, st.just("")), (3, st.binary(max_size=60).map(lambda b: b.hex())))
_claims = st.fixed_dictionaries({"sub": st.sampled_from(["a", "b"]), "aud": st.sampled_from(["x", ["x", "y"], ["y"]]), "role": gen.json_values(5).filter(lambda v: v is not None)},
                                optional={"exp": st.sampled_from([NOW - 5, NOW + 5, NOW + 100]), "nested": st.just({"list": [1, 2, {"a": "b"}]})})
_opts = st.fixed_dictionaries({}, optional={"sub": st.sampled_from([{"essential": True}, {"value": "a"}, {"values": ["a", "c"]}]), "aud": st.sampled_from([{"values": ["x"]}, {"values": ["y", "z"], "essential": True}]),
                                            "iss": st.sampled_from([{"essential": False}, {}, {"essential": True}])})
_i = st.integers(0, 5)
_typ = st.sampled_from(["JWT", "JWT", "JOSE", "at+jwt", "JOSE+JSON", "jwt", "x"] + gen.NEW_S[:40])
_op = gen.weighted(
    (4, st.fixed_dictionaries({"o": st.just("sign"), "k": _i, "h": _i, "p": _payload, "wrap": FLIP, "twice": FLIP, "deep": ONE_IN_3})),
    (6, st.fixed_dictionaries({"o": st.just("verify"), "t": _i, "k": gen.weighted((4, st.just(None)), (1, _i)), "named": FLIP, "bad": gen.weighted((2, st.just(0)), (2, st.integers(1, 7)))})),
    (3, st.fixed_dictionaries({"o": st.just("encode"), "k": _i, "c": _i, "h": _i, "deep": ONE_IN_3})),
    (6, st.fixed_dictionaries({"o": st.just("decode"), "t": _i, "k": gen.weighted((4, st.just(None)), (1, _i)), "opt": st.one_of(st.none(), _i), "bad": gen.weighted((2, st.just(0)), (1, st.integers(1, 7))),
                               "validate": gen.weighted((4, st.just(True)), (1, st.just(False)))})),
    (3, st.fixed_dictionaries({"o": st.just("dump"), "k": _i, "public": FLIP, "spoil": st.integers(0, 4)})),
    (2, st.fixed_dictionaries({"o": st.just("export"), "k": _i, "public": FLIP})),
    (2, st.fixed_dictionaries({"o": st.just("set"), "k": _i, "public": FLIP, "spoil": st.integers(0, 4)})),
    (2, st.fixed_dictionaries({"o": st.just("spoil"), "what": st.sampled_from(["handed", "passed"]), "a": st.integers(0, 20)})),
    (1, st.fixed_dictionaries({"o": st.just("tick"), "d": st.sampled_from([1, 6, 200])})))


@st.composite
def _case(draw):
    n = draw(st.integers(1, 3))
    entries = [draw(_key(i)) for i in range(n)]
    return {"keys": entries, "rot": draw(st.integers(0, 6)), "loose": [draw(_loose(entries)) for _ in range(draw(st.sampled_from([0, 1, 1, 2])))], "headers": draw(st.lists(st.dictionaries(st.sampled_from(["typ", "typ", "cty", "x", "nested", "kid"]), st.just(0), max_size=3).map(sorted), min_size=1, max_size=2)), "typ": draw(_typ),
            "claims": draw(st.lists(_claims, min_size=1, max_size=2)), "opts": draw(st.lists(_opts, min_size=1, max_size=2)), "ops": [{"o": "sign", "k": 0, "h": 0, "p": draw(_payload), "wrap": draw(FLIP), "twice": False}, {"o": "encode", "k": 0, "c": 0, "h": 0}] + draw(st.lists(_op, min_size=4, max_size=14))}


def strategy(tier):
    return _case()


def spoil(d, how):
    """The application changes a dictionary it owns (its own level only)."""
    if not isinstance(d, dict) or not d:
        return
    k = sorted(d)[how % len(d)]
    if how == 0:
        d.clear()
    elif how == 1:
        del d[k]
    elif how == 2:
        d[k] = "AQAB"
    elif how == 3:
        d["alg"], d["kid"], d["use"] = "none", "spoilt", "enc"
    else:
        d["d"], d["k"], d["kty"] = "AQAB", "AQAB", "oct"


def deeply(v):
    """The application changes every list and dictionary inside one it owns."""
    for x in list(v.values() if isinstance(v, dict) else v if isinstance(v, list) else ()):
        if isinstance(x, (dict, list)):
            deeply(x)
            x.append("spoilt") if isinstance(x, list) else x.update(spoilt=1)


def run(case):
    labels = set()
    used = {}
    with env.world_time(NOW) as clock:
        nset = len(case["keys"])
        entries = case["keys"] + case.get("loose", [])
        passed = copy.deepcopy([material(e, e["public"]) for e in entries])
        descr = copy.deepcopy(passed)
        K = [JsonWebKey(p) for p in passed]
        data0 = [copy.deepcopy(dict(k.data)) for k in K]
        rot = case.get("rot", 0) % nset
        order = (list(range(nset))[rot:] + list(range(nset))[:rot])[::-1 if case.get("rot", 0) > 3 else 1]
        klist = [K[i] for i in order]
        kset = JsonWebKeySet(klist)
        claims, opts = copy.deepcopy(case["claims"]), copy.deepcopy(case["opts"])
        tokens, handed, story = [], [], []
        now = [NOW]
        gone = False

        def intact(what):
            for i, k in enumerate(K):
                check(gen.strict_equal(dict(k.data), data0[i]), f"{what} altered key {i}: {dict(k.data)} was {data0[i]}; {story}")
                if not gone:
                    check(gen.strict_equal(passed[i], descr[i]), f"{what} altered the description of key {i} that was passed in: {story}")
            check(gen.strict_equal(claims, case["claims"]), f"{what} altered the caller's claims: {claims}; {story}")
            check(gen.strict_equal(opts, case["opts"]), f"{what} altered the caller's options: {opts}; {story}")
            check(len(klist) == nset and all(a is K[i] for a, i in zip(klist, order)), f"{what} altered the caller's list of keys: {story}")

        def header(i, k):
            names = case["headers"][i % len(case["headers"])]
            h = {"alg": entries[k]["algo"]}
            for n in names:
                if n == "kid" and "kid" not in descr[k]:
                    continue
                h[n] = {"typ": case.get("typ", "JWT"), "cty": case.get("typ", "x"), "x": [1, {"a": []}], "nested": {"b": {"c": 1}}, "kid": descr[k].get("kid")}[n]
            return h

        def tamper(tok, bad, k):
            h, p, s = tok.split(b".")
            same = [t for t in tokens if t["tok"] != tok]
            if bad == 1:
                s = s[:-4] + (b"AAAA" if s[-4:] != b"AAAA" else b"BBBB") if len(s) > 4 else b"AAAA"
            elif bad == 2:
                p = ref.b64e(ref.b64d(p) + b" ").encode()
            elif bad == 3:
                h = ref.b64e(ref.b64d(h) + b" ").encode()
            elif bad == 4 and same:
                s = same[-1]["tok"].split(b".")[2]
            elif bad == 5:
                s = b""
            elif bad == 6 and same:
                p = same[0]["tok"].split(b".")[1]
            elif bad == 7:
                s = ref.b64e(hashlib.sha256(s).digest()).encode()
            return b".".join([h, p, s])

        def valid(tok, k, named):
            h, p, s = tok.split(b".")
            j = json.loads(ref.b64d(h))
            bound = descr[k].get("alg") or (named and entries[k]["algo"]) or j["alg"]
            if j["alg"] != bound or (named and j["alg"] != entries[k]["algo"]) or ("kid" in j and j["kid"] != descr[k].get("kid")):
                return False
            if {"H": "oct", "E": "EC"}.get(j["alg"][0], "RSA") != descr[k]["kty"] or j["alg"][0] == "E" and ref.CRV_OF[j["alg"]] != descr[k]["crv"]:
                return False
            try:
                return bool(ref.verify(j["alg"], h + b"." + p, descr[k], ref.b64d(s)))
            except ValueError:
                return False

        for o in case["ops"]:
            story.append(o)
            what = o["o"]
            k = (o.get("k") or 0) % len(K)
            if what in ("verify", "decode"):
                pool = [t for t in tokens if what == "verify" or t["jwt"]]
                if not pool:
                    story.pop()
                    continue
                t = pool[o["t"] % len(pool)]
                if o["k"] is None:
                    k = t["k"]
                used[k] = used.get(k, 0) + 1
                tok = tamper(t["tok"], o["bad"], k)
                ok = valid(tok, k, o.get("named", False))
            if what in ("sign", "encode"):
                if entries[k]["public"]:
                    # only the reference can sign
                    h = header(o["h"], k)
                    body = bytes.fromhex(o["p"]) if what == "sign" else json.dumps(claims[o["c"] % len(claims)]).encode()
                    full = keys.jwk(entries[k]["spec"])
                    msg = (ref.b64e(json.dumps(h).encode()) + "." + ref.b64e(body)).encode()
                    tokens.append({"tok": msg + b"." + ref.b64e(ref.sign(entries[k]["algo"], msg, full)).encode(), "k": k, "h": h, "p": body, "jwt": what == "encode"})
                    continue
                used[k] = used.get(k, 0) + 1
                h = header(o["h"], k)
                h0 = copy.deepcopy(h)
                if what == "sign":
                    body = bytes.fromhex(o["p"])
                    mine = copy.deepcopy(h) if o.get("deep") else h
                    obj = JsonWebSignature(body, JsonWebSignatureHeader(mine) if o["wrap"] else mine)
                    if o.get("deep"):
                        deeply(mine)
                    made = [obj.serialize(K[k])] + ([obj.serialize(K[k])] if o["twice"] else [])
                else:
                    c = claims[o["c"] % len(claims)]
                    mine = copy.deepcopy((c, h)) if o.get("deep") else (c, h)
                    obj, err = attempt(JsonWebToken, *mine)
                    if o.get("deep"):
                        deeply(mine[0])
                        deeply(mine[1])
                    if err is not None:
                        check(c.get("exp", now[0] + 1) <= now[0], f"encoding refused: {err!r}; {story}")
                        continue
                    made = [obj.encode(K[k]).encode()]
                    body = None
                check(gen.strict_equal(h, h0), f"{what} altered the caller's header: {h} was {h0}; {story}")
                for tok in made:
                    hh, pp, ss = tok.split(b".")
                    check(gen.strict_equal(json.loads(ref.b64d(hh)), h0), f"{what} signed another header: {story}")
                    check(ref.b64d(pp) == body if body is not None else gen.strict_equal(json.loads(ref.b64d(pp)), c), f"{what} signed another payload: {story}")
                    check(ref.verify(entries[k]["algo"], hh + b"." + pp, descr[k], ref.b64d(ss)), f"{what}: the signature is not by the key: {story}")
                tokens.append({"tok": made[-1], "k": k, "h": h0, "p": ref.b64d(made[-1].split(b".")[1]), "jwt": what == "encode"})
            elif what == "verify":
                jws, err = attempt(JsonWebSignature.deserialize, tok, K[k], entries[k]["algo"] if o["named"] else None)
                check((err is None) == ok, f"token {'refused' if ok else 'accepted'} ({err!r}): {tok} by key {k} {descr[k]}; {story}")
                if err is None:
                    h, p, _ = tok.split(b".")
                    check(jws.payload == ref.b64d(p) and gen.strict_equal(dict(jws.header), json.loads(ref.b64d(h))), f"verified something else: {story}")
                    handed.append(jws.header)
                labels.add("verify " + ("ok" if ok else "refused"))
            elif what == "decode":
                opt = None if o["opt"] is None else opts[o["opt"] % len(opts)]
                jwt, err = attempt(lambda: JsonWebToken.decode(tok, K[k], options=opt) if o["validate"] else JsonWebToken.decode(tok, K[k], None, False, opt))
                try:
                    c = json.loads(ref.b64d(tok.split(b".")[1]))
                except ValueError:
                    continue
                if not isinstance(c, dict):
                    check(err is not None, f"JWT accepted: {tok} by key {k}; {story}")
                    continue
                inst = c.get("exp", now[0] + 1) > now[0]
                want = inst if not o["validate"] else ok and inst and met(c, opt)
                check((err is None) == want, f"JWT {'refused' if want else 'accepted'} ({err!r}): {tok} by key {k}; {story}")
                if err is None:
                    check(gen.strict_equal(dict(jwt.claims), c), f"decoded other claims: {dict(jwt.claims)}; {story}")
                    handed += [jwt.claims, jwt.header]
                labels.add("decode " + ("ok" if want else "refused"))
            elif what == "dump":
                used[k] = used.get(k, 0) + 1
                if not (entries[k]["public"] and not o["public"]):
                    d = K[k].dump(o["public"])
                    view(d, descr[k], o["public"], story)
                    spoil(d, o["spoil"])
            elif what == "export":
                used[k] = used.get(k, 0) + 1
                if not (entries[k]["public"] and not o["public"]):
                    exported(K[k].export(o["public"]), descr[k], o["public"], story)
            elif what == "set":
                k %= nset
                got = kset.get_key("k%d" % k)
                check(got is K[k], f"key set returns another key: {story}")
                check(kset.get_key("k%d" % nset) is None, f"key set returns a key it does not have: {story}")
                if not any(e["public"] for e in entries[:nset]) or o["public"]:
                    d = kset.dump(o["public"])
                    check(len(d["keys"]) == nset, f"key set dump lacks keys: {story}")
                    for a, b in zip(d["keys"], [descr[i] for i in order]):
                        view(a, b, o["public"], story)
                    spoil(d["keys"][k], o["spoil"])
                    d["keys"].pop()
                    d.clear()
            elif what == "spoil":
                if o["what"] == "handed" and handed:
                    spoil(handed[o["a"] % len(handed)], o["a"] % 5)
                elif o["what"] == "passed":
                    gone = True
                    if o["a"] % 3 == 0:
                        deeply(passed[o["a"] % len(passed)])
                    else:
                        spoil(passed[o["a"] % len(passed)], o["a"] % 5)
            else:
                clock.advance(o["d"])
                now[0] += o["d"]
            intact(what)
            labels.add(what)
    return {"nontrivial": max(used.values(), default=0) >= 4, "labels": labels}


def view(d, descr, public, story):
    want = dict(descr)
    if public:
        want = keys.public(want)
    check(isinstance(d, dict) and set(d) == set(want), f"dump has {sorted(d)}, expected {sorted(want)}: {story}")
    for n in want:
        if n not in ("n", "e", "d", "p", "q", "dp", "dq", "qi", "x", "y", "k"):
            check(gen.strict_equal(d[n], want[n]), f"dump has {n}={d[n]!r}, expected {want[n]!r}: {story}")
    a, b = keys.numbers(d), keys.numbers(want)
    check(a == b, f"dump has other numbers: {story}")


def exported(raw, descr, public, story):
    """The exported bytes are the key of the description."""
    if descr["kty"] == "oct":
        check(base64.b64decode(raw) == ref.b64d(descr["k"]), f"exported another key: {raw!r}; {story}")
        return
    try:
        key = serialization.load_pem_public_key(raw, default_backend()) if public else serialization.load_pem_private_key(raw, None, default_backend())
    except (ValueError, TypeError) as exc:
        raise Violation(f"export is not a {'public' if public else 'private'} key: {exc}: {raw!r}; {story}")
    pub = (key if public else key.public_key()).public_numbers()
    names = ("n", "e") if descr["kty"] == "RSA" else ("x", "y")
    check(all(getattr(pub, n, None) == ref.b2i(descr[n]) for n in names), f"exported another key: {raw!r} is not {descr}; {story}")
    if not public:
        prv = key.private_numbers()
        check((prv.d if descr["kty"] == "RSA" else prv.private_value) == ref.b2i(descr["d"]), f"exported another private key: {story}")


def met(claims, opt):
    for name, o in (opt or {}).items():
        v = claims.get(name)
        if o.get("essential") and v is None:
            return False
        if o.get("value") is not None and v != o["value"]:
            return False
        if o.get("values") and not (v in o["values"] or isinstance(v, list) and any(x in o["values"] for x in v)):
            return False
    return True
