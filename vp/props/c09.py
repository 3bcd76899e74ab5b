import copy
import json

from ..jose import *

RULE = ("Cases: a list of 0-8 keys (IDs drawn from a small pool so that clashes and near-clashes happen, some keys without ID), or an ill-shaped "
        "argument; then look-ups, dumps and reloads in a generated order, against a list model. Non-trivial: a set of two or more keys, or a refused one.")
QUICK, THOROUGH = 9000, 200000
_ids = gen.weighted((4, st.sampled_from(["a", "b", "c", "A", "a ", " a", "aa", "0", "1", "é", "e\u0301", "key-1", "key-10", "None", "null"])), (1, gen.text(1, 8)), (1, st.sampled_from([0, 1, 2, 10, "1", "0", "2"])))
_maybe = gen.weighted((8, _ids), (1, st.none()))
_spec = gen.weighted((4, keys.oct_specs(0, 40)), (1, keys.ec_specs()), (1, keys.rsa_specs(False)))
_q = gen.weighted((3, st.tuples(st.just("get"), st.integers(0, 9))), (2, st.tuples(st.just("getid"), _ids)), (1, st.tuples(st.just("dump"), st.booleans())),
                  (2, st.tuples(st.just("load"), st.booleans()))).map(list)


_attrs = gen.weighted((3, st.just({})), (4, st.fixed_dictionaries({}, optional={
    "use": gen.weighted((3, st.sampled_from(["sig", "enc"])), (1, gen.text(0, 5))), "alg": st.sampled_from(["HS256", "RS256", "ES256", "dir"]), "key_ops": st.sampled_from([["sign"], ["verify", "sign"], []]),
    "x5t": gen.text(0, 6), "exp": st.integers(0, 10), "revoked": st.booleans(), "app": st.sampled_from([0, "", False, [], {"a": [1]}])})))


@st.composite
def _case(draw):
    n = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3, 4, 5, 8]))
    unique = draw(st.integers(0, 3)) > 0
    ids = draw(st.lists(_ids if unique else _maybe, min_size=n, max_size=n, unique=unique))
    shared = draw(_spec)
    same = draw(ONE_IN_4)
    entries = []
    for i, kid in enumerate(ids):
        entries.append({"spec": shared if same else draw(_spec), "kid": kid, "public": draw(FLIP), "extra": draw(_attrs)})
    return {"keys": entries, "shape": draw(st.sampled_from(["list"] * 9 + ["tuple", "dict", "nonkey", "none", "iter", "number", "name", "top"])), "queries": draw(st.lists(_q, max_size=6)),
            "route": draw(st.sampled_from(["init", "load"]))}


def strategy(tier):
    return _case()


def _j(e):
    j = keys.jwk(e["spec"])
    if e["public"]:
        j = keys.public(j)
    if e["kid"] is not None:
        j["kid"] = e["kid"]
    j.update(copy.deepcopy(e["extra"]))
    return j


def run(case):
    entries = case["keys"]
    js = [_j(e) for e in entries]
    ids = [e["kid"] for e in entries]
    shape = case["shape"]
    valid = bool(entries) and None not in ids and len(set(ids)) == len(ids) and shape == "list"
    if case["route"] == "load":
        value = {"list": js, "tuple": tuple(js), "dict": {"a": js}, "nonkey": js + [None], "none": None, "iter": "x", "number": 5, "name": js, "top": js}[shape]
        if shape == "tuple":
            valid = None
        if shape in ("dict", "nonkey", "none", "iter", "number", "name", "top"):
            build, value = JsonWebKeySet.load, value if shape == "top" else {"Keys" if shape == "name" else "keys": value}
            try:
                got = build(value)
            except Exception:
                got = None
            check(got is None, f"key set loaded from {value!r}")
            return {"nontrivial": True, "labels": {"refused:" + shape}}
        got, err = attempt(JsonWebKeySet.load, {"keys": value})
    else:
        built = [JsonWebKey(j) for j in js]
        value = {"list": built, "tuple": tuple(built), "dict": dict(enumerate(built)), "nonkey": built + [js[0] if js else "x"], "none": None, "iter": iter(built), "number": 5, "name": {"keys": built}, "top": set(built)}[shape]
        got, err = attempt(JsonWebKeySet, value)
    if valid is False:
        check(err is not None, f"key set built although IDs are {ids} ({shape})")
        return {"nontrivial": True, "labels": {"refused:" + ("ids" if shape == "list" else shape)}}
    if valid is None:
        if err is not None:
            return {"nontrivial": False, "labels": set()}
        if not (entries and None not in ids and len(set(ids)) == len(ids)):
            raise Violation(f"key set built although IDs are {ids}")
    check(err is None, f"key set with IDs {ids} refused: {err!r}")

    def own(d, e):
        return {k: v for k, v in d.items() if k == "kid" or k in e["extra"] or k in ("use", "alg", "key_ops")}

    def same(key, i, private, what):
        e, j = entries[i], js[i]
        check(key is not None and key.data.get("kid") == ids[i], f"{what}: key of ID {ids[i]!r} expected, got {key and key.data.get('kid')!r}")
        public = not private or e["public"]
        d = key.dump(public)
        want = keys.public(j) if public and j["kty"] != "oct" else j
        check(keys.numbers(d) == keys.numbers(want), f"{what}: other key material for ID {ids[i]!r}")
        check(own(d, e) == own(j, e), f"{what}: attributes changed: {own(d, e)} instead of {own(j, e)}")

    private_all = not any(e["public"] and e["spec"]["t"] != "oct" for e in entries)
    private = True
    current = got
    for q, arg in case["queries"] + [["get", i] for i in range(len(ids))] + [["getid", "no such key"]]:
        if q == "get":
            i = arg % len(ids)
            same(current.get_key(ids[i]), i, private, f"get_key({ids[i]!r})")
        elif q == "getid":
            key = current.get_key(arg)
            if arg in ids:
                same(key, ids.index(arg), private, f"get_key({arg!r})")
            else:
                check(key is None, f"get_key({arg!r}) returned the key {key and key.data.get('kid')!r}")
        else:
            public = arg or not (private_all and private)
            d = current.dump(public)
            check(set(d) == {"keys"} and [k.get("kid") for k in d["keys"]] == ids, f"dump lists {[k.get('kid') for k in d.get('keys', [])]} instead of {ids}")
            for i, k in enumerate(d["keys"]):
                want = keys.public(js[i]) if public and js[i]["kty"] != "oct" else js[i]
                check(keys.numbers(k) == keys.numbers(want), f"dump: other material at position {i}")
                check(own(k, entries[i]) == own(js[i], entries[i]), f"dump: attributes changed at position {i}: {own(k, entries[i])} instead of {own(js[i], entries[i])}")
            if q == "load":
                current = JsonWebKeySet.load(json.loads(json.dumps(d)))
                private = private and not public
                check(len(current.keys) == len(ids), "reload changed the number of keys")
    return {"nontrivial": len(ids) > 1, "labels": {f"keys:{min(len(ids), 5)}", case["route"]}}
