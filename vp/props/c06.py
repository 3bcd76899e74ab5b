import base64, itertools, os, pathlib

from .. import env
from ..jose import *

RULE = ("Cases: 1-2 keys (oct, RSA, EC; boundary coordinates; partial RSA parameters; extra attributes), each taken through a chain of 1-4 "
        "routes: JWK dump/load, PEM or base64 export/parse, PEMs made independently (PKCS#8, traditional, password), bytes or file path. "
        "After every step the numbers are compared with the independently computed ones and signatures are exchanged with the original. "
        "Non-trivial: a chain of two or more routes, an independent PEM, or partial parameters.")
QUICK, THOROUGH = 2700, 80000

_names = gen.weighted((3, st.sampled_from(["kid", "use", "alg", "key_ops", "x5c", "x5t", "x5t#S256", "x5u", "exp", "kID"])), (1, gen.text(1, 10))).filter(
    lambda n: n not in {"kty", "n", "e", "d", "p", "q", "dp", "dq", "qi", "crv", "x", "y", "k", "self", "cls", "algorithm", "public",
                        "password", "format", "path_or_secret", "options", "data", "ignore"})
_avalue = gen.weighted((2, gen.text(0, 12)), (1, gen.json_values(4).filter(lambda v: v is not None)), (1, st.sampled_from([0, False, "", [], {}])))
_attrs = st.dictionaries(_names, _avalue, max_size=3).map(lambda d: [[k, v] for k, v in d.items()])
_how = st.sampled_from(["bytes", "bytes", "str", "Path", "bytespath", "rel"])
_pw = st.one_of(st.none(), st.binary(min_size=1, max_size=20).map(lambda b: b.hex()))
_route = st.sampled_from(["jwk", "jwk", "jwkpub", "pem", "pem", "pempub", "pemaspub", "made", "made", "madepub"])
_form = st.sampled_from(["pkcs8", "trad"])
_partial = st.sampled_from(["full", "full", "full", "ned", "pq", "pqdp", "pqqi", "pqdpdq", "strip", "p", "q"])


@st.composite
def _case(draw):
    out = []
    for _ in range(draw(st.integers(1, 2))):
        spec = draw(keys.specs())
        steps = []
        for _ in range(draw(st.integers(1, 4))):
            steps.append({"route": draw(_route), "how": draw(_how), "attrs": draw(_attrs), "pw": draw(_pw) if draw(ONE_IN_3) else None, "form": draw(_form)})
        out.append({"spec": spec, "attrs": draw(_attrs), "partial": draw(_partial), "steps": steps, "alg": draw(st.integers(0, 5))})
    return out


def strategy(tier):
    return _case()


_count = itertools.count()


def given_as(raw, how):
    """The key material as bytes or through a file."""
    if how == "bytes":
        return raw, None
    path = os.path.join(env.SCRATCH, "cwd", f"k{os.getpid()}-{next(_count)}.key")
    with open(path, "wb") as f:
        f.write(raw)
    return {"str": path, "Path": pathlib.Path(path), "bytespath": os.fsencode(path), "rel": os.path.basename(path)}[how], path


def parse(raw, how, kty, public, attrs, **kw):
    arg, path = given_as(raw, how)
    try:
        return JsonWebKey.parse(arg, kty, public, **kw, **attrs)
    finally:
        if path:
            os.unlink(path)


def partial(j, how):
    if j["kty"] == "RSA":
        keep = {"ned": "n e d", "pq": "n e d p q", "pqdp": "n e d p q dp", "pqqi": "n e d p q qi", "pqdpdq": "n e d p q dp dq", "p": "n e d p", "q": "n e d q"}.get(how)
        if keep:
            return {k: v for k, v in j.items() if k in keep.split() + ["kty"]}
    if j["kty"] == "EC" and how == "strip":
        return {k: (v if k in ("kty", "crv") else ref.i2b(ref.b2i(v))) for k, v in j.items()}
    return dict(j)


def judge(key, j, attrs, private, step, ordered=False):
    """The key is exactly the material j plus attrs."""
    fields = set(keys.PUBLIC_FIELDS[j["kty"]]) | {"kty"}
    for public in (True, False) if private else (True,):
        d = key.dump(public)
        want = set(fields) | set(attrs) | (set() if public else set(keys.PRIVATE_FIELDS[j["kty"]]))
        check(set(d) == want, f"{step}: dump(public={public}) has {sorted(d)} instead of {sorted(want)}")
        base = j if not public or j["kty"] == "oct" else keys.public(j)
        check(keys.numbers(d, ordered) == keys.numbers(base, ordered), f"{step}: dump(public={public}) describes another key: {d} instead of {base}")
        if j["kty"] == "EC":
            for f in ("x", "y", "d"):
                check(f not in d or d[f] == j[f], f"{step}: {f} is not encoded at full width: {d.get(f)!r} instead of {j[f]!r}")
        for k, v in attrs.items():
            check(gen.strict_equal(d[k], v), f"{step}: attribute {k!r} changed: {v!r} -> {d[k]!r}")
        check(gen.strict_equal({k: v for k, v in key.data.items() if k in attrs}, attrs), f"{step}: attributes differ")


def exchange(alg, a, b, b_private, step):
    msg = b"interchangeable " + step.encode()
    kw = {} if alg[0] in "HE" else {"rsa_padding": "PSS" if alg[0] == "P" else "PKCS1v15"}
    h = "SHA" + alg[2:]
    pairs_ = [(a, b)] + ([(b, a)] if b_private else [])
    for s, v in pairs_:
        sig, err = attempt(s.sign, msg, h, **kw)
        check(err is None, f"{step}: signing failed: {err!r}")
        _, err = attempt(v.verify, sig, msg, h, **kw)
        check(err is None, f"{step}: {alg} signature is not interchangeable: {err!r}")


def run(case):
    labels, nontrivial = set(), False
    for item in case:
        spec = item["spec"]
        j = keys.jwk(spec)
        kty = j["kty"]
        attrs = pairs(item["attrs"])
        part = partial(j, item["partial"])
        given = dict(part, **attrs)
        original = JsonWebKey(dict(given))
        ordered = "p" in part and "q" in part or kty != "RSA"  # psion had to find the primes itself: their order is its choice
        judge(original, j, attrs, True, "load " + item["partial"], ordered)
        nontrivial |= part != j or len(item["steps"]) > 1
        algs = keys.fit_algs(spec)
        key, private = original, True
        for n, st_ in enumerate(item["steps"]):
            route, new = st_["route"], pairs(st_["attrs"])
            where = f"step {n} {route} {st_['how']}"
            if kty == "oct":
                if route in ("jwk", "jwkpub"):
                    key = JsonWebKey(key.dump(route == "jwkpub"))
                else:
                    attrs = new
                    if route.startswith("pem"):
                        raw = key.export(route != "pem")
                        check(raw == base64.b64encode(bytes.fromhex(spec["k"])), f"{where}: exported {raw!r}")
                        fmt = "pem"
                    else:
                        fmt = "der" if route == "made" else "pem"
                        raw = bytes.fromhex(spec["k"]) if fmt == "der" else base64.b64encode(bytes.fromhex(spec["k"]))
                        if fmt == "der" and st_["how"] == "bytes" and os.path.exists(raw.replace(b"\0", b"x") or b"\1"):
                            continue
                    key = parse(raw, st_["how"], kty, route != "pem", attrs, format=fmt)
                    nontrivial |= route.startswith("made")
            elif route == "jwk" and private:
                key = JsonWebKey(key.dump(False))
            elif route in ("jwk", "jwkpub"):
                key, private = JsonWebKey(key.dump() if n % 2 else key.dump(True)), False
            else:
                attrs = new
                if route == "pem" and private:
                    key = parse(key.export(), st_["how"], kty, False, attrs)
                elif route == "pemaspub" and private:
                    key, private = parse(key.export(False), st_["how"], kty, True, attrs), False
                elif route.startswith("pem"):
                    key, private = parse(key.export(True), st_["how"], kty, True, attrs), False
                elif route == "made":
                    pw = bytes.fromhex(st_["pw"]) if st_["pw"] else None
                    raw = keys.pem(spec, st_["form"], pw)
                    key = parse(raw, st_["how"], kty, False, attrs, **({"password": pw} if pw else {}))
                    private, nontrivial, ordered = True, True, True
                    where += " " + st_["form"] + (" encrypted" if pw else "")
                else:
                    key, private, nontrivial = parse(keys.pem(spec, "spki"), st_["how"], kty, True, attrs), False, True
            judge(key, j, attrs, private, where, ordered)
            if algs:
                exchange(algs[item["alg"] % len(algs)], original, key, private or kty == "oct", where)
            labels.add(kty + ":" + route + ("" if kty == "oct" or private else ":public"))
    return {"nontrivial": nontrivial, "labels": labels}
