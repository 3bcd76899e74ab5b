import base64, json, os

from ..jose import *
from .c06 import given_as

RULE = ("Cases: 1-6 attempts: key material parsed as the wrong kind (RSA, EC, DSA, OKP keys in every PEM form, certificates, ssh-rsa lines; "
        "re-wrapped, CRLF, with surrounding text, encrypted; bytes or file), unknown formats, unsupported curves and key types, JWKs with an "
        "altered, swapped or missing parameter, and refused generation sizes. Non-trivial: every attempt that was judged.")
QUICK, THOROUGH = 9000, 300000
ASSUMPTIONS = ["For inconsistent or incomplete JWKs only 'no key results' is required, whatever the exception."]
PEMS = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "pems.json")))
PEMS += [dict(p, pem=p["pem"].replace("PUBLIC KEY", "EC PUBLIC KEY"), form="ecpub") for p in PEMS if p["kind"] == "ec" and p["form"] == "spki"]
RARE = [i for i, p in enumerate(PEMS) if p["kind"] in ("cert", "dsa", "okp") or p["form"] in ("ssh", "openssh", "pkcs1pub", "ecpub")]
_how = st.sampled_from(["bytes", "bytes", "bytes", "str", "Path"])
_wrap = st.sampled_from(["", "", "", "crlf", "nl", "text", "rewrap", "twice", "lead"])
_pem = st.one_of(
    st.integers(0, len(PEMS) - 1).map(lambda i: {"pem": i}), st.sampled_from(RARE).map(lambda i: {"pem": i}),
    st.tuples(keys.asym_specs(), st.sampled_from(["pkcs8", "trad", "spki"]), st.booleans()).map(lambda t: {"spec": t[0], "form": t[1], "enc": t[2]}))
_formats = gen.weighted((3, st.sampled_from(["der", "PEM", "Pem", "pem ", "jwk", "", "raw", "p12", "openssh", "DER", "json"])), (1, gen.text(0, 6)))
_ktys = gen.weighted((3, st.sampled_from(["OKP", "rsa", "ec", "OCT", "Oct", "RSA ", "", "AES", "EC2", "none", "oct\n"])), (1, gen.text(0, 6)))
_crvs = gen.weighted((3, st.sampled_from(["P-224", "P-192", "secp256k1", "p-256", "P-256 ", "P256", "", "Ed25519", "prime256v1", "secp256r1", "P-512", "P-38"])), (1, gen.text(0, 6)))


@st.composite
def _mut(draw):
    spec = draw(keys.specs())
    fields = {"oct": ["k", "kty"], "rsa": ["n", "e", "kty"], "ec": ["crv", "x", "y", "kty"]}[spec["t"]]
    kind = draw(st.sampled_from(["missing", "null", "alter", "alter", "alter", "pair", "crv"])) if spec["t"] != "oct" else draw(st.sampled_from(["missing", "null"]))
    m = {"spec": spec, "kind": kind, "public": draw(FLIP)}
    if kind in ("missing", "null"):
        m["field"] = draw(st.sampled_from(fields))
    elif kind == "alter":
        m["public"] = draw(FLIP) if spec["t"] == "ec" else False
        pool = ["x", "y"] if m["public"] else ["x", "y", "d"] if spec["t"] == "ec" else ["n", "e", "d", "p", "q", "dp", "dq", "qi"]
        m["field"] = draw(st.sampled_from(pool))
        m["how"] = draw(st.sampled_from(["flip", "flip", "inc", "dec", "zero", "one", "neg", "shift", "modp"]))
        m["bit"] = draw(st.integers(0, 600))
        m["strip"] = draw(ONE_IN_4)
    elif kind == "pair":
        m["other"] = draw(keys.ec_specs(spec["crv"]) if spec["t"] == "ec" else keys.rsa_specs())
    return m


_try = st.one_of(
    st.tuples(_pem, st.sampled_from(["oct", "RSA", "EC"]), _how, _wrap, st.booleans()).map(lambda t: {"t": "parse", "src": t[0], "as": t[1], "how": t[2], "wrap": t[3], "public": t[4]}),
    st.tuples(_pem, st.sampled_from(["oct", "RSA", "EC"]), _how, _wrap, st.booleans()).map(lambda t: {"t": "parse", "src": t[0], "as": t[1], "how": t[2], "wrap": t[3], "public": t[4]}),
    st.tuples(keys.specs(), _formats, _how).map(lambda t: {"t": "format", "spec": t[0], "format": t[1], "how": t[2]}),
    st.tuples(keys.specs(), _ktys, st.sampled_from(["jwk", "parse", "generate"])).map(lambda t: {"t": "kty", "spec": t[0], "kty": t[1], "where": t[2]}),
    st.tuples(keys.ec_specs(), _crvs, st.sampled_from(["jwk", "jwkpub", "generate"])).map(lambda t: {"t": "crv", "spec": t[0], "crv": t[1], "where": t[2]}),
    _mut().map(lambda m: dict(m, t="mut")), _mut().map(lambda m: dict(m, t="mut")),
    st.tuples(st.sampled_from(["oct", "RSA"]), st.one_of(st.integers(-5, 31), st.integers(1, 511), st.sampled_from([1, 16, 31, 511, 256]))).map(lambda t: {"t": "gen", "kty": t[0], "size": t[1]}),
    st.one_of(st.sampled_from([{}, [], None, "", 0, [["kty", "oct"]], "kty", 5, True]), gen.json_values(4)).map(lambda v: {"t": "shape", "v": v}),
)


def strategy(tier):
    return st.lists(_try, min_size=1, max_size=6)


def material_of(src):
    """(kind, pem bytes, password, form)"""
    if "pem" in src:
        p = PEMS[src["pem"]]
        return p["kind"], p["pem"].encode(), (p["pw"] or None), p["form"]
    pw = "secret" if src["enc"] and src["form"] != "spki" else None
    return src["spec"]["t"], keys.pem(src["spec"], src["form"], pw.encode() if pw else None), pw, src["form"]


def wrapped(raw, how):
    if how == "crlf":
        return raw.replace(b"\n", b"\r\n")
    if how == "nl":
        return raw.rstrip(b"\n")
    if how == "text":
        return b"Bag Attributes\n    friendlyName: key\n" + raw + b"\ntrailing text\n"
    if how == "lead":
        return b"\n\n  \n" + raw
    if how == "twice":
        return raw + raw
    if how == "rewrap" and raw.startswith(b"-----") and b"Proc-Type" not in raw:
        lines = raw.splitlines()
        body = b"".join(lines[1:-1])
        return b"\n".join([lines[0]] + [body[i:i + 48] for i in range(0, len(body), 48)] + [lines[-1], b""])
    return raw


def altered(j, m):
    """The JWK with one number changed; None when the change is void or leaves a valid key."""
    f, v = m["field"], ref.b2i(j[m["field"]])
    ec_ = j["kty"] == "EC"
    c = ref.CURVES[j["crv"]] if ec_ else None
    bits = 8 * c.size if ec_ else max(v.bit_length(), 8)
    how = m["how"]
    new = {"flip": v ^ (1 << (m["bit"] % bits)), "inc": v + 1, "dec": v - 1, "zero": 0, "one": 1, "neg": (c.p if ec_ else ref.b2i(j["n"])) - v,
           "shift": v << 8, "modp": v + (c.p if ec_ and f != "d" else c.n if ec_ else ref.b2i(j["n"]))}[how]
    if new < 0 or new == v:
        return None
    out = dict(j)
    out[f] = ref.i2b(new) if not ec_ or m["strip"] or new.bit_length() > 8 * c.size else ref.b64e(new.to_bytes(c.size, "big"))
    if ec_:
        if m["public"]:
            if c.on(ref.b2i(out["x"]), ref.b2i(out["y"])):
                return None
        return out
    # RSA: the change must really break the key (e.g. q may stay consistent with nothing else)
    if f in ("dp", "dq", "qi") and new == 0:  # stands for "absent"
        return None
    if f == "d" and new == 0:
        return None
    if f in ("p", "q") and new == 0:
        return None
    return out


def run(case):
    labels = set()
    for t in case:
        kind = t["t"]
        if kind == "parse":
            mk, raw, pw, form = material_of(t["src"])
            if t["as"] != "oct":
                if mk == {"RSA": "rsa", "EC": "ec"}[t["as"]] or form in ("openssh", "ssh", "ecpub"):
                    continue
            raw = wrapped(raw, t["wrap"])
            arg, path = given_as(raw, t["how"])
            try:
                kw = {"password": pw.encode()} if pw and t["as"] != "oct" else {}
                got, err = attempt(JsonWebKey.parse, arg, t["as"], t["public"], **kw)
            finally:
                if path:
                    os.unlink(path)
            check(err is not None, f"{mk} material ({form}, {t['wrap']}) accepted as {t['as']}: {raw[:60]!r}")
            labels.add(f"{mk} as {t['as']}")
        elif kind == "format":
            j = keys.jwk(t["spec"])
            fmt = t["format"]
            if fmt == "pem" or (fmt == "der" and j["kty"] == "oct"):
                continue
            raw = base64.b64encode(bytes.fromhex(t["spec"]["k"])) if j["kty"] == "oct" else keys.pem(t["spec"], "pkcs8")
            arg, path = given_as(raw, t["how"])
            try:
                got, err = attempt(JsonWebKey.parse, arg, j["kty"], False, format=fmt)
            finally:
                if path:
                    os.unlink(path)
            check(err is not None, f"unknown format {fmt!r} accepted for {j['kty']}")
            labels.add("format")
        elif kind == "kty":
            if t["kty"] in ("oct", "RSA", "EC"):
                continue
            j = keys.jwk(t["spec"])
            if t["where"] == "jwk":
                got, err = attempt(JsonWebKey, dict(j, kty=t["kty"]))
            elif t["where"] == "parse":
                got, err = attempt(JsonWebKey.parse, b"c2VjcmV0" if j["kty"] == "oct" else keys.pem(t["spec"], "pkcs8"), t["kty"], False)
            else:
                got, err = attempt(JsonWebKey.generate, t["kty"])
            check(err is not None, f"unsupported key type {t['kty']!r} accepted ({t['where']})")
            labels.add("kty")
        elif kind == "crv":
            if t["crv"] in ref.CURVES:
                continue
            if t["where"] == "generate":
                if not t["crv"]:
                    continue
                got, err = attempt(JsonWebKey.generate, "EC", t["crv"])
            else:
                j = keys.jwk(t["spec"])
                got, err = attempt(JsonWebKey, dict(j if t["where"] == "jwk" else keys.public(j), crv=t["crv"]))
            check(err is not None, f"unsupported curve {t['crv']!r} accepted ({t['where']})")
            labels.add("crv")
        elif kind == "gen":
            if t["size"] == 0 or t["size"] >= (32 if t["kty"] == "oct" else 512):
                continue
            got, err = attempt(JsonWebKey.generate, t["kty"], t["size"])
            check(err is not None, f"generated a {t['kty']} key of size {t['size']}")
            labels.add("generate")
        else:
            if kind == "shape":
                j = t["v"]
                if isinstance(j, dict) and j.get("kty") in ("oct", "RSA", "EC"):
                    continue
            else:
                full = keys.jwk(t["spec"])
                j = keys.public(full) if t["public"] else dict(full)
                if t["kind"] in ("missing", "null"):
                    if t["kind"] == "null":
                        j[t["field"]] = None
                    else:
                        del j[t["field"]]
                elif t["kind"] == "alter":
                    j = altered(j, t)
                elif t["kind"] == "crv":
                    if j["kty"] != "EC":
                        continue
                    j["crv"] = {"P-256": "P-384", "P-384": "P-521", "P-521": "P-256"}[j["crv"]]
                else:
                    other = keys.jwk(t["other"])
                    j = dict(keys.public(full), **{k: v for k, v in other.items() if k not in keys.public(full)})
                    if keys.public(other) == keys.public(full):
                        continue
                if j is None:
                    continue
            try:
                got = JsonWebKey(j)
            except Exception:
                got = None
            check(got is None, f"a key was built from inconsistent or incomplete data ({t.get('kind', kind)} {t.get('field', '')} {t.get('how', '')}): {j!r}")
            labels.add("jwk:" + t.get("kind", "shape"))
    return {"nontrivial": bool(labels), "labels": labels}
