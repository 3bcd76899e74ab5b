"""Helpers shared by the JOSE checks."""
from hypothesis import strategies as st

from psion.jose.exceptions import JoseError
from psion.jose.jwk import JsonWebKey, JsonWebKeySet
from psion.jose.jws import JsonWebSignature, JsonWebSignatureHeader
from psion.jose.jwt import JsonWebToken, JsonWebTokenClaims

from . import gen, keys, ref
from .core import Violation, check

__all__ = ["JoseError", "JsonWebKey", "JsonWebKeySet", "JsonWebSignature", "JsonWebSignatureHeader", "JsonWebToken",
           "JsonWebTokenClaims", "attempt", "material", "make", "headers", "key_attrs", "key_entries", "st", "gen", "keys", "ref",
           "Violation", "check", "pairs", "FLIP", "ONE_IN_3", "ONE_IN_4"]


def attempt(fn, *args, **kw):
    """(value, None) or (None, JoseError); any other exception escapes (and is judged by the runner)."""
    try:
        return fn(*args, **kw), None
    except JoseError as exc:
        return None, exc


def material(entry, public=False):
    """JWK dict of a key entry {"spec":…, "attrs":[[name, value]…]}."""
    j = keys.jwk(entry["spec"])
    if public:
        j = keys.public(j)
    j.update({k: v for k, v in entry.get("attrs", [])})
    return j


def make(entry, public=False):
    return JsonWebKey(material(entry, public))


def pairs(p):
    return {k: v for k, v in p}


RESERVED = {"alg", "kid", "typ", "cty", "crit"}
NAMES = ["jku", "jwk", "x5u", "x5c", "x5t", "x5t#S256", "b64", "zip", "enc", "exp", "iat", "nonce", "http://example.com/x", "Alg", "a", "ÿ"]


_names = gen.weighted((2, st.sampled_from(NAMES)), (1, gen.text(1, 12))).filter(lambda n: n not in RESERVED)
_extra = st.dictionaries(_names, gen.json_values(6).filter(lambda v: v is not None), max_size=3)
_typ = gen.weighted((2, st.sampled_from(["JWT", "JOSE", "at+jwt"])), (1, gen.text(1, 10)))
FLIP, ONE_IN_3, ONE_IN_4 = st.booleans(), st.integers(0, 2).map(lambda i: i == 0), st.integers(0, 3).map(lambda i: i == 0)


@st.composite
def headers(draw, alg, kid=None):
    """A valid JWS header as a list of [name, value] pairs in arbitrary order."""
    extra = draw(_extra)
    out = [["alg", alg]] + [[k, v] for k, v in extra.items()]
    if kid is not None and draw(FLIP):
        out.append(["kid", kid])
    if draw(FLIP):
        out.append(["typ", draw(_typ)])
    if draw(ONE_IN_4):
        out.append(["cty", draw(gen.text(1, 10))])
    truthy = [k for k, v in out if v and k]
    if draw(ONE_IN_4):
        out.append(["crit", draw(st.lists(st.sampled_from(truthy), min_size=1, max_size=3, unique=True))])
    return draw(st.permutations(out)) if draw(FLIP) else out


_key_ops = st.sampled_from([["sign", "verify"], ["verify", "sign"]])


@st.composite
def key_attrs(draw, alg=None):
    out = []
    if draw(FLIP):
        out.append(["kid", draw(gen.text(1, 12))])
    if alg and draw(ONE_IN_3):
        out.append(["alg", alg])
    if draw(ONE_IN_3):
        out.append(["use", "sig"])
    if draw(ONE_IN_3):
        out.append(["key_ops", draw(_key_ops)])
    return out


@st.composite
def key_entries(draw, alg):
    if alg == "none":
        spec = draw(keys.specs())
    else:
        spec = draw(keys.spec_for(alg))
    return {"spec": spec, "attrs": draw(key_attrs(alg))}
