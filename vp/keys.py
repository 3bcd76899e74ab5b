"""Key specs (JSON) -> JWK parameters, computed here and not by psion; strategies for key specs."""
import functools, json, os

from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives.asymmetric import ec, rsa
from hypothesis import strategies as st

from . import env, ref

POOL = json.load(open(os.path.join(os.path.dirname(__file__), "keys.json")))
RSA = [{**k, **{f: int(k[f], 16) for f in ("n", "d", "p", "q")}} for k in POOL["rsa"]]
_CG = {"P-256": ec.SECP256R1, "P-384": ec.SECP384R1, "P-521": ec.SECP521R1}
PRIVATE_FIELDS = {"RSA": ["d", "p", "q", "dp", "dq", "qi"], "EC": ["d"], "oct": ["k"]}
PUBLIC_FIELDS = {"RSA": ["n", "e"], "EC": ["crv", "x", "y"], "oct": ["k"]}


def rsa_numbers(spec):
    """The RSA key of a spec; "swap" exchanges its primes."""
    k = RSA[spec["i"]]
    return {**k, "p": k["q"], "q": k["p"]} if spec.get("swap") else k


@functools.lru_cache(4096)
def _jwk(text):
    spec = json.loads(text)
    if spec["t"] == "oct":
        return {"kty": "oct", "k": ref.b64e(bytes.fromhex(spec["k"]))}
    if spec["t"] == "rsa":
        k = rsa_numbers(spec)
        return {"kty": "RSA", "n": ref.i2b(k["n"]), "e": ref.i2b(k["e"]), "d": ref.i2b(k["d"]), "p": ref.i2b(k["p"]),
                "q": ref.i2b(k["q"]), "dp": ref.i2b(k["d"] % (k["p"] - 1)), "dq": ref.i2b(k["d"] % (k["q"] - 1)),
                "qi": ref.i2b(pow(k["q"], -1, k["p"]))}
    crv, d = spec["crv"], int(spec["d"], 16)
    n = ec.derive_private_key(d, _CG[crv](), default_backend()).public_key().public_numbers()
    size = ref.CURVES[crv].size
    enc = lambda v: ref.b64e(v.to_bytes(size, "big"))
    return {"kty": "EC", "crv": crv, "x": enc(n.x), "y": enc(n.y), "d": enc(d)}


def jwk(spec):
    return dict(_jwk(json.dumps(spec, sort_keys=True)))


def public(j):
    return {k: v for k, v in j.items() if k not in ("d", "p", "q", "dp", "dq", "qi")}


def crypto_private(spec):
    """The `cryptography` private key of an asymmetric spec."""
    if spec["t"] == "rsa":
        k = rsa_numbers(spec)
        return rsa.RSAPrivateNumbers(k["p"], k["q"], k["d"], k["d"] % (k["p"] - 1), k["d"] % (k["q"] - 1),
                                     pow(k["q"], -1, k["p"]), rsa.RSAPublicNumbers(k["e"], k["n"])).private_key(default_backend())
    return ec.derive_private_key(int(spec["d"], 16), _CG[spec["crv"]](), default_backend())


def fit_algs(spec):
    """Signing algorithms the key can be used with (size included)."""
    if spec["t"] == "oct":
        return ["HS256", "HS384", "HS512"]
    if spec["t"] == "ec":
        return [ref.ALG_OF_CRV[spec["crv"]]]
    size = (RSA[spec["i"]]["n"].bit_length() + 7) // 8
    return [a for a in ref.ALGS if a[0] in "RP" and size >= ref.min_bytes(a)]


FAST_RSA = [i for i, k in enumerate(RSA) if 1024 <= k["bits"] <= 2100]


_TEXTS = [b"/dev/null/" + b"k" * 32, b"k" * 32 + b"\n", b"\n" + b"k" * 32, b" " * 40, b"c2VjcmV0IGtleSBpbiBiYXNlNjQgZm9ybSB0aGF0IGlzIGxvbmc=",
          b"c2VjcmV0IGtleSBpbiBiYXNlNjQgZm9ybSB0aGF0IGlzIGxvbmc", b"6b" * 32, b"\r\n" + b"k" * 40 + b"\r\n", b"\0" * 32 + b"k", b"k" * 32 + b"\0" * 4,
          "\u00fc\u20ac".encode() * 10, b"\xef\xbb\xbf" + b"k" * 32, b'{"kty":"oct","k":"a2tra2tra2tra2tra2tra2tra2tra2tra2tra2s"}', b"k" * 31, b"0x" + b"ff" * 20, b"~/" + b"k" * 32]


LONG = [161, 200, 255, 256, 257, 300, 512, 513, 1024, 1025, 4096, 5000] + [n + d for n in env.NEW_INTS if 160 < n <= 20000 for d in (0, 1)]


@functools.lru_cache(None)
def oct_specs(min_size=0, max_size=160):
    sizes = [n for n in (0, 1, 16, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129) if min_size <= n <= max_size]
    return st.one_of(st.binary(min_size=min_size, max_size=max_size),
                     st.sampled_from(sizes).flatmap(lambda n: st.binary(min_size=n, max_size=n)),
                     st.tuples(st.sampled_from(LONG), st.binary(min_size=1, max_size=9)).map(lambda t: (t[1] * t[0])[: t[0]]) if min_size <= 32 and max_size >= 160 else st.binary(min_size=min_size, max_size=max_size),
                     st.sampled_from([t for t in _TEXTS if min_size <= len(t) <= max_size]),
                     ).map(lambda b: {"t": "oct", "k": b.hex()})


@functools.lru_cache(None)
def ec_specs(crv=None):
    def of(c):
        n = ref.CURVES[c].n
        special = POOL["ec"][c]["short_x"] + POOL["ec"][c]["short_y"] + [1, 2, 3, n - 1, n - 2, 255, 256, 2 ** 128 + 7,
                   2 ** (8 * (ref.CURVES[c].size - 2)) + 5, 2 ** (8 * (ref.CURVES[c].size - 3)) + 5]
        return st.one_of(st.integers(1, n - 1), st.sampled_from(special),
                         st.integers(1, 2 ** 64)).map(lambda d: {"t": "ec", "crv": c, "d": hex(d)[2:]})
    return of(crv) if crv else st.sampled_from(sorted(ref.CURVES)).flatmap(of)


def _rsa_spec(t):
    return {"t": "rsa", "i": t[0], "swap": 1} if t[1] == 3 else {"t": "rsa", "i": t[0]}


@functools.lru_cache(None)
def rsa_specs(all_sizes=True):
    fast = st.sampled_from(FAST_RSA)
    idx = st.one_of(fast, fast, fast, st.sampled_from(range(len(RSA)))) if all_sizes else fast
    return st.tuples(idx, st.integers(0, 3)).map(_rsa_spec)


@functools.lru_cache(None)
def asym_specs():
    return st.one_of(rsa_specs(), ec_specs())


@functools.lru_cache(None)
def specs():
    return st.one_of(oct_specs(), rsa_specs(), ec_specs())


@functools.lru_cache(None)
def spec_for(alg):
    if alg.startswith("HS"):
        return oct_specs(min_size=0)
    if alg.startswith("ES"):
        return ec_specs(ref.CRV_OF[alg])
    ok = [i for i, k in enumerate(RSA) if (k["n"].bit_length() + 7) // 8 >= ref.min_bytes(alg)]
    fast = [i for i in ok if i in FAST_RSA]
    return st.one_of(st.sampled_from(fast), st.sampled_from(fast), st.sampled_from(ok)).flatmap(lambda i: st.tuples(st.just(i), st.integers(0, 3))).map(_rsa_spec)


# ------------------------------------------------------------------ comparing and serialising key material
def numbers(j, ordered=False):
    """The numbers a JWK stands for, RSA primes as given or in canonical order; None if inconsistent."""
    if j["kty"] == "oct":
        return {"k": ref.b64d(j["k"])}
    if j["kty"] == "EC":
        out = {"crv": j["crv"], "x": ref.b2i(j["x"]), "y": ref.b2i(j["y"])}
        if "d" in j:
            out["d"] = ref.b2i(j["d"])
        return out
    out = {"n": ref.b2i(j["n"]), "e": ref.b2i(j["e"])}
    if "d" in j:
        d, p, q = (ref.b2i(j[f]) for f in ("d", "p", "q"))
        if (ref.b2i(j["dp"]), ref.b2i(j["dq"])) != (d % (p - 1), d % (q - 1)) or ref.b2i(j["qi"]) * q % p != 1 or p * q != out["n"]:
            return None
        out.update(d=d, primes=[p, q] if ordered else sorted([p, q]))
    return out


def pem(spec, form, password=None):
    """PEM bytes made here: form is pkcs8, trad, spki or pkcs1pub."""
    from cryptography.hazmat.primitives import serialization as ser
    k = crypto_private(spec)
    if form in ("pkcs8", "trad"):
        enc = ser.BestAvailableEncryption(password) if password else ser.NoEncryption()
        return k.private_bytes(ser.Encoding.PEM, ser.PrivateFormat.PKCS8 if form == "pkcs8" else ser.PrivateFormat.TraditionalOpenSSL, enc)
    return k.public_key().public_bytes(ser.Encoding.PEM, ser.PublicFormat.SubjectPublicKeyInfo if form == "spki" else ser.PublicFormat.PKCS1)
