"""Independent pure-Python reference: base64url, RFC 8017 signatures, ECDSA (FIPS 186), JWK numbers."""
import base64, hashlib, hmac, json

HASH = {"256": hashlib.sha256, "384": hashlib.sha384, "512": hashlib.sha512}
ALGS = ["HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512"]
CRV_OF = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}
ALG_OF_CRV = {v: k for k, v in CRV_OF.items()}


def b64e(data):
    return base64.b64encode(data).decode().translate(str.maketrans("+/", "-_")).rstrip("=")


def b64d(text):
    if isinstance(text, bytes):
        text = text.decode("ascii")
    text = text.translate(str.maketrans("-_", "+/"))
    return base64.b64decode(text + "=" * (-len(text) % 4), validate=True)


def b2i(text):
    return int.from_bytes(b64d(text), "big")


def i2b(n):
    return b64e(n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big"))


# ------------------------------------------------------------------ RSA
DIGESTINFO = {
    "256": bytes.fromhex("3031300d060960864801650304020105000420"),
    "384": bytes.fromhex("3041300d060960864801650304020205000430"),
    "512": bytes.fromhex("3051300d060960864801650304020305000440"),
}


def pkcs1_em(h, msg, k):
    t = DIGESTINFO[h] + HASH[h](msg).digest()
    if k < len(t) + 11:
        return None
    return b"\0\1" + b"\xff" * (k - len(t) - 3) + b"\0" + t


def mgf1(h, seed, n):
    out, c = b"", 0
    while len(out) < n:
        out += HASH[h](seed + c.to_bytes(4, "big")).digest()
        c += 1
    return out[:n]


def pss_encode(h, msg, bits, salt, mgf_h=None):
    hl = HASH[h]().digest_size
    n = (bits + 7) // 8
    if n < hl + len(salt) + 2:
        return None
    H = HASH[h](b"\0" * 8 + HASH[h](msg).digest() + salt).digest()
    db = b"\0" * (n - len(salt) - hl - 2) + b"\1" + salt
    masked = bytes(a ^ b for a, b in zip(db, mgf1(mgf_h or h, H, len(db))))
    masked = bytes([masked[0] & (0xFF >> (8 * n - bits))]) + masked[1:]
    return masked + H + b"\xbc"


def pss_verify(h, msg, em, bits):
    hl = HASH[h]().digest_size
    n = (bits + 7) // 8
    if n < 2 * hl + 2 or len(em) != n or em[-1] != 0xBC:
        return False
    masked, H = em[: n - hl - 1], em[n - hl - 1 : -1]
    if masked[0] & ~(0xFF >> (8 * n - bits)) & 0xFF:
        return False
    db = bytes(a ^ b for a, b in zip(masked, mgf1(h, H, len(masked))))
    db = bytes([db[0] & (0xFF >> (8 * n - bits))]) + db[1:]
    pad = n - hl - hl - 2
    if any(db[:pad]) or db[pad] != 1:
        return False
    salt = db[pad + 1 :]
    return HASH[h](b"\0" * 8 + HASH[h](msg).digest() + salt).digest() == H


def rsa_raw(em, n, d):
    return pow(int.from_bytes(em, "big"), d, n).to_bytes((n.bit_length() + 7) // 8, "big")


# ------------------------------------------------------------------ EC
class Curve:
    def __init__(self, name, p, b, n, gx, gy):
        self.name, self.p, self.a, self.b, self.n, self.g = name, p, p - 3, b, n, (gx, gy)
        self.size = (p.bit_length() + 7) // 8

    def on(self, x, y):
        p = self.p
        return 0 <= x < p and 0 <= y < p and (y * y - (x * x * x + self.a * x + self.b)) % p == 0

    def _dbl(self, P):
        X, Y, Z = P
        p = self.p
        if not Y:
            return (0, 1, 0)
        d = Z * Z % p
        g = Y * Y % p
        b = X * g % p
        al = 3 * (X - d) * (X + d) % p
        x3 = (al * al - 8 * b) % p
        z3 = ((Y + Z) * (Y + Z) - g - d) % p
        return x3, (al * (4 * b - x3) - 8 * g * g) % p, z3

    def _add(self, P, Q):
        if not P[2]:
            return Q
        if not Q[2]:
            return P
        p = self.p
        z1, z2 = P[2] * P[2] % p, Q[2] * Q[2] % p
        u1, u2 = P[0] * z2 % p, Q[0] * z1 % p
        s1, s2 = P[1] * Q[2] * z2 % p, Q[1] * P[2] * z1 % p
        if u1 == u2:
            return self._dbl(P) if s1 == s2 else (0, 1, 0)
        h, r = u2 - u1, s2 - s1
        hh = h * h % p
        hhh = h * hh % p
        v = u1 * hh % p
        x3 = (r * r - hhh - 2 * v) % p
        return x3, (r * (v - x3) - s1 * hhh) % p, P[2] * Q[2] * h % p

    def mul(self, k, pt=None):
        R, Q = (0, 1, 0), (*(pt or self.g), 1)
        for bit in bin(k)[2:]:
            R = self._dbl(R)
            if bit == "1":
                R = self._add(R, Q)
        return R

    def affine(self, P):
        if not P[2]:
            return None
        zi = pow(P[2], -1, self.p)
        return P[0] * zi * zi % self.p, P[1] * zi * zi * zi % self.p

    def point(self, d):
        return self.affine(self.mul(d))


CURVES = {
    "P-256": Curve("P-256", 2**256 - 2**224 + 2**192 + 2**96 - 1,
        0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B,
        0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551,
        0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,
        0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),
    "P-384": Curve("P-384", 2**384 - 2**128 - 2**96 + 2**32 - 1,
        0xB3312FA7E23EE7E4988E056BE3F82D19181D9C6EFE8141120314088F5013875AC656398D8A2ED19D2A85C8EDD3EC2AEF,
        0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC7634D81F4372DDF581A0DB248B0A77AECEC196ACCC52973,
        0xAA87CA22BE8B05378EB1C71EF320AD746E1D3B628BA79B9859F741E082542A385502F25DBF55296C3A545E3872760AB7,
        0x3617DE4A96262C6F5D9E98BF9292DC29F8F41DBD289A147CE9DA3113B5F0B8C00A60B1CE1D7E819D7A431D7C90EA0E5F),
    "P-521": Curve("P-521", 2**521 - 1,
        0x0051953EB9618E1C9A1F929A21A0B68540EEA2DA725B99B315F3B8B489918EF109E156193951EC7E937B1652C0BD3BB1BF073573DF883D2C34F1EF451FD46B503F00,
        0x01FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFA51868783BF2F966B7FCC0148F709A5D03BB5C9B8899C47AEBB6FB71E91386409,
        0x00C6858E06B70404E9CD9E3ECB662395B4429C648139053FB521F828AF606B4D3DBAA14B5E77EFE75928FE1DC127A2FFA8DE3348B3C1856A429BF97E7E31C2E5BD66,
        0x011839296A789A3BC0045C8A5FB42C7D1BD998F54449579B446817AFBD17273E662C97EE72995EF42640C550B9013FAD0761353C7086A272C24088BE94769FD16650),
}


def _z(c, h, msg):
    digest = HASH[h](msg).digest()
    z = int.from_bytes(digest, "big")
    return z >> max(0, 8 * len(digest) - c.n.bit_length())


def ecdsa_sign(c, h, msg, d, k):
    r = c.point(k)[0] % c.n
    s = pow(k, -1, c.n) * (_z(c, h, msg) + r * d) % c.n
    if not r or not s:
        return None
    return r.to_bytes(c.size, "big") + s.to_bytes(c.size, "big")


def ecdsa_verify(c, h, msg, x, y, sig):
    if len(sig) != 2 * c.size:
        return False
    r, s = int.from_bytes(sig[: c.size], "big"), int.from_bytes(sig[c.size :], "big")
    if not (0 < r < c.n and 0 < s < c.n):
        return False
    w = pow(s, -1, c.n)
    P = c.affine(c._add(c.mul(_z(c, h, msg) * w % c.n), c.mul(r * w % c.n, (x, y))))
    return P is not None and P[0] % c.n == r


# ------------------------------------------------------------------ JWS
def min_bytes(alg):
    """Smallest RSA modulus size in bytes the algorithm works with."""
    hl = HASH[alg[2:]]().digest_size
    return (hl + 19 + 11) if alg.startswith("RS") else (2 * hl + 2 + 1)


def sign(alg, msg, jwk, entropy=b"\1" * 66):
    """Signature bytes by the JWK private parameters; entropy gives the PSS salt / ECDSA nonce."""
    h = alg[2:]
    if alg == "none":
        return b""
    if alg.startswith("HS"):
        return hmac.new(b64d(jwk["k"]), msg, HASH[h]).digest()
    if alg.startswith("RS"):
        n, d = b2i(jwk["n"]), b2i(jwk["d"])
        return rsa_raw(pkcs1_em(h, msg, (n.bit_length() + 7) // 8), n, d)
    if alg.startswith("PS"):
        n, d = b2i(jwk["n"]), b2i(jwk["d"])
        hl = HASH[h]().digest_size
        salt = hashlib.sha512(entropy + b"salt").digest()[:hl]
        return rsa_raw(pss_encode(h, msg, n.bit_length() - 1, salt), n, d)
    c = CURVES[jwk["crv"]]
    k = int.from_bytes(hashlib.shake_256(entropy + b"nonce").digest(c.size + 8), "big") % (c.n - 1) + 1
    return ecdsa_sign(c, h, msg, b2i(jwk["d"]), k)


def verify(alg, msg, jwk, sig):
    h = alg[2:]
    if alg == "none":
        return sig == b""
    if alg.startswith("HS"):
        return hmac.compare_digest(hmac.new(b64d(jwk["k"]), msg, HASH[h]).digest(), sig)
    if alg[:2] in ("RS", "PS"):
        n, e = b2i(jwk["n"]), b2i(jwk["e"])
        k = (n.bit_length() + 7) // 8
        s = int.from_bytes(sig, "big")
        if len(sig) != k or s >= n:
            return False
        m = pow(s, e, n)
        if alg.startswith("RS"):
            return m.to_bytes(k, "big") == pkcs1_em(h, msg, k)
        bits = n.bit_length() - 1
        size = (bits + 7) // 8
        if m.bit_length() > 8 * size:
            return False
        return pss_verify(h, msg, m.to_bytes(size, "big"), bits)
    c = CURVES[jwk["crv"]]
    return ecdsa_verify(c, h, msg, b2i(jwk["x"]), b2i(jwk["y"]), sig)


def token(header, payload, alg, jwk, entropy=b"\1"):
    """Compact JWS; header is a dict (or ready-made JSON text)."""
    text = header if isinstance(header, str) else json.dumps(header, ensure_ascii=False)
    msg = (b64e(text.encode("utf-8")) + "." + b64e(payload)).encode()
    return msg + b"." + b64e(sign(alg, msg, jwk, entropy)).encode()


def decode(tok, jwk=None):
    """(header, payload bytes) of a compact JWS, verified when a JWK is given; None if it does not verify."""
    if isinstance(tok, str):
        tok = tok.encode("ascii")
    h, p, s = tok.split(b".")
    header = json.loads(b64d(h).decode("utf-8"))
    if jwk is not None and not verify(header["alg"], h + b"." + p, jwk, b64d(s)):
        return None
    return header, b64d(p)
