import json

from ..jose import *

RULE = ("Cases: 1-4 inputs: arbitrary bytes/text, dot-joined arbitrary segments, base64url of arbitrary bytes, JSON headers from a grammar "
        "around the validity rules (also mutated text, deep nesting), decoded as JWS and JWT with and without signature validation; and "
        "header objects judged by the header predicate. Non-trivial: an input with three segments whose first decodes, or a header object.")
QUICK, THOROUGH = 9000, 300000
KEYS = [{"spec": {"t": "oct", "k": "00" * 32}}, {"spec": {"t": "rsa", "i": 1}}, {"spec": {"t": "ec", "crv": "P-256", "d": "5"}},
        {"spec": {"t": "ec", "crv": "P-521", "d": "77"}}, {"spec": {"t": "rsa", "i": 0}}]
_built = {}
ALGV = st.sampled_from(ref.ALGS + ["none"])
_alg = gen.weighted((8, ALGV), (2, st.sampled_from(["None", "NONE", "HS255", "hs256", "", " HS256", "HS256 ", "EdDSA", "ES256K", "RS1"])),
                    (1, gen.text(0, 8)), (1, gen.json_values(3)))
_strish = gen.weighted((4, gen.text(1, 8)), (1, st.just("")), (1, gen.json_values(2)))
_crit = gen.weighted((4, st.lists(gen.weighted((3, st.sampled_from(["alg", "kid", "typ", "cty", "x", "exp", "crit"])), (1, gen.text(0, 4)),
                                               (1, gen.json_values(2))), max_size=3)), (1, gen.json_values(2)))
_value = gen.json_values(5)


_good = {"alg": ALGV, "kid": gen.text(1, 8), "typ": gen.text(1, 8), "cty": gen.text(1, 8)}
_truthy = _value.filter(bool)
_wild = {"alg": _alg, "kid": _strish, "typ": _strish, "cty": _strish, "crit": _crit}
_profile = st.sampled_from(["good", "good", "one", "one", "one", "wild", "wild", "null"])
_FIELDS = ["alg", "kid", "typ", "cty", "crit"]
_which = st.sampled_from(_FIELDS)
_TEN = st.integers(0, 9)


@st.composite
def header_pairs(draw):
    """A header; "good" ones meet every rule, "one" has (at most) one offending field."""
    profile = draw(_profile)
    bad = draw(_which) if profile == "one" else None
    out = {}
    for name in ("x", "exp"):
        if draw(ONE_IN_3):
            out[name] = draw(_truthy if profile != "wild" else _value)
    if draw(ONE_IN_4):
        out[draw(gen.text(0, 8))] = draw(_value)
    if draw(_TEN) == 0:  # a parameter without a name, which crit must not name
        out[""] = draw(_truthy)
    for name in _FIELDS:
        if name == bad or profile == "wild" or name == "alg":
            wild = name == bad or profile == "wild"
            if name == bad or (draw(_TEN) < (9 if name == "alg" else 3)) or not wild:
                out[name] = draw(_wild[name] if wild else _good[name])
        elif draw(ONE_IN_3):
            if name == "crit":
                named = sorted(k for k, v in out.items() if v and k)
                if named:
                    out[name] = draw(st.lists(st.sampled_from(named), min_size=1, max_size=3))
            else:
                out[name] = draw(_good[name])
    if profile == "null":  # otherwise good, but crit names a parameter that is null, absent or misspelt
        named = sorted(k for k, v in out.items() if v and k and k != "crit")
        name = draw(st.sampled_from(["x", "y", "exp", "kid", "b64"]) if draw(FLIP) else gen.text(1, 6))
        if draw(FLIP):
            out[name] = None
        elif name in named:
            name = name.upper()
        elif "" in out and draw(FLIP):
            name = ""
        out["crit"] = draw(st.permutations(named[: draw(st.integers(0, 2))] + [name]))
    uniq = [[k, v] for k, v in out.items()]
    return draw(st.permutations(uniq)) if draw(FLIP) else uniq


_raw_header = st.one_of(
    header_pairs().map(lambda p: {"h": p}), header_pairs().map(lambda p: {"h": p}), header_pairs().map(lambda p: {"h": p}),
    gen.blob(80).map(lambda b: {"hex": b}), gen.text(0, 40).map(lambda t: {"text": t}),
    st.tuples(st.sampled_from(["[", '{"a":', "[[", '{"alg":"HS256","x":[']), st.sampled_from([5, 500, 1100, 30000])).map(lambda t: {"nest": list(t)}),
    st.tuples(header_pairs(), st.integers(0, 200), gen.text(0, 3)).map(lambda t: {"h": t[0], "mut": [t[1], t[2]]}),
    st.sampled_from(["null", "[]", "{}", '"a"', "1", '{"alg": NaN}', '{"alg":"HS256","alg":"none"}', '{"alg":"HS256"} ', '\ufeff{"alg":"none"}',
                     '{"alg":"HS256","x":1e999}', '{"alg":"HS256","x":' + "9" * 5000 + "}", '{"alg":"none","\\ud800":"\\udfff"}',
                     '{"alg":"\\ud800"}', "{'alg':'none'}"]).map(lambda t: {"text": t}),
)
_payload = st.one_of(gen.blob(120), st.sampled_from(["{}", "[]", "null", '{"a":1}', '{"exp":"x"}', '{"exp":1}', '{"a":"\\ud800"}', '{"a":NaN}',
                     '{"aud":[1]}', "[" * 3000, '{"iat":' + "9" * 5000 + "}", '{"nbf":true}', '{"a":', '"x"', "1", "\ufeff{}"]).map(lambda t: t.encode("utf-8").hex()),
                     gen.json_values(6).map(lambda v: json.dumps(v).encode().hex()))
_enc = st.sampled_from(["url", "url", "url", "url", "url", "std", "pad", "raw", "nl", "cut"])
_encs = gen.weighted((3, st.just(["url", "url", "url"])), (2, st.tuples(_enc, _enc, _enc).map(list)))
_parts = st.tuples(_raw_header, _payload, gen.blob(140), _encs, st.sampled_from([2] * 12 + [1, 0, 3, 4])).map(
    lambda t: {"kind": "parts", "hdr": t[0], "payload": t[1], "sig": t[2], "enc": t[3], "dots": t[4]})
_token = st.one_of(
    _parts, _parts, _parts,
    gen.blob(100).map(lambda b: {"kind": "bytes", "hex": b}), gen.text(0, 60).map(lambda t: {"kind": "text", "text": t}),
    st.lists(gen.text(0, 8), max_size=4).map(lambda l: {"kind": "text", "text": ".".join(l)}),
    st.sampled_from(["\ud800", "a.b.\udfff", "\udcff.a.b"]).map(lambda t: {"kind": "sur", "text": [ord(c) for c in t]}),
    header_pairs().map(lambda p: {"kind": "header", "h": p}), header_pairs().map(lambda p: {"kind": "header", "h": p}),
    st.one_of(gen.json_values(3), st.just({})).map(lambda v: {"kind": "headerobj", "v": v}),
)


def strategy(tier):
    return st.lists(st.tuples(_token, st.integers(0, len(KEYS) - 1), st.one_of(st.none(), ALGV)).map(list), min_size=1, max_size=4)


SUPPORTED = set(ref.ALGS) | {"none"}


def header_ok(h):
    """True / False / None (not decided by the property)."""
    if not isinstance(h, dict) or not h:
        return False
    if not isinstance(h.get("alg"), str) or h["alg"] not in SUPPORTED:
        return False
    for name in ("kid", "typ", "cty"):
        if name in h and (not isinstance(h[name], str) or not h[name]):
            return False
    if "crit" in h:
        crit = h["crit"]
        if not isinstance(crit, list) or not crit or any(not isinstance(c, str) or not c for c in crit):
            return False
        for c in crit:
            if h.get(c) is None:
                return False
        if any(not h[c] for c in crit):
            return None
    return True


def _text(h):
    if "h" in h:
        text = json.dumps(pairs(h["h"]), ensure_ascii=False)
        if "mut" in h:
            i = h["mut"][0] % (len(text) + 1)
            text = text[:i] + h["mut"][1] + text[i + 1:]
        return text.encode("utf-8", "surrogatepass")
    if "hex" in h:
        return bytes.fromhex(h["hex"])
    if "nest" in h:
        return (h["nest"][0] * h["nest"][1]).encode()
    return h["text"].encode("utf-8", "surrogatepass")


def _encode(raw, how):
    import base64
    if how == "raw":
        return raw
    b = base64.urlsafe_b64encode(raw)
    if how == "pad":
        return b
    if how == "std":
        return base64.b64encode(raw).rstrip(b"=")
    b = b.rstrip(b"=")
    if how == "nl":
        return b[: len(b) // 2] + b"\n" + b[len(b) // 2:]
    if how == "cut":
        return b[:-1]
    return b


def run(case):
    labels = set()
    for item, ki, expected in case:
        key = _built.setdefault(ki, make(KEYS[ki]))
        kind = item["kind"]
        if kind in ("header", "headerobj"):
            h = pairs(item["h"]) if kind == "header" else item["v"]
            got, err = attempt(JsonWebSignatureHeader, h)
            ok = header_ok(h)
            if ok is not None:
                check((err is None) == ok, f"header {h!r} {'accepted' if err is None else 'refused: %r' % err}")
            if err is None and ok:
                check(gen.strict_equal(dict(got), {k: v for k, v in h.items() if v is not None}), "header object differs from the input")
            labels.add(f"header:{ok}")
            continue
        must = None
        if kind == "parts":
            raw = _text(item["hdr"])
            payload = bytes.fromhex(item["payload"])
            segs = [_encode(raw, item["enc"][0]), _encode(payload, item["enc"][1]), _encode(bytes.fromhex(item["sig"]), item["enc"][2])]
            segs = (segs + [b"", b""])[: item["dots"] + 1]
            token = b".".join(segs)
            try:
                h = json.loads(raw.decode("utf-8"))
                ok = header_ok(h)
            except (ValueError, RecursionError):
                h, ok = None, False
            if item["enc"] == ["url"] * 3 and item["dots"] == 2:
                must = ok
            labels.add(f"parts:{must}")
        elif kind == "sur":
            token = "".join(map(chr, item["text"]))
        else:
            token = bytes.fromhex(item["hex"]) if kind == "bytes" else item["text"]
        data = token if isinstance(token, bytes) else token.encode("utf-8", "surrogatepass")
        for validate in (True, False):
            got, err = attempt(JsonWebSignature.deserialize, data, key, expected, validate)
            if must is False:
                check(err is not None, f"token with an invalid header accepted (validate={validate}): {token[:300]!r}")
            if must is True and not validate and expected in (None, h["alg"]):
                check(err is None, f"well-formed token not decoded without validation: {err!r} {token[:300]!r}")
                check(got.payload == payload, "decoded payload differs")
            for t in (token,) if not isinstance(token, bytes) else (token,) + ((token.decode("latin-1"),) if kind == "bytes" else ()):
                attempt(JsonWebToken.decode, t, key, expected, validate)
    return {"nontrivial": any(l.startswith(("parts:T", "parts:F", "header")) for l in labels), "labels": labels}
