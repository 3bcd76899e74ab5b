import base64, hashlib, json
from urllib.parse import parse_qsl, urlsplit

from psion import webtools as w

from .. import env
from ..jose import *

RULE = ("Cases: 1-6 calls of the encoding helpers (base64url, integer codec, URL parameters, Basic and Bearer credentials, half hash) on generated "
        "data against the standard library. Non-trivial: each call with a non-empty input.")
QUICK, THOROUGH = 9000, 400000
_bytes = gen.payload_bytes(9000)
_int = gen.weighted((2, st.integers(0, 2 ** 80)), (2, st.integers(0, 600)), (2, st.tuples(st.integers(0, 540), st.integers(-2, 2)).map(lambda t: abs((1 << t[0]) + t[1]))),
                    (1, st.integers(0, 2 ** 4200)))
_notnat = st.one_of(st.integers(-(2 ** 70), -1), st.sampled_from([-1, 1.5, 1.0, -0.5, "1", "", None, [], [1], {}, "AQ"]))
_pname = gen.weighted((3, st.sampled_from(["code", "state", "error", "error_description", "scope", "a", "data", "params"])), (1, gen.text(1, 8))).filter(lambda n: n != "url")
_pvalue = gen.weighted((3, gen.text(0, 20)), (1, st.none()), (1, st.sampled_from(["a b", "a+b", "a&b=c", "é", "%20", "#", "?x=y", "/", "\r\n", "a%26b"])))
_url = st.tuples(st.sampled_from(["https://c.example", "http://localhost:8080", "com.app:", "https://c.example.com:443"]),
                 st.sampled_from(["", "/", "/cb", "/cb/", "/a%20b", "/a;b"]),
                 st.sampled_from(["", "", "?x=1", "?x=1&y=2", "?x=%26", "?x=", "?", "?a=b?c", "?x=1&x=2", "?state=s"])).map("".join)
_user = gen.text(0, 12).filter(lambda t: ":" not in t)
_scheme = st.sampled_from(["Basic", "basic", "BASIC", "bAsIc"])
_bscheme = st.sampled_from(["Bearer", "bearer", "BEARER", "beareR"])
_hname = st.sampled_from(["authorization", "Authorization"])
_garbage = gen.weighted((2, gen.text(0, 20)), (2, st.sampled_from(["", " ", "Basic", "Bearer", "Basic ", "Bearer ", " Basic", "Basic:YTpi", "BasicYTpi", "Bearerabc", "Digest YTpi",
                        "Negotiate abc", "Basicx YTpi", "Bearer\t", "\t", "Bas ic YTpi", "Basic\x00 YTpi", "Token YTpi", "xBasic YTpi", "Basic; YTpi", "Bearer: abc", "Basic: YTpi", "Bearer, abc", "Bearer= abc", "Bearer; abc", "-Bearer abc", "Bearer- abc", "Bearers abc", "Bear abc", '"Bearer" abc', "Basic, YTpi", "Basic= YTpi",
                        "OAuth abc", "Bearer\x00 abc", "\u0412earer abc", "\u0130asic YTpi", "Ba\u017fic YTpi", "None", "Basic  ", "Mac a b"])))
_badtext = st.tuples(st.lists(st.one_of(gen.text(0, 6).map(str.encode), st.just(b":"), st.sampled_from([b"\xff", b"\xe9", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xef\xbb\xbf"])),
                              min_size=2, max_size=6)).map(lambda t: b"".join(t[0]))
_call = st.one_of(
    st.tuples(st.just("b64"), _bytes), st.tuples(st.just("int"), _int.map(str)), st.tuples(st.just("notnat"), _notnat),
    st.tuples(st.just("url"), _url, st.dictionaries(_pname, _pvalue, max_size=4).map(lambda d: [[k, v] for k, v in d.items()])),
    st.tuples(st.just("basic"), _hname, _scheme, _user, gen.text(0, 14), st.sampled_from([" ", "  ", " "])),
    st.tuples(st.just("bearer"), _hname, _bscheme, gen.text(1, 30).filter(lambda t: t.strip() == t and t[:1].isprintable() and not t[:1].isspace() and not t[-1:].isspace())),
    st.tuples(st.just("other"), _hname, _garbage),
    st.tuples(st.just("cross"), _hname, st.sampled_from(["Basic YTpi", "Bearer abc"]), st.just(0)),
    st.tuples(st.just("nocolon"), _hname, _user), st.tuples(st.just("binary"), _hname, st.one_of(st.binary(min_size=1, max_size=20), _badtext).map(lambda b: b.hex())),
    st.tuples(st.just("notb64"), _hname, st.sampled_from(["Y", "YTpiY", "YTpiYTpiY", "A"])),
    st.tuples(st.just("half"), gen.weighted((5, gen.text(0, 60)), (1, st.tuples(gen.text(1, 8), st.sampled_from([40, 300, 2000, 9000])).map(lambda t: t[0] * t[1] + t[0][:1] * (t[1] % 7)))), st.sampled_from(ref.ALGS)),
    st.tuples(st.just("none"), st.sampled_from([{}, {"authorization": None}, {"Authorization": ""}, {"x": "Basic YTpi"}])),
    st.tuples(st.just("interop"), _bytes), st.tuples(st.just("text"), gen.text(0, 30)), st.tuples(st.just("number"), st.one_of(st.integers(-10 ** 9, 10 ** 9), st.sampled_from([1.5, -0.25, 0.0]))),
    st.tuples(st.just("json"), st.dictionaries(gen.text(0, 6), gen.json_values(4), max_size=4)), st.tuples(st.just("notjson"), st.sampled_from([5, None, [], {}, 1.5])),
).map(list)


def strategy(tier):
    return st.lists(_call, min_size=1, max_size=6)


def run(case):
    labels = set()
    for call in case:
        k = call[0]
        labels.add(k)
        if k == "b64":
            raw = bytes.fromhex(call[1])
            enc = w.base64url_encode(raw)
            check(enc == ref.b64e(raw).encode(), f"base64url of {raw!r} is {enc!r}")
            check(w.base64url_decode(enc) == raw, f"base64url does not round-trip {raw!r}")
        elif k == "interop":
            raw = bytes.fromhex(call[1])
            check(w.base64url_decode(ref.b64e(raw).encode()) == raw, f"base64url does not decode {raw!r}")
        elif k == "int":
            n = int(call[1])
            enc = w.int_to_b64(n)
            check(w.b64_to_int(enc) == n, f"integer {n} does not round-trip")
            check(w.b64_to_int(enc.decode()) == n, f"integer {n} does not round-trip as text")
            check(enc == ref.i2b(n).encode(), f"integer {n} is encoded as {enc!r}")
            wide = b"\0\0" + n.to_bytes((n.bit_length() + 7) // 8, "big")
            check(w.b64_to_int(ref.b64e(wide)) == n, "leading zeros change the integer")
        elif k == "notnat":
            try:
                got = w.int_to_b64(call[1])
            except Exception:
                continue
            raise Violation(f"int_to_b64({call[1]!r}) returned {got!r}")
        elif k == "url":
            url, params = call[1], pairs(call[2])
            got = w.urlencode(url, **params)
            check(got.startswith(url), f"{got!r} does not keep {url!r}")
            a, b = urlsplit(url), urlsplit(got)
            check((a.scheme, a.netloc, a.path) == (b.scheme, b.netloc, b.path), f"{got!r} alters {url!r}")
            check(got.isascii() and not any(c.isspace() for c in got), f"not a URL: {got!r}")
            own = parse_qsl(a.query, keep_blank_values=True)
            items = parse_qsl(b.query, keep_blank_values=True)
            check(items == own + [(n, v) for n, v in params.items() if v is not None], f"{got!r} carries {items} instead of {own} + {params}")
            full = [(n, v) for n, v in params.items() if v]
            q = w.urlencode("", **params).lstrip("?")
            check(w.urldecode(q) == dict(full), f"urldecode({q!r}) is {w.urldecode(q)!r}")
        elif k == "basic":
            _, name, scheme, user, secret, sp = call
            value = scheme + sp + base64.b64encode(f"{user}:{secret}".encode()).decode()
            got = w.get_basic_authorization({name: value})
            check(tuple(got) == (user, secret), f"{value!r} gives {got!r} instead of {(user, secret)!r}")
            check(w.get_bearer_authorization({name: value}) is None, f"{value!r} gives a bearer token")
        elif k == "bearer":
            _, name, scheme, tok = call
            got = w.get_bearer_authorization({name: f"{scheme} {tok}"})
            check(got == tok, f"bearer token {tok!r} extracted as {got!r}")
            check(tuple(w.get_basic_authorization({name: f"{scheme} {tok}"})) == (None, None), "bearer header gives basic credentials")
        elif k == "other":
            headers_ = {call[1]: call[2]}
            basic, bearer = w.get_basic_authorization(headers_), w.get_bearer_authorization(headers_)
            words = call[2].split()
            first = words[0].lower() if words else ""
            if not (first == "basic" and len(words) > 1):
                check(tuple(basic) == (None, None), f"{call[2]!r} gives basic credentials {basic!r}")
            if not (first == "bearer" and len(words) > 1):
                check(bearer is None, f"{call[2]!r} gives the bearer token {bearer!r}")
        elif k == "cross":
            b = call[2].startswith("Basic")
            check(tuple(w.get_basic_authorization({call[1]: call[2]})) == (("a", "b") if b else (None, None)), f"{call[2]!r} misread")
            check(w.get_bearer_authorization({call[1]: call[2]}) == (None if b else "abc"), f"{call[2]!r} misread")
        elif k == "nocolon":
            got = w.get_basic_authorization({call[1]: "Basic " + base64.b64encode(call[2].encode()).decode()})
            check(tuple(got) == (None, None), f"credentials without colon give {got!r}")
        elif k == "binary":
            raw = bytes.fromhex(call[2])
            got = w.get_basic_authorization({call[1]: "Basic " + base64.b64encode(raw).decode()})
            try:
                text = raw.decode("utf-8")
                want = tuple(text.split(":", 1)) if ":" in text else (None, None)
            except UnicodeDecodeError:
                want = (None, None)
            check(tuple(got) == want, f"credentials {raw!r} give {got!r}")
        elif k == "notb64":
            check(tuple(w.get_basic_authorization({call[1]: "Basic " + call[2]})) == (None, None), "undecodable credentials extracted")
        elif k == "half":
            text, alg = call[1], call[2]
            d = hashlib.new("sha" + alg[2:], text.encode()).digest()
            got = w.create_half_hash(text, alg)
            check(got == ref.b64e(d[: len(d) // 2]), f"half hash of {text!r} for {alg} is {got!r}")
        elif k == "text":
            check(w.to_bytes(call[1]) == call[1].encode() and w.to_string(call[1].encode()) == call[1] and w.to_string(call[1]) == call[1] and w.to_bytes(call[1].encode()) == call[1].encode(),
                  f"text and bytes conversion of {call[1]!r}")
        elif k == "number":
            check(w.to_bytes(call[1]) == str(call[1]).encode(), f"bytes of the number {call[1]!r}")
        elif k == "json":
            text = w.json_dumps(call[1])
            check(gen.strict_equal(json.loads(text), call[1]) and gen.strict_equal(w.json_loads(text), call[1]) and gen.strict_equal(w.json_loads(text.encode()), call[1]), f"JSON round trip of {call[1]!r}")
        elif k == "notjson":
            try:
                got = w.json_loads(call[1])
            except TypeError:
                continue
            raise Violation(f"json_loads({call[1]!r}) returned {got!r}")
        elif k == "none":
            check(tuple(w.get_basic_authorization(call[1])) == (None, None) and w.get_bearer_authorization(call[1]) is None, "credentials out of nothing")
    return {"nontrivial": any(len(c) > 1 and c[1] not in ("", "0") for c in case), "labels": labels}
