import asyncio

from starlette.requests import Request as StarletteRequest

from psion.oauth2.models import JSONResponse, RedirectResponse, Response

from ..history import *
from ..history import _small

RULE = ("Cases: (a) 1-4 ASGI requests (generated method, URL parts, header bytes, user object, body bytes cut in chunks that arrive interleaved) converted concurrently and compared with what was "
        "sent; (b) generated responses of every class converted and compared message by message; (c) generated OAuth histories in which every request and response crosses ASGI, compared with the "
        "directly built request, the endpoint's own response and the model. Non-trivial: a body or query with parameters, a non-empty response, or a history with a granted request.")
QUICK, THOROUGH = 4800, 300000

_lat = st.text("".join(chr(c) for c in list(range(0x20, 0x7F)) + list(range(0xA0, 0x100))), max_size=30).map(str.strip)
_value = gen.weighted((3, _lat), (2, st.sampled_from(["Basic YTpi", "Basic  YTpi", "bearer x.y", "application/x-www-form-urlencoded", "application/json", "a, b", "0", "x=1; y=2", "é"])),
                      (1, gen.novel(_lat).filter(lambda s: all(31 < ord(c) < 256 for c in s)).map(str.strip)))
_name = gen.weighted((4, st.sampled_from(["authorization", "content-type", "content-length", "accept", "cookie", "user-agent", "x-forwarded-for", "x-forwarded-proto", "x-forwarded-host",
                                          "x-http-method-override", "x-original-url", "origin", "referer", "if-none-match", "forwarded", "transfer-encoding", "x_odd"])),
                     (1, st.text("abcdefghijklmnopqrstuvwxyz0123456789-_!#$%&'*+.^`|~", min_size=1, max_size=12)))
_pairs = st.lists(st.tuples(gen.text(1, 12), gen.text(0, 30)).map(list), max_size=6, unique_by=lambda p: p[0])
_rawq = st.text("".join(chr(c) for c in range(0x21, 0x7F) if chr(c) != "#") + "é☃", max_size=40)
_ends = st.sampled_from([b"", b"", b" ", b"\n", b"\r\n", b"\t ", b"+", b"%20", b"&", b"\0", b"\x0b", b"\xef\xbb\xbf", b"\xc2\xa0", b"\xff", b"=", b";", b"%", b"\x1c", b"\xc3"])
_around = st.tuples(_ends, _pairs, _ends).map(lambda t: (t[0] + encode(t[1]).encode() + t[2]).hex())
_hosts = [None, "as.example", "as.example:8443", "AS.example", "localhost", "[::1]:80", "127.0.0.1:8000"]
_paths = ["/", "/token", "/oauth/authorize", "/a b", "/café", "", "/x;y", "/token/", "//x", "/a%20b", "/a@b:c"]

_req = st.fixed_dictionaries({
    "method": st.sampled_from(["GET", "POST", "POST", "get", "post"]), "scheme": st.sampled_from(["http", "https"]), "host": st.sampled_from(_hosts),
    "server": st.sampled_from([None, ["srv.example", 80], ["srv.example", 443], ["10.0.0.1", 9000], ["x.example", 1]]), "path": st.sampled_from(_paths),
    "root": st.sampled_from(["", "", "/mount", "/a/b"]), "q": _pairs, "rawq": gen.weighted((3, st.none()), (1, _rawq)), "style": st.integers(0, 3),
    "h": st.lists(st.tuples(_name, _value).map(list), max_size=5, unique_by=lambda p: p[0]),
    "f": _pairs, "rawf": gen.weighted((3, st.none()), (1, gen.payload_bytes(70000)), (1, _around)), "cuts": st.lists(st.integers(0, 400), max_size=5),
    "delays": st.lists(st.integers(0, 3), max_size=6), "sparse": st.booleans(), "user": st.sampled_from(["none", "user", "falsy", "empty", "str", "zero", "eq"]), "preread": st.integers(0, 5),
    "twice": st.booleans()})
_rvalue = gen.weighted((3, _lat), (1, st.sampled_from(["no-store", "text/html; charset=latin-1", 'Basic realm="é"', "0", ""])))
_rname = gen.weighted((4, st.sampled_from(["Cache-Control", "cache-control", "Pragma", "WWW-Authenticate", "Location", "Content-Type", "Set-Cookie", "X-Y", "ETag", "Vary", "Content-Language", "Server", "Date"])),
                      (1, st.text("abcXYZ019-_", min_size=1, max_size=12).filter(lambda s: s.lower() != "content-length")))
_resp = st.fixed_dictionaries({
    "cls": st.sampled_from(["Response", "JSON", "Redirect"]), "status": gen.weighted((3, st.sampled_from([200, 302, 303, 400, 401])), (2, st.sampled_from([201, 202, 301, 307, 308, 403, 404, 405, 429, 500, 503])), (1, st.none())),
    "h": gen.weighted((1, st.none()), (4, st.lists(st.tuples(_rname, _rvalue).map(list), max_size=5, unique_by=lambda p: p[0].lower()))),
    "body": st.one_of(gen.payload_bytes(70000).map(lambda h: ["b", h]), gen.text(0, 60).map(lambda t: ["s", t]), st.just(["n", None])), "json": gen.json_values(10),
    "url": gen.weighted((2, st.sampled_from(URIS)), (1, gen.text(1, 40)))})


def strategy(tier):
    return gen.weighted(
        (3, st.fixed_dictionaries({"reqs": st.lists(_req, min_size=1, max_size=4)})), (2, st.fixed_dictionaries({"resps": st.lists(_resp, min_size=1, max_size=3)})),
        (2, histories((("happy", 3), ("code", 2), ("refresh", 2), ("cc", 2), ("revoke", 2), ("authorize", 3), ("consent", 2)), (("auth", 3),), False, 2 if tier == "quick" else 4)))


class Falsy:
    def __bool__(self):
        return False


class Same:
    """Equal to everything: identity matters."""

    def __eq__(self, other):
        return True

    __hash__ = None


def make_user(kind):
    return {"none": lambda: None, "user": lambda: User("u1"), "falsy": Falsy, "empty": dict, "str": lambda: "".join(["al", "ice"]), "zero": lambda: 0, "eq": Same}[kind]()


def chunks(body, cuts):
    """Cut the body at relative positions."""
    at = sorted({0, len(body), *[c * len(body) // 400 for c in cuts]})
    return [body[a:b] for a, b in zip(at, at[1:])] or [b""]


def receiver(body, cuts, delays=(), sparse=False):
    parts, n = chunks(body, cuts), [0]

    async def receive():
        i = n[0]
        n[0] += 1
        for _ in range(delays[i] if i < len(delays) else 0):
            await asyncio.sleep(0)
        if i >= len(parts):
            return {"type": "http.disconnect"}
        msg = {"type": "http.request", "body": parts[i], "more_body": i + 1 < len(parts)}
        if sparse and not msg["body"]:
            del msg["body"]
        if sparse and not msg["more_body"]:
            del msg["more_body"]
        return msg
    return receive


def compare(got, method, url, headers, body, user, ctx, query=None, form=None):
    """The Request the provider built against what was sent."""
    want = Request(method, url, headers, body, user)
    low = {k.lower(): v for k, v in headers.items()}
    check(type(got) is Request or isinstance(got, Request), f"not a Request: {got!r}", ["C26"])
    check(got.user is user, f"user is {got.user!r} instead of {user!r}: {ctx}", ["C26"])
    check(got.method == method, f"method is {got.method!r}: {ctx}", ["C26"])
    check(got.url == url, f"URL is {got.url!r} instead of {url!r}: {ctx}", ["C26"])
    check(dict(got.headers) == low, f"headers are {got.headers} instead of {low}: {ctx}", ["C26"])
    for what in ("path", "query", "fragment", "data", "client"):
        check(getattr(got, what) == getattr(want, what), f"{what} is {getattr(got, what)!r}, built directly it is {getattr(want, what)!r}: {ctx}", ["C26"])
    check(got.form() == want.form(), f"form is {got.form()!r}, built directly it is {want.form()!r}: {ctx}", ["C26"])
    if query is not None:
        check(got.query == query, f"query is {got.query!r} instead of {query!r}: {ctx}", ["C26"])
    if form is not None:
        check(got.form() == form, f"form is {got.form()!r} instead of {form!r}: {ctx}", ["C26"])
    if query is not None and form is not None:
        check(got.data == {**query, **form}, f"data is {got.data!r}: {ctx}", ["C26"])


async def convert(provider, r):
    headers = {k: v for k, v in r["h"]}
    raw = [(k.encode("latin-1"), v.encode("latin-1")) for k, v in r["h"]]
    if r["host"] is not None:
        headers["host"] = r["host"]
        raw.insert(len(raw) // 2, (b"host", r["host"].encode()))
    q = r["rawq"] if r["rawq"] is not None else encode(r["q"], r["style"])
    body = bytes.fromhex(r["rawf"]) if r["rawf"] is not None else encode(r["f"], r["style"]).encode()
    path = r["root"] + r["path"]
    scheme, server = r["scheme"], r["server"]
    if r["host"] is not None:
        url = f"{scheme}://{r['host']}{path}"
    elif server is None:
        url = path
    else:
        url = f"{scheme}://{server[0]}" + ("" if server[1] == {"http": 80, "https": 443}[scheme] else f":{server[1]}") + path
    if q:
        url += "?" + q
    user = make_user(r["user"])
    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": r["method"], "scheme": scheme, "path": r["path"], "raw_path": r["path"].encode(),
             "root_path": r["root"], "query_string": q.encode(), "headers": raw, "client": ("10.9.8.7", 1234), "server": tuple(server) if server else None, "user": user}
    req = StarletteRequest(scope, receiver(body, r["cuts"], r["delays"], r["sparse"]))
    if r["preread"] == 0:
        check(await req.body() == body, "harness", ["none"])
    ctx = f"{r['method']} {url} {headers} body {body[:200]!r}"
    for _ in range(2 if r["twice"] else 1):
        got = await provider.create_request(req)
        compare(got, r["method"], url, headers, body, user, ctx,
                {k: v for k, v in r["q"] if v} if r["rawq"] is None else None, {k: v for k, v in r["f"] if v} if r["rawf"] is None else None)
    return bool(q or body)


async def emit(provider, resp, ctx):
    """Convert the response and run it; returns the Out after comparing it with the response."""
    status, headers, body = resp.status_code, dict(resp.headers), resp.body
    app = await provider.create_response(resp)
    sent = []

    async def send(msg):
        sent.append(msg)
    await app({"type": "http", "method": "GET", "headers": []}, receiver(b"", ()), send)
    check((resp.status_code, dict(resp.headers), resp.body) == (status, headers, body), f"the response object was altered: {ctx}", ["C26"])
    check(len(sent) >= 2 and sent[0]["type"] == "http.response.start" and all(m["type"] == "http.response.body" for m in sent[1:])
          and not sent[-1].get("more_body"), f"messages {sent!r}"[:500], ["C26"])
    check(sent[0]["status"] == status, f"status {sent[0]['status']} instead of {status}: {ctx}", ["C26"])
    got = b"".join(m.get("body", b"") for m in sent[1:])
    check(got == body, f"body {got[:200]!r} instead of {body[:200]!r}: {ctx}", ["C26"])
    raw = [(k.lower(), v) for k, v in sent[0]["headers"]]
    want = sorted((k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in headers.items())
    extra = [h for h in raw if h[0] == b"content-length"]
    check(extra in ([], [(b"content-length", str(len(body)).encode())]), f"content length {extra}: {ctx}", ["C26"])
    rest = sorted(h for h in raw if h[0] != b"content-length")
    check(rest == want, f"headers {rest} instead of {want}: {ctx}", ["C26"])
    return Out(status, {k.decode("latin-1"): v.decode("latin-1") for k, v in raw if k != b"content-length"}, got)


async def asgi(w, endpoint, draft):
    """The transport of histories: each request and response crosses ASGI."""
    h = {k.lower(): v for k, v in draft.headers().items()}
    h.setdefault("host", "as.example")
    url = draft.url()
    rest = url[len("https://as.example"):]
    path, _, q = rest.partition("?")
    user = User(draft.user) if draft.user is not None else None
    scope = {"type": "http", "method": draft.method, "scheme": "https", "path": path, "root_path": "", "query_string": q.encode(),
             "headers": [(k.encode("latin-1"), v.encode("latin-1")) for k, v in h.items()], "server": ("as.example", 443), "user": user}
    body = draft.body()
    seed = len(body) + len(url)
    try:
        got = await w.provider.create_request(StarletteRequest(scope, receiver(body, [seed * k % 401 for k in range(seed % 4)], [seed % 3])))
    except Exception as exc:
        raise Violation(f"conversion of {draft.show()} raised {type(exc).__name__}: {exc}", ["C26"]) from exc
    compare(got, draft.method, url, h, body, user, draft.show())
    fn = w.provider.authorize.get_consent_data if endpoint == "consent" else getattr(w.provider, endpoint)
    resp = await fn(got)
    if isinstance(resp, dict):
        return Out(consent=resp)
    try:
        return await emit(w.provider, resp, f"{draft.show()} -> {resp.status_code} {resp.headers} {resp.body!r}")
    except Violation:
        raise
    except Exception as exc:
        raise Violation(f"conversion of the response to {draft.show()} raised {type(exc).__name__}: {exc}", ["C26"]) from exc


def make_response(r):
    h = None if r["h"] is None else {k: v for k, v in r["h"]}
    kw = {} if r["status"] is None else {"status_code": r["status"]}
    if r["cls"] == "Redirect":
        resp = RedirectResponse(r["url"], headers=h, **kw)
    elif r["cls"] == "JSON":
        resp = JSONResponse(headers=h, body=r["json"], **kw)
    else:
        kind, v = r["body"]
        given = bytes.fromhex(v) if kind == "b" else v
        resp = Response(headers=h, body=given, **kw)
        check(resp.body == (given.encode() if kind == "s" else given or b""), f"body of the response is {resp.body!r}", ["C26"])
    check(r["status"] is None or resp.status_code == r["status"], f"status of the response is {resp.status_code}", ["C26"])
    check(r["cls"] != "JSON" or gen.strict_equal(json.loads(resp.body), r["json"]), f"body of the response is {resp.body!r}", ["C26"])
    for k, v in (h or {}).items():
        if r["cls"] != "Redirect" or k.lower() != "location":
            check(resp.headers.get(k) == v, f"header {k} of the response is {resp.headers.get(k)!r} instead of {v!r}", ["C26"])
    return resp


class _P:
    world = None


def provider():
    if _P.world is None:
        _P.world = StarletteProvider("https://as.example", adapter=adapter_class(World({"scopes": []}, {}, None)), grants=[], scopes=[],
                                     keyset=JsonWebKeySet([JsonWebKey({"kty": "oct", "k": ref.b64e(b"k" * 32), "kid": "k"})]), error_url=ERROR_URLS[0])
    return _P.world


def run(case):
    if "reqs" in case:
        async def all_():
            return await asyncio.gather(*[convert(provider(), r) for r in case["reqs"]])
        big = call(all_())
        return {"nontrivial": any(big), "labels": {f"requests {len(case['reqs'])}"} | {"user " + r["user"] for r in case["reqs"]}}
    if "resps" in case:
        resps = [make_response(r) for r in case["resps"]]
        headers = [dict(r.headers) for r in resps]
        if any(len({k.lower() for k in h}) != len(h) for h in headers):
            return {"nontrivial": False, "labels": {"two spellings of a header"}}
        async def all_():
            return await asyncio.gather(*[emit(provider(), r, f"{type(r).__name__} {r.status_code} {r.headers}") for r in resps])
        outs = call(all_())
        return {"nontrivial": any(o.body or o.headers for o in outs), "labels": {"response " + r["cls"] for r in case["resps"]}}
    labels = run_history(case, asgi)
    return {"nontrivial": any("issued" in l or "code" in l or "granted" in l for l in labels), "labels": {"history: " + l for l in labels}}
