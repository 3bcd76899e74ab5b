import copy

from ..history import *
from ..history import _now, _small, _any

RULE = ("Cases: raw fuzz - 1-6 requests (missing, repeated, blank, non-ASCII, undecodable, oversized parameters; arbitrary headers and bodies) derived from valid ones or made of "
        "random bytes, sent to the three endpoints of a provider with issued codes and tokens; and model-judged histories. Every response is checked for form, kept, altered by the "
        "harness after being snapshotted, and compared again at the end. Non-trivial: a raw request with at least one byte of query or body, or a judged response.")
QUICK, THOROUGH = 4800, 300000
NAMES = ["grant_type", "code", "redirect_uri", "code_verifier", "client_id", "client_secret", "scope", "refresh_token", "token", "token_type_hint", "response_type", "state", "nonce",
         "code_challenge", "code_challenge_method", "error", "x", "", "url", "params", "data", "self", "headers", "uri", "description"]
VALUES = ["", "authorization_code", "refresh_token", "client_credentials", "code", "token", "S256", "plain", "openid", "read write", "%", "%ff", "%C3%28", "%00", "+", "a" * 43,
          "é" * 43, "\ud7ff", "%F0%9F%98%80", "%ED%A0%80", "https://c.example/cb", "\x00", "null", "[]", "a=b", "%0d%0aX:y", "%u1234", "0", "-1", "NaN"]
_tok = gen.weighted((3, st.sampled_from(VALUES)), (2, gen.text(0, 30).map(quote_plus)), (1, gen.text(0, 20).map(lambda t: t.replace("&", "").replace("#", ""))),
                    (1, st.binary(max_size=12).map(lambda b: "".join("%%%02x" % c for c in b))), (1, st.sampled_from(["A" * 5000, "%41" * 3000, "é" * 2000, "a b " * 1000])))
_pair = st.tuples(gen.weighted((4, st.sampled_from(NAMES)), (1, gen.text(0, 8).map(quote_plus))), _tok, st.sampled_from(["=", "=", "=", "=", "", "=="])).map(lambda t: t[0] + t[2] + t[1])
_few = st.tuples(st.lists(_pair, max_size=8), st.sampled_from(["&", "&", "&", ";", "&&", "&amp;"])).map(lambda t: t[1].join(t[0]))
_lots = st.tuples(_few, st.sampled_from([40, 101, 130, 260, 520, 1100, 3000]), st.sampled_from(["p%d=1", "p%d", "scope=a%d", "=%d", "p%d="])).map(lambda t: "&".join([t[2] % i for i in range(t[1])] + [t[0]]))
_qs = gen.weighted((14, _few), (1, _lots))
_authz = gen.weighted((2, st.sampled_from(MALFORMED + ["Basic " + "A" * 4000, "Basic =", "Basic ====", "Basic ::::", "Basic OjpA", "Basic OmE=", "Basic YTo=", "Basic AAAA"])),
                      (2, st.tuples(gen.text(0, 8), gen.text(0, 8)).map(lambda t: "Basic " + base64.b64encode(f"{t[0]}:{t[1]}".encode()).decode())),
                      (1, st.binary(max_size=9).map(lambda b: "Basic " + base64.b64encode(b).decode())), (1, gen.text(0, 12)), (1, gen.text(0, 12).map(lambda t: "Basic " + t)))
_headers = st.tuples(st.one_of(st.none(), _authz), st.lists(st.tuples(st.sampled_from(["X-A", "Host", "Content-Type", "Accept", "Cookie", "WWW-Authenticate", "Pragma", "Cache-Control"]),
                                                                      gen.text(0, 10)).map(list), max_size=3, unique_by=lambda t: t[0])).map(lambda t: t[1] + ([["Authorization", t[0]]] if t[0] is not None else []))
_body = gen.weighted((5, _qs.map(lambda s: s.encode().hex())), (2, gen.blob(3000)), (1, st.none()), (1, st.sampled_from([b"{}".hex(), b'{"grant_type": "x"}'.hex(), "ff", "c328", "00", "262626", "3d"])))
BASES = ["https://as.example/"] * 6 + ["https://as.example/tenant/é/", "https://as.example//", "http://as.example:8080/a%20b/", "https://as.example/%ff/", "/", "", "https://bücher.example/",
         "https://as.example/a;b=c/", "HTTPS://AS.EXAMPLE/", "https://user:pw@as.example/", "http://[::1]:80/", "https://as.example/\u4e2d\u6587/", "https://as.example/a:b/", "https://as.example/" + "d/" * 500]
_base = st.sampled_from(BASES)
_method = st.sampled_from(["POST", "POST", "GET", "post", "Get"])
# a raw request: either from scratch or an alteration of a built one
_scratch = st.fixed_dictionaries({"k": st.just("raw"), "end": st.sampled_from(["authorize", "token", "revoke"]), "method": _method, "q": _qs, "b": _body, "h": _headers, "u": _small, "base": _base})
_edit = st.tuples(st.sampled_from(["add", "addq", "dup", "dupblank", "tail", "head", "trunc", "flip", "insert", "upper", "swap", "lots"]), _any, _pair).map(list)
_built = st.tuples(ops((("authorize", 2), ("code", 3), ("refresh", 2), ("cc", 2), ("revoke", 2))), st.lists(_edit, min_size=1, max_size=3), _headers, st.integers(0, 3), _base).map(
    lambda t: {"k": "edit", "op": t[0], "edits": t[1], "h": t[2] if t[3] == 0 else [], "base": t[4]})


@gen.cached
def _raw(n):
    return st.fixed_dictionaries({"world": worlds(False), "now": _now, "tz": st.just("UTC"), "setup": episodes((("happy", 2), ("codes", 1))),
                                  "reqs": st.lists(gen.weighted((2, _scratch), (3, _built)), min_size=1, max_size=n)})


def strategy(tier):
    return gen.weighted((2, _raw(6 if tier == "quick" else 14)),
                        (1, histories((("happy", 2), ("code", 2), ("refresh", 2), ("cc", 2), ("revoke", 2), ("authorize", 2), ("many", 1)), (), True, 3)))


MARK = hashlib.sha1(b"mark").hexdigest()  # computed, so that no generator can come up with it


class Keep:
    """Transport that keeps every response, and alters it after the fact."""

    def __init__(self):
        self.seen, self.n = [], 0

    async def __call__(self, w, endpoint, draft):
        return await self.send(w, endpoint, draft.request())

    async def send(self, w, endpoint, request):
        fn = w.provider.authorize.get_consent_data if endpoint == "consent" else getattr(w.provider, endpoint)
        resp = await fn(request)
        if isinstance(resp, dict):
            return Out(consent=resp)
        check(all(resp is not r for r, _ in self.seen), "the same response object is returned twice", ["C22"])
        check(all(resp.headers is not r.headers for r, _ in self.seen), "two responses share their headers", ["C22"])
        check(not any(MARK in str(k).lower() or MARK in str(v).lower() for k, v in resp.headers.items()) and MARK.encode() not in resp.body.lower(),
              f"response contains what was put in an earlier one: {resp.headers} {resp.body!r}", ["C22"])
        out = plain(resp)
        out.headers = dict(out.headers)
        self.n += 1
        resp.headers["X-" + MARK] = MARK + str(self.n)
        resp.headers["Cache-Control"] = MARK
        resp.headers["WWW-Authenticate"] = MARK
        self.seen.append((resp, dict(resp.headers)))
        return out

    def end(self):
        for resp, headers in self.seen:
            check(resp.headers == headers, f"a later request altered an earlier response: {headers} -> {resp.headers}", ["C22"])


def apply_edits(q, body, edits):
    for name, a, pair in edits:
        sep = "&" if body else ""
        if name == "add":
            body += sep + pair
        elif name == "addq":
            q += ("&" if q else "") + pair
        elif name in ("dup", "dupblank"):
            parts = body.split("&") if body else q.split("&")
            p = parts[a % len(parts)]
            extra = p if name == "dup" else p.split("=")[0] + "="
            if body:
                body += "&" + extra
            else:
                q += "&" + extra
        elif name == "tail":
            body += ["&", "=", "%", "\x00", "&&&", "&=", "é"][a % 7]
        elif name == "head":
            body = ["&", "=", "%", "?", "\ufeff", " "][a % 6] + body
        elif name == "trunc":
            body, q = body[: a % (len(body) + 1)], q
        elif name == "flip" and body:
            i = a % len(body)
            body = body[:i] + chr((ord(body[i]) ^ (1 << a % 7)) & 0x7f) + body[i + 1:]
        elif name == "insert":
            i = a % (len(body) + 1)
            body = body[:i] + pair + body[i:]
        elif name == "upper":
            body = body.upper() if a % 2 else body.title()
        elif name == "lots":
            body += sep + "&".join("p%d=%d" % (i, a) for i in range([40, 101, 260, 1100][a % 4]))
        elif name == "swap":
            q, body = body, q
    return q, body


def run(case):
    keep = Keep()
    if "reqs" not in case:
        labels = run_history(case, keep)
        keep.end()
        return {"nontrivial": bool(labels), "labels": set(labels)}
    labels, nontrivial = set(), False
    with core.soft(), env.world_time(case["now"] / 1000, case["tz"]) as clock:
        w = start(case["world"], clock)
        for o in case["setup"]:
            step(w, o, keep)
        for r in case["reqs"]:
            if r["k"] == "raw":
                end, method, q, headers = r["end"], r["method"], r["q"], dict(r["h"])
                body = None if r["b"] is None else bytes.fromhex(r["b"])
                user = pick(list(w.db["users"]), r["u"]) if r["u"] else None
            else:
                end, d = build(w, r["op"])
                q, text = apply_edits(encode(d.q), encode(d.f), r["edits"])
                body, headers, method, user = text.encode("utf-8", "replace"), {**d.headers(), **dict(r["h"])}, d.method, d.user
            url = r.get("base", BASES[0]) + end + ("?" + q if q else "")
            nontrivial |= bool(q or body)
            try:
                req = Request(method, url, headers, body, User(user) if user is not None else None)
                out = call(keep.send(w, end, req))
            except Violation:
                raise
            except Exception as exc:
                raise Violation(f"{end} raised {type(exc).__name__}: {exc} on {method} {url!r} {headers} {body!r}", ["C22"]) from exc
            if end == "authorize":
                loc = location(out, ["C22"])
                uris = [u for c in w.db["clients"].values() for u in c["uris"]]
                check(any(loc.startswith(u) for u in uris + [w.cfg["error_url"]]), f"redirect to {loc!r}", ["C22", "C15"])
                labels.add("raw authorize " + ("code" if "code=" in loc.split("?", 1)[-1] else "error"))
            elif end == "token":
                kind, body_ = token_format(out)
                if kind == "ok":
                    check(str(body_.get("token_type")).lower() == "bearer" and body_.get("expires_in") == w.cfg["lifespan"], f"token response {out.show()}", ["C22"])
                labels.add("raw token " + (kind if kind == "ok" else body_["error"]))
            else:
                b = json_body(out, ["C22"])
                check(out.status == 200 or out.status in (400, 401) and isinstance(b, dict) and b.get("error") in TOKEN_ERRORS, f"revocation response {out.show()}", ["C22"])
                labels.add("raw revoke %s" % out.status)
            learn(w, {"v": "?"}, Draft("GET", "/"))
    keep.end()
    return {"nontrivial": nontrivial, "labels": labels}
