import random

from ..history import *
from ..history import _any, _now, _tz
from ..twin import answer, twin

RULE = ("Cases: histories of requests; each request is sent in plain spelling to a replica (fresh provider over a copy of the data) and, respelled by a generated recipe (parameter order, percent-encoding per "
        "byte, empty segments, unknown and blank parameters, query or body for authorization requests, header and scheme case, unrelated headers, path), to the provider; the two outcomes (status, headers, "
        "parameters, effects) have to be equal. Non-trivial: the recipe changed the bytes of the request.")
QUICK, THOROUGH = 3600, 200000
KNOWN = ["grant_type", "code", "redirect_uri", "code_verifier", "client_id", "client_secret", "scope", "refresh_token", "token", "token_type_hint", "response_type", "state", "nonce",
         "code_challenge", "code_challenge_method"]
EXTRA = ["foo", "utm_source", "ui_locales", "prompt", "display", "login_hint", "audience", "resource", "x", "a.b", "é", "client", "user", "id_token_hint", "scopes", "redirect_url",
         "Code", "STATE", "CLIENT_ID", "Scope", "error", "self", "data", "url", "params", "username", "password", "assertion", "code ", " state", "grant_type[]", "client_id[0]", "header", "null",
         "id", "secret", "csrf_token", "submit"]
_value = gen.weighted((2, gen.text(1, 20)), (1, st.sampled_from(["1", "code", "read", "openid", "https://c.example/cb", "app", "s3cret", "plain", "S256", "true", "x" * 200])))
_recipe = st.fixed_dictionaries({
    "order": gen.weighted((1, st.just(0)), (3, _any)), "bytes": gen.weighted((1, st.just(0)), (3, _any)), "amps": gen.weighted((2, st.just(0)), (1, st.integers(1, 7))),
    "extra": gen.weighted((2, st.just([])), (2, st.lists(st.tuples(gen.weighted((3, st.sampled_from(EXTRA)), (1, gen.text(1, 10))), _value).map(list), min_size=1, max_size=3, unique_by=lambda p: p[0]))),
    "blank": gen.weighted((2, st.just([])), (2, st.lists(st.sampled_from(KNOWN + ["foo"]), min_size=1, max_size=3, unique=True))),
    "split": gen.weighted((2, st.just(0)), (2, st.integers(1, 2 ** 12))), "case": st.integers(0, 3), "scheme": st.integers(0, 3), "method": st.integers(0, 2), "path": st.integers(0, 5), "ctype": st.integers(0, 8),
    "h": gen.weighted((2, st.just([])), (1, st.lists(st.tuples(st.sampled_from(["X-Forwarded-For", "Accept", "Cookie", "User-Agent", "Origin", "Referer", "X-HTTP-Method-Override", "X-Client-Id", "Proxy-Authorization",
                                                                                  "Accept-Language", "DPoP", "X-Authorization", "Host", "Content-Length", "If-None-Match"]),
                                                                 gen.weighted((1, st.sampled_from(["Basic YTpi", "GET", "1", "a=b; c=d", "en", "*/*", ""])), (1, gen.text(0, 12)))).map(list),
                                                                 min_size=1, max_size=3, unique_by=lambda p: p[0])))})


def strategy(tier):
    n = 2 if tier == "quick" else 4
    h = histories((("happy", 3), ("code", 3), ("refresh", 2), ("cc", 3), ("revoke", 3), ("authorize", 4), ("consent", 3)), (("auth", 2),), False, n)
    return st.tuples(h, st.lists(_recipe, min_size=1, max_size=6)).map(lambda t: {**t[0], "recipes": t[1]})


def spell(text, rng, eq=""):
    if rng is None:
        return quote_plus(text)
    out = []
    level = rng.random()
    for b in text.encode():
        c = chr(b)
        if c == " ":
            out.append(rng.choice(["+", "%20"]))
        elif (c.isalnum() and b < 128 or c in "-._~*:/?@!$'(),;[]{}|^`\\<>\"" + eq) and rng.random() > level:
            out.append(c)
        else:
            out.append(rng.choice(["%%%02X", "%%%02x"]) % b)
    return "".join(out)


def join(pairs, rng, amps):
    parts = [spell(k, rng) + "=" + spell(v, rng, "=") for k, v in pairs]
    text = ("&&" if amps & 1 else "&").join(parts)
    if parts and amps & 2:
        text = "&" + text
    if parts and amps & 4:
        text += "&"
    return text


def respell(draft, r, endpoint):
    """The same request, spelled by the recipe; returns (Request, whether bytes changed)."""
    rng = random.Random(r["bytes"]) if r["bytes"] else None
    q, f = [list(p) for p in draft.q], [list(p) for p in draft.f]
    either = endpoint in ("authorize", "consent")
    have = {k for k, _ in q + f}
    more = [[k, v] for k, v in r["extra"] if k not in KNOWN] + [[k, ""] for k in r["blank"] if k not in have and k not in [e[0] for e in r["extra"]]]
    (f if draft.method == "POST" else q).extend(p for p in more if p[0] not in have)
    method = draft.method
    if either and r["split"]:
        # parameters of authorization requests may be in the query or in the body
        every, q, f, method = q + f, [], [], "POST"
        for i, p in enumerate(every):
            (f if r["split"] >> i & 1 else q).append(p)
        if not f and r["split"] & 1 or r["split"] % 5 == 2:
            method = "GET"
    if r["order"]:
        random.Random(r["order"]).shuffle(q)
        random.Random(r["order"] + 1).shuffle(f)
    path = [draft.path, "/oauth2" + draft.path, "/", draft.path + "/", "/a%20b", "/é"][r["path"]]
    qs = join(q, rng, r["amps"])
    host = ["https://as.example", "http://localhost:8080", "https://other.example"][r["path"] % 3]
    url = host + path + ("?" + qs if qs or r["amps"] == 7 else "")
    headers = {k: v for k, v in r["h"]}
    for k, v in draft.h.items():
        if k.lower() == "authorization":
            k = [k, "authorization", "AUTHORIZATION", "Authorization"][r["case"]]
            if draft.basic and v.lower().startswith("basic "):
                v = [v[:5], "basic", "BASIC", "bASIc"][r["scheme"]] + v[5:]
        headers[k] = v
    if f:
        headers[["Content-Type", "content-type", "CONTENT-TYPE"][r["case"] % 3]] = ["application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8",
                                                                                   "application/x-www-form-urlencoded;charset=utf-8", "Application/X-WWW-Form-Urlencoded", "application/x-www-form-urlencoded",
                                                                                   "application/x-www-form-urlencoded; charset=\"utf-8\"", "application/x-www-form-urlencoded; charset=x-user-defined",
                                                                                   "application/x-www-form-urlencoded; charset=utf-16; q=1", "application/x-www-form-urlencoded;q=1; charset=UTF-16"][r["ctype"]]
    body = join(f, rng, r["amps"]).encode()
    method = [method, method.lower(), method.title()][r["method"]]
    changed = (url, body, headers) != (draft.url(), draft.body(), draft.headers())
    return (method, url, headers, body), changed


class Spelled:
    """Stands in for the draft where a Request is needed."""

    def __init__(self, parts, user):
        self.parts, self.user = parts, user

    def request(self):
        return Request(*self.parts, User(self.user) if self.user is not None else None)

    def show(self):
        return "%s %s %s %r" % self.parts


def run(case):
    labels, n, changed = set(), 0, False
    with env.world_time(case["now"] / 1000, case["tz"]) as clock:
        w = start(case["world"], clock)
        for o in case["ops"]:
            if o["o"] in ("advance", "mutate"):
                step(w, o)
                continue
            if o["o"] == "many":
                o = o["op"]
                if o["o"] in ("advance", "mutate"):
                    continue
            endpoint, draft = build(w, o)
            draft.style = 0
            for end in [endpoint] + (["authorize"] if o["o"] == "consent" and o.get("then") else []):
                r = case["recipes"][n % len(case["recipes"])]
                n += 1
                parts, ch = respell(draft, r, end)
                changed |= ch
                spelled = Spelled(parts, draft.user)
                want, _, _ = answer(twin(w), end, draft)
                pre = copy.deepcopy(w.db)
                got, out, log = answer(w, end, spelled)
                check(got == want, f"outcome depends on the spelling of the request: {draft.show()} has {want}; {spelled.show()} has {got}", ["C31"])
                absorb(w, pre, draft, log)
                learn(w, o, draft)
                labels.add(end + " " + str(got.get("status", "consent" if "consent" in got else "raised")))
    return {"nontrivial": changed, "labels": labels}
