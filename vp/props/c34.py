import asyncio

from psion.oauth2 import exceptions as X
from psion.oauth2.authentication.methods import BaseAuthentication
from psion.oauth2.grants import BaseGrant

from ..history import *
from ..history import _any
from ..twin import answer, twin

RULE = ("Cases: a provider with 1-3 grants of the application's own (token and/or authorization part, permitted authentication methods, checkpoints, what they return or raise) besides built-in ones, "
        "and an authentication method of its own; 1-8 requests to own and built-in grants. Requests to own grants are judged by the statement, all others by a replica that has only the built-in grants. "
        "Non-trivial: an own grant or the own authentication method was used.")
QUICK, THOROUGH = 3600, 200000
TYPES = ["urn:ietf:params:oauth:grant-type:device_code", "urn:ietf:params:oauth:grant-type:jwt-bearer", "password", "refresh", "authorization_code2", "code", "client_credentials2", "é x", "Refresh_Token", "0"]
RTYPES_ = ["token", "code token", "code id_token", "id_token", "Code", "code2", "none", "cod", "urn:x"]
APP = "app_key"
ALL = (BASIC, POST, NONE, APP)
ERRORS = ["AccessDenied", "InvalidRequest", "InvalidScope", "InvalidGrant", "UnauthorizedClient", "InvalidClient"]
PARAMS = ["device_code", "username", "assertion", "state2", "resource", "é", "a b", "data", "client", "user", "self", "response_mode", "login_hint", "Scope"]
TARGETS = ["https://elsewhere.example/x", "https://elsewhere.example/cb?a=1&b=x%20y", "https://elsewhere.example/cb#access_token=1&state=z", "app.example:/cb?x=1+2", "https://u:p@e.example:8443/;p?q=%2B&&r"]
_svalue = gen.weighted((2, gen.text(1, 12)), (1, st.sampled_from(["1", "a&b=c", "+", "%20", "é", "x" * 300])))


class Fault(Exception):
    pass


class AppKey(BaseAuthentication):
    """A client authentication method of the application's own."""
    __method__ = APP

    async def authenticate(self, request):
        v = request.headers.get("x-app-key")
        if v is None or v == "no":
            return None
        if v == "bad":
            raise X.InvalidClient(description="bad key")
        client = await self.find_client(bytes.fromhex(v).decode())
        if client is None:
            raise X.InvalidClient(description="no such client")
        return client


_behave = st.one_of(
    st.dictionaries(st.sampled_from(["access_token", "token_type", "expires_in", "device", "é", "scope", "interval", "list"]), gen.json_values(4).filter(lambda v: v is not None), min_size=1, max_size=3)
    .map(lambda d: {"k": "ret", "ret": d}),
    st.just({"k": "issue"}), st.just({"k": "issue"}), st.sampled_from(ERRORS).map(lambda e: {"k": "oauth", "err": e}), st.just({"k": "fault"}), st.just({"k": "fatal"}))


@st.composite
def _own(draw, i):
    k = draw(st.integers(0, 3))
    return {"gt": TYPES[(draw(_any) + 1) % len(TYPES)] if k < 3 else None, "rt": RTYPES_[draw(_any) % len(RTYPES_)] if k >= 2 else None,
            "methods": draw(gen.weighted((3, st.none()), (3, st.lists(st.sampled_from(ALL), unique=True, min_size=1)), (1, st.just([])))),
            "does": draw(st.lists(_behave, min_size=1, max_size=3)), "to": draw(st.lists(st.sampled_from(TARGETS), min_size=1, max_size=2)), "wait": draw(st.integers(0, 2)),
            "points": draw(gen.weighted((2, st.just([])), (1, st.just(["token_request"])), (1, st.just(["before_own"])))), "ext": draw(st.integers(0, 2))}


_req = st.fixed_dictionaries({
    "ep": gen.weighted((5, st.just("own")), (2, st.just("ownauth")), (1, st.just("near")), (1, st.just("nearauth")), (1, st.just("cc")), (1, st.just("revoke")), (1, st.just("builtin"))),
    "g": st.integers(0, 2), "c": st.integers(0, 3), "a": _any, "auth": gen.weighted((5, st.just("proper")), (3, st.just("app")), (1, st.just("appno")), (1, st.just("appbad")), (2, st.just("flaw")), (1, st.just("none"))),
    "params": st.lists(st.tuples(st.sampled_from(PARAMS), _svalue).map(list), max_size=3, unique_by=lambda p: p[0]), "query": st.booleans(), "flaw": st.sampled_from(["", "", "", "user", "uri", "cid", "rtype"]),
    "state": gen.weighted((1, st.none()), (2, _svalue)), "scope": st.integers(0, 2 ** 12)})


@st.composite
def _case(draw):
    h = draw(histories((("authorize", 1), ("code", 1), ("refresh", 1), ("consent", 1)), (), False, 2))
    own, seen = [], set()
    for i in range(draw(st.integers(1, 3))):
        g = draw(_own(i))
        if g["gt"] in seen:
            g["gt"] = None
        if g["rt"] in seen:
            g["rt"] = None
        if g["gt"] or g["rt"]:
            seen |= {g["gt"], g["rt"]}
            own.append(g)
    return {**h, "own": own, "reqs": draw(st.lists(_req, min_size=1, max_size=8)), "reg": draw(gen.weighted((2, st.just(-1)), (1, _any))), "pos": draw(st.integers(0, 3))}


def strategy(tier):
    return _case()


def make_grant(w, i, spec, calls):
    counts = [0, 0]

    class Own(BaseGrant):
        __grant_type__ = spec["gt"]
        __response_type__ = spec["rt"]
        __authentication_methods__ = spec["methods"]

        async def _act(self, what, args):
            n = counts[what == "authorize"]
            counts[what == "authorize"] += 1
            b = dict(spec["does"][n % len(spec["does"])])
            rec = {"g": i, "what": what, "args": [copy.deepcopy(x) if isinstance(x, dict) else x for x in args], "b": b, "mine": self.adapter is w.provider.adapter and self.config is w.provider.config, "ext": []}
            calls.append(rec)
            for _ in range(spec["wait"]):
                await asyncio.sleep(0)
            for p in spec["points"]:
                async for r in self._execute_hook(p, rec["args"][0]):
                    rec["ext"].append([p, r])
            if b["k"] == "oauth":
                raise getattr(X, b["err"])()
            if b["k"] == "fault":
                raise Fault("own grant")
            if b["k"] == "fatal" and what == "authorize":
                raise X.FatalError("server_error")
            if what == "authorize":
                rec["url"] = spec["to"][n % len(spec["to"])]
                return rec["url"]
            if b["k"] == "issue":
                data, client = args
                scopes = (data.get("scope") or "").split()
                self._validate_requested_scopes(scopes, client)
                token = await self.adapter.create_access_token(client, client, scopes)
                rec["ret"] = {"access_token": token, "token_type": "Bearer", "expires_in": self.config.token_lifespan, **({"scope": " ".join(scopes)} if scopes else {})}
                return self._create_token(token, self.config.token_lifespan, None, scopes)
            rec["ret"] = b.get("ret", {"access_token": "t"})
            return copy.deepcopy(rec["ret"])

        async def token(self, data, client):
            return await self._act("token", [data, client])

        async def authorize(self, data, client, user):
            return await self._act("authorize", [data, client, user])
    if spec["points"] == ["before_own"]:
        Own.__hooks__ = {"before_own": set()}
    return Own


def make_ext(w, i, n):
    class Ext:
        def __init__(self, adapter, config):
            check(adapter is w.provider.adapter and config is w.provider.config, "extension built with another provider's storage", ["C34"])

        async def token_request(self, data):
            return {"ext": [i, n, "token_request"]}

        async def before_own(self, data):
            return {"ext": [i, n, "before_own"]}
    return Ext


def identify(w, r, d, cid, methods):
    """Put credentials on the request; returns the client the request stands for, or None."""
    if r["auth"] in ("proper", "appno", "flaw"):
        present(w, d, cid)
        if r["auth"] == "flaw":
            auth_flaw(w, d, cid, ["secret", "nocreds", "othermethod", "unknown", "nonesecret", "query"][r["a"] % 6], r["a"] // 6)
        if r["auth"] == "appno":
            d.h["X-App-Key"] = "no"
        return authenticated(w.db, d, [m for m in methods if m != APP])[0]
    if r["auth"] == "none":
        return None
    d.h["x-app-KEY"] = "bad" if r["auth"] == "appbad" else cid.encode().hex() if r["a"] % 9 else b"nobody".hex()
    if r["auth"] == "appbad" or APP not in methods or not r["a"] % 9:
        return None
    return cid


def run(case):
    labels, used, calls = set(), False, []
    with env.world_time(case["now"] / 1000, case["tz"]) as clock:
        spec = copy.deepcopy(case["world"])
        clients = list(spec["db"]["clients"].values())
        for n, c in enumerate(clients):
            for i, g in enumerate(case["own"]):
                if case["reg"] >> (3 * n + i) & 1:
                    c["grants"] = c["grants"] + [g["gt"]] * bool(g["gt"])
                    c["rtypes"] = c["rtypes"] + [g["rt"]] * bool(g["rt"])
                else:
                    c["rtypes"] = [t for t in c["rtypes"] if t != g["rt"]]
        w = start(spec, clock)
        builtin = list(w.cfg["grants"])
        own = {"own%d" % i: make_grant(w, i, g, calls) for i, g in enumerate(case["own"])}
        w.grant_classes = {**GRANTS, **own}
        w.cfg["grants"] = (list(own) + builtin) if case["pos"] == 0 else builtin[:1] + list(own) + builtin[1:] if case["pos"] == 1 else builtin + list(own)
        w.build()
        for i, g in enumerate(case["own"]):
            for n in range(g["ext"]):
                w.provider.add_hook(own["own%d" % i], make_ext(w, i, n))

        def plain_twin():
            t = twin(w)
            t.cfg["grants"] = builtin
            return t.build()

        def differential(endpoint, d, o=None):
            del calls[:]
            pre = copy.deepcopy(w.db)
            base, _, _ = answer(plain_twin(), endpoint, d)
            got, out, log = answer(w, endpoint, d)
            check(got == base and not calls, f"{d.show()}: a provider with only the built-in grants has {base}, with the own grants {case['own']} it is {got}, calls {calls}", ["C34"])
            absorb(w, pre, d, log)
            if o:
                learn(w, o, d)

        hist = [o for o in case["ops"] if o["o"] != "many"]
        for r in case["reqs"]:
            cid = pick(list(w.db["clients"]), r["c"])
            client = w.db["clients"][cid]
            g = case["own"][r["g"] % len(case["own"])]
            gi = r["g"] % len(case["own"])
            ep = r["ep"]
            if ep == "own" and not g["gt"]:
                ep = "ownauth"
            if ep == "ownauth" and not g["rt"]:
                ep = "own"
            if ep == "builtin":
                if not hist:
                    continue
                o = hist.pop(0)
                if o["o"] in ("advance", "mutate"):
                    if o["o"] == "advance":
                        step(w, o)
                    continue
                endpoint, d = build(w, o)
                rt, gt = d.data().get("response_type"), d.data().get("grant_type")
                if rt in [x["rt"] for x in case["own"]] or gt in [x["gt"] for x in case["own"]]:
                    continue
                differential(endpoint, d, o)
                labels.add("built-in " + endpoint)
                continue
            if ep == "near":
                name = near(g["gt"] or "x", r["a"])
                if name in [x["gt"] for x in case["own"]] or not name or name in GRANTS:
                    continue
                d = Draft("POST", "/token")
                d.put("grant_type", name)
                identify(w, r, d, cid, ALL)
                differential("token", d)
                labels.add("near an own grant type")
                continue
            if ep == "nearauth":
                name = near(g["rt"] or "code", r["a"])
                if not name or any(x and sorted(name.split()) == sorted(x.split()) for x in ["code"] + [x["rt"] for x in case["own"]]):
                    continue
                w.db["clients"][cid] = {**client, "rtypes": client["rtypes"] + [name]}
                o = {"o": "authorize", "c": r["c"], "u": r["a"], "r": r["a"], "s": 2 ** 14 - 1, "m": "S256", "v": "v" * 43, "state": r["state"], "nonce": None, "get": True, "style": 0, "flaws": []}
                endpoint, d = build(w, o)
                d.put("response_type", name)
                differential(endpoint, d, o)
                labels.add("near an own response type")
                continue
            del calls[:]
            pre = copy.deepcopy(w.db)
            if ep == "revoke" or ep == "cc":
                d = Draft("POST", "/revoke" if ep == "revoke" else "/token")
                d.put(*(("token", "tok" + str(r["a"])) if ep == "revoke" else ("grant_type", "client_credentials")))
                methods = ALL if ep == "revoke" else (BASIC, POST)
                who = identify(w, r, d, cid, methods)
                if ep == "cc" and "client_credentials" not in builtin:
                    continue
                got, out, log = answer(w, "revoke" if ep == "revoke" else "token", d)
                ctx = f"{d.show()} -> {got}"
                check(not isinstance(out, BaseException) and not calls, f"raised, or own grants ran: {ctx}", ["C34"])
                if ep == "revoke":
                    want = [["revoke", who, "tok" + str(r["a"]), None]] if who else []
                    check(log == want and (out.status == 200) == bool(who), f"expected {want}: {ctx}", ["C34"])
                else:
                    ok = who and "client_credentials" in pre["clients"][who]["grants"]
                    check((out.status == 200) == bool(ok) and (ok or not effects(log)), f"client credentials for {who}: {ctx}", ["C34"])
                used |= r["auth"].startswith("app")
                labels.add(f"{ep} {r['auth']} {'done' if out.status == 200 else 'refused'}")
                continue
            if ep == "own":
                d = Draft("POST", "/token")
                d.put("grant_type", g["gt"])
                for k, v in r["params"]:
                    d.put(k, v, not (r["query"] and len(v) % 2))
                scope = [s for j, s in enumerate(SCOPES) if r["scope"] >> j & 1][: r["a"] % 3]
                if scope:
                    d.put("scope", " ".join(scope))
                who = identify(w, r, d, cid, g["methods"] or ALL)
                got, out, log = answer(w, "token", d)
                story = [(c["g"], c["what"], c["b"]) for c in calls]
                ctx = f"{d.show()} -> {got}; own grant {g}; client {who}; calls {story}"
                ok = who is not None and g["gt"] in pre["clients"][who]["grants"]
                check([(c["g"], c["what"]) for c in calls] == ([(gi, "token")] if ok else []), f"own grants called: {ctx}", ["C34"])
                if not ok:
                    check(not isinstance(out, BaseException), f"raised: {ctx}", ["C34"])
                    body = json_body(out, ["C34"])
                    check(out.status in (400, 401) and body.get("error") == ("unauthorized_client" if who is not None else "invalid_client") and not effects(log), f"should be refused: {ctx}", ["C34"])
                    labels.add("token refused: " + body["error"])
                    continue
                used = True
                c = calls[0]
                check(c["mine"], f"own grant has another provider's storage: {ctx}", ["C34"])
                check(isinstance(c["args"][0], dict) and all(c["args"][0].get(k) == v for k, v in d.data().items() if k != "grant_type"), f"own grant was given {c['args'][0]}: {ctx}", ["C34"])
                check(c["args"][1].get_client_id() == who, f"own grant was given another client: {ctx}", ["C34"])
                check(sorted(json.dumps(x) for x in c["ext"]) == sorted(json.dumps([p, {"ext": [gi, n, p]}]) for p in g["points"] for n in range(g["ext"])), f"extensions of the own grant: {c['ext']}: {ctx}", ["C34"])
                b = c["b"]
                if b["k"] == "fault":
                    check(isinstance(out, Fault) or not isinstance(out, BaseException) and out.status >= 400, f"fault of an own grant: {ctx}", ["C34"])
                    labels.add("token fault")
                    continue
                check(not isinstance(out, BaseException), f"raised: {ctx}", ["C34"])
                body = json_body(out, ["C34"])
                check("no-store" in directives(out, "cache-control") and "no-cache" in directives(out, "pragma"), f"may be cached: {ctx}", ["C34"])
                bad = b["k"] == "issue" and not set(scope) <= set(w.cfg["scopes"]) & set(pre["clients"][who]["scopes"])
                if b["k"] == "oauth" or bad:
                    code = "invalid_scope" if bad else ERROR_CODES[b["err"]]
                    check(out.status in (400, 401) and body.get("error") == code and not effects(log), f"expected error {code}: {ctx}", ["C34"])
                    labels.add("token error")
                    continue
                check(out.status == 200 and gen.strict_equal(body, json.loads(json.dumps(c["ret"]))), f"own grant returned {c['ret']}: {ctx}", ["C34"])
                labels.add("token " + b["k"])
                continue
            # authorization by an own grant
            d = Draft("GET", "/authorize")
            uri = pick(client["uris"], r["a"], "https://none.example/")
            d.user = pick(list(w.db["users"]), r["a"]) if r["flaw"] != "user" else None
            d.put("response_type", g["rt"] if r["flaw"] != "rtype" else pick(["tokens", "code token x", "zzz"], r["a"]))
            d.put("client_id", cid if r["flaw"] != "cid" else "unknown client")
            d.put("redirect_uri", uri if r["flaw"] != "uri" else near_uri(uri, r["a"]))
            if r["state"]:
                d.put("state", r["state"])
            for k, v in r["params"]:
                d.put(k, v)
            data = d.data()
            fatal = r["flaw"] == "cid" or data["redirect_uri"] not in client["uris"]
            why = set()
            if d.user is None:
                why.add("access_denied")
            if r["flaw"] == "rtype" and data["response_type"] not in [x["rt"] for x in case["own"]]:
                why |= {"unsupported_response_type", "unauthorized_client"} if data["response_type"] not in client["rtypes"] else {"unsupported_response_type"}
            elif data["response_type"] not in client["rtypes"]:
                why.add("unauthorized_client")
            if r["flaw"] == "rtype" and data["response_type"] in [x["rt"] for x in case["own"]]:
                continue
            got, out, log = answer(w, "authorize", d)
            story = [(c["g"], c["what"], c["b"]) for c in calls]
            ctx = f"{d.show()} -> {got}; own grant {g}; calls {story}"
            ok = not fatal and not why
            check([(c["g"], c["what"]) for c in calls] == ([(gi, "authorize")] if ok else []), f"own grants called: {ctx}", ["C34"])
            if ok:
                used = True
                c = calls[0]
                check(c["mine"], f"own grant has another provider's storage: {ctx}", ["C34"])
                check(isinstance(c["args"][0], dict) and all(c["args"][0].get(k) == v for k, v in data.items() if k != "response_type"), f"own grant was given {c['args'][0]}: {ctx}", ["C34"])
                check(c["args"][1].get_client_id() == cid and c["args"][2].get_user_id() == d.user, f"own grant was given another client or user: {ctx}", ["C34"])
                b = c["b"]
                if b["k"] == "fault":
                    check(isinstance(out, Fault) or not isinstance(out, BaseException) and not any(out.headers.get("location", "").startswith(t) for t in TARGETS), f"fault of an own grant: {ctx}", ["C34"])
                    labels.add("authorize fault")
                    continue
            check(not isinstance(out, BaseException), f"raised: {ctx}", ["C34"])
            loc = location(out, ["C34"])
            if ok and c["b"]["k"] not in ("oauth", "fatal"):
                check(loc == c["url"], f"own grant sent the user agent to {c['url']}: {ctx}", ["C34"])
                labels.add("authorize granted")
                continue
            fatal |= ok and c["b"]["k"] == "fatal"
            p = under(loc, w.cfg["error_url"] if fatal else data["redirect_uri"])
            check(p is not None and "error" in p, f"expected an error at {'the error page' if fatal else 'the client'}: {ctx}", ["C34"])
            if not fatal:
                want = {ERROR_CODES[c["b"]["err"]]} if ok else why
                check(p["error"] in want and p.get("state") == data.get("state"), f"expected one of {want} with the state: {ctx}", ["C34"])
            labels.add("authorize " + ("fatal" if fatal else "refused"))
    return {"nontrivial": used, "labels": labels}
