import asyncio

from psion.oauth2 import exceptions as X
from psion.oauth2.authentication.methods import BaseAuthentication
from psion.oauth2.grants import BaseGrant

from ..history import *
from ..history import _any
from ..twin import answer, twin
from .c30 import METHODS

RULE = ("Cases: a history, then 1-4 requests during which the application raises a generated OAuth 2.1 error (built-in or own error class; description, URI and response headers present or not) from its "
        "storage, an extension, an authentication method or a grant; the answer has to report exactly that error in the form of the endpoint, and requests in between and afterwards are those of a fresh "
        "provider. Non-trivial: an error was raised.")
QUICK, THOROUGH = 3600, 200000
POINTS = ["authorization_request", "authorization_response", "token_request", "token_response"]
CODES = {"InvalidRequest": "invalid_request", "InvalidClient": "invalid_client", "InvalidGrant": "invalid_grant", "UnauthorizedClient": "unauthorized_client", "AccessDenied": "access_denied",
         "UnsupportedResponseType": "unsupported_response_type", "UnsupportedGrantType": "unsupported_grant_type", "UnsupportedTokenType": "unsupported_token_type", "InvalidScope": "invalid_scope",
         "ServerError": "server_error", "TemporarilyUnavailable": "temporarily_unavailable"}
OWN = ["login_required", "consent_required", "authorization_pending", "slow_down", "insufficient_user_authentication", "x", "é error", "invalid_dpop_proof"]
HEADERS = [["Retry-After", "120"], ["WWW-Authenticate", "Basic"], ["WWW-Authenticate", 'DPoP error="use_dpop_nonce", algs="ES256"'], ["DPoP-Nonce", "eyJ7S_zG.eyJH0-Z"], ["X-Reason", "a, b; c"], ["Vary", "*"], ["Cache-Control", "private, max-age=60"], ["Pragma", "x-y"]]
CACHING = {"cache-control", "pragma"}


class Armed:
    """The error the application raises next."""
    exc = None
    fired = False

    @classmethod
    def fire(cls):
        cls.fired = True
        raise cls.exc


class Hook(BaseAuthentication):
    """A client authentication method of the application's own."""
    __method__ = "hook"

    async def authenticate(self, request):
        if request.headers.get("x-hook"):
            Armed.fire()
        return None


class Device(BaseGrant):
    __grant_type__ = "urn:device"
    __response_type__ = "device"

    async def token(self, data, client):
        await asyncio.sleep(0)
        Armed.fire()

    async def authorize(self, data, client, user):
        Armed.fire()


def extension(point):
    async def method(self, *args, **kw):
        if Armed.exc is not None and Armed.at == point:
            Armed.fire()
    return type("Ext", (), {"__init__": lambda self, adapter, config: None, point: method})


_error = st.fixed_dictionaries({
    "cls": gen.weighted((6, st.sampled_from(list(CODES))), (2, st.sampled_from(OWN).map(lambda c: "own:" + c)), (1, st.sampled_from(list(CODES)).map(lambda c: "sub:" + c)),
                        (2, st.sampled_from(OWN + ["server_error"]).map(lambda c: "fatal:" + c))),
    "d": gen.weighted((1, st.none()), (3, gen.text(1, 30))), "u": gen.weighted((2, st.none()), (1, st.sampled_from(["https://as.example/doc#e", "https://as.example/e?a=b&c=d", "/errors", "é"]))),
    "h": gen.weighted((2, st.none()), (3, st.lists(st.sampled_from(HEADERS), min_size=1, max_size=3, unique_by=lambda p: p[0])))})
_shot = st.fixed_dictionaries({
    "src": gen.weighted((5, st.just("storage")), (3, st.just("ext")), (2, st.just("auth")), (2, st.just("grant"))), "n": st.integers(0, 60), "when": st.sampled_from(["before", "after"]), "err": _error,
    "op": gen.weighted((3, op("code", (), (0,))), (1, op("refresh", (), (0,))), (2, op("cc", (), (0,))), (2, op("revoke", (), (0,))), (4, op("authorize", (), (0,))), (1, op("consent", (), (0,)))),
    "plain": st.booleans()})


def _case():
    return st.tuples(histories((("happy", 3), ("refresh", 1), ("authorize", 1)), (), False, 2), st.lists(_shot, min_size=1, max_size=4)).map(lambda t: {**t[0], "shots": t[1]})


def strategy(tier):
    return _case().map(copy.deepcopy)


def make_exc(e):
    kw = {}
    if e["d"] is not None:
        kw["description"] = e["d"]
    if e["u"] is not None:
        kw["uri"] = e["u"]
    if e["h"] is not None:
        kw["headers"] = dict(map(tuple, e["h"]))
    kind, _, name = e["cls"].rpartition(":")
    if kind == "own":
        return type("OwnError", (X.OAuth2Error,), {"error": name})(**kw), name
    if kind == "sub":
        return type("SubError", (getattr(X, name),), {})(**kw), CODES[name]
    if kind == "fatal":
        return X.FatalError(name, **kw), name
    return getattr(X, name)(**kw), CODES[name]


def expected(e, code, state=None):
    p = {"error": code, "error_description": e["d"], "error_uri": e["u"], "state": state}
    return {k: v for k, v in p.items() if v is not None}


def wrapping(me, cls):
    class Adapter(cls):
        pass
    for name in METHODS:
        def make(name, orig):
            async def method(self, *a, **k):
                i = len(me["calls"])
                me["calls"].append(name)
                if i == me["at"] and me["when"] == "before":
                    Armed.fire()
                r = await orig(self, *a, **k)
                if i == me["at"] and me["when"] == "after":
                    Armed.fire()
                return r
            return method
        setattr(Adapter, name, make(name, getattr(cls, name)))
    return Adapter


def run(case):
    labels, fired = set(), False
    Armed.exc, Armed.at = None, None
    with env.world_time(case["now"] / 1000, case["tz"]) as clock:
        spec = copy.deepcopy(case["world"])
        spec["cfg"]["grants"] = list(GRANTS)
        for c in spec["db"]["clients"].values():
            c["grants"], c["rtypes"] = list(GRANTS) + ["urn:device"], ["code", "device"]
            if not set(c["scopes"]) & set(spec["cfg"]["scopes"]):
                c["scopes"] = spec["cfg"]["scopes"][:2] + c["scopes"]
        me = {"calls": [], "at": None, "when": None}
        w = start(spec, clock)
        w.cfg["grants"], w.grant_classes = list(GRANTS) + ["urn:device"], {**GRANTS, "urn:device": Device}
        w.build(lambda cls: wrapping(me, cls))
        for p in POINTS:
            w.provider.add_hook(AuthorizationCodeGrant, extension(p))

        def settle(o):
            if o["o"] in ("advance", "mutate"):
                step(w, o)
                return
            o = o["op"] if o["o"] == "many" else o
            if o["o"] in ("advance", "mutate"):
                return
            endpoint, d = build(w, o)
            pre = copy.deepcopy(w.db)
            want, _, _ = answer(twin(w), endpoint, d)
            have, _, log = answer(w, endpoint, d)
            check(have == want, f"differs from a fresh provider: {d.show()} has {have}, a fresh provider {want}", ["C35"])
            absorb(w, pre, d, log)
            learn(w, o, d)
        for o in case["ops"]:
            settle(o)
        for s in case["shots"]:
            o = s["op"]
            if s["plain"] and o["o"] == "code":   # a fresh code to present
                settle({"o": "authorize", "c": 0, "u": 0, "r": 0, "s": 1, "m": "plain", "v": "v" * 43, "state": None, "nonce": None, "get": True, "style": 0, "flaws": []})
                o = {**o, "k": 0}
            endpoint, d = build(w, o)
            if s["src"] == "grant" and endpoint in ("authorize", "token"):
                d.put("response_type" if endpoint == "authorize" else "grant_type", "device" if endpoint == "authorize" else "urn:device")
            if s["src"] == "auth" and endpoint in ("token", "revoke"):
                d.no_auth()
                d.h["X-Hook"] = "1"
            exc, code = make_exc(s["err"])
            me["calls"], me["at"] = [], None
            Armed.fired, Armed.exc, Armed.at = False, exc, None
            early = False
            if s["src"] == "storage":
                probe = {"calls": [], "at": None, "when": None}
                Armed.exc = None
                answer(twin(w, lambda cls: wrapping(probe, cls)), endpoint, d)
                Armed.exc = exc
                if not probe["calls"]:
                    continue
                me["at"], me["when"] = s["n"] % len(probe["calls"]), s["when"]
                early = "find_client" not in probe["calls"][:me["at"]]
            elif s["src"] == "ext":
                kind = "authorization" if endpoint == "authorize" else "token"
                Armed.at = kind + ("_request", "_response")[s["n"] % 2]
            me["calls"] = []
            pre = copy.deepcopy(w.db)
            d.made = None
            _, out, log = answer(w, endpoint, d)
            me["at"], Armed.exc, Armed.at = None, None, None
            absorb(w, pre, d, log)
            learn(w, o, d)
            if not Armed.fired:
                labels.add(s["src"] + " not reached")
                continue
            fired = True
            ctx = "%s raised %s: %s -> %s" % (s["src"], s["err"], d.show(), repr(out) if isinstance(out, BaseException) else out.show())
            check(not isinstance(out, BaseException) and out.consent is None, f"error not answered: {ctx}", ["C35"])
            data = d.data()
            if endpoint in ("token", "revoke"):
                body = json_body(out, ["C35"])
                want = expected(s["err"], code)
                check(gen.strict_equal(body, want), f"expected the error {want}: {ctx}", ["C35"])
                check(out.status in ((401,) if endpoint == "revoke" and isinstance(exc, X.InvalidClient) else (400,) if endpoint == "revoke" else (400, 401)), f"status of the error: {ctx}", ["C35"])
                if endpoint == "token":
                    check("no-store" in directives(out, "cache-control") and "no-cache" in directives(out, "pragma"), f"may be cached: {ctx}", ["C35"])
            else:
                page = early or isinstance(exc, X.FatalError)
                base = w.cfg["error_url"] if page else data["redirect_uri"]
                p = under(location(out, ["C35"]), base)
                check(p is not None, f"error not sent to {base}: {ctx}", ["C35"])
                want = expected(s["err"], code, None if page else data.get("state"))
                if page:
                    p.pop("state", None)
                check(p == want, f"expected the error {want}: {ctx}", ["C35"])
            for k, v in s["err"]["h"] or []:
                # whatever the error says, an answer of the token endpoint is not cacheable
                check(out.headers.get(k.lower()) == v or endpoint == "token" and k.lower() in CACHING, f"header {k} of the error not sent: {ctx}", ["C35"])
            if not s["err"]["h"]:
                check(not ({k.lower() for k, _ in HEADERS} - CACHING) & set(out.headers), f"header of another error sent: {ctx}", ["C35"])
            labels.add("%s at %s: %s" % (s["src"], endpoint, "fatal" if isinstance(exc, X.FatalError) else "error"))
        for o in case["ops"][:2]:
            settle(o)
    return {"nontrivial": fired, "labels": labels}
