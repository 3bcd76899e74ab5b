import asyncio, builtins, sqlite3

from psion.jose.exceptions import JoseError
from psion.oauth2 import exceptions as X

from ..history import *
from ..history import _any, _now, _tz
from ..twin import answer, outcome, twin

RULE = ("Cases: a history brings the storage into some state; then a request (mostly one that would be granted) is sent while its n-th storage call fails before or after taking effect, with an "
        "ordinary exception, an OAuth 2.1 error or cancellation (n ranges over all calls the request makes on a replica); then further requests, the same one included, are compared with a fresh "
        "replica over the same data. Non-trivial: the request would have been granted and the fault fired.")
QUICK, THOROUGH = 5000, 250000
METHODS = ("find_user", "find_client", "save_authorization_code", "get_authorization_code", "delete_authorization_code", "create_access_token", "create_refresh_token",
           "get_refresh_token", "get_userinfo", "get_key_info", "revoke_token")


class Fault(Exception):
    pass


EXCS = ["fault", "OSError", "TimeoutError", "KeyError", "ValueError", "NotImplementedError", "cancel", "cancel", "cancel", "ConnectionError", "ConnectionResetError", "BrokenPipeError",
        "PermissionError", "FileNotFoundError", "LookupError", "IndexError", "TypeError", "AttributeError", "AssertionError", "RuntimeError", "RecursionError", "UnicodeDecodeError", "ArithmeticError",
        "EOFError", "MemoryError", "StopAsyncIteration", "asyncio.TimeoutError", "JoseError", "sqlite3.OperationalError", "json.JSONDecodeError",
        *["ServerError", "TemporarilyUnavailable", "AccessDenied", "InvalidRequest", "InvalidClient", "InvalidGrant"] * 2]


def make_exc(name):
    if name == "fault":
        return Fault("storage")
    if name == "cancel":
        return asyncio.CancelledError()
    if name == "UnicodeDecodeError":
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, "storage")
    if name == "json.JSONDecodeError":
        return json.JSONDecodeError("storage", "x", 0)
    if name == "asyncio.TimeoutError":
        return asyncio.TimeoutError("storage")
    if name == "sqlite3.OperationalError":
        return sqlite3.OperationalError("database is locked")
    if name == "JoseError":
        return JoseError("storage")
    if hasattr(X, name):
        return getattr(X, name)(description="storage")
    return getattr(builtins, name)("storage")


_target = gen.weighted((3, op("code", (("auth", 1), ("code", 1)), (0, 0, 0, 0, 1))), (2, op("refresh", (), (0, 0, 0, 0, 1))), (2, op("cc", (), (0, 0, 0, 0, 1))),
                       (2, op("revoke", (), (0, 0, 0, 0, 1))), (3, op("authorize", (), (0, 0, 0, 0, 1))), (2, op("consent", (), (0, 0, 0, 0, 1))))


@st.composite
def _case(draw):
    h = draw(histories((("happy", 3), ("refresh", 1), ("noise", 1)), (), False, 2))
    target = draw(_target)
    if target["o"] == "code":
        h["ops"] = h["ops"] + [draw(op("authorize", (), (0,)))]
    return {**h, "target": target, "n": draw(st.integers(0, 60)), "when": draw(st.sampled_from(["before", "after"])), "exc": draw(st.sampled_from(EXCS)),
            "after": draw(st.lists(gen.weighted((3, st.just("again")), (2, op("code", (), (0,))), (1, op("refresh", (), (0,))), (1, op("cc", (), (0,))), (1, op("authorize", (), (0,))),
                                                (1, op("revoke", (), (0,)))), min_size=1, max_size=3))}


def _healthy(case):
    w = case["world"]
    if case["n"] % 8:
        w["cfg"]["grants"] = list(GRANTS)
        for c in w["db"]["clients"].values():
            c["grants"], c["rtypes"] = [g for g in GRANTS if g == "authorization_code" or case["n"] % 5 or g in c["grants"]], ["code"]
            if not set(c["scopes"]) & set(w["cfg"]["scopes"]):
                c["scopes"] = w["cfg"]["scopes"][:2] + c["scopes"]
            if case["n"] % 2:  # every code is for an ID token too
                c["scopes"] = ["openid"] + [s for s in c["scopes"] if s != "openid"]
    if case["n"] % 2:
        w["cfg"]["oidc"] = True
        w["cfg"]["scopes"] = ["openid"] + [s for s in w["cfg"]["scopes"] if s != "openid"]
        for o in case["ops"]:
            if "s" in o:
                o["s"] |= 1
    return case


def strategy(tier):
    return _case().map(copy.deepcopy).map(_healthy)


class Faulty:
    def __init__(self):
        self.calls, self.at, self.exc, self.when, self.mark = [], None, None, None, None

    def wrap(self, cls):
        me = self

        class Adapter(cls):
            pass
        for name in METHODS:
            def make(name, orig):
                async def method(self, *a, **k):
                    i = len(me.calls)
                    me.calls.append(name)
                    if i == me.at and me.when == "before":
                        me.mark = len(me.w.log)
                        raise me.exc
                    r = await orig(self, *a, **k)
                    if i == me.at and me.when == "after":
                        me.mark = len(me.w.log)
                        raise me.exc
                    return r
                return method
            setattr(Adapter, name, make(name, getattr(cls, name)))
        return Adapter


def grant_of(out, endpoint, draft, w):
    """What the response grants, or None."""
    if out is None or isinstance(out, BaseException):
        return None
    if out.consent is not None:
        return "consent data"
    text = (out.body or b"").decode("utf-8", "replace") + " " + out.headers.get("location", "")
    for k in ("access_token", "refresh_token", "id_token"):
        if '"%s"' % k in text or re.search(r"[?&#]%s=" % k, text):
            return k
    for code in w.db["codes"]:
        if code in text and endpoint == "authorize":
            return "a code"
    if endpoint != "authorize" and endpoint != "consent" and (out.status or 0) < 400:
        return "status %s" % out.status
    return None


def send(w, endpoint, draft):
    w.log = []
    try:
        out = call(direct(w, endpoint, draft))
    except Violation:
        raise
    except (Exception, asyncio.CancelledError) as exc:
        out = exc
    log, w.log = w.log, []
    return out, log


def run(case):
    labels = set()
    with env.world_time(case["now"] / 1000, case["tz"]) as clock:
        f = Faulty()
        w = start(case["world"], clock, wrap=f.wrap)
        f.w = w

        def settle(o):
            if o["o"] in ("advance", "mutate"):
                step(w, o)
                return
            o = o["op"] if o["o"] == "many" else o
            if o["o"] in ("advance", "mutate"):
                return
            endpoint, d = build(w, o)
            pre = copy.deepcopy(w.db)
            _, _, log = answer(w, endpoint, d)
            absorb(w, pre, d, log)
            learn(w, o, d)
        for o in case["ops"]:
            settle(o)
        endpoint, draft = build(w, case["target"])
        probe = Faulty()
        t = twin(w, probe.wrap)
        probe.w = t
        expected, _ = send(t, endpoint, draft)
        if not probe.calls:
            return {"nontrivial": False, "labels": {"no storage call"}}
        would = grant_of(expected, endpoint, draft, t)
        f.calls, f.at, f.when, f.exc = [], case["n"] % len(probe.calls), case["when"], make_exc(case["exc"])
        name = probe.calls[f.at]
        pre = copy.deepcopy(w.db)
        draft.made = None
        out, log = send(w, endpoint, draft)
        if f.mark is None:
            return {"nontrivial": False, "labels": {"fault did not fire"}}
        fired, f.at = f.at, None
        ctx = "storage call %d (%s) of %s failed %s taking effect with %r: %s; effects %s; answered %s" % (
            fired, name, probe.calls, case["when"], f.exc, draft.show(), log, repr(out) if isinstance(out, BaseException) else out.show())
        got = grant_of(out, endpoint, draft, w)
        check(got is None, f"{got} although the storage failed: {ctx}", ["C30"])
        late = [e for e in log[f.mark:] if e[0] != "delete_code"]
        check(not late, f"effects after the failure {late}: {ctx}", ["C30"])
        oauth = isinstance(f.exc, X.OAuth2Error)
        if case["exc"] == "cancel":
            check(isinstance(out, asyncio.CancelledError), f"cancellation swallowed: {ctx}", ["C30"])
        if oauth:
            check(not isinstance(out, BaseException), f"OAuth 2.1 error not reported: {ctx}", ["C30"])
            if endpoint in ("token", "revoke"):
                body = json_body(out, ["C30"])
                check(out.status >= 400 and isinstance(body, dict) and body.get("error") == ERROR_CODES[case["exc"]], f"reported as something else: {ctx}", ["C30"])
                if endpoint == "token":
                    check("no-store" in directives(out, "cache-control"), f"token response may be cached: {ctx}", ["C30"])
            else:
                loc = location(out, ["C30"])
                data = draft.data()
                if "find_client" in probe.calls[:fired]:
                    p = under(loc, data["redirect_uri"])
                    check(p is not None and p.get("error") == ERROR_CODES[case["exc"]], f"not reported to the client: {ctx}", ["C30"])
                    if data.get("state") and "state" not in dict(parse_qsl(urlsplit(data["redirect_uri"]).query)):
                        check(p.get("state") == data["state"], f"state not returned: {ctx}", ["C30"])
        if not isinstance(out, BaseException) and endpoint in ("authorize", "consent") and "find_client" not in probe.calls[:fired]:
            # the client is not known: its redirect URI is not either
            loc = out.headers.get("location")
            if loc is not None:
                check(under(loc, w.cfg["error_url"]) is not None, f"user sent to a redirect URI that was never checked: {ctx}", ["C30"])
        labels.add("%s: %s at %s -> %s" % (endpoint, "oauth" if oauth else "cancel" if case["exc"] == "cancel" else "exc", name, "raised" if isinstance(out, BaseException) else out.status))
        absorb(w, pre, draft, log)
        learn(w, case["target"], draft)
        # afterwards the provider is like new
        for o in case["after"]:
            if o == "again":
                end2, d2 = endpoint, draft
            else:
                end2, d2 = build(w, o)
            d2.made = None
            want, _, _ = answer(twin(w), end2, d2)
            d2.made = None
            pre = copy.deepcopy(w.db)
            have, out2, log2 = answer(w, end2, d2)
            check(have == want, f"provider differs from a fresh one after the failure: {d2.show()} has {have}, a fresh provider {want}; before: {ctx}", ["C30"])
            absorb(w, pre, d2, log2)
            learn(w, case["target"] if o == "again" else o, d2)
            labels.add("afterwards " + end2 + " " + str(have.get("status", "consent" if "consent" in have else "raised")))
    return {"nontrivial": would is not None, "labels": labels}
