import asyncio, contextvars

from psion.oauth2 import exceptions as X
from psion.oauth2.grants import BaseGrant

from ..history import *
from ..history import _any
from ..twin import answer, outcome, twin

RULE = ("Cases: a provider with 1-3 generated extensions (which checkpoints they have, for which grant, what they contribute, at which call they raise), a history of requests with extension "
        "parameters; every request is also sent to a replica without extensions, and the outcome has to be that of the replica plus exactly the contributions, or the error of the extension. "
        "Non-trivial: an extension ran.")
QUICK, THOROUGH = 3600, 200000
POINTS = ["authorization_request", "authorization_response", "token_request", "token_response"]
ERRORS = ["AccessDenied", "InvalidRequest", "InvalidScope", "ServerError", "TemporarilyUnavailable", "InvalidGrant", "UnauthorizedClient", "Fault"]
NAMES = ["iss", "x_ctx", "session_state", "claims", "aud", "é", "a b", "name", "self", "url", "params", "data", "resource", "acr", "0", "expires", "hook", "client", "user", "code2", "Code"]

TOKEN_NAMES = NAMES + ["scopes", "scope", "state", "nonce", "token", "access_token", "client_id", "grant_type", "user_id", "sub", "code_challenge"]


class Fault(Exception):
    pass


_svalue = gen.weighted((2, gen.text(1, 12)), (1, st.sampled_from(["1", "a&b=c", "https://e.example/?a=b#c", "+", "%20", "é"])))
_rvalue = gen.weighted((6, _svalue), (1, st.none()), (1, st.integers(0, 99)))
_jvalue = gen.weighted((2, _svalue), (1, gen.json_values(4).filter(lambda v: v is not None)))


_fix = {"token_request": st.tuples(st.sampled_from(["redirect_uri", "code_verifier"]), st.sampled_from(["strip", "strip", "append"])),
        "authorization_request": st.tuples(st.just("code_challenge"), st.sampled_from(["strip", "append"]))}


def fixed(value, how):
    """The extension's own reading of a parameter."""
    return (value[:-1] or "x" if value.endswith("!") else value) if how == "strip" else value + "!"


@st.composite
def _ext(draw, i):
    points = {}
    for p in POINTS:
        if draw(st.integers(0, 3)) == 0 and (points or p != POINTS[-1]):
            continue
        value = _rvalue if p == "authorization_response" else _jvalue
        ret = draw(gen.weighted((1, st.none()), (1, st.just({})), (4, st.dictionaries(st.sampled_from(TOKEN_NAMES if p == "token_request" else NAMES), value, min_size=1, max_size=2))))
        points[p] = {"ret": None if ret is None else {"%s%s" % (k, "" if i == 0 else i): v for k, v in ret.items()}, "live": draw(st.integers(0, 2)),
                     "raise": draw(gen.weighted((5, st.none()), (1, st.tuples(st.sampled_from(ERRORS), st.integers(0, 2), st.booleans()).map(list)))),
                     "fix": draw(_fix[p]) if p.endswith("request") and i == 0 and draw(st.integers(0, 3)) == 0 else None,
                     "scopes": draw(st.integers(0, 30)) if p == "authorization_request" and i == 0 and draw(st.integers(0, 3)) == 0 else 0}
    return {"on": draw(gen.weighted((6, st.just("authorization_code")), (1, st.just("refresh_token")), (1, st.just("client_credentials")), (1, st.just("base")))), "points": points,
            "wait": draw(st.integers(0, 2)), "slots": draw(st.booleans()), "same": draw(st.booleans()), "inherit": draw(st.integers(0, 3))}


@st.composite
def _case(draw):
    n = draw(gen.weighted((3, st.just(1)), (2, st.just(2)), (1, st.just(3))))
    h = draw(histories((("happy", 5), ("refresh", 2), ("cc", 1), ("code", 2), ("authorize", 2), ("consent", 1), ("revoke", 1)), (), False, 3))
    return {**h, "exts": [draw(_ext(i)) for i in range(n)], "sub": draw(st.integers(0, 3)) == 0, "extra": draw(st.lists(st.tuples(st.sampled_from(NAMES), _svalue).map(list), max_size=2, unique_by=lambda p: p[0]))}


def _healthy(case):
    w = case["world"]
    if len(case["tz"]) % 5:
        w["cfg"]["grants"] = list(GRANTS)
        for c in w["db"]["clients"].values():
            c["grants"], c["rtypes"] = list(GRANTS), ["code"]
            if not set(c["scopes"]) & set(w["cfg"]["scopes"]):
                c["scopes"] = w["cfg"]["scopes"][:2] + c["scopes"]
    return case


_together = st.fixed_dictionaries({"world": worlds(False), "now": st.just(1_700_000_000_000), "tz": st.just("UTC"), "exts": st.lists(st.tuples(st.integers(1, 15), st.integers(0, 3), st.integers(0, 3)).map(list), min_size=1, max_size=3),
                                   "par": st.lists(st.tuples(op("authorize", (), (0,)), op("code", (), (0,)), st.integers(0, 6)).map(list), min_size=2, max_size=4)})


def strategy(tier):
    return gen.weighted((7, _case().map(copy.deepcopy).map(_healthy)), (1, _together.map(copy.deepcopy).map(_healthy)))


class Sub(AuthorizationCodeGrant):
    """An application's own variant of the grant."""


def make_ext(w, i, spec, calls):
    counts = {}

    def action(point):
        a = spec["points"][point]
        shared = copy.deepcopy(a["ret"])

        async def method(self, *args, **kw):
            n = counts[point] = counts.get(point, -1) + 1
            rec = {"ext": i, "point": point, "args": [copy.deepcopy(x) if isinstance(x, (dict, str)) else x for x in list(args) + list(kw.values())], "ret": None, "exc": None,
                   "mine": self.adapter is w.provider.adapter and self.config is w.provider.config}
            calls.append(rec)
            for _ in range(spec["wait"]):
                await asyncio.sleep(0)
            if a["raise"] and a["raise"][1] == n:
                name, _, detail = a["raise"]
                rec["exc"] = Fault("extension") if name == "Fault" else getattr(X, name)(description="extension") if detail else getattr(X, name)()
                raise rec["exc"]
            ret = shared if a["live"] == 0 else copy.deepcopy(a["ret"])
            if ret and a["live"] == 2:   # a new value every time
                ret = {k: (v + str(n) if isinstance(v, str) else v) for k, v in ret.items()}
            if a.get("fix") and args and isinstance(args[0], dict) and args[0].get(a["fix"][0]):
                ret = {**(ret or {}), a["fix"][0]: fixed(args[0][a["fix"][0]], a["fix"][1])}
                rec["fixed"] = True
            if a["scopes"] and args and isinstance(args[0], dict):
                cur = (args[0].get("scope") or "").split()
                new = [s for j, s in enumerate(cur) if a["scopes"] >> j & 1]
                if a["scopes"] % 7 == 1:
                    new = new + [SCOPES[a["scopes"] % len(SCOPES)]]
                new = list(dict.fromkeys(new))
                if new:
                    ret = {**(ret or {}), "scopes": new}
            rec["ret"] = copy.deepcopy(ret)
            rec["given"] = ret
            return ret
        return method
    ns = {p: action(p) for p in spec["points"]}

    def init(self, adapter, config):
        self.adapter, self.config = adapter, config
    bases = ()
    if spec.get("inherit"):   # some checkpoints are inherited
        up = {p: ns.pop(p) for j, p in enumerate(sorted(ns)) if spec["inherit"] == 1 or (j + spec["inherit"]) % 2}
        bases = (type("Base", (), up),)
    ns["__init__"] = init
    if spec["slots"]:
        ns["__eq__"] = lambda self, other: type(self) is type(other)
        ns["__hash__"] = lambda self: 7
    return type("Extension" if spec.get("same") else "Extension%d" % i, bases, ns)


_who = contextvars.ContextVar("who", default=None)


def together(case):
    """Requests at the same time, with extensions that wait: every call and contribution belongs to its own request."""
    calls, labels = [], set()
    with env.world_time(case["now"] / 1000, case["tz"]) as clock:
        w = start(case["world"], clock)

        def make(i, mask, before, after):
            def action(p):
                async def method(self, *args):
                    rec = [_who.get(), i, p, [copy.deepcopy(x) if isinstance(x, (dict, str)) else x for x in args]]
                    calls.append(rec)
                    for _ in range(before):
                        await asyncio.sleep(0)
                    return {"x%d_%s" % (i, p): "of %d" % rec[0]}
                return method

            def init(self, adapter, config):
                pass
            return type("E%d" % i, (), {"__init__": init, **{p: action(p) for j, p in enumerate(POINTS) if mask >> j & 1}})
        exts = [make(i, *e) for i, e in enumerate(case["exts"])]
        for e in exts:
            w.provider.add_hook(AuthorizationCodeGrant, e)

        async def one(j, endpoint, d, delay):
            _who.set(j)
            for _ in range(delay):
                await asyncio.sleep(0)
            return await direct(w, endpoint, d)

        async def all_(reqs):
            return await asyncio.gather(*[asyncio.ensure_future(one(j, e, d, delay)) for j, (o, e, d, delay) in enumerate(reqs)], return_exceptions=True)
        for kind in ("authorization", "token"):
            n = len(case["par"]) if kind == "authorization" else min(len(case["par"]), len(w.code_list))
            reqs = []
            for j, (a, c, delay) in enumerate(case["par"][:n]):
                o = {**a, "state": "state %d" % j} if kind == "authorization" else {**c, "k": j}
                reqs.append((o, *build(w, o), delay))
            base = [answer(twin(w), e, d) for _, e, d, _ in reqs]
            del calls[:], w.log[:]
            pre = copy.deepcopy(w.db)
            outs = call(all_(reqs))
            log = list(w.log)
            for j, (o, e, d, _) in enumerate(reqs):
                mine, out, data = [c for c in calls if c[0] == j], outs[j], d.data()
                ctx = f"concurrent request {j}: {d.show()} -> {out.show() if isinstance(out, Out) else repr(out)}; calls {[(c[:3], c[3][:2]) for c in calls]}"
                check(isinstance(out, Out), f"request fails: {ctx}", ["C33"])
                if kind == "authorization":
                    got = under(location(out, ["C33"]), data["redirect_uri"]) or {}
                    fine = "code" in got
                else:
                    got = json_body(out, ["C33"])
                    fine = "access_token" in got
                was = base[j][0]
                check(fine == bool(was.get("status") == 200 or any(k == "code" and v.startswith("<code") for k, v in (was.get("location") or ["", []])[1])), f"granted or not, otherwise than without extensions ({was}): {ctx}", ["C33"])
                if not fine:
                    continue
                want = sorted((i, p) for i, e_ in enumerate(exts) for p in POINTS if p.startswith(kind) and hasattr(e_, p))
                check(sorted((c[1], c[2]) for c in mine) == want, f"extensions that should have run: {want}: {ctx}", ["C33"])
                stored = next((x[2] for x in log if x[0] == "save_code" and x[1] == got.get("code")), {})
                for _, i, p, args in mine:
                    name = "x%d_%s" % (i, p)
                    if p.endswith("request"):
                        check(all(args[0].get(k) == v for k, v in data.items() if k not in ("response_type", "grant_type")), f"{p} was not given its request: {ctx}", ["C33"])
                    else:
                        check(args[0] == got["code"] if kind == "authorization" else args[0].get("access_token") == got["access_token"], f"{p} was given another code or token: {ctx}", ["C33"])
                        check(args[2].get_client_id() == (data["client_id"] if kind == "authorization" else authenticated(pre, d)[0]), f"{p} was given another client: {ctx}", ["C33"])
                        check(args[3].get_user_id() == (d.user if kind == "authorization" else pre["codes"][data["code"]]["user"]), f"{p} was given another user: {ctx}", ["C33"])
                    where = {"authorization_request": stored, "token_request": None}.get(p, got)
                    check(where is None or where.get(name) == "of %d" % j, f"contribution of {p} is missing or another's: {ctx}", ["C33"])
                labels.add("together: " + kind)
                if kind == "authorization":
                    absorb(w, pre, d, [x for x in log if x[0] == "save_code" and x[1] == got["code"]])
                    learn(w, o, d)
    return {"nontrivial": bool(calls), "labels": labels}


def run(case):
    if "par" in case:
        return together(case)
    labels, ran = set(), False
    calls = []
    with env.world_time(case["now"] / 1000, case["tz"]) as clock:
        w = start(case["world"], clock)
        if case["sub"]:
            w.grant_classes = {**GRANTS, "authorization_code": Sub}
            w.build()
        for i, spec in enumerate(case["exts"]):
            w.provider.add_hook(BaseGrant if spec["on"] == "base" else GRANTS[spec["on"]], make_ext(w, i, spec, calls))
        active = [(i, s) for i, s in enumerate(case["exts"]) if s["on"] in ("authorization_code", "base") and "authorization_code" in w.cfg["grants"]]
        for o in case["ops"]:
            if o["o"] in ("advance", "mutate"):
                step(w, o)
                continue
            o = o["op"] if o["o"] == "many" else o
            if o["o"] in ("advance", "mutate"):
                continue
            endpoint, d = build(w, o)
            for k, v in case["extra"]:
                if d.get(k) is None and k not in ("code", "scope"):
                    d.put(k, v)
            del calls[:]
            fix = next((s["points"]["token_request"]["fix"] for i, s in active if (s["points"].get("token_request") or {}).get("fix")), None) if o["o"] == "code" else None
            if fix and d.get(fix[0]) and o["k"] % 4 < 3:
                d.put(fix[0], d.get(fix[0]) + "!")
            base, _, baselog = answer(twin(w), endpoint, d)
            if fix and d.get(fix[0]):   # what the request would have with the value the extension makes of it
                d2 = copy.deepcopy(d)
                for part in (d2.q, d2.f):
                    for p in part:
                        if p[0] == fix[0] and p[1]:
                            p[1] = fixed(p[1], fix[1])
                base2 = answer(twin(w), endpoint, d2)[0]
            ctx0 = f"{d.show()}; a provider without extensions has {base}"
            check(not calls, f"extensions of another provider ran: {ctx0}", ["C33"])
            pre = copy.deepcopy(w.db)
            got, out, log = answer(w, endpoint, d)
            mine = list(calls)
            story = [(c["ext"], c["point"], c["args"][:2], c["exc"] or c["ret"]) for c in mine]
            ctx = f"{ctx0}; with extensions {case['exts']} it has {got}; they were called {story}"
            data = d.data()
            gt = data.get("grant_type")
            if fix and any(c.get("fixed") and c["exc"] is None for c in mine):
                base = base2
                labels.add("value replaced")
                ctx = f"{d.show()}; a provider without extensions has {base} for the value the extension made of {fix[0]}; with extensions {case['exts']} it has {got}; they were called {story}"
            kind = "authorization" if endpoint == "authorize" else "token" if endpoint == "token" and gt == "authorization_code" else None
            for c in mine:
                check(c["mine"], f"extension was given another provider's storage: {ctx}", ["C33"])
                check((c["ext"] in [i for i, _ in active]) and kind and c["point"].startswith(kind), f"extension ran for a request that is not its own: {ctx}", ["C33"])
                check(c.get("given", c["ret"]) == c["ret"], f"what an extension returned was altered: {ctx}", ["C33"])
            check(len({(c["ext"], c["point"]) for c in mine}) == len(mine), f"extension ran twice: {ctx}", ["C33"])
            ran |= bool(mine)
            excs = [c for c in mine if c["exc"] is not None]
            granted = kind and (base.get("location") and any(k == "code" and v.startswith("<code") for k, v in base["location"][1]) if kind == "authorization" else base.get("status") == 200)
            widened = kind == "authorization" and [c for c in mine if c["ret"] and "scopes" in c["ret"] and
                                                   not set(c["ret"]["scopes"]) <= set(w.cfg["scopes"]) & set(pre["clients"][data["client_id"]]["scopes"])]
            # what the checkpoints are given
            for c in mine:
                a = c["args"]
                if c["point"].endswith("request"):
                    seen = a[0]
                    check(isinstance(seen, dict) and all(seen.get(k) == v for k, v in data.items() if k not in ("response_type", "grant_type")), f"{c['point']} was not given the request: {ctx}", ["C33"])
                else:
                    check(a[2].get_client_id() == (data["client_id"] if kind == "authorization" else authenticated(pre, d)[0]), f"{c['point']} was given another client: {ctx}", ["C33"])
                    owner = d.user if kind == "authorization" else pre["codes"][data["code"]]["user"]
                    check(a[3].get_user_id() == owner, f"{c['point']} was given another user: {ctx}", ["C33"])
                    before = [x for x in mine if x["point"] == kind + "_request" and x["ret"]]
                    check(all(a[1].get(k) == v for x in before for k, v in x["ret"].items()), f"{c['point']} does not see what {kind}_request contributed: {ctx}", ["C33"])
                    if kind == "authorization":
                        check([e[1] for e in log if e[0] == "save_code"] == [a[0]], f"{c['point']} was given another code: {ctx}", ["C33"])
                        check(a[1].get("redirect_uri") == data["redirect_uri"], f"{c['point']} was given another request: {ctx}", ["C33"])
                    else:
                        check(a[0].get("access_token") in [e[1] for e in log if e[0] == "access"], f"{c['point']} was given another token: {ctx}", ["C33"])
                        check(a[1].get("code") == data["code"], f"{c['point']} was given another code: {ctx}", ["C33"])
            if excs:
                exc = excs[0]["exc"]
                check(mine[-1] is excs[0], f"extensions ran after one had refused: {ctx}", ["C33"])
                if excs[0]["point"].endswith("request"):
                    check(not [e for e in log if e[0] in ("save_code", "access", "refresh", "revoke")], f"effects {log} although an extension refused the request: {ctx}", ["C33"])
                text = "" if isinstance(out, BaseException) else (out.body or b"").decode() + " " + out.headers.get("location", "")
                check("access_token" not in text and not any(c in text for c in w.db["codes"]), f"granted although an extension raised: {ctx}", ["C33"])
                if isinstance(exc, X.OAuth2Error):
                    check(not isinstance(out, BaseException), f"error of an extension not reported: {ctx}", ["C33"])
                    if kind == "authorization":
                        p = under(location(out, ["C33"]), data["redirect_uri"])
                        check(p is not None and p.get("error") == ERROR_CODES[type(exc).__name__], f"error of an extension not reported to the client: {ctx}", ["C33"])
                        if data.get("state"):
                            check(p.get("state") == data["state"], f"state not returned with the error of an extension: {ctx}", ["C33"])
                    else:
                        body = json_body(out, ["C33"])
                        check(out.status >= 400 and body.get("error") == ERROR_CODES[type(exc).__name__], f"error of an extension not reported: {ctx}", ["C33"])
                labels.add("%s raised" % excs[0]["point"])
            elif widened:
                check(not [e for e in log if e[0] == "save_code"] and "error=invalid_scope" in out.headers.get("location", ""), f"scopes contributed by an extension were not checked: {ctx}", ["C33"])
                labels.add("scopes widened")
            elif not granted and kind == "authorization" and any("scopes" in (c["ret"] or {}) for c in mine):
                labels.add("scopes replaced")   # may be granted or refused for what replaced them
            elif not granted:
                check(got == base, f"refused otherwise than without extensions: {ctx}", ["C33"])
                check(not [c for c in mine if c["point"].endswith("response")], f"response checkpoint ran for a refused request: {ctx}", ["C33"])
                if endpoint in ("authorize", "token"):
                    labels.add("refused, %d calls" % len(mine))
            else:
                want = {(i, p) for i, s in active for p in s["points"] if p.startswith(kind)}
                check({(c["ext"], c["point"]) for c in mine} == want, f"extensions that should have run: {sorted(want)}: {ctx}", ["C33"])
                exp = copy.deepcopy(base)
                for c in mine:
                    for k, v in (c["ret"] or {}).items():
                        if c["point"] == "authorization_request":
                            for e in exp["effects"]:
                                if e[0] == "save_code":
                                    e[2][k] = v
                        elif c["point"] == "authorization_response":
                            if v is not None:   # absent parameters are omitted
                                exp["location"][1].append((k, str(v)))
                        elif c["point"] == "token_response":
                            exp["body"][k] = v
                if "location" in exp:
                    exp["location"][1] = sorted(exp["location"][1])
                check(got == exp, f"expected {exp}: {ctx}", ["C33"])
                labels.add("granted %s, %d calls" % (kind, len(mine)))
            absorb(w, pre, d, log)
            learn(w, o, d)
    return {"nontrivial": ran, "labels": labels}
