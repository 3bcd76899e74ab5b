"""OAuth worlds: an in-memory storage behind a real provider, request construction, the reference model and generated histories."""
import asyncio, base64, copy, datetime, hashlib, json, re
from urllib.parse import parse_qsl, quote, quote_plus, urlsplit

from hypothesis import strategies as st

from psion.jose.jwk import JsonWebKey, JsonWebKeySet
from psion.oauth2.adapter import BaseAdapter
from psion.oauth2.grants import AuthorizationCodeGrant, ClientCredentialsGrant, RefreshTokenGrant
from psion.oauth2.mixins import AuthorizationCodeMixin, ClientMixin, RefreshTokenMixin, UserMixin
from psion.oauth2.models import Request, Scope
from psion.oauth2.providers import StarletteProvider
from psion.oidc import AuthorizationCodeFlow

from . import core, env, gen, keys, ref
from .core import Violation, check

GRANTS = {"authorization_code": AuthorizationCodeGrant, "refresh_token": RefreshTokenGrant, "client_credentials": ClientCredentialsGrant}
EPOCH = datetime.datetime(1970, 1, 1)
BASIC, POST, NONE = "client_secret_basic", "client_secret_post", "none"
T0 = 1_700_000_000


# ------------------------------------------------------------------ storage
class Client(ClientMixin):
    def __init__(self, rec):
        self.r = rec

    def get_client_id(self):
        return self.r["id"]

    def get_client_secret(self):
        return self.r["secret"]

    def get_allowed_scopes(self, scopes):
        if scopes is None:
            return self.r["scopes"] if self.r.get("live") else list(self.r["scopes"])
        if self.r.get("order"):
            return [s for s in scopes if s in self.r["scopes"]]
        return [s for s in self.r["scopes"] if s in scopes]

    def get_redirect_uris(self):
        return self.r["uris"]

    def get_token_endpoint_auth_method(self):
        return self.r["method"]

    def get_grant_types(self):
        return self.r["grants"]

    def get_response_types(self):
        return self.r["rtypes"]


class User(UserMixin):
    def __init__(self, uid):
        self.uid = uid

    def get_user_id(self):
        return self.uid


class Grant_(AuthorizationCodeMixin, RefreshTokenMixin):
    """A stored authorization code or refresh token."""

    def __init__(self, rec):
        self.r = rec

    def get_refresh_token(self):
        return self.r["value"]

    def get_client_id(self):
        return self.r["client"]

    def get_user_id(self):
        return self.r["user"]

    def get_redirect_uri(self):
        return self.r["redirect_uri"]

    def get_scopes(self):
        return self.r["scopes"]

    def get_code_challenge(self):
        return self.r["challenge"]

    def get_code_challenge_method(self):
        return self.r["method"]

    def get_nonce(self):
        return self.r["nonce"]

    def get_auth_time(self):
        return None

    def get_expiration(self):
        return EPOCH + datetime.timedelta(milliseconds=self.r["exp"])


_keys = {}


def signing_key(entry):
    text = json.dumps(entry, sort_keys=True)
    if text not in _keys:
        j = keys.jwk(entry["spec"])
        j["kid"] = entry["kid"]
        j.update(dict(entry.get("attrs", [])))
        _keys[text] = j
    return _keys[text]


class World:
    """One provider with its own storage.  cfg and db are plain JSON data."""

    def __init__(self, cfg, db, clock, tag=""):
        self.cfg, self.db, self.clock, self.tag = cfg, db, clock, tag
        self.log, self.count = [], 0
        db.setdefault("codes", {})
        db.setdefault("refresh", {})
        db.setdefault("sk", 0)
        self.issued = {}      # code -> facts the client knows (verifier, redirect URI, client)
        self.code_list, self.refresh_list, self.access_list = [], [], []
        self.dead_codes, self.redeemed, self.revoked = set(), set(), set()
        self.granted = {}     # refresh token -> what it stands for
        self.scopes = [Scope(s, "About " + s) for s in cfg["scopes"]]
        self.provider, self.grant_classes = None, GRANTS

    def build(self, wrap=lambda cls: cls):
        cfg = self.cfg
        self.keys = [JsonWebKey(dict(signing_key(e))) for e in [cfg["key"]] + cfg.get("alt", [])]
        spans = {k: cfg[n] for k, n, default in (("token_lifespan", "lifespan", 3600), ("id_token_lifespan", "id_lifespan", 36000)) if cfg[n] != default}
        self.provider = StarletteProvider(
            cfg["issuer"], adapter=wrap(adapter_class(self)), grants=[self.grant_classes[g] for g in cfg["grants"]], scopes=self.scopes,
            keyset=JsonWebKeySet(self.keys[:: -1 if cfg["lifespan"] % 2 else 1]), error_url=cfg["error_url"], **spans)
        if cfg["oidc"]:
            self.provider.add_hook(AuthorizationCodeGrant, AuthorizationCodeFlow)
        if cfg.get("ext"):
            self.provider.add_hook(AuthorizationCodeGrant, extension(self))
        return self

    def signer(self, i):
        return dict(self.cfg["alt"][i - 1]) if i else dict(self.cfg["key"], alg=self.cfg["alg"])

    def now_ms(self):
        return self.clock.ns // 1000000

    def rec(self, r):
        return r if self.cfg["live"] else copy.deepcopy(r)


def userinfo(db, uid, scopes):
    u = db["users"][uid]
    out = {"sub": uid}
    if "profile" in scopes:
        out["name"] = u["name"]
        out["extra"] = u["extra"]
    if "email" in scopes:
        out["email"] = u["name"] + "@example.com"
    return out


def extension(w):
    """An application's own extension of the authorization code grant."""

    class Extension:
        def __init__(self, adapter, config):
            check(adapter is w.provider.adapter and config is w.provider.config, "extension built with another provider's storage", ["C25"])

        async def authorization_response(self, code, data, client, user):
            return {"ext": w.cfg["ext"]}

        async def token_response(self, token, data, client, user):
            return {"ext": w.cfg["ext"]}

    return Extension


TOKEN_STYLES = ["", "\u00e9\u0142\U0001f511", "-" + "x" * 3000, " +&=%2B/~", "==", "." * 3, "Z", ".c2ln", ":1", "-_-"]  # what the application's own token values end with


def adapter_class(w):
    class Adapter(BaseAdapter):
        async def find_user(self, user_id):
            return User(user_id) if user_id in w.db["users"] else None

        async def find_client(self, client_id):
            r = w.db["clients"].get(client_id) if isinstance(client_id, str) else None
            return Client(w.rec(r)) if r else None

        async def save_authorization_code(self, code, data, client, user):
            w.log.append(["save_code", code, copy.deepcopy({k: v for k, v in dict(data).items()}), client.get_client_id(), user.get_user_id()])
            w.db["codes"][code] = {"client": client.get_client_id(), "user": user.get_user_id(), "redirect_uri": data["redirect_uri"],
                                   "scopes": list(data["scopes"]), "challenge": data["code_challenge"], "method": data["code_challenge_method"],
                                   "nonce": data.get("nonce"), "exp": w.now_ms() + w.cfg["code_ttl"]}

        async def get_authorization_code(self, code):
            r = w.db["codes"].get(code)
            return Grant_(w.rec(r)) if r else None

        async def delete_authorization_code(self, code):
            w.log.append(["delete_code", code])
            w.db["codes"].pop(code, None)

        def _owner(self, o):
            return ["client", o.get_client_id()] if isinstance(o, Client) else ["user", o.get_user_id()]

        async def create_access_token(self, client, resource_owner, scopes):
            w.count += 1
            value = "at%s%d.%s" % (w.tag, w.count, hashlib.sha256(str(w.count).encode()).hexdigest()[: 8 + w.count % 40]) + TOKEN_STYLES[w.cfg.get("tok", 0)]
            w.log.append(["access", value, client.get_client_id(), self._owner(resource_owner), [str(s) for s in scopes]])
            return value

        async def create_refresh_token(self, client, user, scopes):
            w.count += 1
            value = "rt%s%d.%s" % (w.tag, w.count, hashlib.sha256(str(w.count).encode()).hexdigest()[:20]) + TOKEN_STYLES[w.cfg.get("tok", 0)]
            w.log.append(["refresh", value, client.get_client_id(), self._owner(user), [str(s) for s in scopes]])
            w.db["refresh"][value] = {"value": value, "client": client.get_client_id(), "user": user.get_user_id() if isinstance(user, User) else None,
                                      "scopes": [str(s) for s in scopes], "exp": w.now_ms() + w.cfg["refresh_ttl"]}
            return value

        async def get_refresh_token(self, refresh_token):
            r = w.db["refresh"].get(refresh_token)
            return Grant_(w.rec(r)) if r else None

        async def get_userinfo(self, user, scopes):
            w.log.append(["userinfo", user.get_user_id(), sorted(scopes)])
            return userinfo(w.db, user.get_user_id(), list(scopes))  # a list, not a text, whatever it was

        async def get_key_info(self):
            i = w.db["sk"]  # the application decides which of its keys signs at the moment
            return {"key": w.keys[i], "alg": w.signer(i)["alg"]}

        async def revoke_token(self, client, token, token_type_hint=None):
            w.log.append(["revoke", client.get_client_id(), token, token_type_hint])
            r = w.db["refresh"].get(token)
            if r and r["client"] == client.get_client_id():
                del w.db["refresh"][token]

    return Adapter


# ------------------------------------------------------------------ requests
def encode(pairs, style=0):
    """x-www-form-urlencoded in one of several equivalent spellings."""
    if style == 1:
        q = lambda s: quote(s, safe="")
    elif style == 2:
        q = lambda s: re.sub("%[0-9A-F]{2}", lambda m: m.group().lower(), quote(s, safe="/:?@,"))
    elif style == 3:
        q = lambda s: "".join("%%%02X" % b for b in s.encode())
    else:
        q = quote_plus
    return "&".join(q(k) + "=" + q(v) for k, v in pairs)


class Draft:
    """An HTTP request in the making; the model reads only what is put here."""

    def __init__(self, method, path):
        self.method, self.path, self.q, self.f, self.h = method, path, [], [], {}
        self.basic, self.user, self.style = None, None, 0
        self.reuse, self.made = False, None

    def get(self, name):
        for part in (self.f, self.q):
            for k, v in part:
                if k == name:
                    return v
        return None

    def put(self, name, value, form=None):
        part = self.f if (form if form is not None else self.method == "POST") else self.q
        for i, (k, v) in enumerate(part):
            if k == name:
                part[i] = [name, value]
                return
        part.append([name, value])

    def drop(self, name):
        self.q = [p for p in self.q if p[0] != name]
        self.f = [p for p in self.f if p[0] != name]

    def set_basic(self, cid, secret, scheme="Basic"):
        self.basic = (cid, secret)
        self.h["Authorization"] = scheme + " " + base64.b64encode(f"{cid}:{secret}".encode()).decode()

    def no_auth(self):
        self.basic = None
        self.h = {k: v for k, v in self.h.items() if k.lower() != "authorization"}
        self.drop("client_id")
        self.drop("client_secret")

    def form(self):
        return {k: v for k, v in self.f if v != ""}

    def data(self):
        out = {k: v for k, v in self.q if v != ""}
        out.update(self.form())
        return out

    def url(self):
        return "https://as.example" + self.path + ("?" + encode(self.q, self.style) if self.q else "")

    def body(self):
        return encode(self.f, self.style).encode() if self.f else b""

    def headers(self):
        h = dict(self.h)
        if self.f:
            h["Content-Type"] = "application/x-www-form-urlencoded"
        return h

    def request(self):
        if self.reuse and self.made is not None:  # the application passes one request object to several calls
            return self.made
        self.made = Request(self.method, self.url(), self.headers(), self.body(), User(self.user) if self.user is not None else None)
        return self.made

    def show(self):
        return f"{self.method} {self.url()} {self.headers()} {self.f} user={self.user!r}"


_loop = None


def loop():
    global _loop
    if _loop is None or _loop.is_closed():
        _loop = asyncio.new_event_loop()
        asyncio.set_event_loop(_loop)
    return _loop


class Out:
    """A response: status, headers (lower-case names), body; or consent data."""

    def __init__(self, status=None, headers=None, body=None, consent=None):
        self.status, self.headers, self.body, self.consent = status, headers, body, consent

    def show(self):
        if self.consent is not None:
            return f"consent data {self.consent}"
        return f"{self.status} {self.headers} {self.body!r}"


def same_scopes(got, want):
    """The same scopes; one may be repeated only where the request repeated some."""
    got, want = list(got), list(want)
    return set(got) == set(want) and (len(got) == len(set(got)) or len(want) != len(set(want)))


def plain(resp):
    if isinstance(resp, dict):
        return Out(consent=resp)
    check(all(type(x) is str for kv in resp.headers.items() for x in kv), f"header that is no text in {resp.headers}", ["C22"])
    check(type(resp.body) is bytes and type(resp.status_code) is int, f"malformed response: {resp.status_code!r} {resp.body!r}", ["C22"])
    names = [k.lower() for k in resp.headers]
    check(len(names) == len(set(names)), f"repeated header in {resp.headers}", ["C22"])
    return Out(resp.status_code, {k.lower(): v for k, v in resp.headers.items()}, resp.body)


async def direct(w, endpoint, draft):
    fn = w.provider.authorize.get_consent_data if endpoint == "consent" else getattr(w.provider, endpoint)
    return plain(await fn(draft.request()))


def call(coro):
    return loop().run_until_complete(coro)


# ------------------------------------------------------------------ reading responses
TOKEN_ERRORS = {"invalid_request", "invalid_client", "invalid_grant", "unauthorized_client", "unsupported_grant_type", "invalid_scope",
                "unsupported_token_type"}
AUTH_ERRORS = {"invalid_request", "unauthorized_client", "access_denied", "unsupported_response_type", "invalid_scope", "server_error",
               "temporarily_unavailable"}
ERROR_CODES = {"InvalidRequest": "invalid_request", "InvalidClient": "invalid_client", "InvalidGrant": "invalid_grant", "UnauthorizedClient": "unauthorized_client",
               "AccessDenied": "access_denied", "InvalidScope": "invalid_scope", "ServerError": "server_error", "TemporarilyUnavailable": "temporarily_unavailable"}
LAX = {"invalid_request", "invalid_grant", "invalid_client"}


def json_body(out, tags):
    check(isinstance(out.status, int) and isinstance(out.body, bytes), f"malformed response {out.show()}", tags)
    check(out.headers.get("content-type", "").split(";")[0].strip().lower() == "application/json", f"not declared as JSON: {out.show()}", tags)
    try:
        return json.loads(out.body)
    except ValueError:
        raise Violation(f"body is not JSON: {out.show()}", tags)


def directives(out, name):
    return [p.strip().lower() for p in out.headers.get(name, "").split(",")]


def token_format(out):
    """Well-formedness of a token response; returns ('ok'|'error', body)."""
    body = json_body(out, ["C22"])
    check("no-store" in directives(out, "cache-control"), f"token response may be cached: {out.show()}", ["C22"])
    check("no-cache" in directives(out, "pragma"), f"token response lacks Pragma: {out.show()}", ["C22"])
    check(isinstance(body, dict), f"token response is not an object: {out.show()}", ["C22"])
    check("www-authenticate" not in out.headers or body.get("error") == "invalid_client", f"challenge although the client was not refused: {out.show()}", ["C22", "C14"])
    if out.status == 200:
        check("error" not in body and isinstance(body.get("access_token"), str), f"no access token in {out.show()}", ["C22"])
        return "ok", body
    check(out.status in (400, 401), f"token response has status {out.status}", ["C22"])
    check(body.get("error") in TOKEN_ERRORS, f"non-standard error in {out.show()}", ["C22"])
    check(all(isinstance(v, str) for v in body.values()), f"error members are not strings: {out.show()}", ["C22"])
    check(not any(k in body for k in ("access_token", "refresh_token", "id_token")), f"error response carries tokens: {out.show()}", ["C22"])
    return "error", body


def location(out, tags):
    check(out.consent is None and out.status in (302, 303), f"not a redirect: {out.show()}", tags)
    loc = out.headers.get("location")
    check(isinstance(loc, str) and loc != "", f"no Location: {out.show()}", tags)
    check(loc.isascii() and loc.isprintable() and " " not in loc, f"malformed Location {loc!r}", tags)
    return loc


def under(loc, base):
    """The parameters `loc` adds to the URL `base`, or None if it is not base plus query parameters."""
    if not loc.startswith(base):
        return None
    rest = loc[len(base):]
    if "?" in base:
        if rest[:1] == "&" or base[-1] in "?&":
            rest = rest.lstrip("&")
        elif rest:
            return None
    else:
        if rest[:1] not in ("?", ""):
            return None
        rest = rest[1:]
    if "#" in rest or "?" in rest:
        return None
    a, b = urlsplit(base), urlsplit(loc)
    if (a.scheme, a.netloc, a.path) != (b.scheme, b.netloc, b.path):
        return None
    items = parse_qsl(rest, keep_blank_values=True, strict_parsing=bool(rest))
    params = dict(items)
    return params if len(params) == len(items) else None


# ------------------------------------------------------------------ the model
def authenticated(db, draft, methods=(BASIC, POST, NONE)):
    """(client ID or None, Basic credentials were presented)"""
    form = draft.form()
    if draft.basic and draft.basic[0] and draft.basic[1]:
        cid, secret = draft.basic
        r = db["clients"].get(cid)
        ok = not form.get("client_secret") and r is not None and r["method"] == BASIC and r["secret"] == secret and BASIC in methods
        return (cid if ok else None), True
    cid, secret = form.get("client_id"), form.get("client_secret")
    r = db["clients"].get(cid) if cid else None
    if r is None:
        return None, False
    if secret is not None:
        return (cid if r["method"] == POST and r["secret"] == secret and POST in methods else None), False
    return (cid if r["method"] == NONE and NONE in methods else None), False


def pkce(method, challenge, verifier):
    if method == "plain":
        return challenge == verifier
    if method != "S256":
        return False
    return verifier.isascii() and challenge == ref.b64e(hashlib.sha256(verifier.encode()).digest())


def effects(log):
    return [e for e in log if e[0] not in ("delete_code", "userinfo")]


def judge_authorize(w, pre, draft, out, log, consent=False):
    """Returns a label; raises Violation."""
    main = ["C27"] if consent else ["C16"]
    data, cfg = draft.data(), w.cfg
    uri, cid, rtype, state = data.get("redirect_uri"), data.get("client_id"), data.get("response_type"), data.get("state")
    client = pre["clients"].get(cid) if cid else None
    fatal = not (uri and cid and rtype) or client is None or uri not in client["uris"]
    ctx = f"{draft.show()} -> {out.show()}; effects {log}"
    if fatal:
        check(out.consent is None, f"consent data for an invalid request: {ctx}", main)
        loc = location(out, ["C22", "C15"] + main)
        params = under(loc, cfg["error_url"])
        check(params is not None, f"invalid client, redirect URI or missing parameter, but redirected to {loc!r}: {ctx}", ["C15"] + main)
        check(not effects(log) and "code" not in params, f"invalid request had an effect: {ctx}", main + ["C15"])
        check(params.get("error") in AUTH_ERRORS, f"no standard error on the error page: {ctx}", main + ["C22"])
        return "fatal"
    reasons = []
    if consent:
        if rtype not in client["rtypes"]:
            reasons.append(("response type", set(), {"unauthorized_client", "unsupported_response_type"}))
        if "scope" not in data:
            reasons.append(("no scope", set(), {"invalid_request"}))
    else:
        if draft.user is None:
            reasons.append(("no user", set(), {"access_denied"}))
        if rtype != "code" or "authorization_code" not in cfg["grants"]:
            reasons.append(("unsupported response type", set(), {"unsupported_response_type"}))
        if rtype not in client["rtypes"]:
            reasons.append(("response type not allowed", set(), {"unauthorized_client"}))
        if not 43 <= len(data.get("code_challenge", "")) <= 128:
            reasons.append(("challenge", set(), {"invalid_request"}))
        if data.get("code_challenge_method") not in ("plain", "S256"):
            reasons.append(("method", set(), {"invalid_request"}))
        scopes = data.get("scope", "").split()
        if "scope" not in data:
            reasons.append(("no scope", set(), {"invalid_request"}))
        elif not all(s in cfg["scopes"] and s in client["scopes"] for s in scopes):
            reasons.append(("scope", {"C19"}, {"invalid_scope"}))
    tags = main + sorted(set().union(*[r[1] for r in reasons])) if reasons else main
    if consent and not reasons:
        if out.consent is None:
            loc = location(out, ["C22"] + main)
            raise Violation(f"no consent data for a valid query: {ctx}", main + (["C15"] if under(loc, uri) is None else []))
        got = out.consent
        check(set(got) >= {"client", "scopes"} and got["client"].get_client_id() == cid, f"consent data names the wrong client: {ctx}", main)
        want = [s for s in data["scope"].split() if s in client["scopes"]]
        check(same_scopes(map(str, got["scopes"]), want), f"consent scopes {sorted(map(str, got['scopes']))} instead of {want}: {ctx}", main)
        check(not effects(log) and not log, f"consent query had effects: {ctx}", main)
        return "consent"
    check(out.consent is None, f"consent data for a query that has to be refused ({[r[0] for r in reasons]}): {ctx}", main)
    loc = location(out, ["C22"] + main)
    params = under(loc, uri)
    if params is None:
        onerr = under(loc, cfg["error_url"])
        raise Violation(f"redirected to {loc!r} instead of {uri!r}: {ctx}", (main if onerr is not None else []) + ["C15"])
    check(params.get("state") == state, f"state {state!r} came back as {params.get('state')!r}: {ctx}", main)
    if reasons:
        check("code" not in params and not effects(log), f"authorized although: {[r[0] for r in reasons]}: {ctx}", tags)
        allowed = set().union(*[r[2] for r in reasons])
        check(params.get("error") in allowed, f"error {params.get('error')!r} instead of {sorted(allowed)} ({[r[0] for r in reasons]}): {ctx}", tags)
        check(not log, f"effects of a refused request: {ctx}", tags)
        return "refused:" + reasons[0][0]
    if "error" in params:
        raise Violation(f"refused although entitled: {ctx}", main + (["C19"] if params["error"] == "invalid_scope" else []))
    code = params.get("code")
    check(params.pop("ext", None) == cfg.get("ext"), f"extension of another provider ran, or its own did not: {ctx}", ["C25"])
    check(set(params) == ({"code", "state"} if state is not None else {"code"}) and code, f"unexpected parameters {params}: {ctx}", main)
    saved = [e for e in log if e[0] == "save_code"]
    check(len(log) == 1 and len(saved) == 1, f"not exactly one code stored: {ctx}", main)
    _, code2, stored, scid, suid = saved[0]
    check(code2 == code, f"the code sent is not the one stored: {ctx}", main)
    check(code not in pre["codes"] and code not in w.issued, f"code repeated: {ctx}", main + ["C28"])
    check(len(code) >= 43, f"short code: {ctx}", ["C28"])
    check((scid, suid) == (cid, draft.user), f"code bound to {(scid, suid)}: {ctx}", main)
    check(stored.get("redirect_uri") == uri, f"code bound to redirect URI {stored.get('redirect_uri')!r}: {ctx}", main)
    check(list(stored.get("scopes")) == scopes, f"code bound to scopes {stored.get('scopes')}: {ctx}", main + ["C19"])
    check(stored.get("code_challenge") == data["code_challenge"] and stored.get("code_challenge_method") == data["code_challenge_method"],
          f"code bound to another challenge: {ctx}", main)
    if cfg["oidc"] or stored.get("nonce") is not None:
        check(stored.get("nonce") == data.get("nonce"), f"code bound to nonce {stored.get('nonce')!r}: {ctx}", main)
    return "authorized"


def alias(a, b):
    """Whether tokens obtained with the text b were obtained with the code a."""
    norm = lambda c: "".join(str(c).split()).casefold()[:24]
    return a == b or norm(a) == norm(b)


def absorb(w, pre, draft, log):
    """What the request did, as later requests are judged: codes and tokens now known to clients."""
    data = draft.data()
    for e in log:
        if e[0] == "save_code" and e[1] not in w.issued:
            w.issued[e[1]] = {"client": data.get("client_id"), "user": draft.user, "uri": data.get("redirect_uri"), "redirect_uri": data.get("redirect_uri"),
                              "scopes": data.get("scope", "").split(), "challenge": data.get("code_challenge"), "method": data.get("code_challenge_method"),
                              "nonce": data.get("nonce")}
            w.code_list.append(e[1])
        elif e[0] == "access" and e[1] not in w.access_list:
            w.access_list.append(e[1])
        elif e[0] == "refresh" and e[1] not in w.refresh_list:
            w.refresh_list.append(e[1])
    w.dead_codes |= set(pre["codes"]) - set(w.db["codes"])
    if data.get("grant_type") == "authorization_code" and any(e[0] == "access" for e in log):
        w.redeemed |= {c for c in w.issued if alias(c, data.get("code"))}


def entitled_code(w, pre, draft):
    """The code an authenticated client entitled to the grant presents, or None."""
    data = draft.data()
    if data.get("grant_type") != "authorization_code" or "authorization_code" not in w.cfg["grants"]:
        return None
    cid, _ = authenticated(pre, draft)
    return data.get("code") if cid and "authorization_code" in pre["clients"][cid]["grants"] else None


def judge_codes(w, pre, draft, ctx):
    """Codes are consumed exactly when an authenticated client entitled to the grant presents them."""
    code, gone = entitled_code(w, pre, draft), set(pre["codes"]) - set(w.db["codes"])
    check(not gone - {code}, f"code deleted by a request that does not present it entitled: {ctx}", ["C18"])
    check(not (code in pre["codes"] and code not in gone), f"code still redeemable after being presented: {ctx}", ["C18"])


GT_MAIN = {"authorization_code": "C17", "refresh_token": "C20", "client_credentials": "C21"}


def judge_token(w, pre, draft, out, log):
    cfg, now = w.cfg, w.now_ms()
    ctx = f"{draft.show()} -> {out.show()}; effects {log}"
    kind, body = token_format(out)
    data = draft.data()
    gt = data.get("grant_type")
    main = GT_MAIN.get(gt, "C21")
    reasons = []
    if not gt:
        reasons.append(("no grant type", {"C21"}, {"invalid_request"}))
    elif gt not in cfg["grants"]:
        reasons.append(("grant not enabled", {"C21"}, {"unsupported_grant_type"}))
    cid, basic = authenticated(pre, draft, (BASIC, POST) if gt == "client_credentials" else (BASIC, POST, NONE))
    client = pre["clients"].get(cid) if cid else None
    if client is None:
        reasons.append(("client not authenticated", {"C14"} | ({"C21"} if gt == "client_credentials" else set()), {"invalid_client"}))
    elif gt and gt not in client["grants"]:
        reasons.append(("grant not registered", {"C21"}, {"unauthorized_client"}))
    code = rt = user = scopes = None
    requested = data["scope"].split() if "scope" in data else None
    if gt == "authorization_code":
        code, uri, verifier = data.get("code"), data.get("redirect_uri"), data.get("code_verifier")
        if not (code and uri and verifier):
            reasons.append(("missing parameter", set(), LAX))
        rec = {**pre["codes"][code], **w.issued.get(code, {})} if code and code in pre["codes"] else None
        if code and rec is None:
            reasons.append(("unknown code", {"C18"} if code in w.dead_codes else set(), LAX))
        elif code in w.redeemed:
            reasons.append(("code redeemed before", {"C18"}, LAX))
        if rec is not None:
            user, scopes = rec["user"], rec["scopes"]
            if cid and rec["client"] != cid:
                reasons.append(("foreign code", set(), LAX))
            if uri and (uri != rec["redirect_uri"] or client is not None and uri not in client["uris"]):
                reasons.append(("redirect URI", set(), LAX))
            if verifier and not pkce(rec["method"], rec["challenge"], verifier):
                reasons.append(("verifier", set(), LAX))
            if now >= rec["exp"]:
                reasons.append(("expired code", set(), LAX))
            if user not in pre["users"]:
                reasons.append(("user gone", set(), LAX))
    elif gt == "refresh_token":
        rt = data.get("refresh_token")
        rec = {**pre["refresh"][rt], **w.granted.get(rt, {})} if rt and rt in pre["refresh"] else None
        if rt is None:
            reasons.append(("missing refresh token", set(), LAX))
        elif rec is None:
            reasons.append(("unknown refresh token", {"C23"} if rt in w.revoked else set(), LAX))
        else:
            user, scopes = rec["user"], rec["scopes"]
            if cid and rec["client"] != cid:
                reasons.append(("foreign refresh token", set(), LAX))
            if now >= rec["exp"]:
                reasons.append(("expired refresh token", set(), LAX))
            if user not in pre["users"]:
                reasons.append(("user gone", set(), LAX))
            if requested is not None and not all(s in cfg["scopes"] and s in scopes and (client is None or s in client["scopes"]) for s in requested):
                reasons.append(("scope", {"C19"}, {"invalid_scope"}))
            if client is not None:
                scopes = [s for s in (requested if requested is not None else scopes) if s in client["scopes"]]
    elif gt == "client_credentials" and client is not None:
        if requested is not None and not all(s in cfg["scopes"] and s in client["scopes"] for s in requested):
            reasons.append(("scope", {"C19"}, {"invalid_scope"}))
        scopes = [s for s in (requested if requested is not None else client["scopes"]) if s in client["scopes"] and s in cfg["scopes"]]
    why = [r[0] for r in reasons]
    made = [e for e in log if e[0] in ("access", "refresh")]
    other = [e for e in log if e[0] in ("save_code", "revoke")]
    check(not other, f"unrelated storage effects: {ctx}", [main])
    judge_codes(w, pre, draft, ctx)
    if reasons:
        tags = sorted({main}.union(*[r[1] for r in reasons]))
        check(kind == "error" and not made, f"tokens issued although: {why}: {ctx}", tags)
        allowed = set().union(*[r[2] for r in reasons])
        specific = sorted(set().union(*[r[1] for r in reasons])) or [main]
        check(body["error"] in allowed, f"error {body['error']!r} instead of {sorted(allowed)} ({why}): {ctx}", specific)
        if body["error"] == "invalid_client" and client is None and basic:
            check("basic" in out.headers.get("www-authenticate", "").lower(), f"no Basic challenge: {ctx}", ["C14"])
        if not any(h.lower() == "authorization" for h in draft.h):  # lenient reading of damaged Basic credentials is psion's choice
            check("www-authenticate" not in out.headers, f"challenge although no Basic credentials were presented: {ctx}", ["C14"])
        return "refused:" + "+".join(why)
    if kind == "error":
        extra = {"invalid_client": ["C14"], "invalid_scope": ["C19"], "unauthorized_client": ["C21"], "unsupported_grant_type": ["C21"]}
        raise Violation(f"refused although entitled: {ctx}", [main] + extra.get(body["error"], []))
    access = [e for e in made if e[0] == "access"]
    refresh = [e for e in made if e[0] == "refresh"]
    check(len(access) == 1, f"{len(access)} access tokens created: {ctx}", [main])
    want_refresh = gt != "client_credentials" and "refresh_token" in client["grants"]
    check(len(refresh) == (1 if want_refresh else 0), f"{len(refresh)} refresh tokens created: {ctx}", [main, "C21"])
    check(("refresh_token" in body) == want_refresh, f"refresh token in the response: {ctx}", [main, "C21"])
    check(body["access_token"] == access[0][1], f"another access token returned: {ctx}", [main])
    if want_refresh:
        check(body["refresh_token"] == refresh[0][1], f"another refresh token returned: {ctx}", [main])
    owner = ["client", cid] if gt == "client_credentials" else ["user", user]
    for e in made:
        check(e[2] == cid and e[3] == owner, f"token created for {e[2:4]}: {ctx}", [main])
        check(same_scopes(e[4], scopes), f"token has scopes {e[4]} instead of {scopes}: {ctx}", [main, "C19"])
    if "scope" in body:
        check(isinstance(body["scope"], str) and same_scopes(body["scope"].split(), scopes), f"stated scope is not the token's: {ctx}", ["C19"])
    else:
        base = requested if requested is not None else (rec["scopes"] if gt == "refresh_token" else None)
        if gt != "authorization_code" and scopes:
            check(base is not None and set(base) == set(scopes), f"scope differs from the requested one but is not stated: {ctx}", ["C19"])
    check(isinstance(body.get("token_type"), str) and body["token_type"].lower() == "bearer", f"token type: {ctx}", ["C22"])
    check(type(body.get("expires_in")) is int and body["expires_in"] == cfg["lifespan"], f"lifetime: {ctx}", ["C22"])
    for e in refresh:
        w.granted[e[1]] = {"client": cid, "user": user, "scopes": list(e[4]) if same_scopes(e[4], scopes) else list(dict.fromkeys(scopes))}
    check(body.get("ext") == (cfg.get("ext") if gt == "authorization_code" else None), f"extension of another provider ran, or its own did not: {ctx}", ["C25"])
    # ID token
    want_id = gt == "authorization_code" and cfg["oidc"] and "openid" in scopes
    check(("id_token" in body) == want_id, f"ID token {'missing' if want_id else 'unexpected'}: {ctx}", ["C24"])
    if want_id:
        judge_id_token(w, pre, body, cid, user, scopes, rec["nonce"], ctx)
    return "issued:" + gt + ("+openid" if want_id else "")


def judge_id_token(w, pre, body, cid, user, scopes, nonce, ctx):
    tok = body["id_token"]
    check(isinstance(tok, str), f"ID token is not text: {ctx}", ["C24"])
    signer = w.signer(pre["sk"])
    got = ref.decode(tok, signing_key(signer))
    check(got is not None, f"ID token does not verify under the provider's key: {ctx}", ["C24"])
    header, raw = got
    check(header.get("alg") == signer["alg"] and header.get("kid") == signer["kid"], f"ID token header {header}: {ctx}", ["C24"])
    claims = json.loads(raw)
    now = w.now_ms() // 1000
    d = hashlib.new("sha" + signer["alg"][2:], body["access_token"].encode()).digest()
    want = {"iss": w.cfg["issuer"], "aud": cid, "iat": now, "exp": now + w.cfg["id_lifespan"], "at_hash": ref.b64e(d[: len(d) // 2]),
            **userinfo(pre, user, scopes)}
    if nonce is not None:
        want["nonce"] = nonce
    for k, v in want.items():
        check(k in claims and gen.strict_equal(claims[k], v), f"ID token claim {k} is {claims.get(k)!r} instead of {v!r}: {ctx}", ["C24"])
    check(nonce is not None or "nonce" not in claims, f"ID token has a nonce: {ctx}", ["C24"])
    extra = {"name", "email", "extra", "sub"} & set(claims) - set(want)
    check(not extra, f"ID token discloses {extra}: {ctx}", ["C24"])


def judge_revoke(w, pre, draft, out, log):
    ctx = f"{draft.show()} -> {out.show()}; effects {log}"
    body = json_body(out, ["C22"])
    form = draft.form()
    cid, basic = authenticated(pre, draft)
    token, hint = form.get("token"), form.get("token_type_hint")
    bad_hint = hint is not None and hint not in ("access_token", "refresh_token")
    acts = effects(log)
    check(not any(e[0] == "delete_code" for e in log), f"codes deleted: {ctx}", ["C23"])
    if cid is None:
        check(not acts, f"unauthenticated revocation took effect: {ctx}", ["C14", "C23"])
        ok = {"invalid_client"} | ({"unsupported_token_type"} if bad_hint else set())
        check(out.status in (400, 401) and isinstance(body, dict) and body.get("error") in ok, f"failed authentication answered otherwise: {ctx}", ["C14", "C23"])
        if basic and body["error"] == "invalid_client":
            check("basic" in out.headers.get("www-authenticate", "").lower(), f"no Basic challenge: {ctx}", ["C14"])
        if not any(h.lower() == "authorization" for h in draft.h):  # lenient reading of damaged Basic credentials is psion's choice
            check("www-authenticate" not in out.headers, f"challenge although no Basic credentials were presented: {ctx}", ["C14"])
        return "refused:client not authenticated"
    if token is None:
        check(not acts, f"revocation without token took effect: {ctx}", ["C23"])
        check(out.status in (200, 400), f"status: {ctx}", ["C22"])
        if out.status == 400:
            check(isinstance(body, dict) and body.get("error") in {"invalid_request"} | ({"unsupported_token_type"} if bad_hint else set()),
                  f"error: {ctx}", ["C22", "C23"])
        return "no token"
    if bad_hint:
        check(not acts, f"unsupported hint took effect: {ctx}", ["C23"])
        check(out.status == 400 and isinstance(body, dict) and body.get("error") == "unsupported_token_type", f"unsupported hint answered otherwise: {ctx}", ["C23"])
        return "refused:hint"
    if out.status in (400, 401) and isinstance(body, dict) and body.get("error") == "invalid_client":
        raise Violation(f"authenticated revocation refused: {ctx}", ["C14", "C23"])
    check(out.status == 200, f"revocation refused: {ctx}", ["C23"])
    check(acts == [["revoke", cid, token, hint]], f"storage asked {acts}: {ctx}", ["C23"])
    own = token in pre["refresh"] and pre["refresh"][token]["client"] == cid
    if own:
        w.revoked.add(token)
    return "revoked:" + ("own" if own else "foreign" if token in pre["refresh"] else "unknown")


ENDPOINT = {"authorize": "authorize", "consent": "consent", "token": "token", "revoke": "revoke"}


def judge(w, endpoint, pre, draft, out, log):
    if endpoint in ("authorize", "consent"):
        label = judge_authorize(w, pre, draft, out, log, endpoint == "consent")
    elif endpoint == "token":
        label = judge_token(w, pre, draft, out, log)
    else:
        label = judge_revoke(w, pre, draft, out, log)
    # storage objects and configuration handed to psion are not altered by it
    for part in ("clients", "users"):
        check(w.db[part] == pre[part], f"stored {part} altered by the request {draft.show()}", ["C25"])
    for part in ("codes", "refresh"):
        for k, v in w.db[part].items():
            check(k not in pre[part] or pre[part][k] == v, f"stored {part} entry {k!r} altered by the request {draft.show()}", ["C25", "C19"])
    check(list(w.scopes) == w.cfg["scopes"], "the provider's scope list was altered", ["C25", "C19"])
    return endpoint + " " + label


def raise_tags(w, pre, endpoint, draft):
    data = draft.data()
    tags = ["C22"] + (["C19"] if "scope" in data and endpoint != "revoke" else [])
    if endpoint == "authorize":
        return tags + ["C16", "C15"]
    if endpoint == "consent":
        return tags + ["C27", "C15"]
    tags.append("C14")
    if endpoint == "revoke":
        return tags + ["C23"]
    gt = data.get("grant_type")
    tags.append(GT_MAIN.get(gt, "C21"))
    if gt == "authorization_code" and w.cfg["oidc"]:
        tags.append("C24")
    return tags


def perform(w, endpoint, draft, transport=direct):
    """Send the request; judge it against the model; returns (label, Out)."""
    pre = copy.deepcopy(w.db)
    w.log, noted = [], len(core.NOTED)
    out = None
    try:
        try:
            out = call(transport(w, endpoint, draft))
        except Violation:
            raise
        except Exception as exc:
            msg = f"{endpoint} raised {type(exc).__name__}: {exc} on {draft.show()}"
            if endpoint == "token":
                judge_codes(w, pre, draft, msg)
            raise Violation(msg, raise_tags(w, pre, endpoint, draft)) from exc
        try:
            label = judge(w, endpoint, pre, draft, out, list(w.log))
        except Violation:
            raise
        except Exception:
            if len(core.NOTED) == noted:
                raise
            label = endpoint + " other"
    except Violation as v:
        if not core.foreign(v.props):
            raise
        core.note(v.message, v.props)
        label = endpoint + " other"
    finally:
        log, w.log = w.log, []
        absorb(w, pre, draft, log)
    return label, out
