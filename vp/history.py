"""Generated OAuth histories: worlds, operations (JSON) and their interpretation as requests."""
import base64, copy, hashlib, unicodedata
from urllib.parse import quote, unquote, unquote_plus

from .oauth import *
from .oauth import _loop
from .sched import Sched

SCOPES = ["openid", "profile", "email", "read", "write", "openid2", "notopenid", "rea", "read:all", "READ", "admin", "open",
          "https://api.example/auth/calendar.events.readonly", "urn:example:params:scope:" + "long-" * 14 + "name"]
IDS = ["app", "App", "app2", "ap", "appl", "client one", "cl%69ent", "cliént", "a+b", "0", "None", "other", "*", "x" * 60]
SECRETS = ["s3cret", "S3cret", "s3cret2", "s3c:ret", "sécret", "se cret", " pad ", "a+b&c=d", "%41bc", "None", "0", "x" * 80, "s3cre", ":", "zażółć", "ꟼ🔑"]
URIS = ["https://c.example/cb", "https://c.example/cb/", "https://c.example/cb2", "https://c.example/cb?x=1", "https://c.example/cb?x=1&y=a%26b",
        "http://127.0.0.1:8080/cb", "http://127.0.0.1/cb", "http://localhost:3000/cb", "http://[::1]:9000/cb", "com.example.app:/cb", "myapp://cb",
        "https://c.example:8443/cb", "https://c.example", "https://c.example/", "https://c.example/a%20b", "https://c.example/?", "https://C.example/CB",
        "https://c.example/cb?state=own", "https://c.example/cb;v=1", "https://xn--caf-dma.example/cb", "https://d.example/cb", "https://c.example/cb?code=1",
        "https://c.example/cb?x", "https://c.example/cb?u=http://e.example/?q", "https://c.example/~user/cb", "https://u@c.example/cb",
        "https://c.example/a+b", "https://c.example/cb?q=1+2", "https://c.example/cb?x=1%2B2%20", "https://c.example/(a)'b!*$,;:@", "https://c.example/cb?a[]=1"]
URI_CHARS = "abZ09-._~!$&'()*+,;=:@/?" + "%"
ERROR_URLS = ["https://as.example/oauth/error", "https://as.example/error?lang=en", "https://as.example/e/"]
USERS = ["u1", "u2", "U1", "1", "josé", "u 1"]
RTYPES = [["code"], ["code"], ["code", "token"], ["token"], [], ["code token", "code"], ["id_token", "code"]]


def choose(s, opts, a):
    """One of the strings that are not s."""
    opts = [o for o in dict.fromkeys(opts) if o != s]
    return opts[a % len(opts)]


def lenient(s, a):
    """What a lenient comparison could take for s."""
    opts = [s + " ", " " + s, s + "\n", "\t" + s, s + "\r\n", s + "\0", s.swapcase(), s.lower(), s.upper(), s + "=", s.rstrip("="), s.strip(), s + "\u00a0"]
    return choose(s, opts + lossy(s), a)


def lossy(s):
    """Other strings that become the same once normalized, folded or squeezed into a narrower character set."""
    wide = lambda t: "".join(chr(ord(c) + 0xFEE0) if "!" <= c <= "~" else c for c in t)
    other = lambda f: "".join(c if c.isascii() else f(c) for c in s)
    pct = lambda t: "".join("%%%02X" % b for b in t.encode())
    codes = [pct(s), s[:-1] + pct(s[-1:]), pct(s[:1]).lower() + s[1:], base64.b64encode(s.encode()).decode(), base64.urlsafe_b64encode(s.encode()).decode().rstrip("="), s.encode().hex(), hashlib.sha256(s.encode()).hexdigest(),
             hashlib.md5(s.encode()).hexdigest(), "&#%d;" % ord(s[0]) + s[1:] if s else "x", "\\" + s, s.encode("unicode_escape").decode(), unquote(s), unquote_plus(s)]
    return codes + [wide(s[:1]) + s[1:], wide(s), other(lambda c: chr(0xE0 + (ord(c) + 1) % 23)), other(lambda c: "?"), other(lambda c: ""), s.encode().decode("latin-1"), s.replace("ss", "\u00df"),
            unicodedata.normalize("NFD", s), unicodedata.normalize("NFC", s), unicodedata.normalize("NFKD", s), s[:1] + "\u0301" + s[1:], s + "\u00e9", s.replace("i", "\u0131"), s.replace("k", "\u212a"),
            "".join(c for c in unicodedata.normalize("NFD", s) if not unicodedata.combining(c)), s.replace("a", "\u0430"), s.casefold(), other(lambda c: "\ufffd")]


def near(s, a):
    """A near miss of the string s."""
    opts = [s + "x", s[:-1], s.swapcase(), s + " ", " " + s, s[: len(s) // 2], s[1:], s[::-1], s + s, s + "\n", s + "\0", s.upper(), s.lower(),
            quote(s, safe=""), s.replace("%", "%25"), unicodedata.normalize("NFD", s), unicodedata.normalize("NFKC", s), s + "\u200b", "None", "null",
            "*", ".", "0", "true", s[:1] + "x" + s[2:], "x" + s[1:], s[:-1] + "x", s.strip(), s.title(), s.replace("+", " "), s.replace(" ", "+"), s + "=",
            s + "%20", s + "%00", s + ",", s + "." + s, "_" + s, s.replace("-", "+").replace("_", "/"), s.replace("e", "\u0435"), s.rstrip("/"), s + "/",
            "x:" + s, "urn:ietf:params:oauth:grant-type:" + s, s + ":x", "x." + s, "x/" + s, s.replace("_", "-"), s.replace("_", " "), s.replace("_", ""), s + ";x",
            "x " + s, s + " x", "x," + s, s + "#x", s + "?x", s + "&x", "'" + s + "'", '"' + s + '"', "[" + s + "]", s.replace("-", "_"), s[:32], s[:64], "x" + s, s + "." ]
    opts += [n for n in gen.NEW_S] + [s + n for n in gen.NEW_S] + [n + s for n in gen.NEW_S]
    return lenient(s, a // 3) if a % 3 == 0 else choose(s, opts, a // 3)


def near_uri(u, a):
    host = u.split("://")[1].split("/")[0] if "://" in u else "h"
    path = u.split("?")[0]
    opts = [u + "/", u.rstrip("/"), u + "x", u + "?a=b", u + "&a=b", u + "#f", u.replace(host, host + ".evil.example"), u.replace(host, "evil." + host),
            u.replace(host, "evil" + host), u.replace("https:", "http:"), u.replace("http:", "https:"), u.upper(), u.replace("c.example", "C.EXAMPLE"),
            u.replace(host, host + ":443"), u.replace(host, host.split(":")[0] + ":9999"), u.replace(host, host.split(":")[0]), "//" + host + "/cb",
            u.replace("://", "://x@"), u.replace(host, "evil.example@" + host), u.replace(host, host + "@evil.example"), path, path + "?x=2", u + "/../cb", u + "/cb",
            u + "%2f", u.replace("cb", "%63b"), u.replace("cb", "CB"), " " + u, u + " ", u + "\t", u + "\r\nX-Evil: 1", "https://evil.example/cb", "javascript:alert(1)",
            u.replace("https://", "https:\\\\"), u + ".evil.example", u.replace(host, host + "."), "*", "/cb", u.replace("/cb", "//cb"), u.replace("?", "?z=1&"),
            u + "?", u[:-1], u + "%20", u.replace("localhost", "127.0.0.1"), u.replace("127.0.0.1", "127.0.0.2"), u.replace("/cb", "/./cb"), u.replace("[::1]", "127.0.0.1"),
            u.replace("/cb", "/cb;jsession=1"), "https://as.example/oauth/error"]
    opts += [n for n in gen.NEW_S] + [u + n for n in gen.NEW_S]
    bare = host.split("@")[-1].rsplit(":", 1)[0] if not host.endswith("]") else host
    usual = [u + "/", u.rstrip("/"), path, path + "/", u + ("&" if "?" in u else "?") + "a=b", u.replace(host, bare + ":%d" % (1 + a % 65535)), u.replace(host, bare), u.replace(host, host.upper()), u + "x",
             path + "/x", u.replace(host, "a." + host), u.replace("https:", "http:") if "https:" in u else u.replace("http:", "https:"), u.replace("localhost", "127.0.0.1"), path.rsplit("/", 1)[0] + "/other"]
    return choose(u, usual if a % 2 else opts, a // 2)


# ------------------------------------------------------------------ strategies
_bool = st.booleans()
_small = st.integers(0, 5)
_any = st.integers(0, 10 ** 6)
_keyalgs = [("oct", "HS256"), ("oct", "HS256"), ("oct", "HS384"), ("oct", "HS512"), ("ec", "ES256"), ("ec", "ES384"), ("ec", "ES512"), ("rsa", "RS256"), ("rsa", "RS384"),
            ("rsa", "RS512"), ("rsa", "PS256"), ("rsa", "PS384"), ("rsa", "PS512")]
_RSA = [i for i in keys.FAST_RSA if keys.RSA[i]["bits"] >= 1536][:3]
_kids = st.sampled_from(["k1", "key é", "0", "a.b"])
_scope_sets = st.integers(1, 2 ** len(SCOPES) - 1).map(lambda m: [s for i, s in enumerate(SCOPES) if m >> i & 1])
_scope_lists = gen.weighted((2, _scope_sets), (2, st.just(list(SCOPES))), (1, st.just(["openid", "profile", "email", "read"])), (1, st.permutations(SCOPES)))
_grants = gen.weighted((12, st.permutations(list(GRANTS))), (1, st.lists(st.sampled_from(list(GRANTS)), unique=True, min_size=1)))
_client_grants = gen.weighted((1, st.just(list(GRANTS))), (2, st.lists(st.sampled_from(list(GRANTS)), unique=True)),
                              (1, st.just(["authorization_code"])), (1, st.lists(st.tuples(st.sampled_from(list(GRANTS)), st.integers(0, 400)).map(lambda t: near(*t)), min_size=1, max_size=3)), (1, st.just(["authorization_code", "password", "refresh_token2"])))
_ttl = st.sampled_from([1000, 1500, 10000, 60000, 600000])
_rttl = st.sampled_from([2000, 60000, 3600000, 86400000, 30 * 86400000])
_life = gen.weighted((2, st.sampled_from([60, 3600, 36000])), (1, st.integers(1, 10 ** 6)))
_life0 = gen.weighted((9, _life), (1, st.just(0)))
_tz = st.sampled_from(["UTC", "JST-9", "PST8PDT", "NPT-5:45", "America/New_York", "<+14>-14", "<-12>12"])
_text = gen.text(1, 24)
_state = gen.weighted((1, st.none()), (3, _text), (1, st.sampled_from(["xyz", "0", "null", "None", " ", "a b", "a+b", "a%20b", "%", "&", "=", "#", "é", "\r\nX: y", "/..//", "x" * 3000,
                                                                      "{\"a\": 1}", "https://e.example/?a=b#c", "error", "false", "A" * 129])))
_nonce = gen.weighted((1, st.none()), (2, _text), (1, st.sampled_from(["n-0S6_WzA2Mj", "0", "None", "é", "a.b", "x" * 400])))
_now = st.tuples(st.sampled_from([T0, 1710053999, 1729994399, 951782399, 1, 2 ** 31 - 2, 2 ** 31 + 5, 4102444800]), st.sampled_from([0, 0, 250, 999])).map(lambda t: t[0] * 1000 + t[1])
_name = gen.text(0, 12)
_tok = gen.weighted((3, st.just(0)), (2, st.integers(0, len(TOKEN_STYLES) - 1)))
_raw = gen.weighted((2, gen.text(1, 30)), (1, st.sampled_from(["unknown-token", "eyJhbGciOiJIUzI1NiJ9.eyJzdWIiOiJ1MSJ9.c2ln", "a.b.c", "a.b", "a.b.c.d.e", "0", "None", "null", "-", "x" * 5000, "access_token", "refresh_token", "00000000-0000-4000-8000-000000000000", "Bearer abc", "*"])))
_which = gen.weighted((2, st.integers(0, 5)), (1, st.just(-1)))
_sel = gen.weighted((3, st.integers(0, 10 ** 6)), (1, st.integers(0, 14).map(lambda i: 1 << i)))  # several scopes, or one
_extra = gen.json_values(5).filter(lambda v: v is not None)


_alt = st.sampled_from([[{"spec": {"t": "oct", "k": "6b" * 32}, "alg": "HS512"}], [{"spec": {"t": "ec", "crv": "P-256", "d": "abcd"}, "alg": "ES256"}],
                        [{"spec": {"t": "ec", "crv": "P-384", "d": "abcde"}, "alg": "ES384"}], [{"spec": {"t": "oct", "k": "6b" * 33}, "alg": "HS256"}]])


@gen.cached
def _key_attrs(alg):
    return st.lists(st.sampled_from([["alg", alg], ["use", "sig"], ["key_ops", ["sign", "verify"]], ["note", "y"], ["x5t", "abc"], ["alg", alg]]), max_size=3, unique_by=lambda p: p[0])


@gen.cached
def configs(rich=True):
    @st.composite
    def make(draw):
        kind, alg = _keyalgs[draw(st.integers(0, len(_keyalgs) - 1))] if rich else ("oct", "HS256")
        spec = ({"t": "oct", "k": draw(st.binary(min_size=1, max_size=8)).hex() * 8} if kind == "oct" else
                {"t": "ec", "crv": ref.CRV_OF[alg], "d": "%x" % draw(st.integers(1, 10 ** 6))} if kind == "ec" else {"t": "rsa", "i": _RSA[draw(_any) % len(_RSA)]})
        bits = draw(st.integers(0, 15))
        kid = draw(_kids)
        alt = draw(_alt) if rich and bits & 8 else []
        return {"issuer": draw(st.sampled_from(["https://as.example", "https://as.example/", "https://issuer.example/t/é"])), "error_url": draw(st.sampled_from(ERROR_URLS)),
                "scopes": draw(_scope_lists), "grants": draw(_grants), "lifespan": draw(_life0), "id_lifespan": draw(_life), "oidc": bool(bits & 3),
                "key": {"spec": spec, "kid": kid, **({"attrs": draw(_key_attrs(alg))} if rich else {})}, "alg": alg, "alt": [dict(e, kid=kid + "2") for e in alt], "code_ttl": draw(_ttl), "refresh_ttl": draw(_rttl), "live": bool(bits & 4), "tok": draw(_tok)}
    return make()


def _registrable(u):
    return bool(re.fullmatch(r"[a-z][a-z0-9+.-]*:/[!-~]+", u)) and not any(c in u for c in "#\\\"<>^`{|}") and bool("[" not in u or re.match(r"[a-z]+://\[::1\](:\d+)?(/|$)", u))


_cid = gen.text(1, 12).filter(lambda t: ":" not in t)


@st.composite
def _clients(draw):
    out = {}
    base = draw(st.permutations(range(len(IDS))))
    n = draw(st.integers(1, 3))
    uris = draw(st.permutations(URIS))
    secrets = draw(st.permutations(SECRETS))
    healthy = draw(st.integers(0, 3)) > 0
    for i in range(n):
        method = draw(st.sampled_from([BASIC, BASIC, POST, POST, NONE]))
        k = draw(st.integers(0, 8))
        nuri = 1 + k % 3
        own = uris[0:nuri] if k > 4 else uris[3 * i:3 * i + nuri]
        if k % 4 == 3:  # registered URIs that are near each other
            own = list(dict.fromkeys(own[:1] + [u for u in (near_uri(own[0], draw(_any)) for _ in range(2)) if _registrable(u)]))
        if draw(st.integers(0, 7)) == 7:  # a URI of any characters a URI may have
            own = ["https://c.example/" + "".join("%2B" if c == "%" else c for c in draw(st.text(URI_CHARS, min_size=1, max_size=10)))] + own[1:]
        if draw(st.integers(0, 9)) == 9:
            own = []
        if draw(st.integers(0, 4)) == 4:
            cid = draw(_cid)
            cid = cid if cid not in out else IDS[base[i]]
        else:
            cid = IDS[base[i]]
        if i and draw(st.integers(0, 3)) == 3:  # a client much like the one before
            prev, a = list(out.values())[-1], draw(_any)
            alike = [prev["id"] + "2", prev["id"][:-1], prev["id"].swapcase(), "x" + prev["id"], near(prev["id"], a // 8)][a % 5]
            if alike and alike not in out and ":" not in alike:
                cid = alike
            own = list(prev["uris"])
            if a // 5 % 3 == 0 and prev["secret"]:
                secrets = secrets[:i] + [prev["secret"]] + secrets[i + 1:]
        if draw(st.integers(0, 4)) == 4:
            secrets = secrets[:i] + [draw(_text)] + secrets[i + 1:]
        if method != NONE and draw(st.integers(0, 11)) == 11:
            secrets = secrets[:i] + [None] + secrets[i + 1:]  # registered without a secret: cannot authenticate
        out[cid] = {"id": cid, "secret": None if method == NONE else secrets[i], "method": method,
                             "uris": own, "scopes": draw(_scope_lists), "grants": list(GRANTS) if healthy else draw(_client_grants),
                             "rtypes": ["code"] if healthy else RTYPES[draw(st.integers(0, len(RTYPES) - 1))], "order": bool(k & 1)}
    return out


@st.composite
def _users(draw):
    n = draw(st.integers(1, 3))
    ids = draw(st.permutations(USERS))
    return {u: {"name": draw(_name), "extra": draw(_extra)} for u in ids[:n]}


@gen.cached
def worlds(rich=True):
    return st.fixed_dictionaries({"cfg": configs(rich), "db": st.fixed_dictionaries({"clients": _clients(), "users": _users()})})


@st.composite
def _verifier(draw):
    k = draw(st.integers(0, 10))
    if k == 0:
        return draw(gen.text(1, 60))
    n = [43, 43, 44, 50, 64, 100, 127, 128, 86, 43, 43][k]
    if k == 10:
        n = draw(st.sampled_from([129, 130, 150, 256, 300, 1000]))
    h = hashlib.sha512(str(draw(_any)).encode()).hexdigest() * 8
    t = ("Aa~._-9Zz" if k % 2 else "b") + h
    return t[:n]


AUTH_FLAWS = ["secret", "nocreds", "othermethod", "both", "query", "unknown", "asother", "asotherid", "malformed", "bearer", "nonesecret", "oldsecret", "extraid",
              "scheme", "emptysecret", "idonly", "otherid", "splitid", "hdrcase", "queryboth", "badbytes", "badbytes", "secalias", "secalias", "idalias"]
GRANT_FLAWS = ["gt_drop", "gt_blank", "gt_near", "gt_other", "gt_unknown"]
CODE_FLAWS = ["drop", "blank", "code_near", "code_alias", "code_other", "uri_near", "uri_other", "uri_own", "ver_near", "ver_challenge", "ver_other", "code_token", "asother", "asother"]
REFRESH_FLAWS = ["drop", "blank", "rt_near", "rt_code", "rt_access", "rt_foreign", "asother", "asother"]
SCOPE_FLAWS = ["sc_all", "sc_near", "sc_unknown", "sc_subset", "sc_blank", "sc_one", "sc_client", "sc_provider", "sc_reverse", "sc_prefix", "sc_original", "sc_space", "sc_lots"]
AUTHZ_FLAWS = ["drop", "blank", "rtype", "chlen", "chmethod", "nouser", "chlong", "chnear", "chnear"]
REDIR_FLAWS = ["uri_near", "uri_near", "uri_near", "uri_other", "uri_any", "cid_near", "cid_other", "drop", "blank"]
REVOKE_FLAWS = ["drop", "blank", "hint_bad", "tok_near", "tok_other", "tok_query", "hint_near", "asother"]
GROUPS = {"auth": AUTH_FLAWS, "grant": GRANT_FLAWS, "code": CODE_FLAWS, "refresh": REFRESH_FLAWS, "scope": SCOPE_FLAWS, "authz": AUTHZ_FLAWS, "redir": REDIR_FLAWS,
          "revoke": REVOKE_FLAWS}
OP_GROUPS = {"authorize": ["authz", "redir", "scope"], "consent": ["authz", "redir", "scope"], "code": ["auth", "grant", "code"], "refresh": ["auth", "grant", "refresh", "scope"],
             "cc": ["auth", "grant", "scope"], "revoke": ["auth", "revoke"]}
_nflaws = gen.weighted((5, st.just(0)), (6, st.just(1)), (1, st.just(2)))
_rsel = _sel.map(lambda s: s if s & (s - 1) else 2 * s | 1)
_back = gen.weighted((4, st.just(0)), (2, st.integers(0, 6)))
_deltas = st.sampled_from([-1, 0, 1, -1, 0, 1, -1000, 1000, 999, -999, 5000, -5000, 30000, 60000, -60000, 300000, 3600000, 9 * 3600000, 86400000] +
                          [s * i * 1000 + d for i in gen.NEW_I[:20] if i < 10 ** 6 for s in (1, -1) for d in (-1, 0, 1)])
MUTS = ["secret", "secret", "user-", "method", "uris", "uris+", "scopes", "scopes+", "grants", "grants+", "rtypes", "delete", "user-", "user+", "restore", "stored", "key", "profile"]
_many = st.sampled_from([2, 3, 5, 10, 17, 33, 65] + [min(n + d, 300) for n in gen.NEW_I if 1 < n < 300 for d in (0, 1)])


@gen.cached
def _flaw(op, weights):
    w = dict(weights)
    opts = [(w.get(g, 1), st.tuples(st.sampled_from(GROUPS[g]), _any).map(list)) for g in OP_GROUPS[op] if w.get(g, 1)]
    return gen.weighted(*opts)


@gen.cached
def ops(op_weights, flaw_weights=(), flaw_count=None):
    """One operation; op_weights and flaw_weights are tuples of pairs."""
    nfl = _nflaws if flaw_count is None else st.sampled_from(flaw_count)

    @st.composite
    def flaws(draw, op):
        return [draw(_flaw(op, flaw_weights)) for _ in range(draw(nfl))]

    def authz(name):
        return st.fixed_dictionaries({"o": st.just(name), "c": _small, "u": _small, "r": _small, "s": _sel, "m": st.sampled_from(["S256", "S256", "plain"]), "v": _verifier(),
                                      "state": _state, "nonce": _nonce, "get": _bool, "style": st.integers(0, 3), "flaws": flaws(name)})
    make = {
        "authorize": authz("authorize"), "consent": st.tuples(authz("consent"), st.sampled_from([0, 1, 2, 2, 3])).map(lambda t: {**t[0], "then": t[1]}),
        "code": st.fixed_dictionaries({"o": st.just("code"), "k": _back, "style": st.integers(0, 3), "flaws": flaws("code")}),
        "refresh": st.fixed_dictionaries({"o": st.just("refresh"), "k": _back, "s": _rsel, "style": st.integers(0, 3), "flaws": flaws("refresh")}),
        "cc": st.fixed_dictionaries({"o": st.just("cc"), "c": _small, "s": _rsel, "style": st.integers(0, 3), "flaws": flaws("cc")}),
        "revoke": st.fixed_dictionaries({"o": st.just("revoke"), "k": _back, "t": st.integers(0, 5), "raw": _raw, "hint": st.sampled_from([None, "access_token", "refresh_token"]),
                                         "style": st.integers(0, 3), "flaws": flaws("revoke")}),
        "advance": st.fixed_dictionaries({"o": st.just("advance"), "to": st.sampled_from(["rel", "code", "refresh"]), "k": _back, "d": _deltas}),
        "mutate": st.fixed_dictionaries({"o": st.just("mutate"), "c": _which, "what": st.sampled_from(MUTS), "a": _any}),
    }
    make["many"] = st.tuples(_many, st.sampled_from(["authorize", "cc", "code", "refresh", "consent", "revoke"]).flatmap(lambda n: make[n])).map(lambda t: {"o": "many", "n": t[0], "op": t[1]})
    return gen.weighted(*[(n, make[k]) for k, n in op_weights])


# ------------------------------------------------------------------ interpretation
def pick(seq, i, default=None):
    return seq[i % len(seq)] if seq else default


def present(w, draft, cid):
    """Correct credentials of the client as currently registered."""
    r = w.db["clients"].get(cid)
    if r is None:
        r = w.tomb.get(cid) or {"method": POST, "secret": "s3cret"}
    if r["method"] == BASIC:
        draft.set_basic(cid, r["secret"] or "None")
    else:
        draft.put("client_id", cid, True)
        if r["method"] == POST:
            draft.put("client_secret", r["secret"] or "None", True)


MALFORMED = ["Basic", "Basic ", "Basic !!!", "Basic YQ", "Basic YTpi:", "basic", "Digest YTpi", "Basic " + base64.b64encode(b"\xff:\xfe").decode(), "Negotiate", "Bearer",
             "Basic " + base64.b64encode("é".encode()).decode()]


def auth_flaw(w, draft, cid, name, a):
    clients = w.db["clients"]
    r = clients.get(cid) or {"method": POST, "secret": "s3cret", "id": cid}
    secret = r["secret"] or ""
    others = [c for c in clients if c != cid]

    def via(method, i, s):
        draft.no_auth()
        if method == BASIC:
            draft.set_basic(i, s)
        else:
            draft.put("client_id", i, True)
            if method == POST:
                draft.put("client_secret", s or "x", True)
    if name == "secret":
        via(r["method"] if r["method"] != NONE else (BASIC, POST)[a % 2], cid, near(secret, a // 2) or "x")
    elif name == "secalias":
        via(r["method"] if r["method"] != NONE else (BASIC, POST)[a % 2], cid, lenient(secret or "None", a // 2) or "x")
    elif name == "idalias":
        via(r["method"], lenient(cid, a).replace(":", ";") or "x", secret)
    elif name == "nocreds":
        draft.no_auth()
    elif name == "othermethod":
        m = [x for x in (BASIC, POST, NONE) if x != r["method"]][a % 2]
        via(m, cid, secret or ["None", "x", "none", "null"][a // 2 % 4])
    elif name == "both":
        draft.no_auth()
        draft.set_basic(cid, secret or "x")
        draft.put("client_secret", secret or "x", True)
        if a % 2:
            draft.put("client_id", cid, True)
    elif name == "query":
        draft.no_auth()
        draft.put("client_id", cid, False)
        if r["method"] != NONE or a % 3 == 0:
            draft.put("client_secret", secret or "x", False)
        if a % 2 and r["method"] == POST:
            draft.put("client_id", cid, True)
    elif name == "queryboth":
        if not draft.basic:
            draft.put("client_id", others[0] if others else cid, False)
            draft.put("client_secret", "zzz", False)
    elif name == "unknown":
        via(r["method"], near(cid, a).replace(":", ";") or "x", secret)
    elif name == "asother":
        if others:
            draft.no_auth()
            present(w, draft, others[a % len(others)])
    elif name == "asotherid":      # another client's secret
        if others:
            o = clients[others[a % len(others)]]
            via(r["method"], cid, o["secret"] or "x")
    elif name == "otherid":        # own secret, another client's ID
        if others:
            via(r["method"], others[a % len(others)], secret)
    elif name == "malformed":
        draft.no_auth()
        draft.h["Authorization"] = MALFORMED[a % len(MALFORMED)]
    elif name == "badbytes":       # the right credentials in bytes that are not UTF-8
        draft.no_auth()
        text = f"{cid}:{secret or 'x'}"
        raw, bad, b = text.encode(), [b"\xff", b"\xe9", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xff\xfe", b"\xc0\x80"][a % 7], a // 7
        raw = (raw[: b // 4 % (len(raw) + 1)] + bad + raw[b // 4 % (len(raw) + 1):] if b % 4 < 2 else text.encode("latin-1", "ignore") if b % 4 == 2 else text.encode("utf-16"))
        try:
            raw.decode()
            raw += b"\xff"
        except UnicodeDecodeError:
            pass
        draft.h["Authorization"] = "Basic " + base64.b64encode(raw).decode()
    elif name == "bearer":
        if not draft.basic:
            draft.h["Authorization"] = "Bearer abc"
    elif name == "nonesecret":
        via((POST, BASIC)[a % 2], cid, ["None", "none", "null", "0", " ", "x"][a // 2 % 6])
    elif name == "oldsecret":
        old = w.old.get(cid)
        if old:
            via(r["method"] if r["method"] != NONE else POST, cid, old[a % len(old)])
    elif name == "extraid":
        if draft.basic and draft.basic[1]:
            draft.put("client_id", cid, True)
    elif name == "splitid":        # one client in the header, another in the form
        if draft.basic and draft.basic[1] and others:
            draft.put("client_id", others[a % len(others)], True)
    elif name == "scheme":
        if draft.basic and "Authorization" in draft.h:
            draft.set_basic(*draft.basic, ["basic", "BASIC", "bAsIc"][a % 3])
    elif name == "emptysecret":
        if a % 2:
            draft.no_auth()
            draft.set_basic(cid, "")
        else:
            draft.no_auth()
            draft.put("client_id", cid, True)
            draft.put("client_secret", "", True)
    elif name == "idonly":
        via(NONE, cid, None)
    elif name == "hdrcase":
        if "Authorization" in draft.h:
            draft.h[["authorization", "AUTHORIZATION"][a % 2]] = draft.h.pop("Authorization")


def scope_flaw(w, draft, name, a, client, original=None):
    cur = (draft.get("scope") or "").split()
    prov = w.cfg["scopes"]
    mine = client["scopes"] if client else prov
    base = cur or mine or prov
    new = None
    if name == "sc_all":
        new = list(dict.fromkeys(prov + mine))
    elif name == "sc_near":
        v = near(base[a % len(base)], a // 7).split()
        new = [s for s in dict.fromkeys(cur + v)]
    elif name == "sc_unknown":
        new = cur + [["unknown", "offline_access", "*", "Openid", "admin2"][a % 5]]
    elif name == "sc_subset":
        new = [s for i, s in enumerate(base) if a >> i & 1]
    elif name == "sc_blank":
        draft.put("scope", "")
        return
    elif name == "sc_one":
        new = list(dict.fromkeys(cur + [SCOPES[a % len(SCOPES)]]))
    elif name == "sc_client":
        new = list(mine)
    elif name == "sc_provider":
        new = list(prov)
    elif name == "sc_reverse":
        new = base[::-1]
    elif name == "sc_prefix":
        new = cur + [base[a // 4 % len(base)][: 1 + a % 4]]
    elif name == "sc_original" and original:
        new = list(original)
    elif name == "sc_lots":  # the same, or unknown scopes, many times over and then the ones that count
        n = [9, 17, 33, 51, 65, 101, 130, 260][a % 8] + (gen.NEW_I[a // 8 % len(gen.NEW_I)] if gen.NEW_I and a % 3 == 0 else 0) % 2000
        fill = ["x%d" % i for i in range(n)] if a // 64 % 2 and draft.path == "/authorize" else [base[0]] * n
        draft.put("scope", " ".join(fill + base))
        return
    elif name == "sc_space":
        draft.put("scope", (" " * (a % 3)) + (" " * (1 + a // 3 % 3)).join(base) + (" " * (a // 9 % 3)))
        return
    if new:
        draft.put("scope", " ".join(dict.fromkeys(new)))


def build(w, op):
    """(endpoint, draft) of a request operation."""
    kind = op["o"]
    clients = w.db["clients"]
    if kind in ("authorize", "consent"):
        d = Draft("GET" if op["get"] else "POST", "/authorize")
        d.style = op["style"]
        cid = pick(list(clients), op["c"], "gone")
        r = clients.get(cid) or {"uris": [], "scopes": [], "rtypes": []}
        uri = pick(r["uris"], op["r"], "https://none.example/cb")
        avail = [s for s in r["scopes"] if s in w.cfg["scopes"]]
        chosen = [s for i, s in enumerate(avail) if op["s"] >> i & 1] or avail[:1] or ["read"]
        if op["s"] & 4096:
            chosen = chosen[::-1]
        v = op["v"]
        if op["m"] == "plain" and not op["flaws"] and len(v) < 43:
            v = (v * 43)[:60]
        challenge = v if op["m"] == "plain" else ref.b64e(hashlib.sha256(v.encode()).digest())
        d.user = pick(list(w.db["users"]), op["u"])
        for k, x in (("response_type", "code"), ("client_id", cid), ("redirect_uri", uri), ("scope", " ".join(chosen)), ("code_challenge", challenge),
                     ("code_challenge_method", op["m"]), ("state", op["state"]), ("nonce", op["nonce"])):
            if x is not None:
                d.put(k, x)
        names = ["client_id", "redirect_uri", "response_type", "scope", "code_challenge", "code_challenge_method", "state", "nonce"]
        for name, a in op["flaws"]:
            others = [c for c in clients if c != cid]
            if name == "drop":
                d.drop(names[a % len(names)])
            elif name == "blank":
                n = names[a % len(names)]
                if n != "state":
                    d.put(n, "")
            elif name == "rtype":
                d.put("response_type", ["token", "Code", "code ", "code token", "id_token", "CODE", "cod", "none", "code,token", "*"][a % 10])
            elif name == "chlen":
                d.put("code_challenge", ("abcdefghij" * 20)[: [1, 41, 42, 43, 44, 127, 128, 129, 130, 200][a % 10]])
            elif name == "chlong":
                d.put("code_challenge", ("é" * 300)[: [22, 42, 43, 64, 65, 128, 129][a % 7]])
            elif name == "chnear":  # not the challenge of the verifier, though a lenient comparison might take it for that
                d.put("code_challenge", [lenient(challenge, a // 6), challenge.replace("-", "+").replace("_", "/"), challenge + "=", challenge[:-1] + "A", challenge[:43], hashlib.sha256(v.encode()).hexdigest()][a % 6])
            elif name == "chmethod":
                d.put("code_challenge_method", ["s256", "PLAIN", "S512", "none", "Plain", "S256 ", "sha256", "plain,S256", "S25"][a % 9])
            elif name == "nouser":
                d.user = None
            elif name == "uri_near":
                d.put("redirect_uri", near_uri(uri, a))
            elif name == "uri_other":
                pool = [u for c in others for u in clients[c]["uris"]] + [w.cfg["error_url"], w.cfg["issuer"]]
                d.put("redirect_uri", pool[a % len(pool)])
            elif name == "uri_any":
                d.put("redirect_uri", URIS[a % len(URIS)])
            elif name == "cid_near":
                d.put("client_id", near(cid, a) or "x")
            elif name == "cid_other" and others:
                d.put("client_id", others[a % len(others)])
            elif name.startswith("sc_"):
                scope_flaw(w, d, name, a, clients.get(cid))
        return ("authorize" if kind == "authorize" else "consent"), d
    d = Draft("POST", "/revoke" if kind == "revoke" else "/token")
    d.style = op["style"]
    original = None
    if kind == "code":
        code = pick(w.code_list[::-1], op["k"], "nocode")
        f = w.issued.get(code) or {"client": pick(list(clients), 0, "gone"), "uri": "https://c.example/cb", "verifier": "v" * 43, "challenge": "v" * 43}
        cid = f["client"]
        for k, x in (("grant_type", "authorization_code"), ("code", code), ("redirect_uri", f["uri"]), ("code_verifier", f["verifier"])):
            d.put(k, x)
        names = ["code", "redirect_uri", "code_verifier"]
    elif kind == "refresh":
        rt = pick(w.refresh_list[::-1], op["k"], "norefresh")
        facts = w.refresh_facts.get(rt) or {"client": pick(list(clients), 0, "gone"), "scopes": []}
        cid, original = facts["client"], facts["scopes"]
        d.put("grant_type", "refresh_token")
        d.put("refresh_token", rt)
        names = ["refresh_token"]
        cur = clients.get(cid)
        if op["s"] & 1 and cur:
            sub = [s for i, s in enumerate(original) if op["s"] >> (i + 1) & 1 and s in cur["scopes"]]
            if sub:
                d.put("scope", " ".join(sub))
    elif kind == "cc":
        cid = pick(list(clients), op["c"], "gone")
        d.put("grant_type", "client_credentials")
        names = ["grant_type"]
        cur = clients.get(cid)
        if op["s"] & 1 and cur:
            sub = [s for i, s in enumerate(cur["scopes"]) if op["s"] >> (i + 1) & 1 and s in w.cfg["scopes"]]
            if sub:
                d.put("scope", " ".join(sub))
    else:
        pools = [w.refresh_list, w.refresh_list, w.refresh_list, w.access_list, w.code_list, [op.get("raw") or "unknown-token"]]
        tok = pick(pools[op["t"]][::-1], op["k"], "zzz é")
        cid = (w.refresh_facts.get(tok) or w.issued.get(tok) or {"client": pick(list(clients), op["k"], "gone")})["client"]
        d.put("token", tok)
        if op["hint"]:
            d.put("token_type_hint", op["hint"])
        names = ["token", "token_type_hint"]
    present(w, d, cid)
    for name, a in op["flaws"]:
        if name in AUTH_FLAWS:
            auth_flaw(w, d, cid, name, a)
        elif name == "drop":
            d.drop(names[a % len(names)])
        elif name == "blank":
            d.put(names[a % len(names)], "")
        elif name == "gt_drop":
            d.drop("grant_type")
        elif name == "gt_blank":
            d.put("grant_type", "")
        elif name == "gt_near":
            d.put("grant_type", near(d.get("grant_type") or "authorization_code", a))
        elif name == "gt_other":
            d.put("grant_type", list(GRANTS)[a % 3])
        elif name == "gt_unknown":
            d.put("grant_type", ["password", "implicit", "urn:ietf:params:oauth:grant-type:device_code", "code", "AUTHORIZATION_CODE", "None",
                                  "urn:ietf:params:oauth:grant-type:" + list(GRANTS)[a // 12 % 3], "openid", "authorization-code", "refresh", "credentials", "token"][a % 12])
        elif name == "code_near":
            d.put("code", near(d.get("code") or "c", a))
        elif name == "code_alias":
            d.put("code", lenient(d.get("code") or "c", a))
        elif name == "code_other":
            d.put("code", pick(w.code_list, a, "zzz"))
        elif name == "code_token":
            d.put("code", pick(w.refresh_list + w.access_list, a, "zzz"))
        elif name == "uri_near":
            d.put("redirect_uri", near_uri(d.get("redirect_uri") or "https://c.example/cb", a))
        elif name == "uri_other":
            r = clients.get(cid)
            d.put("redirect_uri", pick((r["uris"] if r and a % 3 else URIS), a // 3, "https://x.example"))
        elif name == "uri_own":
            r = clients.get(cid)
            own = [u for u in (r["uris"] if r else []) if u != d.get("redirect_uri")]
            d.put("redirect_uri", pick(own, a, "https://x.example"))
        elif name == "ver_near":
            d.put("code_verifier", near(d.get("code_verifier") or "v", a))
        elif name == "ver_alias":
            d.put("code_verifier", lenient(d.get("code_verifier") or "v", a))
        elif name == "ver_challenge":
            c = w.issued.get(d.get("code"), {}).get("challenge", "x")
            d.put("code_verifier", [c, c + "=", ref.b64e(hashlib.sha256(c.encode()).digest()), ref.b64e(hashlib.sha256(b"").digest())][a % 4])
        elif name == "ver_other":
            o = pick([v["verifier"] for v in w.issued.values() if "verifier" in v], a, "zzz")
            d.put("code_verifier", o)
        elif name == "rt_near":
            d.put("refresh_token", near(d.get("refresh_token") or "r", a))
        elif name == "rt_code":
            d.put("refresh_token", pick(w.code_list, a, "zzz"))
        elif name == "rt_access":
            d.put("refresh_token", pick(w.access_list, a, "zzz"))
        elif name == "rt_foreign":
            d.put("refresh_token", pick(w.refresh_list, a, "zzz"))
        elif name == "hint_bad":
            d.put("token_type_hint", ["id_token", "code", "Access_Token", "refresh", "access_token refresh_token", "REFRESH_TOKEN", "None"][a % 7])
        elif name == "hint_near":
            d.put("token_type_hint", near(("refresh_token", "access_token")[a % 2], a // 2))
        elif name == "tok_near":
            d.put("token", near(d.get("token") or "t", a))
        elif name == "tok_other":
            d.put("token", pick(w.refresh_list + w.access_list, a, "zzz"))
        elif name == "tok_query":
            t = d.get("token") or "t"
            d.drop("token")
            d.put("token", t, False)
        elif name.startswith("sc_"):
            scope_flaw(w, d, name, a, clients.get(cid), original)
    return ("revoke" if kind == "revoke" else "token"), d


def start(spec, clock, tag="", wrap=lambda cls: cls):
    w = World(copy.deepcopy(spec["cfg"]), copy.deepcopy(spec["db"]), clock, tag)
    for r in w.db["clients"].values():
        r["live"] = w.cfg["live"]
    w.tomb, w.old, w.refresh_facts, w.deleted_users = {}, {}, {}, {}
    return w.build(wrap)


def mutate(w, op):
    cid, users = pick(list(w.db["clients"]), op["c"]), list(w.db["users"])
    a, what = op["a"], op["what"]
    if op["c"] < 0:  # the client and the user of the latest code or refresh token
        last = (w.db["refresh"].get(w.refresh_list[-1]) if w.refresh_list else None) or (w.db["codes"].get(w.code_list[-1]) if w.code_list else None) or {}
        cid = last["client"] if last.get("client") in w.db["clients"] else cid
        users = [last["user"]] if last.get("user") in users else users
    if what == "restore" and w.tomb:
        k = pick(list(w.tomb), a)
        w.db["clients"][k] = w.tomb.pop(k)
    elif what == "stored":
        if w.code_list:  # a code that was stored with a method the provider does not know
            r = w.db["codes"].get(w.code_list[-1 - a % len(w.code_list)])
            if r:
                r["method"] = ["S512", "", None, "s256", "PLAIN", "none", "S256,plain"][a // 7 % 7]
                w.issued[w.code_list[-1 - a % len(w.code_list)]]["method"] = r["method"]
    elif what == "twin":  # the client of the latest code also registers a URI much like the code's
        code = (w.db["codes"].get(w.code_list[-1]) if w.code_list else None) or {}
        u = code.get("redirect_uri")
        if code.get("client") in w.db["clients"]:
            variants = [u.swapcase(), u.lower(), u.upper(), u.title(), u + "/", u.rstrip("/"), u.split("?")[0], u + ("&" if "?" in u else "?") + "a=b", u + "?", re.sub(r"%(..)", lambda m: "%" + m[1].swapcase(), u),
                        re.sub(r":\d+", "", u), u.replace("://c.example", "://c.example:443"), u.replace("http://", "https://"), u.replace("https://", "http://"), u.replace("localhost", "127.0.0.1"), re.sub(r"\w(?=/?$)", "%78", u)]
            variants = [v for v in dict.fromkeys(variants) if v != u] + [near_uri(u, a // 16)]
            w.db["clients"][code["client"]] = r = copy.deepcopy(w.db["clients"][code["client"]])
            r["uris"] = [v for v in r["uris"] if v == u] + [variants[a % len(variants)]]
    elif what == "key":
        w.db["sk"] = len(w.cfg.get("alt", [])) - w.db["sk"]
    elif what == "profile" and w.db["users"]:
        u = pick(users, a)
        w.db["users"][u] = dict(w.db["users"][u], name="new name %d" % (a % 100))
    elif what == "user-" and w.db["users"]:
        u = pick(users, a)
        w.deleted_users[u] = w.db["users"].pop(u)
    elif what == "user+" and w.deleted_users:
        u = pick(list(w.deleted_users), a)
        w.db["users"][u] = w.deleted_users.pop(u)
    elif cid is not None:
        r = copy.deepcopy(w.db["clients"][cid])
        w.db["clients"][cid] = r
        if what == "secret" and r["method"] != NONE:
            if r["secret"]:
                w.old.setdefault(cid, []).append(r["secret"])
            r["secret"] = (SECRETS[a // 2 % len(SECRETS)] if a % 2 else near(r["secret"] or "s3cret", a // 2)) or "new"
        elif what == "method":
            if r["secret"]:
                w.old.setdefault(cid, []).append(r["secret"])
            r["method"] = (BASIC, POST, NONE)[a % 3]
            r["secret"] = None if r["method"] == NONE else (r["secret"] or "fresh")
        elif what == "uris" and r["uris"]:
            r["uris"] = [u for i, u in enumerate(r["uris"]) if i != a % len(r["uris"])]
        elif what == "uris+":
            r["uris"] = r["uris"] + [URIS[a % len(URIS)]]
        elif what == "scopes":
            r["scopes"] = [s for i, s in enumerate(r["scopes"]) if a >> i & 1]
        elif what == "scopes+":
            r["scopes"] = list(dict.fromkeys(r["scopes"] + [SCOPES[a % len(SCOPES)]]))
        elif what == "grants":
            r["grants"] = [g for i, g in enumerate(r["grants"]) if i != a % 3]
        elif what == "grants+":
            r["grants"] = list(dict.fromkeys(r["grants"] + [list(GRANTS)[a % 3]]))
        elif what == "rtypes":
            r["rtypes"] = RTYPES[a % len(RTYPES)]
        elif what == "delete":
            w.tomb[cid] = w.db["clients"].pop(cid)


def learn(w, op, draft):
    """What the client remembers of a successful operation."""
    for code in w.code_list:
        f = w.issued[code]
        if "verifier" not in f:
            f["verifier"], f["challenge"] = (op["v"] if "v" in op else "?"), draft.get("code_challenge")
            if not any(n == "chnear" for n, _ in op.get("flaws", [])) and f["challenge"] not in (f["verifier"], ref.b64e(hashlib.sha256(f["verifier"].encode()).digest())):
                f["verifier"] = f["challenge"]
    for rt in w.refresh_list:
        if rt not in w.refresh_facts:
            r = w.db["refresh"].get(rt)
            w.refresh_facts[rt] = {"client": r["client"], "scopes": r["scopes"], "exp": r["exp"]} if r else {"client": "gone", "scopes": [], "exp": 0}


def advance(w, op):
    target = w.now_ms() + abs(op["d"])
    if op["to"] == "code" and w.code_list:
        r = w.db["codes"].get(pick(w.code_list[::-1], op["k"]))
        if r:
            target = r["exp"] + op["d"]
    elif op["to"] == "refresh" and w.refresh_list:
        target = w.refresh_facts[pick(w.refresh_list[::-1], op["k"])]["exp"] + op["d"]
    d = target - w.now_ms()
    if 0 < d < 10 ** 11:
        w.clock.advance(d / 1000)


def par(w, op):
    """Requests that do not depend on each other, run concurrently: each is judged as if it were alone."""
    pre, reqs, used = copy.deepcopy(w.db), [], set()
    for o in op["ops"]:
        endpoint, d = build(w, o)
        code = d.get("code") if endpoint == "token" else None
        if code and code in used or endpoint == "revoke" and any(r["endpoint"] != "revoke" for r in reqs) or endpoint != "revoke" and any(r["endpoint"] == "revoke" for r in reqs):
            continue
        used.add(code)
        reqs.append({"id": len(reqs), "fault": None, "exc": None, "hit": None, "gates": 0, "out": None, "raised": None, "draft": d, "endpoint": endpoint, "op": o, "coro": direct(w, endpoint, d)})
    w.sched.reset(op["sched"], ["C18", "C22", "C20", "C21", "C23", "C16", "C27", "C14", "C24", "C19", "C17", "C15"])
    w.log = []
    call(w.sched.run(reqs, op["late"]))
    log, w.log = w.log, []
    labels = []
    for r in reqs:
        mine, view, noted = [e[:-1] for e in log if e[-1] == r["id"]], copy.copy(w), len(core.NOTED)
        view.db = copy.deepcopy(pre)
        for e in mine:
            if e[0] == "delete_code":
                view.db["codes"].pop(e[1], None)
        try:
            if r["raised"] is not None:
                raise Violation(f"{r['endpoint']} raised {r['raised']!r} on {r['draft'].show()}", raise_tags(w, pre, r["endpoint"], r["draft"])) from r["raised"]
            try:
                labels.append(judge(view, r["endpoint"], pre, r["draft"], r["out"], mine))
            except Exception:
                if len(core.NOTED) == noted:
                    raise
        except Violation as v:
            v = Violation(f"concurrently with {len(reqs) - 1} other requests: {v.message}", v.props)
            if not core.foreign(v.props):
                raise v
            core.note(v.message, v.props)
        absorb(view, pre, r["draft"], mine)
        learn(w, r["op"], r["draft"])
    w.dead_codes |= set(pre["codes"]) - set(w.db["codes"])
    return ", ".join(sorted(set(labels))) or None


def step(w, op, transport=direct):
    """Run one operation; returns its label."""
    if op["o"] == "par":
        return par(w, op)
    if op["o"] == "advance":
        advance(w, op)
        return None
    if op["o"] == "mutate":
        mutate(w, op)
        return None
    if op["o"] == "many":
        label = None
        for _ in range(op["n"]):
            label = step(w, op["op"], transport)
        return label
    endpoint, draft = build(w, op)
    draft.reuse = op.get("then", 0) != 1
    label, out = perform(w, endpoint, draft, transport)
    learn(w, op, draft)
    if op["o"] == "consent" and op.get("then"):
        if op["then"] == 3:
            perform(w, "consent", draft, transport)
        label2, _ = perform(w, "authorize", draft, transport)
        learn(w, op, draft)
        label = label + ", then " + label2
    return label


@gen.cached
def op(kind, flaw_weights=(), flaw_count=None):
    return ops(((kind, 1),), flaw_weights, flaw_count)


@gen.cached
def episodes(kinds, flaw_weights=(), noise=(("advance", 3), ("mutate", 3), ("authorize", 1), ("code", 1), ("refresh", 1), ("cc", 1), ("revoke", 1), ("consent", 1))):
    """Lists of operations that make sense together; kinds is a tuple of (episode name, weight)."""
    ok = lambda k: op(k, flaw_weights, (0,))
    bad = lambda k: op(k, flaw_weights, (0, 1, 1, 1, 2))
    some = lambda k: op(k, flaw_weights, (0, 0, 1))
    rnd = ops(noise, flaw_weights)
    gap = gen.weighted((3, st.just([])), (3, st.lists(rnd, min_size=1, max_size=1)), (1, st.lists(rnd, min_size=2, max_size=3)))

    again = st.tuples(op("authorize", (), (0,)), op("code", (), (0,)), gen.weighted((3, op("mutate")), (1, rnd)), st.sampled_from(MUTS)).map(
        lambda t: [t[0], {**t[1], "k": 0}, {**t[2], **({"what": t[3]} if t[2]["o"] == "mutate" else {})}, t[0], {**t[1], "k": 0}])

    def seq(*parts):
        return st.tuples(*[p if p is gap else p.map(lambda x: [x]) for p in parts]).map(lambda t: [x for part in t for x in part])
    make = {
        "authorize": seq(gap, bad("authorize")), "consent": seq(gap, bad("consent")),
        "code": seq(ok("authorize"), gap, bad("code"), some("code")),
        "challenge": seq(st.integers(0, 400).flatmap(lambda a: op("authorize", (), (0,)).map(lambda o: {**o, "flaws": [["chnear", a]]})), op("code", (), (0,))),
        "verifier": seq(st.tuples(op("authorize", (), (0,)), gen.weighted((2, gen.text(1, 60)), (1, _verifier())), st.sampled_from(["plain", "plain", "S256"])).map(lambda t: {**t[0], "v": t[1], "m": t[2]}),
                        st.tuples(_any, op("code", (), (0,))).map(lambda t: {**t[1], "k": 0, "flaws": [["ver_alias", t[0]]]})),
        "codes": seq(ok("authorize"), ok("authorize"), gap, bad("code"), some("code"), some("code")),
        "alias": seq(ok("authorize"), st.integers(0, 60).flatmap(lambda a: op("code", (), (0,)).map(lambda o: {**o, "flaws": [["code_alias", a]]})), gap, some("code")),
        "happy": seq(ok("authorize"), ok("code")),
        "refresh": seq(ok("authorize"), ok("code"), gap, bad("refresh"), some("refresh")),
        "cc": seq(gap, bad("cc")),
        "revoke": seq(ok("authorize"), ok("code"), gap, bad("revoke"), some("refresh")),
        "many": seq(op("many", flaw_weights, (0, 0, 1))), "noise": gap.filter(bool), "change": seq(op("mutate"), ops(noise, flaw_weights), some("cc")),
    }
    make["lost"] = st.tuples(ok("authorize"), ok("code"), op("mutate"), st.sampled_from(["scopes", "scopes", "uris", "grants", "user-", "method", "secret"]), ok("refresh"), st.booleans()).map(
        lambda t: [t[0], t[1], {**t[2], "what": t[3], "c": -1}, {**t[4], "k": 0, **({"s": 0} if t[5] else {})}])  # a right taken away while a refresh token is out
    def par_of(strategy, n=4):
        return st.tuples(st.lists(strategy, min_size=2, max_size=n), st.lists(st.integers(0, 4), max_size=24), st.lists(st.integers(0, 8), max_size=4)).map(
            lambda t: {"o": "par", "ops": t[0], "sched": t[1], "late": t[2]})
    latest = gen.weighted((3, st.just(0)), (1, st.integers(0, 2)))
    at = lambda s: st.tuples(s, latest).map(lambda t: {**t[0], "k": t[1]})
    make["par-refresh"] = seq(ok("authorize"), ok("code"), gap, par_of(at(some("refresh"))), some("refresh"))
    make["par-revoke"] = seq(ok("authorize"), ok("code"), gap, par_of(st.tuples(at(op("revoke", flaw_weights, (0, 0, 0, 1))), st.integers(0, 2), _any).map(
        lambda t: {**t[0], **({"t": 0} if t[1] else {}), **({"flaws": [["asother", t[2]]]} if t[1] == 2 else {})})), some("refresh"))
    make["par-code"] = seq(ok("authorize"), ok("authorize"), par_of(st.tuples(some("code"), st.integers(0, 3)).map(lambda t: {**t[0], "k": t[1]})), some("code"))
    good = lambda k: op(k, (), (0,))
    make["par-mix"] = st.tuples(ok("authorize"), gap, st.lists(st.one_of(some("cc"), some("code"), some("refresh")), min_size=2, max_size=4), op("mutate"), st.lists(st.integers(0, 4), max_size=24), st.lists(st.integers(0, 8), max_size=4)).map(
        lambda t: [t[0], *t[1], {**t[3], "what": "grants"}, {"o": "par", "ops": [{**o, "c": t[3]["c"]} for o in t[2]], "sched": t[4], "late": t[5]}])  # one client, several grants at once
    make["twin"] = st.tuples(good("authorize"), op("mutate"), good("code"), _any).map(lambda t: [t[0], {**t[1], "what": "twin", "a": t[3]}, {**t[2], "k": 0, "flaws": [["uri_own", 0]]}])
    make["par-clients"] = st.tuples(good("authorize"), good("authorize"), good("code"), good("code"), st.integers(1, 3), st.lists(st.integers(0, 4), max_size=24), st.lists(st.integers(0, 8), max_size=4)).map(
        lambda t: [t[0], {**t[1], "c": t[0]["c"] + t[4]}, {"o": "par", "ops": [{**t[2], "k": 0}, {**t[3], "k": 1}], "sched": t[5], "late": t[6]}])  # two clients at once
    for k in ("authorize", "consent", "cc"):
        make["par-" + k] = seq(gap, par_of(st.one_of(some(k), some(k), ops((("authorize", 1), ("cc", 1), ("consent", 1)), flaw_weights, (0, 0, 1)))))
    make["again"] = again  # the same once more, after a change
    for k in ("authorize", "consent", "cc", "refresh", "revoke"):
        make["again-" + k] = st.tuples(some(k), op("mutate"), st.sampled_from(MUTS)).map(lambda t: [t[0], {**t[1], "what": t[2], "c": t[0].get("c", t[1]["c"])}, t[0]])
    return gen.weighted(*[(n, make[k]) for k, n in kinds])


@gen.cached
def histories(kinds, flaw_weights=(), rich=False, max_episodes=3):
    """rich: ID tokens with every key type."""
    return st.fixed_dictionaries({"world": worlds(rich), "now": _now, "tz": _tz,
                                  "ops": st.lists(episodes(kinds, flaw_weights), min_size=1, max_size=max_episodes).map(lambda l: [o for e in l for o in e])})


def run_history(case, transport=direct):
    labels = []
    with core.soft(), env.world_time(case["now"] / 1000, case["tz"]) as clock:
        s = Sched([]) if any(o["o"] == "par" for o in case["ops"]) else None
        w = start(case["world"], clock, wrap=s.wrap if s else lambda cls: cls)
        if s:
            s.w, w.sched = w, s
        for o in case["ops"]:
            label = step(w, o, transport)
            if label:
                labels.append(label)
    return labels
