"""Replicas of a provider over the same data, and the comparison of outcomes between them."""
import copy, json

from . import ref
from .oauth import *

FACTS = ("issued", "code_list", "refresh_list", "access_list", "dead_codes", "redeemed", "revoked", "granted", "count", "tomb", "old", "refresh_facts", "deleted_users")


def twin(w, wrap=lambda cls: cls):
    """A fresh provider over a copy of the same storage."""
    t = World(copy.deepcopy(w.cfg), copy.deepcopy(w.db), w.clock, w.tag)
    t.__dict__.update(copy.deepcopy({k: getattr(w, k) for k in FACTS if hasattr(w, k)}))
    if hasattr(w, "prepare"):
        t.prepare = w.prepare
    t.grant_classes = w.grant_classes
    return t.build(wrap)


def unsigned(token):
    try:
        h, p, _ = token.split(".")
        return ["ID token", json.loads(ref.b64d(h)), json.loads(ref.b64d(p))]
    except Exception:
        return token


def outcome(out, log, w):
    """The response and the storage effects, with what is random about them named."""
    names = {e[1]: "<code%d>" % i for i, e in enumerate(e for e in log if e[0] == "save_code")}

    def rename(v):
        if isinstance(v, str):
            for k, n in names.items():
                v = v.replace(k, n)
            return v
        if isinstance(v, dict):
            return {rename(k): rename(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [rename(x) for x in v]
        return v
    effects_ = rename([e for e in log])
    if out is None or isinstance(out, BaseException):
        return {"raised": type(out).__name__, "effects": effects_}
    if out.consent is not None:
        c = out.consent
        return {"consent": [c["client"].get_client_id(), sorted(map(str, c["scopes"]))], "effects": effects_}
    headers = dict(out.headers)
    res = {"status": out.status, "effects": effects_}
    loc = headers.pop("location", None)
    if loc is not None:
        base, _, q = loc.partition("?")
        res["location"] = [base, sorted((k, rename(v)) for k, v in parse_qsl(q, keep_blank_values=True) if k != "error_description")]
    headers.pop("content-length", None)
    res["headers"] = headers
    body = out.body
    try:
        body = json.loads(body)
        if isinstance(body, dict):
            body.pop("error_description", None)
            if "id_token" in body:
                body["id_token"] = unsigned(body["id_token"])
    except (ValueError, TypeError):
        body = repr(body)
    res["body"] = body
    return res


def answer(w, endpoint, draft):
    """(outcome, Out or exception) of sending the draft to the provider."""
    w.log = []
    try:
        out = call(direct(w, endpoint, draft))
    except Violation:
        raise
    except Exception as exc:
        out = exc
    log, w.log = w.log, []
    return outcome(out, log, w), out, log
