import copy, functools, json, re

from ..jose import *

RULE = ("Cases: 1-3 keys, 1-3 genuine tokens, then 3-12 verifications interleaving genuine tokens, edited tokens (character, "
        "segment, header-JSON, payload-bit and signature-level edits, splices between tokens) and foreign keys (same type, same "
        "attributes, different material). Non-trivial: at least one edited token or foreign key was judged.")
QUICK, THOROUGH = 3000, 100000
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
STRICT = re.compile(rb"[A-Za-z0-9_-]*\Z")
ASSUMPTIONS = ["An edited token that psion accepts is excused only if an independent verifier accepts its exact bytes "
               "(covers the algebraic equivalences of HMAC keys and ECDSA signatures) or it is an unsecured token (C03)."]

_pos = st.one_of(st.integers(0, 4000), st.integers(-8, -1))
_char = st.one_of(st.sampled_from(B64), st.sampled_from("=+/. \n\x00~"))
_edit = st.one_of(
    st.tuples(st.just("sub"), _pos, _char), st.tuples(st.just("ins"), _pos, _char), st.tuples(st.just("del"), _pos, st.integers(1, 3)),
    st.tuples(st.just("trunc"), st.integers(1, 60)), st.tuples(st.just("append"), st.text(B64 + "=. ", min_size=1, max_size=6)),
    st.tuples(st.just("swap"), st.sampled_from([[0, 2, 1], [1, 0, 2], [2, 1, 0], [1, 2, 0], [0, 1], [0, 1, 2, 2]])),
    st.tuples(st.just("splice"), st.integers(0, 2), st.integers(0, 2)),
    st.tuples(st.just("payload"), st.sampled_from(["flip", "drop", "add", "empty", "dup"]), st.integers(0, 1 << 20)),
    st.tuples(st.just("sigbit"), st.integers(0, 1 << 14)), st.tuples(st.just("siglen"), st.sampled_from([0, 1, 2, 8, 16, 20, 28, 31, 32, 48, 64, 127, -1, -2, -16])),
    st.tuples(st.just("sigadd"), st.sampled_from(["00", "0000", "ff", "30", "61"]), st.booleans()),
    st.tuples(st.just("sigzero"), st.integers(0, 3)), st.tuples(st.just("sigzero"), st.integers(0, 3)),
    st.tuples(st.just("sigconst"), st.sampled_from([0, 1, 255])),
    st.tuples(st.just("sighalf")), st.tuples(st.just("tail"), st.integers(0, 2), st.integers(1, 15)),
    st.tuples(st.just("header"), st.sampled_from(["alg", "typ", "kid", "x", "cty"]), st.one_of(st.sampled_from(ref.ALGS + ["none"]), gen.text(1, 6))),
    st.tuples(st.just("headertext"), st.sampled_from([" ", "\n", "dup"])),
    st.tuples(st.just("case"), _pos), st.tuples(st.just("std64"),),
).map(list)


@st.composite
def _case(draw):
    alg = draw(st.sampled_from(ref.ALGS))
    n = draw(st.integers(1, 3))
    attrs = draw(key_attrs(alg))
    entries = []
    for i in range(n):
        other = alg if draw(st.integers(0, 3)) else draw(st.sampled_from(ref.ALGS))
        entries.append({"spec": draw(keys.spec_for(other)), "attrs": [[k, other if k == "alg" else v] for k, v in attrs] if draw(FLIP) else draw(key_attrs(other)),
                        "algo": other})
    toks = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, n - 1))
        kid = pairs(entries[k]["attrs"]).get("kid")
        hdr = draw(headers(entries[k]["algo"], kid)) if draw(FLIP) else [["alg", entries[k]["algo"]]]
        toks.append({"k": k, "hdr": hdr, "payload": draw(gen.payload_bytes(300))})
        if draw(st.integers(0, 11)) == 11:  # a signature with a zero byte where one might be dropped
            toks[-1].update(hdr=[["alg", entries[k]["algo"]]], shape=draw(st.integers(0, 2)))
    tries = []
    for _ in range(draw(st.integers(3, 12))):
        tries.append({"t": draw(st.integers(0, len(toks) - 1)), "edits": draw(st.lists(_edit, max_size=2)),
                      "foreign": draw(st.one_of(st.none(), st.none(), st.integers(0, 40))), "pub": draw(FLIP),
                      "named": draw(FLIP), "jwt": False})
    return {"keys": entries, "toks": toks, "tries": tries}


def strategy(tier):
    return _case()


def _foreign(entries, k, n):
    """A key with other material and the attributes of key k."""
    base = entries[k]
    spec = dict(base["spec"])
    if n < len(entries) * 2:
        spec = entries[n // 2]["spec"]
    elif spec["t"] == "oct":
        raw = bytearray.fromhex(spec["k"])
        if raw and n % 3 == 0:
            raw[n % len(raw)] ^= 1 << (n % 8)
        elif raw and n % 3 == 1:
            raw = raw[:-1]
        else:
            raw += bytes([n])
        spec["k"] = bytes(raw).hex()
    elif spec["t"] == "rsa":
        spec["i"] = (spec["i"] + 1 + n % (len(keys.RSA) - 1)) % len(keys.RSA)
    else:
        d, c = int(spec["d"], 16), ref.CURVES[spec["crv"]]
        spec["d"] = hex((d + n + 1) % (c.n - 1) + 1)[2:]
    if keys.public(keys.jwk(spec)) == keys.public(keys.jwk(base["spec"])):
        return None
    return {"spec": spec, "attrs": base["attrs"]}


def _apply(tok, edit, toks, header):
    op = edit[0]
    t = bytearray(tok)
    segs = tok.split(b".")
    if op in ("sub", "ins", "del", "case"):
        if not t:
            return tok
        pos = edit[1] % len(t)
        if op == "sub":
            t[pos:pos + 1] = edit[2].encode()
        elif op == "ins":
            t[pos:pos] = edit[2].encode()
        elif op == "del":
            del t[pos:pos + edit[2]]
        else:
            t[pos:pos + 1] = bytes(t[pos:pos + 1]).swapcase()
        return bytes(t)
    if op == "trunc":
        return tok[:-edit[1]]
    if op == "append":
        return tok + edit[1].encode()
    if op == "std64":
        return tok.replace(b"-", b"+").replace(b"_", b"/")
    if len(segs) != 3:
        return tok
    if op == "swap":
        return b".".join(segs[i] for i in edit[1])
    if op == "splice":
        other = toks[edit[1] % len(toks)].split(b".")
        segs[edit[2]] = other[edit[2]]
        return b".".join(segs)
    if op == "tail":  # only bits of the last character that carry no data
        i, spare = edit[1], {0: 0, 2: 4, 3: 2}.get(len(segs[edit[1]]) % 4, 0)
        bits = edit[2] & ((1 << spare) - 1)
        if segs[i] and bits:
            segs[i] = segs[i][:-1] + B64[B64.index(chr(segs[i][-1])) ^ bits].encode()
        return b".".join(segs)
    try:
        if op == "payload":
            p = bytearray(ref.b64d(segs[1]))
            if edit[1] == "flip" and p:
                p[(edit[2] >> 3) % len(p)] ^= 1 << (edit[2] & 7)
            elif edit[1] == "drop":
                p = p[:-1]
            elif edit[1] == "add":
                p.append(edit[2] & 255)
            elif edit[1] == "dup":
                p = p + p
            else:
                p = bytearray()
            segs[1] = ref.b64e(bytes(p)).encode()
        elif op == "header":
            h = json.loads(ref.b64d(segs[0]))
            h[edit[1]] = edit[2]
            segs[0] = ref.b64e(json.dumps(h).encode()).encode()
        elif op == "headertext":
            h = ref.b64d(segs[0]).decode()
            h = (h[:-1] + ', "zz": 1}') if edit[1] == "dup" else h.replace("{", "{" + edit[1], 1)
            segs[0] = ref.b64e(h.encode()).encode()
        else:
            s = bytearray(ref.b64d(segs[2]))
            if op == "sigbit" and s:
                s[(edit[1] >> 3) % len(s)] ^= 1 << (edit[1] & 7)
            elif op == "siglen":
                s = s[: edit[1]]
            elif op == "sigadd":
                extra = bytes.fromhex(edit[1])
                s = extra + s if edit[2] else s + extra
            elif op == "sigconst":
                s = bytes([edit[1]]) * len(s)
            elif op == "sigzero":
                m = len(s) // 2
                s = [s.lstrip(b"\0"), s[:m] + s[m:].lstrip(b"\0"), s.rstrip(b"\0"), s[:m].lstrip(b"\0") + s[m:].lstrip(b"\0")][edit[1]]
            elif op == "sighalf":
                s = s[len(s) // 2:] + s[: len(s) // 2]
            segs[2] = ref.b64e(bytes(s)).encode()
    except ValueError:
        return tok
    return b".".join(segs)


def _excused(tok, hp, sig, new, material_):
    parts = new.split(b".")
    if len(parts) != 3 or not all(STRICT.match(p) for p in parts):
        return False
    try:
        h = json.loads(ref.b64d(parts[0]))
        s = ref.b64d(parts[2])
    except ValueError:
        return False
    if h.get("alg") == "none":
        return s == b""
    if parts[0] + b"." + parts[1] == hp and s == sig:
        return True
    try:
        return ref.verify(h["alg"], parts[0] + b"." + parts[1], material_, s)
    except (KeyError, TypeError):
        return False


@functools.lru_cache(None)
def _shaped(spec, alg, shape, start):
    """A genuine (payload, token) whose signature has a zero byte first, in the middle or last."""
    key = JsonWebKey(keys.jwk(json.loads(spec)))
    for i in range(1200):
        payload = b"%d %d" % (start, i)
        tok = JsonWebSignature(payload, {"alg": alg}).serialize(key)
        s = ref.b64d(tok.rpartition(b".")[2])
        if s[[0, len(s) // 2, -1][shape]] == 0:
            break
    return payload, tok


def _token(t, entries, built):
    e = entries[t["k"]]
    if t.get("shape") is not None and (e["spec"]["t"] != "rsa" or e["spec"]["i"] in keys.FAST_RSA):
        payload, tok = _shaped(json.dumps(e["spec"], sort_keys=True), e["algo"], t["shape"] if e["algo"][0] == "E" else t["shape"] & 2, 0)
        t["payload"] = payload.hex()
        return tok
    return JsonWebSignature(bytes.fromhex(t["payload"]), pairs(t["hdr"])).serialize(built[t["k"]])


def run(case):
    case = copy.deepcopy(case)
    entries = case["keys"]
    built = [make(e) for e in entries]
    toks = [_token(t, entries, built) for t in case["toks"]]
    judged = set()
    for tr in case["tries"]:
        i = tr["t"]
        k = case["toks"][i]["k"]
        entry = entries[k]
        new = toks[i]
        for e in tr["edits"]:
            new = _apply(new, e, toks, case["toks"][i]["hdr"])
        owner = entry
        if tr["foreign"] is not None:
            owner = _foreign(entries, k, tr["foreign"]) or entry
        key = make(owner, tr["pub"])
        expected = entry["algo"] if tr["named"] else None
        jws, err = attempt(JsonWebSignature.deserialize, new, key, expected)
        hp, _, s = toks[i].rpartition(b".")
        if owner is entry and new == toks[i]:
            check(err is None, f"genuine {entry['algo']} token refused: {err!r}")
            check(jws.payload == bytes.fromhex(case["toks"][i]["payload"]), "genuine token: payload changed")
            continue
        judged.add("foreign" if owner is not entry else tr["edits"][-1][0])
        if err is None:
            same_owner = owner is entry
            ok = _excused(toks[i], hp if same_owner else b"", ref.b64d(s), new, material(owner, True))
            check(ok, f"{entry['algo']}: altered token or foreign key accepted: {new!r} (from {toks[i]!r}, edits {tr['edits']}, foreign {tr['foreign']})")
            judged.discard("x")
    return {"nontrivial": bool(judged), "labels": judged}
