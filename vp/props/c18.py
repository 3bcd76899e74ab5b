from ..history import *
from ..sched import Sched
from psion.oauth2.exceptions import ServerError

RULE = ("Cases: (a) 1-3 authorized codes and 2-5 token requests for them, correct or with a flaw, run as concurrent tasks; every storage call is a gate and a generated "
        "schedule decides which task proceeds, with generated storage errors (before or after taking effect) and cancellations; then every code is tried again; (b) sequential "
        "histories with repeated and foreign presentations. Non-trivial: two requests overlap on one code, or a fault hits an entitled request, or a code is presented twice.")
QUICK, THOROUGH = 4200, 200000
ASSUMPTIONS = ["the storage's own operations are atomic", "faults in deleting the code itself are outside the property"]
_sched = st.lists(st.integers(0, 4), max_size=40)
_fault = st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 9), st.sampled_from(["cancel", "cancel", "before", "after"]), st.integers(0, 3)).map(list))
_req = st.tuples(gen.weighted((3, st.just(0)), (1, st.integers(0, 2))), op("code", (("code", 3), ("auth", 3), ("grant", 1)), (0, 0, 0, 1)), _fault).map(list)


@st.composite
def _concurrent(draw):
    n = draw(st.integers(1, 3))
    auth = op("authorize", (), (0,))
    return {"world": draw(worlds(False)), "now": T0 * 1000, "tz": "UTC", "auth": [draw(auth) for _ in range(n)],
            "reqs": draw(st.lists(_req, min_size=2, max_size=5)), "late": draw(st.lists(st.integers(0, 12), max_size=5)), "sched": draw(_sched)}


def _healthy(case):
    w = case["world"]
    if "auth" in case and case["auth"][0]["s"] % 8:
        w["cfg"]["grants"] = list(GRANTS)
        for c in w["db"]["clients"].values():
            c["grants"], c["rtypes"] = ["authorization_code"] + (["refresh_token"] if "refresh_token" in c["grants"] else []), ["code"]
            if not set(c["scopes"]) & set(w["cfg"]["scopes"]):
                c["scopes"] = w["cfg"]["scopes"][:2] + c["scopes"]
    return case


def strategy(tier):
    return gen.weighted((5, _concurrent().map(copy.deepcopy).map(_healthy)),
                        (2, histories((("codes", 4), ("code", 2), ("many", 1), ("alias", 2)), (("code", 3), ("auth", 3)), False, 3)))


class Fault(Exception):
    pass


def run(case):
    if "reqs" not in case:
        labels = run_history(case)
        return {"nontrivial": any("unknown code" in l or "issued:auth" in l for l in labels), "labels": set(labels)}
    labels = set()
    with core.soft(), env.world_time(case["now"] / 1000, case["tz"]) as clock:
        s = Sched(case["sched"])
        w = start(case["world"], clock, wrap=s.wrap)
        s.w = w
        for o in case["auth"]:
            step(w, o)
        if not w.code_list:
            return {"nontrivial": False, "labels": {"no code"}}
        codes = list(w.code_list)
        pre = copy.deepcopy(w.db)
        reqs = []
        for i, (k, o, fault) in enumerate(case["reqs"]):
            endpoint, d = build(w, {**o, "k": k})
            cid, _ = authenticated(pre, d)
            data = d.data()
            gt = data.get("grant_type")
            code = data.get("code") if gt == "authorization_code" else None
            entitled = gt == "authorization_code" and gt in w.cfg["grants"] and cid is not None and gt in pre["clients"][cid]["grants"] and code in pre["codes"]
            rec = pre["codes"].get(code)
            right = bool(entitled and rec["client"] == cid and data.get("redirect_uri") == rec["redirect_uri"] and data["redirect_uri"] in pre["clients"][cid]["uris"]
                         and data.get("code_verifier") and pkce(rec["method"], rec["challenge"], data["code_verifier"]))
            excs = [Fault("storage"), OSError("storage"), TimeoutError("storage"), ServerError("storage")]
            reqs.append({"id": i, "code": code, "entitled": entitled, "right": right, "fault": fault, "exc": excs[fault[2]] if fault else None, "hit": None, "gates": 0,
                         "out": None, "raised": None, "draft": d, "coro": direct(w, endpoint, d)})
        w.log = []
        call(s.run(reqs, case["late"]))
        log, w.log = w.log, []
        overlap = False
        for r in reqs:
            r["won"] = bool(r["out"] and r["out"].status == 200 and b"access_token" in r["out"].body)
            r["made"] = any(e[0] == "access" and e[-1] == r["id"] for e in log)
            # a fault before authentication is over leaves open (or rules out) that the client authenticated
            r["status"] = "no" if not r["entitled"] else "yes"
            if r["entitled"] and r["hit"] and r["hit"][0] == "find_client":
                r["status"] = "no" if r["hit"][2] == 0 else "open"
            r["delfault"] = bool(r["hit"] and r["hit"][0] == "delete_authorization_code")
            if not r["hit"] and r["raised"] is not None:
                raise Violation(f"concurrent request raised {r['raised']!r}: {r['draft'].show()}", ["C18", "C22"]) from r["raised"]
            if r["hit"]:
                labels.add("fault:%s at %s" % (r["hit"][1], r["hit"][0]))
        story = [(r["id"], r["code"], "right" if r["right"] else "entitled" if r["entitled"] else "unentitled", r["hit"], r["begun"], r["ended"], "won" if r["won"] else "tokens made" if r["made"] else "") for r in reqs]
        for code in codes:
            mine = [r for r in reqs if r["code"] == code]
            ctx = f"code {code}: requests (id, code, kind, fault, begun, ended, result) {[x for x in story if x[1] == code]}; effects {log}"
            yes = [r for r in mine if r["status"] == "yes"]
            unsure = [r for r in mine if r["status"] == "open"]
            got = [r for r in mine if r["won"] or r["made"]]
            check(not [r for r in got if not r["right"]], f"tokens for a request that is not entitled: {ctx}", ["C18", "C17"])
            overlap |= any(a is not b and a["begun"] < b["ended"] and b["begun"] < a["ended"] for a in yes for b in yes)
            tainted = any(r["delfault"] for r in mine)
            if not tainted:
                other = [r for r in reqs if r["code"] != code and alias(code, r["code"]) and (r["won"] or r["made"])]
                check(len(got + other) <= 1, f"redeemed {len(got + other)} times: {ctx}", ["C18"])
                for r in got:
                    early = [x for x in yes if x is not r and x["ended"] < r["begun"]]
                    check(not early, f"redeemed after being presented before: {ctx}", ["C18"])
            if len(yes) == 1 and not unsure and yes[0]["right"] and not yes[0]["hit"]:
                if yes[0]["draft"] is not None and pre["codes"][code]["user"] in pre["users"]:
                    check(yes[0]["won"], f"the only entitled request is refused ({yes[0]['out'].show()}): {ctx}", ["C18", "C17"])
            # afterwards
            if tainted or unsure:
                continue
            if not yes:
                check(code in w.db["codes"], f"consumed by requests that are not entitled: {ctx}", ["C18"])
            endpoint, d = build(w, {"o": "code", "k": codes[::-1].index(code), "style": 0, "flaws": []})
            w.log = []
            out = call(direct(w, endpoint, d))
            again, w.log = w.log, []
            ok = out.status == 200
            cid, _ = authenticated(w.db, d)
            rec, dd = pre["codes"][code], d.data()
            may = pkce(rec["method"], rec["challenge"], dd["code_verifier"]) and dd["redirect_uri"] in w.db["clients"].get(cid, {"uris": []})["uris"] and "authorization_code" in w.db["clients"][cid]["grants"] and "authorization_code" in w.cfg["grants"]
            if yes:
                check(not ok and not any(e[0] == "access" for e in again), f"redeemed again afterwards: {ctx}", ["C18"])
            elif may:
                check(ok, f"not redeemable although never presented by an entitled client ({out.show()}): {ctx}", ["C18", "C17"])
            if len(yes) > 1:
                labels.add("raced, %s" % ("won" if any(r["won"] for r in mine) else "none won"))
            elif yes:
                labels.add("one entitled, %s" % ("won" if yes[0]["won"] else "lost"))
            elif mine:
                labels.add("unentitled only")
        return {"nontrivial": overlap or any(r["hit"] and r["entitled"] for r in reqs) or len(codes) < len([r for r in reqs if r["entitled"]]), "labels": labels | ({"overlap"} if overlap else set())}
