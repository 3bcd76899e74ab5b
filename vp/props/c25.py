from .. import zygote
from ..core import Foreign
from ..history import *
from ..history import _now, _tz, _small, _any
from ..sched import Sched

RULE = ("Cases: (a) 2-3 providers in one process, some with equal client IDs, users or adapters' tokens and different secrets, scopes, keys, extensions, built at the start or on "
        "first use and sometimes rebuilt over the same storage, with their generated histories interleaved; (b) 2-5 unrelated requests of one provider run concurrently under a "
        "generated schedule. Each outcome is compared with the model; when it differs, the same request on the same stored data is repeated in a pristine process and the difference "
        "counts only if it disappears there. Non-trivial: two providers both answered requests, or two requests overlapped.")
QUICK, THOROUGH = 3000, 150000
KINDS = (("happy", 3), ("code", 3), ("refresh", 2), ("cc", 3), ("revoke", 1), ("authorize", 2), ("consent", 1), ("change", 4), ("many", 1))
_twist = st.lists(st.fixed_dictionaries({"o": st.just("mutate"), "c": _small, "what": st.sampled_from(MUTS), "a": _any}), max_size=4)
_cfg2 = configs(False)


@st.composite
def _multi(draw):
    first = draw(worlds(False))
    specs = [{"spec": first, "twist": [], "ext": draw(st.sampled_from([None, None, "one"])), "tag": ""}]
    for i in range(draw(st.integers(1, 2))):
        k = draw(st.integers(0, 3))
        if k == 0:
            spec = draw(worlds(False))
        elif k == 1:
            spec = {"cfg": draw(_cfg2), "db": copy.deepcopy(first["db"])}
        else:
            spec = copy.deepcopy(first)
            spec["cfg"]["oidc"] = draw(st.booleans())
            spec["cfg"]["lifespan"] += draw(st.integers(0, 1))
        specs.append({"spec": spec, "twist": draw(_twist), "ext": draw(st.sampled_from([None, None, "two"])), "tag": draw(st.sampled_from(["", "w"]))})
    eps = draw(st.lists(st.tuples(st.integers(0, len(specs) - 1), episodes(KINDS, (("auth", 2),))), min_size=2, max_size=5))
    # interleave: each episode is cut in pieces that take turns
    ops_ = [[i, o] for i, e in eps for o in e]
    if draw(st.booleans()):
        rnd = draw(st.lists(st.integers(0, 40), max_size=30))
        queues = {}
        for i, o in ops_:
            queues.setdefault(i, []).append(o)
        ops_, j = [], 0
        while queues:
            i = sorted(queues)[(rnd[j] if j < len(rnd) else j) % len(queues)]
            ops_.append([i, queues[i].pop(0)])
            j += 1
            if not queues[i]:
                del queues[i]
    for _ in range(draw(st.integers(0, 2))):
        ops_.insert(draw(st.integers(0, len(ops_))), [draw(st.integers(0, len(specs) - 1)), {"o": "rebuild"}])
    return {"specs": specs, "now": draw(_now), "tz": draw(_tz), "eager": draw(st.booleans()), "shared": draw(st.booleans()), "ops": ops_}


@st.composite
def _conc(draw):
    if draw(st.integers(0, 1)):  # requests of one kind for different users, clients, codes and tokens
        kind, n = draw(st.sampled_from(["refresh", "refresh", "code", "authorize", "cc", "consent"])), draw(st.integers(2, 4))
        first = {"refresh": "happy", "code": "authorize"}.get(kind)
        setup = [[{**o, **({"u": i, "c": o["c"] if i % 2 else i, "flaws": []} if o["o"] == "authorize" else {"k": 0, "flaws": []})} for o in draw(episodes(((first, 1),))) if o["o"] in ("authorize", "code")] for i in range(n)] if first else []
        return {"world": draw(worlds(False)), "now": T0 * 1000, "tz": "UTC", "setup": setup,
                "ops": [{**o, **({"k": i} if "k" in o else {"u": i})} for i, o in enumerate(draw(st.lists(ops(((kind, 1),), (), (0,)), min_size=n, max_size=n)))],
                "sched": draw(st.lists(st.integers(0, 4), max_size=30)), "late": draw(st.lists(st.integers(0, 8), max_size=5))}
    return {"world": draw(worlds(False)), "now": T0 * 1000, "tz": "UTC", "setup": draw(st.lists(episodes((("happy", 3), ("authorize", 1))), min_size=1, max_size=3)),
            "ops": draw(st.lists(ops((("authorize", 3), ("code", 3), ("refresh", 3), ("cc", 3), ("revoke", 1), ("consent", 1)), (("auth", 2),), (0, 0, 0, 1)), min_size=2, max_size=5)),
            "sched": draw(st.lists(st.integers(0, 4), max_size=30)), "late": draw(st.lists(st.integers(0, 8), max_size=5))}


def strategy(tier):
    zygote.ensure(isolated)
    return gen.weighted((3, _multi()), (2, _conc().map(copy.deepcopy).map(_calm)))


def _calm(case):
    w = case["world"]
    w["cfg"]["grants"] = list(GRANTS)
    for i, c in enumerate(w["db"]["clients"].values()):
        c["rtypes"] = ["code"]
        if i % 2 == 0:
            c["grants"] = list(GRANTS)
    return case


def isolated(job):
    """Runs in the pristine process: the single request on a fresh provider over the same data."""
    import warnings
    warnings.simplefilter("ignore")
    cfg, db, facts, ns, tz, tag, endpoint, fields = job
    with env.world_time(ns / 1e9, tz) as clock:
        w = World(cfg, db, clock, tag)
        w.__dict__.update(facts)
        w.count += 1000
        w.build()
        d = Draft("GET", "/")
        d.__dict__.update(fields)
        try:
            return "ok", perform(w, endpoint, d)[0]
        except Violation as v:
            return "violation", v.message


def sharing():
    """A way to give several providers the same adapter class, each with its own instance."""
    last = []

    class Shared(BaseAdapter):
        def __init__(self):
            self.inner = last[-1]

    def forward(name):
        async def method(self, *args, **kw):
            return await getattr(self.inner, name)(*args, **kw)
        return method
    for name in [n for n in dir(BaseAdapter) if not n.startswith("_")]:
        setattr(Shared, name, forward(name))
    Shared.__abstractmethods__ = frozenset()

    def wrap(cls):
        last[:] = [cls()]
        return Shared
    return wrap


def facts(w):
    return copy.deepcopy({k: getattr(w, k) for k in ("issued", "dead_codes", "redeemed", "revoked", "granted", "count")})


def settle(w, pre, known, endpoint, draft, tz, v):
    if v.props and "C25" in v.props:
        raise v
    kind, msg = zygote.ask((w.cfg, pre, known, w.clock.ns, tz, w.tag, endpoint, draft.__dict__))
    if kind == "ok":
        raise Violation(f"differs from the same request in isolation (alone: {msg}): {v.message}", ["C25"]) from v
    if kind == "harness":
        raise RuntimeError("isolated run failed: " + msg)
    raise Foreign(msg)


def run(case):
    zygote.ensure(isolated)
    return run_multi(case) if "specs" in case else run_concurrent(case)


def run_multi(case):
    labels, answered = set(), set()
    with env.world_time(case["now"] / 1000, case["tz"]) as clock:
        worlds_ = [None] * len(case["specs"])
        wrap = sharing() if case.get("shared") else lambda cls: cls

        def get(i):
            if worlds_[i] is None:
                s = case["specs"][i]
                spec = copy.deepcopy(s["spec"])
                spec["cfg"]["ext"] = s["ext"]
                w = start(spec, clock, s["tag"], wrap)
                for m in s["twist"]:
                    mutate(w, m)
                worlds_[i] = w
            return worlds_[i]
        if case["eager"]:
            for i in range(len(worlds_)):
                get(i)

        def request(w, endpoint, draft):
            pre, known = copy.deepcopy(w.db), facts(w)
            others = [(o, copy.deepcopy(o.db), o.count) for o in worlds_ if o is not None and o is not w]
            for o, _, _ in others:
                o.log = []
            try:
                label, out = perform(w, endpoint, draft)
            except Violation as v:
                settle(w, pre, known, endpoint, draft, case["tz"], v)
            for o, db, count in others:
                check(not o.log and o.db == db and o.count == count, f"request to one provider touched another's storage: {draft.show()}; effects there {o.log}", ["C25"])
            return label
        for i, o in case["ops"]:
            w = get(i)
            if o["o"] == "rebuild":
                w.build(wrap)
                labels.add("rebuilt")
                continue
            if o["o"] in ("advance", "mutate"):
                step(w, o)
                continue
            n, o1 = (o["n"], o["op"]) if o["o"] == "many" else (1, o)
            for _ in range(n):
                if o1["o"] in ("advance", "mutate"):
                    step(w, o1)
                    continue
                endpoint, draft = build(w, o1)
                label = request(w, endpoint, draft)
                learn(w, o1, draft)
                if o1["o"] == "consent" and o1.get("then"):
                    label = request(w, "authorize", draft)
                    learn(w, o1, draft)
                answered.add(i)
                labels.add(label.split("+")[0])
    return {"nontrivial": len(answered) > 1, "labels": labels}


def run_concurrent(case):
    labels = set()
    with env.world_time(case["now"] / 1000, case["tz"]) as clock:
        s = Sched(case["sched"])
        w = start(case["world"], clock, wrap=s.wrap)
        s.w = w
        for e in case["setup"]:
            for o in e:
                try:
                    step(w, o)
                except Violation as v:
                    raise Foreign(v.message)
        pre, known = copy.deepcopy(w.db), facts(w)
        reqs, used = [], set()
        for o in case["ops"]:
            endpoint, d = build(w, o)
            keys_ = {d.get(n) for n in ("code", "refresh_token", "token")} - {None, ""}
            if keys_ & used or any(k in pre["codes"] or k in pre["refresh"] for k in keys_) and endpoint == "revoke" and used:
                continue
            used |= keys_
            r = {"id": len(reqs), "fault": None, "exc": None, "hit": None, "gates": 0, "out": None, "raised": None, "draft": d, "endpoint": endpoint, "op": o}
            r["coro"] = direct(w, endpoint, d)
            reqs.append(r)
        if len(reqs) < 2:
            for r in reqs:
                r["coro"].close()
            return {"nontrivial": False}
        w.log = []
        try:
            call(s.run(reqs, case["late"]))
        except Violation as v:
            raise Violation(v.message, ["C25", "C18"])
        log = w.log
        for r in reqs:
            mine = [e[:-1] for e in log if e[-1] == r["id"]]
            view = copy.copy(w)
            view.db = copy.deepcopy(pre)
            view.__dict__.update(copy.deepcopy(known))
            for e in mine:
                if e[0] == "delete_code":
                    view.db["codes"].pop(e[1], None)
            try:
                if r["raised"] is not None:
                    raise Violation(f"raised {r['raised']!r}", [])
                label = judge(view, r["endpoint"], pre, r["draft"], r["out"], mine)
            except Violation as v:
                settle(w, pre, known, r["endpoint"], r["draft"], case["tz"], Violation(f"concurrently with {len(reqs) - 1} other requests: {v.message}", v.props))
            labels.add("concurrent " + label.split("+")[0])
        overlap = any(a is not b and a["begun"] < b["ended"] and b["begun"] < a["ended"] for a in reqs for b in reqs)
        check(all(e[-1] in range(len(reqs)) for e in log), "effects of no request", ["C25"])
    return {"nontrivial": overlap, "labels": labels}
