import collections, math, operator, os, pickle, random, re

from psion.webtools import secret_token

from ..core import Foreign
from ..history import *
from ..history import _now, _tz

RULE = ("Cases: (a) sequences of token, authorization code and symmetric key generations of generated sizes at a frozen clock, between them reseeding, saving and restoring the general-purpose "
        "random generator and forking processes that generate on (with the parent's apparent process ID); no 13 consecutive characters (10 bytes of a key) may ever recur; (b) batches of 3000 tokens of "
        "one size, or 400 codes, with per-position and pairwise statistics; (c) mass draws. Non-trivial: at least two values of at least 16 characters were compared, or statistics taken.")
QUICK, THOROUGH = 1200, 60000
ASSUMPTIONS = ["Statistical thresholds give a correct generator a failure probability below 1e-12 per batch.", "Unpredictability is judged by recurrence and distribution, not by cryptanalysis."]
ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
URLSAFE = re.compile(r"[A-Za-z0-9_-]*\Z")
_size = gen.weighted((3, st.integers(1, 70)), (2, st.sampled_from([13, 16, 31, 32, 33, 43, 48, 63, 64, 65, 127, 128, 129, 200, 256])), (1, gen.lengths(1200).filter(bool)))
_plain = st.one_of(
    st.tuples(_size, st.integers(1, 6)).map(lambda t: {"o": "token", "n": t[0], "k": t[1]}), st.integers(1, 4).map(lambda k: {"o": "default", "k": k}),
    st.tuples(st.integers(32, 300), st.integers(1, 4)).map(lambda t: {"o": "key", "n": t[0], "k": t[1]}), st.just({"o": "defkey"}),
    st.tuples(op("authorize", (), (0,)), st.integers(1, 3)).map(lambda t: {"o": "code", "op": t[0], "k": t[1]}), st.tuples(op("authorize", (), (0,)), st.integers(1, 3)).map(lambda t: {"o": "code", "op": t[0], "k": t[1]}),
    st.one_of(st.integers(0, 3), st.integers(-10, 2 ** 40)).map(lambda s: {"o": "seed", "s": s}), st.just({"o": "seed", "s": 1}), st.just({"o": "save"}), st.just({"o": "restore"}), st.just({"o": "restore"}))
_fork = st.lists(_plain, min_size=1, max_size=4).map(lambda l: {"o": "fork", "ops": l})
_ops = st.lists(gen.weighted((8, _plain), (1, _fork)), min_size=2, max_size=10)


def strategy(tier):
    return gen.weighted(
        (48, st.fixed_dictionaries({"world": worlds(False), "now": _now, "tz": _tz, "ops": _ops})),
        (2, st.fixed_dictionaries({"stat": _size.map(lambda n: min(n, 260)), "seed": st.integers(0, 1)})),
        (1, st.fixed_dictionaries({"world": worlds(False), "now": _now, "tz": _tz, "codes": op("authorize", (), (0,))})),
        (1, st.fixed_dictionaries({"mass": st.sampled_from([16, 16, 24, 32]), "t": st.integers(0, 100)})))


def healthy(spec):
    spec = copy.deepcopy(spec)
    spec["cfg"]["grants"] = list(GRANTS)
    for c in spec["db"]["clients"].values():
        c["rtypes"], c["grants"] = ["code"], list(GRANTS)
    return spec


class Seen:
    """Everything generated so far; complains when a stretch recurs."""

    def __init__(self):
        self.windows, self.values, self.saved = {}, 0, random.getstate()

    def add(self, value, what, width=13):
        if len(value) < width:
            return
        self.values += len(value) >= 16
        if len(value) > 400:
            value = value[:200] + value[-200:] if isinstance(value, str) else value
        for i in range(len(value) - width + 1):
            win = value[i:i + width]
            if win in self.windows:
                raise Violation(f"{what} {value!r} repeats {win!r} of {self.windows[win]}", ["C28"])
            self.windows[win] = f"{what} {value!r}"


def good_token(t, n, what="token"):
    check(isinstance(t, str), f"{what} is {t!r}", ["C28"])
    check(n is None or len(t) == n, f"asked for {n} characters, got {len(t)}: {t!r}", ["C28"])
    check(URLSAFE.match(t), f"{what} is not URL-safe: {t!r}", ["C28"])


def authorize_code(w, o):
    before = len(w.code_list)
    try:
        step(w, o)
    except Violation as v:
        raise Foreign(v.message)
    for code in w.code_list[before:]:
        good_token(code, None, "code")
        check(len(code) >= 43, f"authorization code of {len(code)} characters: {code!r}", ["C28"])
        yield code


def play(ops_, w, seen, report, labels):
    for o in ops_:
        kind = o["o"]
        labels.add(kind)
        if kind == "seed":
            random.seed(o["s"])
        elif kind == "save":
            seen.saved = random.getstate()
        elif kind == "restore":
            random.setstate(seen.saved)
        elif kind == "fork":
            both = [child(o["ops"], w, seen) for _ in range(2)]
            for values in both:
                for v, what, width in values:
                    report(v, what + " of another process", width)
        elif kind == "code":
            for _ in range(o["k"]):
                for code in authorize_code(w, o["op"]):
                    report(code, "code", 13)
        elif kind in ("key", "defkey"):
            for _ in range(o.get("k", 1)):
                k = JsonWebKey.generate("oct", o["n"]) if kind == "key" else JsonWebKey.generate("oct")
                report(ref.b64d(k.dump(False)["k"]), "key", 10)
        else:
            for _ in range(o["k"]):
                t = secret_token(o["n"]) if kind == "token" else secret_token()
                good_token(t, o["n"] if kind == "token" else 32)
                report(t, "token", 13)


def child(ops_, w, seen):
    """What a forked process generates: a list of (value, what, width)."""
    r, wr = os.pipe()
    me = os.getpid()
    pid = os.fork()
    if pid == 0:
        code = b""
        try:
            os.close(r)
            os.getpid = lambda: me
            out = []
            try:
                play(ops_, w, seen, lambda *a: out.append(a), set())
                code = pickle.dumps(("ok", out))
            except Violation as v:
                code = pickle.dumps(("violation", v.message, v.props))
            except Foreign as f:
                code = pickle.dumps(("foreign", str(f)))
            except BaseException as exc:
                code = pickle.dumps(("error", repr(exc)))
            while code:
                code = code[os.write(wr, code):]
        finally:
            os._exit(0)
    os.close(wr)
    data = b""
    while chunk := os.read(r, 65536):
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    got = pickle.loads(data)
    if got[0] == "ok":
        return got[1]
    if got[0] == "violation":
        raise Violation(got[1], got[2])
    if got[0] == "foreign":
        raise Foreign(got[1])
    raise Violation("in a forked process: " + got[1])


def statistics(tokens, what):
    """Position by position: every character occurs; no position copies another or its predecessor."""
    n, count = len(tokens[0]), len(tokens)
    columns = list(zip(*tokens))
    many = count >= 3000
    for i, col in enumerate(columns):
        kinds = set(col)
        if many:
            check(kinds == set(ALPHABET), f"{what}: position {i} of {n} never has {''.join(sorted(set(ALPHABET) - kinds))!r} in {count} draws", ["C28"])
        else:
            check(len(kinds) >= 40, f"{what}: position {i} of {n} has only {len(kinds)} different characters in {count} draws", ["C28"])
        same = sum(map(operator.eq, col, col[1:]))
        check(same < count / 64 + 12 * math.sqrt(count / 64) + 20, f"{what}: position {i} of {n} equals the previous draw's {same} times in {count}", ["C28"])
    step_ = max(1, n // 24)
    for i in range(0, n, step_):
        for d in (1, 2, 3, 4, 8, 16, n // 2, n - 1):
            j = i + d
            if d and j < n:
                same = sum(map(operator.eq, columns[i], columns[j]))
                check(same < count / 64 + 12 * math.sqrt(count / 64) + 20, f"{what}: positions {i} and {j} of {n} agree {same} times in {count}", ["C28"])
    if many:
        total = count * n
        freq = {c: 0 for c in ALPHABET}
        for col in columns:
            for c in col:
                freq[c] += 1
        e = total / 64
        chi = sum((f - e) ** 2 / e for f in freq.values())
        if e * (n - 1) / n / 64 >= 20:
            pairs = collections.Counter(t[i:i + 2] for t in tokens for i in range(n - 1))
            e2 = count * (n - 1) / 4096
            chi2 = sum(f * f for f in pairs.values()) / e2 - count * (n - 1)
            if e2 >= 40:
                never = next((x + y for x in ALPHABET for y in ALPHABET if x + y not in pairs), None)
                check(never is None, f"{what}: {never!r} never occurs in {count} draws of {n} characters", ["C28"])
            check(chi2 < 4095 + 14 * 91, f"{what}: neighbouring characters depend on each other (chi-square {chi2:.0f} with 4095 degrees of freedom)", ["C28"])
        check(chi < 230, f"{what}: character frequencies are skewed (chi-square {chi:.0f} with 63 degrees of freedom)", ["C28"])


def run(case):
    labels = set()
    state = random.getstate()
    try:
        if "stat" in case:
            n = case["stat"]
            tokens = []
            for i in range(3000):
                if case["seed"] and i % 100 == 0:
                    random.seed(i // 1000)
                t = secret_token(n)
                good_token(t, n)
                tokens.append(t)
            statistics(tokens, "tokens")
            return {"nontrivial": True, "labels": {"statistics"}}
        if "mass" in case:
            n, got = case["mass"], set()
            for i in range(1600000 // n):
                t = secret_token(n)
                if t in got:
                    raise Violation(f"token {t!r} repeated among {i} tokens of {n} characters", ["C28"])
                got.add(t)
            return {"nontrivial": True, "labels": {"mass"}}
        with env.world_time(case["now"] / 1000, case["tz"]) as clock:
            w = start(healthy(case["world"]), clock)
            if "codes" in case:
                codes = []
                for _ in range(400):
                    codes += authorize_code(w, case["codes"])
                if len(codes) < 400:
                    return {"nontrivial": False, "labels": {"no codes"}}
                if len({len(c) for c in codes}) == 1:
                    statistics(codes, "codes")
                check(len(set(codes)) == len(codes), "authorization code issued twice", ["C28"])
                return {"nontrivial": True, "labels": {"code statistics"}}
            seen = Seen()
            play(case["ops"], w, seen, seen.add, labels)
            return {"nontrivial": seen.values > 1, "labels": labels}
    finally:
        random.setstate(state)
