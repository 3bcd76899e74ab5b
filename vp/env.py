"""Process environment: psion from the working tree, the clock, the time zone, mined literals."""
import ast, ctypes, importlib.machinery, json, os, sys, time

HOME = os.environ["VP_HOME"]
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SCRATCH = os.environ["VP_SCRATCH"]


class _Source(importlib.machinery.SourceFileLoader):
    """Always compiles the source: stale bytecode can never be what is tested."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def _hook(path):
    if path == SRC or path.startswith(SRC + "/"):
        return importlib.machinery.FileFinder(path, (_Source, [".py"]))
    raise ImportError


def install():
    sys.path_hooks.insert(0, _hook)
    sys.path_importer_cache.clear()
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath("/repo/src")]
    sys.path.insert(0, SRC)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import psion.jose.jws
    import psion.oauth2.providers.base
    import psion.oauth2.grants
    import psion.oidc

    for name, module in list(sys.modules.items()):
        if name == "psion" or name.startswith("psion."):
            where = getattr(module, "__file__", None)
            if where and not where.startswith(SRC + "/"):
                raise RuntimeError(f"{name} imported from {where}, not from {SRC}")


_lib = ctypes.CDLL(os.environ["VP_CLOCK"])
_lib.vp_clock_set.argtypes = [ctypes.c_longlong]


class world_time:
    """Context manager: real time is `now` (seconds, int or float) and the zone `tz` inside the block."""

    def __init__(self, now, tz="UTC"):
        self.ns, self.tz = round(now * 1000) * 1000000, tz

    def __enter__(self):
        os.environ["TZ"] = self.tz
        time.tzset()
        _lib.vp_clock_set(self.ns)
        return self

    def advance(self, seconds):
        self.ns += round(seconds * 1000) * 1000000
        _lib.vp_clock_set(self.ns)

    @property
    def now(self):
        return self.ns / 1e9

    def __exit__(self, *exc):
        _lib.vp_clock_off()
        os.environ["TZ"] = "UTC"
        time.tzset()


def self_test():
    import datetime

    with world_time(1234567890.5, "JST-9"):
        assert time.time() == 1234567890.5 and datetime.datetime.utcnow().year == 2009, "clock shim inactive"
        assert datetime.datetime.now().hour == 8
    assert abs(time.time() - 1234567890) > 1e7, "clock shim stuck"


# ---------------------------------------------------------------- mined literals
def mine(src=SRC):
    strings, ints = set(), set()
    for root, _, files in os.walk(os.path.join(src, "psion")):
        for f in files:
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(root, f), encoding="utf-8").read())
            except SyntaxError:
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                    docs.add(id(node.value))
            for node in ast.walk(tree):
                if not isinstance(node, ast.Constant) or id(node) in docs:
                    continue
                v = node.value
                if isinstance(v, bytes):
                    v = v.decode("latin-1")
                if isinstance(v, str) and 0 < len(v) <= 80:
                    strings.add(v)
                elif type(v) is int:
                    ints.add(v)
    return strings, ints


def _mined():
    base_s, base_i = set(), set()
    p = os.path.join(HOME, "vp", "baseline_literals.json")
    if os.path.exists(p):
        b = json.load(open(p))
        base_s, base_i = set(b["strings"]), set(b["ints"])
    s, i = mine()
    return sorted(s), sorted(i), sorted(s - base_s), sorted(i - base_i)


STRINGS, INTS, NEW_STRINGS, NEW_INTS = _mined()
