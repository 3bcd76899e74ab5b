"""Shared strategies.  Everything generated is JSON data."""
import functools

from hypothesis import strategies as st

from . import env

# Explicit alphabet (building Hypothesis' character tables costs seconds per process): ASCII, Latin-1 and samples of
# every plane; no lone surrogates.
CHARS = "".join(map(chr, list(range(0x20, 0x7F)) + list(range(0x20)) + list(range(0x7F, 0x180)) + [
    0x2B0, 0x300, 0x301, 0x308, 0x327, 0x37E, 0x3A9, 0x3C3, 0x3C2, 0x410, 0x44F, 0x5D0, 0x627, 0x66B, 0x660, 0x6DD, 0x915, 0xE01,
    0x1100, 0x1161, 0x11A8, 0x180E, 0x1E9E, 0x1F88, 0x2000, 0x2003, 0x200B, 0x200D, 0x200E, 0x2010, 0x2028, 0x2029, 0x202E, 0x2060,
    0x20AC, 0x2103, 0x2126, 0x212A, 0x212B, 0x2160, 0x2260, 0x2460, 0x3000, 0x3042, 0x30A2, 0x4E00, 0x578C, 0x9FFF, 0xAC00, 0xD7A3,
    0xD7FF, 0xE000, 0xF900, 0xFB01, 0xFDFA, 0xFE0F, 0xFEFF, 0xFF0E, 0xFF0F, 0xFF21, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10400, 0x1D54F,
    0x1F600, 0x1F1E6, 0x20000, 0x2F800, 0xE0001, 0xFFFFF, 0x10FFFF]))
cached = functools.lru_cache(None)
NEW_S = [s for s in env.NEW_STRINGS if s.isprintable()]
NEW_I = [i for i in env.NEW_INTS if 0 <= i <= 200000]


def weighted(*pairs):
    """One of several strategies, with integer weights (one_of would flatten nested choices and drop repeated ones)."""
    table = [s for w, s in pairs for _ in range(w)]
    index = st.integers(0, len(table) - 1)

    @st.composite
    def choose(draw):
        return draw(table[draw(index)])
    return choose()


def novel(strategy, weight=2):
    """Mix strings new in this tree (relative to the reference tree) in a text strategy."""
    if not NEW_S:
        return strategy
    base = st.sampled_from(NEW_S)
    return weighted((6, strategy), (weight, base), (1, st.tuples(base, strategy).map("".join)),
                    (1, st.tuples(strategy, base).map("".join)), (1, st.tuples(strategy, base, strategy).map("".join)))


ODD_TEXT = ["\u00e9", "e\u0301", "\u212b", "\ufb01", "\u0130", "\u00df", "\U0001f600", "\u200b", "\x00", "\x7f", "\n", "\r\n",
            "\t", " ", "%", "%41", "+", "&", "=", "#", "?", "/", "\\", '"', "'", "<", ";", ",", ":", "@", "..", "null", "0",
            "None", "true", "-", "_", "~", "A" * 300]


@cached
def text(min_size=0, max_size=40):
    t = weighted((4, st.text(CHARS, min_size=min_size, max_size=max_size)),
                 (2, st.text("abcXYZ019-._~", min_size=min_size, max_size=max_size)),
                 (2, st.lists(st.sampled_from(ODD_TEXT), min_size=max(1, min_size), max_size=4).map("".join)))
    return novel(t)


@cached
def lengths(max_len):
    """Interesting sizes: small, powers of two and their neighbours, literals new in this tree."""
    pts = sorted({n + d for n in (0, 3, 8, 16, 32, 57, 64, 76, 128, 255, 256, 512, 1000, 1024, 4096, 8192, 65536) for d in (-1, 0, 1)
                  if 0 <= n + d <= max_len})
    s = [(3, st.integers(0, min(64, max_len))), (1, st.sampled_from(pts))]
    new = sorted({i + d for i in NEW_I for d in (-1, 0, 1) if 0 <= i + d <= max_len})
    if new:
        s.append((2, st.sampled_from(new)))
    return weighted(*s)


UNIT = st.binary(min_size=1, max_size=24)


@cached
def _exact(n):
    return st.binary(min_size=n, max_size=n)


RARE = st.integers(0, 39)
HUGE = st.sampled_from([65537, 70000, 98305, 131073, 200001] + [n + 1 for n in NEW_I if 9000 < n])


@st.composite
def _blob(draw, max_len):
    """Bytes (as hex): arbitrary when short, a repeated arbitrary unit when long."""
    n = draw(lengths(max_len))
    if max_len >= 5000 and draw(RARE) == 39:
        n = draw(HUGE)
    if n <= 64:
        return draw(_exact(n)).hex()
    unit = draw(UNIT)
    return (unit * (n // len(unit) + 1))[:n].hex()


@cached
def blob(max_len=9000):
    return _blob(max_len)


@cached
def payload_bytes(max_len=9000):
    new = [s.encode().hex() for s in NEW_S]
    s = [(5, blob(max_len)), (2, text(0, 60).map(lambda t: t.encode("utf-8").hex()))]
    if new:
        s.append((1, st.sampled_from(new)))
    return weighted(*s)


@cached
def json_values(max_leaves=12, keys=None):
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-(2 ** 70), 2 ** 70), st.sampled_from([0, 1, -1, 2 ** 31, 2 ** 53, 2 ** 63]),
                     st.floats(allow_nan=False, allow_infinity=False), text(0, 20))
    return st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(keys or text(0, 12), c, max_size=4)),
                        max_leaves=max_leaves)


def strict_equal(a, b):
    """JSON equality that tells 1, 1.0 and True apart."""
    if type(a) is bool or type(b) is bool or isinstance(a, float) or isinstance(b, float) or a is None or b is None:
        return type(a) is type(b) and (a == b)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(strict_equal(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(strict_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (dict, list)) or isinstance(b, (dict, list)):
        return False
    return isinstance(a, str) == isinstance(b, str) and a == b
