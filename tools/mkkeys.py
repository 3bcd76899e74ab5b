"""Generates vp/keys.json (run once; the committed file is the fixture): RSA keys of many sizes, special EC scalars."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from vp import ref
from cryptography.hazmat.primitives.asymmetric import rsa
from cryptography.hazmat.backends import default_backend
out = {"rsa": [], "ec": {}}
for bits, e in [(512, 65537), (1024, 65537), (1024, 65537), (1024, 3), (1025, 65537), (1031, 65537), (1032, 3), (1040, 65537), (1536, 65537), (2048, 65537),
                (2048, 65537), (2048, 3), (2049, 65537), (2056, 65537), (3072, 65537), (4096, 65537)]:
    k = rsa.generate_private_key(e, bits, default_backend()).private_numbers()
    out["rsa"].append({"bits": bits, "n": hex(k.public_numbers.n), "e": e, "d": hex(k.d), "p": hex(k.p), "q": hex(k.q)})
for name, c in ref.CURVES.items():
    x0, y0, P, d = [], [], (0, 1, 0), 0
    G = (*c.g, 1)
    bits = c.p.bit_length()
    lim = 8 * (c.size - 1)
    while (len(x0) < 6 or len(y0) < 6) and d < 60000:
        d += 1
        P = c._add(P, G)
        x, y = c.affine(P)
        if x.bit_length() <= (lim if bits % 8 == 0 else lim - 8): x0.append(d)
        if y.bit_length() <= (lim if bits % 8 == 0 else lim - 8): y0.append(d)
    out["ec"][name] = {"short_x": x0[:6], "short_y": y0[:6]}
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "vp", "keys.json"), "w"), indent=0)
