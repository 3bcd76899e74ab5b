"""Generates vp/pems.json: key material of kinds psion must refuse (run once with /opt/veriftools/pyvenv python)."""
import datetime, json, os
from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization as s
from cryptography.hazmat.primitives.asymmetric import dsa, ec, ed25519, ed448, rsa, x25519
from cryptography.x509.oid import NameOID

out = []
def add(kind, form, text, pw=None):
    out.append({"kind": kind, "form": form, "pem": text.decode() if isinstance(text, bytes) else text, "pw": pw})
P, N = s.Encoding.PEM, s.NoEncryption()
def forms(kind, key, trad=True, ssh=True):
    add(kind, "pkcs8", key.private_bytes(P, s.PrivateFormat.PKCS8, N))
    add(kind, "pkcs8enc", key.private_bytes(P, s.PrivateFormat.PKCS8, s.BestAvailableEncryption(b"pw")), "pw")
    if trad:
        add(kind, "trad", key.private_bytes(P, s.PrivateFormat.TraditionalOpenSSL, N))
        add(kind, "tradenc", key.private_bytes(P, s.PrivateFormat.TraditionalOpenSSL, s.BestAvailableEncryption(b"pw")), "pw")
    if ssh:
        add(kind, "openssh", key.private_bytes(P, s.PrivateFormat.OpenSSH, N))
    add(kind, "spki", key.public_key().public_bytes(P, s.PublicFormat.SubjectPublicKeyInfo))
r = rsa.generate_private_key(65537, 1024)
forms("rsa", r)
add("rsa", "pkcs1pub", r.public_key().public_bytes(P, s.PublicFormat.PKCS1))
add("rsa", "ssh", r.public_key().public_bytes(s.Encoding.OpenSSH, s.PublicFormat.OpenSSH) + b" user@host\n")
for c in (ec.SECP256R1(), ec.SECP384R1(), ec.SECP521R1()):
    forms("ec", ec.generate_private_key(c))
for c in (ec.SECP256K1(), ec.SECP224R1(), ec.SECP192R1(), ec.BrainpoolP256R1(), ec.BrainpoolP384R1(), ec.BrainpoolP512R1(), ec.SECT283K1(), ec.SECT571R1()):
    try:
        forms("ec-other", ec.generate_private_key(c), ssh=False)
    except Exception as e:
        print(c.name, e)
forms("dsa", dsa.generate_private_key(1024), ssh=False)
forms("okp", ed25519.Ed25519PrivateKey.generate(), trad=False)
forms("okp", x25519.X25519PrivateKey.generate(), trad=False, ssh=False)
forms("okp", ed448.Ed448PrivateKey.generate(), trad=False, ssh=False)
for key in (rsa.generate_private_key(65537, 1024), ec.generate_private_key(ec.SECP256R1())):
    name = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, "x")])
    c = (x509.CertificateBuilder().subject_name(name).issuer_name(name).public_key(key.public_key()).serial_number(7)
         .not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2120, 1, 1)).sign(key, hashes.SHA256()))
    add("cert", "rsa" if isinstance(key, rsa.RSAPrivateKey) else "ec", c.public_bytes(P))
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "vp", "pems.json"), "w"), indent=0)
print(len(out))
