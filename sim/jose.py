"""Independent JOSE implementation for the simulated providers (on `cryptography` only)."""
import base64
import functools
import hashlib
import hmac
import json
import os

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.primitives.asymmetric import rsa
from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature

HERE = os.path.dirname(os.path.abspath(__file__))


class Bad(Exception):
    pass


def b64(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=").decode()


def unb64(s):
    if isinstance(s, str):
        s = s.encode()
    return base64.urlsafe_b64decode(s + b"=" * (-len(s) % 4))


def _i(s):
    return int.from_bytes(unb64(s), "big")


@functools.lru_cache(None)
def pool():
    with open(os.path.join(HERE, "keys.json")) as f:
        return json.load(f)


def pub_jwk(jwk):
    keep = ("kty", "n", "e", "crv", "x", "y", "kid", "use", "alg")
    return {k: v for k, v in jwk.items() if k in keep}


@functools.lru_cache(256)
def _priv(js):
    j = json.loads(js)
    if j["kty"] == "RSA":
        p, q, d = _i(j["p"]), _i(j["q"]), _i(j["d"])
        n = rsa.RSAPrivateNumbers(p, q, d, rsa.rsa_crt_dmp1(d, p), rsa.rsa_crt_dmq1(d, q),
                                  rsa.rsa_crt_iqmp(p, q),
                                  rsa.RSAPublicNumbers(_i(j["e"]), _i(j["n"])))
        return n.private_key(unsafe_skip_rsa_key_validation=True)
    return ec.derive_private_key(_i(j["d"]), ec.SECP256R1())


@functools.lru_cache(256)
def _pub(kty, a, b):
    if kty == "RSA":
        return rsa.RSAPublicNumbers(_i(b), _i(a)).public_key()
    return ec.EllipticCurvePublicNumbers(_i(a), _i(b), ec.SECP256R1()).public_key()


def pub_of(jwk):
    if jwk["kty"] == "RSA":
        return _pub("RSA", jwk["n"], jwk["e"])
    if jwk["kty"] == "EC" and jwk.get("crv") == "P-256":
        return _pub("EC", jwk["x"], jwk["y"])
    raise Bad("key type")


def sign(payload, alg, key=None, headers=None, kid=True):
    """key: private JWK for RS256/ES256, secret str/bytes for HS256, None for none."""
    h = {"alg": alg}
    if isinstance(key, dict) and kid:
        h["kid"] = key["kid"]
    h.update(headers or {})
    body = payload if isinstance(payload, bytes) else json.dumps(payload).encode()
    inp = b64(json.dumps(h).encode()) + "." + b64(body)
    m = inp.encode()
    if alg == "none":
        sig = b""
    elif alg.startswith("HS"):
        if isinstance(key, str):
            key = key.encode()
        sig = hmac.new(key, m, {"HS256": hashlib.sha256, "HS512": hashlib.sha512}[alg]).digest()
    elif alg == "RS256":
        sig = _priv(json.dumps(key, sort_keys=True)).sign(m, padding.PKCS1v15(), hashes.SHA256())
    elif alg == "ES256":
        der = _priv(json.dumps(key, sort_keys=True)).sign(m, ec.ECDSA(hashes.SHA256()))
        r, s = decode_dss_signature(der)
        sig = r.to_bytes(32, "big") + s.to_bytes(32, "big")
    else:
        raise Bad(alg)
    return inp + "." + b64(sig)


def decode(jwt):
    try:
        h, p, s = jwt.split(".")
        return json.loads(unb64(h)), json.loads(unb64(p))
    except Exception as e:
        raise Bad("not a JWT: %s" % e)


def verify(jwt, keys=(), secret=None, algs=None):
    """-> (header, payload), or Bad. keys: public JWKs."""
    h, p = decode(jwt)
    hs, ps, sig = jwt.split(".")
    m = (hs + "." + ps).encode()
    sig = unb64(sig)
    alg = h.get("alg")
    if algs is not None and alg not in algs:
        raise Bad("algorithm %s" % alg)
    if alg in ("HS256", "HS384", "HS512"):
        f = {"HS256": hashlib.sha256, "HS384": hashlib.sha384, "HS512": hashlib.sha512}[alg]
        if secret is None:
            raise Bad("no secret")
        if not hmac.compare_digest(hmac.new(secret.encode(), m, f).digest(), sig):
            raise Bad("hmac")
        return h, p
    hh = {"256": hashes.SHA256(), "384": hashes.SHA384(), "512": hashes.SHA512()}.get(
        str(alg)[2:])
    for k in keys:
        if h.get("kid") and k.get("kid") and h["kid"] != k["kid"]:
            continue
        try:
            if str(alg).startswith("RS") and k["kty"] == "RSA":
                pub_of(k).verify(sig, m, padding.PKCS1v15(), hh)
                return h, p
            if alg == "ES256" and k["kty"] == "EC" and len(sig) == 64:
                pub_of(k).verify(encode_dss_signature(
                    int.from_bytes(sig[:32], "big"), int.from_bytes(sig[32:], "big")),
                    m, ec.ECDSA(hh))
                return h, p
        except InvalidSignature:
            continue
    raise Bad("no key verifies (%s)" % alg)


def half_hash(s):
    d = hashlib.sha256(s.encode()).digest()
    return b64(d[:16])


def thumb(jwk):
    return json.dumps(pub_jwk({k: v for k, v in jwk.items() if k not in ("kid", "use", "alg")}),
                      sort_keys=True)


def make_pool(path):
    out = {"rsa": [], "ec": []}

    def n2b(n):
        return b64(n.to_bytes((n.bit_length() + 7) // 8, "big"))
    for i in range(14):
        k = rsa.generate_private_key(65537, 2048).private_numbers()
        pn = k.public_numbers
        out["rsa"].append({"kty": "RSA", "kid": "r%d" % i, "n": n2b(pn.n), "e": n2b(pn.e),
                           "d": n2b(k.d), "p": n2b(k.p), "q": n2b(k.q), "use": "sig"})
        e = ec.generate_private_key(ec.SECP256R1()).private_numbers()
        out["ec"].append({"kty": "EC", "crv": "P-256", "kid": "e%d" % i,
                          "x": b64(e.public_numbers.x.to_bytes(32, "big")),
                          "y": b64(e.public_numbers.y.to_bytes(32, "big")),
                          "d": b64(e.private_value.to_bytes(32, "big")), "use": "sig"})
    with open(path, "w") as f:
        json.dump(out, f, indent=0)
