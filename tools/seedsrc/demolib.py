"""A tiny provider and HTTP client for the demonstrations. Everything is in memory."""
import base64
import hashlib
import json
import os
import sys
import tempfile
import warnings
from urllib.parse import parse_qs
from urllib.parse import parse_qsl
from urllib.parse import urlparse

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
SCRATCH = tempfile.mkdtemp(prefix="demo-")
os.chdir(SCRATCH)

import time  # noqa: E402

import requests  # noqa: E402
from cryptojwt.jws.jws import JWS  # noqa: E402
from cryptojwt.key_jar import build_keyjar  # noqa: E402

from requests.structures import CaseInsensitiveDict  # noqa: E402

from oidcrp.rp_handler import RPHandler  # noqa: E402

KEYDEFS = [{"type": "RSA", "key": "", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]
RP_KEYS = build_keyjar(KEYDEFS)
BASE = "https://rp.example.org"


class Resp:
    def __init__(self, status, body, ctype="application/json", headers=None, url=""):
        self.status_code = status
        self.text = body if isinstance(body, str) else json.dumps(body)
        self.headers = CaseInsensitiveDict({"content-type": ctype})
        self.headers.update(headers or {})
        self.reason = "because"
        self.url = url
        self.content = self.text.encode()
        self.ok = status < 400

    def json(self):
        return json.loads(self.text)


class OP:
    def __init__(self, iss, **meta):
        self.iss = iss
        self.keys = build_keyjar(KEYDEFS)
        self.meta = {
            "issuer": iss, "authorization_endpoint": iss + "/authz",
            "token_endpoint": iss + "/token", "userinfo_endpoint": iss + "/userinfo",
            "registration_endpoint": iss + "/reg", "end_session_endpoint": iss + "/logout",
            "jwks_uri": iss + "/jwks", "response_types_supported": ["code"],
            "subject_types_supported": ["public"],
            "id_token_signing_alg_values_supported": ["RS256", "ES256"],
            "token_endpoint_auth_methods_supported": ["client_secret_basic", "client_secret_post",
                                                      "client_secret_jwt", "private_key_jwt"]}
        self.meta.update(meta)
        self.meta = {k: v for k, v in self.meta.items() if v is not None}
        self.clients, self.codes, self.log, self.n = {}, {}, [], 0
        self.sub = "diana"
        self.refresh = True
        self.rotate = True
        self.expires_in = 3600
        self.idt_on_refresh = False
        self.idt_exp = 3600
        self.userinfo = {}
        self.tamper = None          # a function on ID Token claims

    def uid(self, what):
        self.n += 1
        return "%s-%s-%d" % (what, urlparse(self.iss).path.strip("/") or urlparse(self.iss).netloc, self.n)

    def sign(self, claims, alg="RS256", kid=True):
        key = self.keys.get_signing_key("RSA" if alg.startswith("RS") else "EC", "")[0]
        return JWS(json.dumps(claims), alg=alg).sign_compact([key])

    def id_token(self, client_id, nonce, **extra):
        now = int(time.time())
        c = {"iss": self.iss, "sub": self.sub, "aud": [client_id], "iat": now,
             "exp": now + self.idt_exp}
        if nonce:
            c["nonce"] = nonce
        c.update(extra)
        if self.tamper:
            self.tamper(c)
        return self.sign(c)

    def authorize(self, url, **over):
        """What the browser brings back."""
        q = dict(parse_qsl(urlparse(url).query))
        q.update(over)
        code = self.uid("code")
        at = self.uid("fat")
        self.codes[code] = q
        rt = q.get("response_type", "code").split()
        res = {"state": q["state"]}
        if "code" in rt:
            res["code"] = code
        if "token" in rt:
            res.update(access_token=at, token_type="Bearer", expires_in=self.expires_in)
        if "id_token" in rt:
            def half(v):
                d = hashlib.sha256(v.encode()).digest()[:16]
                return base64.urlsafe_b64encode(d).decode().rstrip("=")
            extra = {}
            if "code" in rt:
                extra["c_hash"] = half(code)
            if "token" in rt:
                extra["at_hash"] = half(at)
            res["id_token"] = self.id_token(q["client_id"], q.get("nonce"), **extra)
        return res

    def tokens(self, q, refreshed=False):
        res = {"access_token": self.uid("at"), "token_type": "Bearer"}
        if self.expires_in:
            res["expires_in"] = self.expires_in
        if self.refresh and (not refreshed or self.rotate):
            res["refresh_token"] = self.uid("rt")
        if not refreshed or self.idt_on_refresh:
            res["id_token"] = self.id_token(q["client_id"], q.get("nonce"))
        return res

    def handle(self, path, method, body, headers):
        if path.endswith("/.well-known/openid-configuration"):
            return Resp(200, self.meta)
        if path.endswith("/jwks"):
            return Resp(200, self.keys.export_jwks())
        if path.endswith("/reg"):
            req = json.loads(body)
            cid = self.uid("client")
            self.clients[cid] = req
            r = dict(req, client_id=cid, client_secret=self.uid("secret") + "x" * 32)
            return Resp(201, r)
        if path.endswith("/token"):
            form = dict(parse_qsl(body))
            if form["grant_type"] == "authorization_code":
                if form["code"] not in self.codes:
                    return Resp(400, {"error": "invalid_grant"})
                self.last = self.codes[form["code"]]
                return Resp(200, self.tokens(self.last))
            return Resp(200, self.tokens(getattr(self, "last", {"client_id": "?"}), True))
        if path.endswith("/userinfo"):
            return Resp(200, dict({"sub": self.sub}, **self.userinfo))
        return Resp(404, {"error": "not_found"})


class Net:
    """The HTTP client given to the RP handler."""

    def __init__(self, *ops):
        self.ops = ops
        self.log = []
        self.hook = None            # hook(url, method, body, headers) -> Resp or None
        self.pages = {}
        # key sets are fetched with requests
        requests.sessions.Session.request = lambda _s, method, url, **kw: self(url, method, **kw)

    def __call__(self, url, method="GET", data=None, headers=None, **kw):
        headers = {k.lower(): v for k, v in (headers or {}).items()}
        self.log.append((url, method, data, headers))
        if self.hook:
            r = self.hook(url, method, data, headers)
            if r is not None:
                return r
        bare = url.split("?")[0]
        if bare in self.pages:
            return self.pages[bare]
        best = None
        for op in self.ops:
            if bare.startswith(op.iss.rstrip("/") + "/"):
                if best is None or len(op.iss) > len(best.iss):
                    best = op
        if best is None:
            return Resp(404, {"error": "no_such_host"})
        return best.handle(bare, method, data, headers)

    send = __call__
    get = __call__

    def sent(self, suffix):
        return [(u, m, dict(parse_qsl(b or "")), h) for u, m, b, h in self.log
                if u.split("?")[0].endswith(suffix)]


def conf(op, static=False, **kw):
    c = {"issuer": op.iss, "client_preferences": {
            "application_type": "web", "response_types": ["code"], "scope": ["openid"],
            "token_endpoint_auth_method": ["client_secret_basic"]},
         "redirect_uris": None, "services": SERVICES}
    if static:
        c.update(client_id="static-client", client_secret="a-very-long-static-client-secret-0123456789",
                 redirect_uris=[BASE + "/cb"], behaviour={"response_types": ["code"], "scope": ["openid"]})
    prefs = kw.pop("prefs", None)
    if prefs:
        c["client_preferences"] = dict(c["client_preferences"], **prefs)
    c.update(kw)
    return {k: v for k, v in c.items() if v is not None}


def _s(n):
    return {"class": n}


SERVICES = {
    "discovery": _s("oidcrp.oidc.provider_info_discovery.ProviderInfoDiscovery"),
    "registration": _s("oidcrp.oidc.registration.Registration"),
    "authorization": _s("oidcrp.oidc.authorization.Authorization"),
    "access_token": _s("oidcrp.oidc.access_token.AccessToken"),
    "refresh_access_token": _s("oidcrp.oidc.refresh_access_token.RefreshAccessToken"),
    "userinfo": _s("oidcrp.oidc.userinfo.UserInfo"),
    "end_session": _s("oidcrp.oidc.end_session.EndSession"),
}


def handler(net, configs, **kw):
    return RPHandler(BASE, client_configs=configs, services=SERVICES, http_lib=net,
                     keyjar=RP_KEYS.copy(), hash_seed="seed-of-this-handler",
                     jwks_path="static/jwks.json", **kw)


def ctx(h, op):
    return h.issuer2rp[op.iss].client_get("service_context")


def query(url):
    return dict(parse_qsl(urlparse(url).query))


def login(h, op, **kw):
    b = h.begin(op.iss, **kw)
    return b, h.finalize(op.iss, op.authorize(b["url"]))


def refused(f, *a, **kw):
    """True if the call raises or reports an error."""
    try:
        r = f(*a, **kw)
    except Exception:
        return True
    return isinstance(r, dict) and "error" in r


def done(ok, what):
    import shutil
    os.chdir("/")
    if SCRATCH.startswith(tempfile.gettempdir()):
        shutil.rmtree(SCRATCH, ignore_errors=True)
    print(("OK: " if ok else "BROKEN: ") + what)
    sys.exit(0 if ok else 1)
