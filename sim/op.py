"""Simulated OpenID Providers, claim sources and an attacker host. Never imports the system under test."""
import base64
import hashlib
import json
import re
from urllib.parse import parse_qs
from urllib.parse import parse_qsl
from urllib.parse import unquote_plus
from urllib.parse import urlencode
from urllib.parse import urlsplit

from . import jose
from . import kernel as K
from . import rng

CC = {"S256": hashlib.sha256, "S384": hashlib.sha384, "S512": hashlib.sha512}
# characters that expose a wrong base64 alphabet or a missing form encoding
TAILS = ["", "+/==", "", "%2F&x=1", "", "~ .", ""]
SECRET_TAILS = ["", "~", "", "a:b", "~~%", "", "+/=&", "?~ x", "", "~?>"]
UNRESERVED = re.compile(r"^[A-Za-z0-9._~-]+$")


PROV = {"token_endpoint_auth_method": "token_endpoint_auth_methods_supported",
        "token_endpoint_auth_signing_alg": "token_endpoint_auth_signing_alg_values_supported",
        "id_token_signed_response_alg": "id_token_signing_alg_values_supported",
        "userinfo_signed_response_alg": "userinfo_signing_alg_values_supported",
        "request_object_signing_alg": "request_object_signing_alg_values_supported",
        "subject_type": "subject_types_supported", "response_types": "response_types_supported",
        "scope": "scopes_supported", "default_acr_values": "acr_values_supported"}


class Grant:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def J(status, obj, meta=None, ctype="application/json"):
    return status, {"content-type": ctype}, json.dumps(obj), meta or {}


class OP:
    def __init__(self, world, cfg):
        self.w = world
        self.cfg = cfg
        self.i = cfg["idx"]
        self.host = cfg["host"]
        self.style = cfg.get("style")       # set: a provider without OpenID Connect
        self.issuer = cfg["issuer"]
        self.base = self.issuer.rstrip("/")
        self.gen = 0
        self.published = []         # every key ever published
        self.cur_keys = []
        self.new_keys()
        self.clients = {}
        self.grants = {}
        self.codes = {}
        self.ats = {}
        self.rts = {}
        self.par_store = {}
        self.jtis = set()
        self.dpop_jtis = set()
        self.dpop_keys = {}
        self.verifiers = set()
        self.n = {}
        self.minted = {}            # mid -> record
        self.userinfos = {}         # uid -> record
        self.count = {}
        self.registrations = 0
        self.discoveries = 0
        self.sids = 0
        if cfg.get("static"):
            c = cfg["static"]
            self.clients[c["client_id"]] = {
                "client_id": c["client_id"], "secret": c["client_secret"],
                "redirect_uris": list(c["redirect_uris"]), "auth": cfg["auth"],
                "alg": cfg["alg"], "meta": {}, "static": True,
                "request_uris": c.get("request_uris")}
            world.secret(c["client_secret"], self.i, "client_secret")

    # -- keys -----------------------------------------------------------------
    def _key(self, kty, gen):
        p = jose.pool()[kty]
        k = dict(p[(self.i * 3 + gen) % 12])
        k["kid"] = "%s-g%d" % (kty, gen)       # the same kids at every provider, on purpose
        return k

    def new_keys(self):
        self.cur_keys = [self._key("rsa", self.gen), self._key("ec", self.gen)]
        self.published += [jose.pub_jwk(k) for k in self.cur_keys]

    def rotate(self):
        self.gen += 1
        self.new_keys()

    def sig_key(self, alg):
        return self.cur_keys[0] if alg == "RS256" else self.cur_keys[1]

    # -- ids --------------------------------------------------------------------
    def fresh(self, kind, size=20):
        self.n[kind] = self.n.get(kind, 0) + 1
        h = "%016x%016x" % (rng.h64(self.w.seed, self.i, kind, self.n[kind]),
                            rng.h64(self.w.seed, self.i, kind, self.n[kind], 1))
        return "%s-%d-%d-%s" % (kind, self.i, self.n[kind], h[:size])

    def now(self):
        return K.T0 + K.ACTIVE.now

    # -- documents ----------------------------------------------------------------
    def metadata(self):
        c = self.cfg
        b = self.base
        d = {"issuer": self.issuer, "authorization_endpoint": b + "/authorize",
             "token_endpoint": b + "/token", "jwks_uri": b + "/jwks",
             "registration_endpoint": b + "/register",
             "response_types_supported": ["code", "id_token", "id_token token", "code id_token",
                                          "code token", "code id_token token"],
             "response_modes_supported": ["query", "fragment", "form_post"],
             "grant_types_supported": ["authorization_code", "implicit", "refresh_token"],
             "subject_types_supported": ["public", "pairwise"],
             "id_token_signing_alg_values_supported": ["RS256", "ES256", "HS256"],
             "userinfo_signing_alg_values_supported": ["RS256", "ES256", "none"],
             "request_object_signing_alg_values_supported": ["RS256", "ES256", "none"],
             "token_endpoint_auth_methods_supported": [
                 "client_secret_basic", "client_secret_post", "client_secret_jwt",
                 "private_key_jwt"],
             "token_endpoint_auth_signing_alg_values_supported": ["RS256", "ES256", "HS256"],
             "scopes_supported": ["openid", "profile", "email", "offline_access"],
             "request_parameter_supported": True, "request_uri_parameter_supported": True}
        if c.get("ui"):
            d["userinfo_endpoint"] = b + "/userinfo"
        if c.get("end_session"):
            d["end_session_endpoint"] = b + "/endsession"
            d["backchannel_logout_supported"] = True
        if c.get("sid"):
            d["backchannel_logout_session_supported"] = True
        if c.get("dpop"):
            d["dpop_signing_alg_values_supported"] = list(c["dpop"])
        if c.get("par"):
            d["pushed_authorization_request_endpoint"] = b + "/par"
        if c.get("reqreg"):
            d["require_request_uri_registration"] = True
        for a, sup in (c.get("sup") or {}).items():
            d.pop(PROV[a], None)
            if sup is not None:
                d[PROV[a]] = list(sup)
        return d

    def jwks(self):
        keys = [jose.pub_jwk(k) for k in self.cur_keys]
        how = self.cfg.get("keys")
        if how == "nokid":
            for k in keys:
                k.pop("kid")
        elif how in ("two", "two_nokid"):
            # keys of the provider's that sign nothing at the moment
            spare = [self._key("rsa", self.gen + 5), self._key("ec", self.gen + 5)]
            keys = [jose.pub_jwk(spare[0])] + keys + [jose.pub_jwk(spare[1])]
        return {"keys": keys}

    def sign(self, payload, alg, key=None, headers=None):
        return jose.sign(payload, alg, key, headers,
                         kid=self.cfg.get("keys") not in ("nokid", "nokid_jws", "two_nokid"))

    # -- routing ------------------------------------------------------------------
    def endpoint(self, path, method):
        bp = urlsplit(self.base).path
        if path in (bp + "/.well-known/openid-configuration",):
            return "discovery"
        if path == "/.well-known/webfinger":
            return "webfinger"
        for ep in ("jwks", "register", "token", "userinfo", "par", "endsession"):
            if path == bp + "/" + ep:
                return "readreg" if ep == "register" and method == "GET" else ep
        return None

    def handle(self, ep, x):
        """x: Exchange. -> (status, headers, body, meta)"""
        return getattr(self, "h_" + ep)(x)

    def h_discovery(self, x):
        self.discoveries += 1
        d = self.metadata()
        m = x.mut("disco")
        meta = {"kind": "discovery"}
        if m:
            evil = "https://evil.sim"
            if m == "issuer":
                d["issuer"] = evil
            elif m == "issuer_other":
                d = self.w.ops[(self.i + 1) % len(self.w.ops)].metadata()
            elif m == "issuer_sub":
                d["issuer"] = d["issuer"].rstrip("/") + "/x"
            elif m == "issuer_prefix":
                d["issuer"] = d["issuer"].rstrip("/")[:-1]
            elif m == "issuer_userinfo":
                d["issuer"] = d["issuer"].replace("https://", "https://a@")
            elif m == "no_token":
                del d["token_endpoint"]
            elif m == "issuer_case":
                d["issuer"] = d["issuer"].upper()
            elif m == "list":
                return J(200, [d], meta)
            elif m == "null_auth":
                d["authorization_endpoint"] = None
            elif m == "rt_int":
                d["response_types_supported"] = 5
            meta["mut"] = m
        return J(200, d, meta)

    def h_webfinger(self, x):
        q = parse_qs(urlsplit(x.url).query)
        res = q.get("resource", [""])[0]
        m = x.mut("wf")
        href = self.issuer
        rel = "http://openid.net/specs/connect/1.0/issuer"
        doc = {"subject": res, "links": [{"rel": rel, "href": href}]}
        if m == "norel":
            doc["links"][0]["rel"] = "http://example.com/other"
        elif m == "empty":
            doc["links"] = []
        elif m == "extra":      # further links are legal and must be ignored
            doc["links"].insert(0, {"rel": "http://webfinger.example/rel/profile-page",
                                    "href": "https://evil.sim"})
        return J(200, doc, {"kind": "webfinger", "mut": m}, "application/jrd+json")

    def h_jwks(self, x):
        m = x.mut("jwks")
        d = self.jwks()
        if m == "nokeys":
            d = {"keys": []}
        elif m == "html":
            return 200, {"content-type": "text/html"}, "<html>oops</html>", {"kind": "jwks",
                                                                             "mut": m}
        elif m == "list":
            return J(200, [1, 2], {"kind": "jwks", "mut": m})
        elif m == "badkey":
            d = {"keys": [{"kty": "RSA", "kid": "rsa-g%d" % self.gen, "n": "AQ", "e": "AQAB"}]}
        elif m == "unknown_kty":        # an extra key of a kind nobody knows is legal
            d["keys"].insert(0, {"kty": "XYZ", "kid": "q", "z": "1"})
        return J(200, d, {"kind": "jwks", "mut": m})

    def h_register(self, x):
        try:
            req = json.loads(x.body)
        except Exception:
            self.w.v(["C12", "C13"], "register-garbage", "registration body is not JSON")
            return J(400, {"error": "invalid_client_metadata"})
        self.registrations += 1
        cid = "client-%d-%d" % (self.i, self.registrations)
        sec = self.fresh("secret", 32)
        self.w.secret(sec, self.i, "client_secret")
        sec += SECRET_TAILS[(self.registrations + self.i) % len(SECRET_TAILS)]
        uris = req.get("redirect_uris")
        if not uris or not isinstance(uris, list):
            self.w.v(["C19"], "register-no-redirect", "no redirect_uris registered at op%d" % self.i)
            return J(400, {"error": "invalid_redirect_uri"})
        c = {"client_id": cid, "secret": sec, "redirect_uris": list(uris), "meta": req,
             "auth": req.get("token_endpoint_auth_method", "client_secret_basic"),
             "alg": req.get("id_token_signed_response_alg", "RS256"),
             "auth_alg": req.get("token_endpoint_auth_signing_alg"),
             "request_uris": req.get("request_uris")}
        self.clients[cid] = c
        rep = self.cfg.get("replace") or {}
        if "token_endpoint_auth_method" in rep:
            c["auth"] = rep["token_endpoint_auth_method"]
        if "id_token_signed_response_alg" in rep:
            c["alg"] = rep["id_token_signed_response_alg"]
        resp = {k: v for k, v in req.items()}
        resp.update(rep)
        resp.update({"client_id": cid, "client_secret": sec, "client_id_issued_at":
                     int(self.now()), "client_secret_expires_at": 0,
                     "registration_access_token": self.fresh("rat"),
                     "registration_client_uri": self.base + "/register?client_id=" + cid,
                     "token_endpoint_auth_method": c["auth"],
                     "id_token_signed_response_alg": c["alg"]})
        c["resp"] = dict(resp)
        self.w.secret(resp["registration_access_token"], self.i, "registration_token")
        m = x.mut("reg")
        if m == "no_id":
            del resp["client_id"]
        elif m == "error":
            del self.clients[cid]
            return J(400, {"error": "invalid_client_metadata"}, {"kind": "register", "mut": m})
        elif m == "error200":
            del self.clients[cid]
            return J(200, {"error": "invalid_client_metadata"}, {"kind": "register", "mut": m})
        elif m == "list":
            return J(201, [resp], {"kind": "register", "mut": m})
        elif m == "plain400":
            del self.clients[cid]
            return 400, {"content-type": "text/plain"}, "no", {"kind": "register", "mut": m}
        self.w.oracle.on_register(self, c)
        return J(201, resp, {"kind": "register", "cid": cid, "mut": m})

    def h_readreg(self, x):
        cid = dict(parse_qsl(urlsplit(x.url).query)).get("client_id")
        c = self.clients.get(cid)
        ok = c is not None and c.get("resp") and x.headers.get("authorization") == \
            "Bearer " + c["resp"]["registration_access_token"]
        self.w.oracle.on_readreg(self, x, cid, ok)
        if not ok:
            return J(401, {"error": "invalid_token"}, {"kind": "readreg", "err": 1})
        return J(200, c["resp"], {"kind": "readreg", "cid": cid})

    # -- authorization (front channel) ----------------------------------------------
    def resolve(self, url):
        """The effective authorization request behind a URL (request objects, PAR).
        -> (params, problem)"""
        sp = urlsplit(url)
        q = dict(parse_qsl(sp.query, keep_blank_values=True))
        how = "plain"
        client = self.clients.get(q.get("client_id"))
        if "request_uri" in q:
            ru = q["request_uri"]
            if ru in self.par_store:
                how = "par"
                params = dict(self.par_store[ru])
            else:
                how = "request_uri"
                reg = (client or {}).get("request_uris")
                if isinstance(reg, str):
                    reg = [reg]
                if self.cfg.get("reqreg") and reg and ru.split("#")[0] not in reg:
                    return None, how, "request_uri %s is not registered" % ru
                jwt = self.w.app_fetch(ru)
                if jwt is None:
                    return None, how, "request_uri %s cannot be fetched" % ru
                params, err = self.open_request(jwt, client)
                if err:
                    return None, how, err
            for k, v in q.items():
                if k not in params and k != "request_uri":
                    params[k] = v
        elif "request" in q:
            how = "request"
            params, err = self.open_request(q["request"], client)
            if err:
                return None, how, err
            for k, v in q.items():
                if k not in params and k != "request":
                    params[k] = v
        else:
            params = dict(q)
        for k in ("scope", "response_type", "prompt"):
            if isinstance(params.get(k), list):
                params[k] = " ".join(params[k])
        return params, how, None

    def open_request(self, jwt, client):
        try:
            h, p = jose.decode(jwt)
        except jose.Bad as e:
            return None, "request object is not a JWT: %s" % e
        try:
            if h.get("alg") == "none":
                pass
            else:
                jose.verify(jwt, keys=self.w.rp_pub, secret=(client or {}).get("secret"))
            alg = ((client or {}).get("meta") or {}).get("request_object_signing_alg")
            if alg and h.get("alg") != alg:
                raise jose.Bad("signed with %s, %s registered" % (h.get("alg"), alg))
        except jose.Bad as e:
            return None, "request object does not verify: %s" % e
        p = dict(p)
        for k in ("iss", "aud", "iat", "jti", "exp"):
            p.pop(k, None)
        return p, None

    def authorize(self, user, params):
        """User authenticates and consents. -> (redirect_uri, mode, response dict, grant)"""
        c = self.clients[params["client_id"]]
        self.n["g"] = self.n.get("g", 0) + 1
        gid = "op%d.g%d" % (self.i, self.n["g"])
        self.sids += 1
        g = Grant(gid=gid, op=self.i, user=user, sub="sub-%d" % user,
                  # neighbours differ in case only
                  sid=("Sid-A%d" if self.sids % 2 else "sid-a%d") % ((self.sids + 1) // 2), client=c, params=params, state=params.get("state"),
                  nonce=params.get("nonce"), redirect_uri=params["redirect_uri"],
                  rt=set(params["response_type"].split()), code=None, code_used=0,
                  ats=[], rts=[], idts=[], challenge=params.get("code_challenge"),
                  cmethod=params.get("code_challenge_method"), refreshes=0, logged_out=False)
        self.grants[gid] = g
        resp = {"state": g.state}
        if "code" in g.rt:
            g.code = self.fresh("code", 32)
            self.w.secret(g.code, self.i, "code")
            g.code += TAILS[self.n["code"] % len(TAILS)]
            self.codes[g.code] = g
            resp["code"] = g.code
            g.code_at = self.now()
        if "token" in g.rt:
            at = self.new_at(g)
            resp["access_token"] = at
            resp["token_type"] = "Bearer"
            ei = self.cfg.get("expires_in")
            if isinstance(ei, list):
                ei = ei[0]
            if ei:
                resp["expires_in"] = ei
        if self.cfg.get("iss_param"):
            resp["iss"] = self.issuer
            resp["client_id"] = c["client_id"]
        mode = params.get("response_mode")
        if not mode:
            mode = "query" if g.rt == {"code"} else "fragment"
        return g.redirect_uri, mode, resp, g

    def front_idt(self, g, resp, m):
        if "id_token" in g.rt:
            resp["id_token"] = self.mint(g, m, at=resp.get("access_token"),
                                         code=resp.get("code"), front=True)
        return resp

    def new_at(self, g):
        at = self.fresh("at", 32)
        self.w.secret(at, self.i, "access_token")
        at += ("", "==", "", "-._~+/=")[self.n["at"] % 4]
        self.ats[at] = g
        g.ats.append(at)
        return at

    def mint(self, g, m=None, at=None, code=None, front=False, refreshed=False):
        """An ID Token for grant g, with mutation m."""
        mid = self.fresh("mid", 8)
        now = int(self.now())
        life = self.cfg.get("idt_life", 3600)
        rp_now = int(self.w.rp_now())
        skew = self.w.skew
        c = g.client
        p = {"iss": self.issuer, "sub": g.sub, "aud": c["client_id"], "exp": now + life,
             "iat": now, "mid": mid, "grant": g.gid, "auth_time": now,
             "email": "%s@%s" % (g.sub, self.host)}
        if self.cfg.get("aud_list"):
            p["aud"] = [c["client_id"]]
        if self.cfg.get("sid"):
            p["sid"] = g.sid
        if g.nonce and not (refreshed and self.cfg.get("refresh_nonce") is False):
            p["nonce"] = g.nonce
        if front and at:
            p["at_hash"] = jose.half_hash(at)
        if front and code:
            p["c_hash"] = jose.half_hash(code)
        alg = c["alg"]
        key = c["secret"] if alg == "HS256" else self.sig_key(alg)
        headers = {}
        nops = len(self.w.ops)
        if m == "wrong_iss":
            p["iss"] = "https://evil.sim"
        elif m == "iss_other":
            p["iss"] = self.w.ops[(self.i + 1) % nops].issuer
        elif m == "iss_slash":
            p["iss"] = self.issuer + "/" if not self.issuer.endswith("/") else self.issuer[:-1]
        elif m == "wrong_aud":
            p["aud"] = "someone-else"
        elif m == "aud_prefix":
            p["aud"] = [c["client_id"] + "x"]
        elif m == "aud_multi_noazp":
            p["aud"] = [c["client_id"], "someone-else"]
        elif m == "aud_multi_badazp":
            p["aud"] = [c["client_id"], "someone-else"]
            p["azp"] = "someone-else"
        elif m == "azp_other":
            p["azp"] = "someone-else"
        elif m == "aud_multi_ok":
            p["aud"] = [c["client_id"], "someone-else"]
            p["azp"] = c["client_id"]
        elif m == "expired":
            p["exp"] = min(now, rp_now) - skew - 30
            p["iat"] = p["exp"] - 300
        elif m == "expired_just":
            p["exp"] = rp_now - skew - 4
            p["iat"] = p["exp"] - 300
        elif m == "exp_edge_ok":
            p["exp"] = rp_now - skew + 12 if skew > 12 else rp_now + 12
            p["iat"] = min(p["iat"], p["exp"] - 60)
        elif m == "iat_future":
            p["iat"] = max(now, rp_now) + skew + 120
            p["exp"] = p["iat"] + 300
        elif m == "iat_edge_ok":
            p["iat"] = rp_now + max(skew - 3, 0)
            p["exp"] = max(p["exp"], p["iat"] + 300)
        elif m == "wrong_nonce":
            p["nonce"] = "x" + (g.nonce or "")[1:]
        elif m == "other_nonce":
            o = [x for x in self.grants.values() if x.gid != g.gid and x.nonce]
            p["nonce"] = o[-1].nonce if o else "none-such"
        elif m == "no_nonce":
            p.pop("nonce", None)
        elif m == "wrong_at_hash":
            p["at_hash"] = jose.half_hash("other")
        elif m == "wrong_c_hash":
            p["c_hash"] = jose.half_hash("other")
        elif m == "no_at_hash":
            p.pop("at_hash", None)
        elif m == "no_c_hash":
            p.pop("c_hash", None)
        elif m == "other_sub":
            p["sub"] = "sub-%d" % (g.user + 1)
        elif m == "alg_none":
            alg, key = "none", None
        elif m == "alg_hs_secret":
            if alg != "HS256":
                alg, key = "HS256", c["secret"]
            else:
                alg, key = "RS256", self.sig_key("RS256")
        elif m == "alg_swap":
            alg = {"RS256": "ES256", "ES256": "RS256", "HS256": "ES256"}[alg]
            key = self.sig_key(alg)
        elif m == "hs_pub":
            alg, key = "HS256", json.dumps(jose.pub_jwk(self.sig_key("RS256")))
        elif m == "foreign_key":
            o = self.w.ops[(self.i + 1) % nops]
            if alg == "HS256":
                key = "wrong-secret-wrong-secret-wrong-1"
            elif nops == 1:
                key = dict(jose.pool()["rsa" if alg == "RS256" else "ec"][12])
                key["kid"] = self.sig_key(alg)["kid"]
            else:
                key = dict(o.sig_key(alg))
                key["kid"] = self.sig_key(alg)["kid"]
        elif m == "evil_key":
            if alg == "HS256":
                key = "evil-secret-evil-secret-evil-sec"
            else:
                key = dict(jose.pool()["rsa" if alg == "RS256" else "ec"][13])
                key["kid"] = self.sig_key(alg)["kid"]
        elif m == "evil_newkid":
            if alg == "HS256":
                key = "evil-secret-evil-secret-evil-sec"
            else:
                key = dict(jose.pool()["rsa" if alg == "RS256" else "ec"][13])
                key["kid"] = "never-published"
        elif m == "evil_jwk":
            alg = "ES256"
            key = dict(jose.pool()["ec"][13])
            headers["jwk"] = jose.pub_jwk(key)
        jwt = self.sign(p, alg, key, dict(headers))
        if m == "bad_sig":
            a, b, s = jwt.split(".")
            raw = bytearray(jose.unb64(s))
            raw[len(raw) // 2] ^= 1
            jwt = ".".join([a, b, jose.b64(bytes(raw))])
        elif m == "tampered":
            a, b, s = jwt.split(".")
            p2 = dict(p)
            p2["sub"] = "sub-admin"
            jwt = ".".join([a, jose.b64(json.dumps(p2).encode()), s])
            p = p2
        self.minted[mid] = {"jwt": jwt, "payload": p, "grant": g.gid, "mut": m, "alg": alg,
                            "front": front, "at": at, "code": code, "t": now, "op": self.i,
                            "refreshed": refreshed}
        g.idts.append(mid)
        self.w.secret(jwt, self.i, "id_token")
        return jwt

    # -- token endpoint --------------------------------------------------------------
    def client_auth(self, x, form, refresh=False):
        """-> (client or None). Reports what a provider would not accept."""
        v = self.w.v
        ah = x.headers.get("authorization", "")
        used = []
        cid = None
        if ah.lower().startswith("basic "):
            try:
                u, s = base64.b64decode(ah[6:], validate=True).decode().split(":", 1)
                u, s = unquote_plus(u), unquote_plus(s)
            except Exception:
                v(["C18"], "basic-garbled", "unreadable Basic credentials")
                return None
            used.append("client_secret_basic")
            cid = u
            c = self.clients.get(u)
            if not c or c["secret"] != s:
                v(["C18", "C04", "C13"], "client-auth-wrong",
                  "Basic credentials of %s refused at op%d" % (u, self.i))
                return None
        if "client_secret" in form:
            used.append("client_secret_post")
            cid = form.get("client_id")
            c = self.clients.get(cid)
            if not c or c["secret"] != form["client_secret"]:
                v(["C18", "C04", "C13"], "client-auth-wrong",
                  "client_secret of %s refused at op%d" % (cid, self.i))
                return None
        if "client_assertion" in form:
            try:
                h, p = jose.decode(form["client_assertion"])
                cid = p.get("iss")
                c = self.clients.get(cid)
                if not c:
                    raise jose.Bad("unknown client %s" % cid)
                if str(h.get("alg")).startswith("HS"):
                    used.append("client_secret_jwt")
                    jose.verify(form["client_assertion"], secret=c["secret"])
                else:
                    used.append("private_key_jwt")
                    jose.verify(form["client_assertion"], keys=self.w.rp_pub,
                                algs=["RS256", "ES256"])
                sup = (self.cfg.get("sup") or {}).get("token_endpoint_auth_signing_alg")
                if sup and h.get("alg") not in sup:
                    raise jose.Bad("alg %s, supported are %s" % (h.get("alg"), sup))
                if c.get("auth_alg") and h.get("alg") != c["auth_alg"]:
                    raise jose.Bad("alg %s, registered %s" % (h.get("alg"), c["auth_alg"]))
            except jose.Bad as e:
                v(["C18"] + (["C24"] if self.cfg.get("pf") else []), "assertion-bad", "client assertion at op%d: %s" % (self.i, e))
                return None
            aud = p.get("aud")
            aud = aud if isinstance(aud, list) else [aud]
            probs = []
            if form.get("client_assertion_type") != \
                    "urn:ietf:params:oauth:client-assertion-type:jwt-bearer":
                probs.append("assertion_type %s" % form.get("client_assertion_type"))
            if p.get("sub") != cid:
                probs.append("sub %s" % p.get("sub"))
            if aud != [self.base + "/token"]:
                probs.append("aud %s" % aud)
            nows = x.rp_nows()
            e = p.get("exp")
            if not isinstance(e, int) or not any(n < e <= n + 601 for n in nows):
                probs.append("exp %s at %s" % (e, nows))
            jti = p.get("jti")
            if not jti:
                probs.append("no jti")
            elif jti in self.w.all_jtis and not x.replay:
                probs.append("jti reused")
            elif not x.replay:
                self.w.oracle.fresh("assertion jti", jti, x.call)
            self.w.all_jtis.add(jti)
            if probs:
                v(["C18"] + (["C05"] if "jti reused" in probs else []), "assertion-claims",
                  "op%d: %s" % (self.i, "; ".join(probs)))
                return None
        c = self.clients.get(cid)
        if not used:
            if refresh and ah.lower().startswith("bearer "):
                return None
            v(["C18"], "no-client-auth", "token request at op%d without client authentication"
              % self.i)
            return None
        if used == ["private_key_jwt"] and c["auth"] == "client_secret_jwt" and \
                h.get("alg") == "RS256" and not c.get("auth_alg") and \
                (self.cfg.get("sup") or {}).get("token_endpoint_auth_signing_alg", 0) is None:
            # judged once, then let through: every login there would fail otherwise
            v(["C18"], "unlisted-assertion-alg", "op%d: lists no assertion algorithms, "
              "client_secret_jwt negotiated, assertion signed with RS256" % self.i)
            used = [c["auth"]]
        if not c["auth"] and used in (["client_secret_post"], ["client_secret_basic"]):
            used = [""]             # left open by the configuration
        if used != [c["auth"]]:
            v(["C18"] + (["C24"] if self.cfg.get("pf") else []), "wrong-auth-method", "op%d: %s used, %s negotiated"
              % (self.i, used, c["auth"]))
            return None
        if form.get("client_id") not in (None, cid):
            v(["C18", "C04"], "client-id-mix", "client_id %s authenticated as %s"
              % (form.get("client_id"), cid))
            return None
        return c

    def h_token(self, x):
        form = {}
        for k, val in parse_qsl(x.body, keep_blank_values=True):
            form[k] = val
        gt = form.get("grant_type")
        c = self.client_auth(x, form, refresh=gt == "refresh_token")
        if not c:
            return J(401, {"error": "invalid_client"}, {"kind": "token", "err": 1})
        self.w.event("token", self.i, gt)
        if gt == "authorization_code":
            return self.code_grant(x, form, c)
        if gt == "refresh_token":
            return self.refresh_grant(x, form, c)
        if gt == "client_credentials":
            g = Grant(gid="op%d.cc%d" % (self.i, len(self.grants)), op=self.i, client=c,
                      ats=[], rts=[], refreshes=0, cc=True, user=-1)
            self.grants[g.gid] = g
            return self.token_response(x, g, idt=None)
        self.w.v(["C18"], "grant-type", "grant_type %s" % gt)
        return J(400, {"error": "unsupported_grant_type"}, {"kind": "token", "err": 1})

    def code_grant(self, x, form, c):
        v = self.w.v
        call = x.call
        code = form.get("code")
        g = self.codes.get(code)
        bad = J(400, {"error": "invalid_grant"}, {"kind": "token", "err": 1})
        if g is None:
            # foreign or made-up code: where it came from is judged by the oracle
            self.w.oracle.on_unknown_code(self, x, code)
            return bad
        if g.client["client_id"] != c["client_id"]:
            v(["C04", "C14"], "code-other-client", "code of %s sent by %s"
              % (g.client["client_id"], c["client_id"]))
            return bad
        if form.get("redirect_uri") != g.redirect_uri:
            if call is not None and call["info"].get("attack"):
                return bad
            v(["C19", "C04"], "token-redirect", "redirect_uri %r at the token endpoint, %r before"
              % (form.get("redirect_uri"), g.redirect_uri))
            return bad
        if call is not None:
            self.w.oracle.on_code(self, x, g)
        if g.challenge:
            ver = form.get("code_verifier")
            want = self.cfg.get("pkce") or {}
            if ver:
                self.w.secret(ver, self.i, "verifier")
            ok = ver and jose.b64(CC.get(g.cmethod, hashlib.sha256)(ver.encode()).digest()) == \
                g.challenge
            if not ok and call is not None and call["info"].get("attack"):
                return bad      # someone else's code: the verifier gives it away
            if not ok:
                v(["C06", "C04"], "pkce-verifier", "verifier does not match the challenge of %s"
                  % g.gid)
                return bad
            if want and (len(ver) != want["len"] or not UNRESERVED.match(ver)):
                v(["C06"], "pkce-verifier-form", "verifier of length %d" % len(ver))
            if ver not in self.verifiers:
                self.verifiers.add(ver)
                self.w.oracle.fresh("code_verifier", ver, x.call)
        elif "code_verifier" in form:
            v(["C06"], "pkce-extra", "verifier without challenge")
        if not self.dpop_ok(x, "POST", "/token", c):
            return J(400, {"error": "invalid_dpop_proof"}, {"kind": "token", "err": 1})
        if g.code_used:
            return bad
        if self.now() - g.code_at > 600:
            return bad
        g.code_used += 1
        m = x.mut("idt")
        idt = self.mint(g, m) if "openid" in g.params.get("scope", "").split() and \
            not self.style else None
        if m == "absent":
            idt = None
        return self.token_response(x, g, idt)

    def refresh_grant(self, x, form, c):
        rt = form.get("refresh_token")
        g = self.rts.get(rt)
        bad = J(400, {"error": "invalid_grant"}, {"kind": "token", "err": 1})
        if g is None:
            self.w.oracle.on_bad_refresh(self, x, rt, "unknown refresh token")
            return bad
        if g.client["client_id"] != c["client_id"]:
            self.w.v(["C04", "C09"], "refresh-other-client", "refresh token of another client")
            return bad
        self.w.oracle.on_refresh(self, x, g, rt, form)
        if rt not in g.rts[-2:]:
            return bad
        g.refreshes += 1
        m = x.mut("idt")
        idt = None
        if (self.cfg.get("refresh_idt") or m) and not self.style:
            idt = self.mint(g, m, refreshed=True)
        rotate = {"none": False, "rotate": True, "some": g.refreshes % 2 == 0}[
            self.cfg.get("rotation", "none")]
        return self.token_response(x, g, idt, new_rt=rotate, refresh=True)

    def token_response(self, x, g, idt, new_rt=True, refresh=False):
        at = self.new_at(g)
        r = {"access_token": at, "token_type": "Bearer"}
        ei = self.cfg.get("expires_in")
        if isinstance(ei, list):
            ei = ei[len(g.ats) % len(ei)]
        if ei:
            r["expires_in"] = ei
        if self.cfg.get("scope_resp"):
            r["scope"] = "openid"
        gives = self.cfg.get("rt", True)
        if gives == "some":         # consent differs from login to login
            gives = int(g.gid.rsplit(".g", 1)[1]) % 2
        if gives and new_rt:
            rt = self.fresh("rt", 32)
            self.w.secret(rt, self.i, "refresh_token")
            rt += TAILS[(self.n["rt"] + 1) % len(TAILS)]
            self.rts[rt] = g
            g.rts.append(rt)
            r["refresh_token"] = rt
        if idt:
            r["id_token"] = idt
        meta = {"kind": "token", "grant": g.gid, "at": at, "rt": r.get("refresh_token"),
                "idt": idt, "expires_in": ei, "refresh": refresh,
                "mid": jose.decode(idt)[1]["mid"] if idt else None}
        m = x.mut("tokresp")
        if self.style and m == "idt_garbage" and (
                self.style != "plain" or self.cfg.get("rt_service") == "oauth2"):
            m = "extra"         # not a parameter that is looked at
        if self.style == "github" and m == "at_list":
            m = "no_at"         # all is text there
        if m:
            meta["mut"] = m
            if m == "error200":
                return J(200, {"error": "server_error"}, dict(meta, err=1))
            if m == "no_at":
                del r["access_token"]
            elif m == "at_list":
                r["access_token"] = [1, 2]
            elif m == "exp_text":
                r["expires_in"] = "soon"
            elif m == "no_type":
                del r["token_type"]
            elif m == "list":
                return J(200, [r], meta)
            elif m == "string":
                return J(200, "ok", meta)
            elif m == "null":
                return J(200, None, meta)
            elif m == "idt_garbage":
                r["id_token"] = "not.a.jwt"
            elif m == "extra":
                r["example_parameter"] = "value"
            elif m == "exp_str":
                if ei:
                    r["expires_in"] = str(ei)
        if self.style == "github":
            return (200, {"content-type": "application/x-www-form-urlencoded"}, urlencode(r), meta)
        return J(200, r, meta)

    # -- DPoP ------------------------------------------------------------------------
    def dpop_ok(self, x, htm, path, client):
        v = self.w.v
        agreed = [a for a in (self.cfg.get("rp_dpop") or []) if a in (self.cfg.get("dpop") or [])]
        vals = x.header_all("dpop")
        if not agreed:
            if vals:
                v(["C16"], "dpop-unwanted", "DPoP header although op%d supports none" % self.i)
            return True
        if len(vals) != 1:
            v(["C16"], "dpop-count", "%d DPoP headers on %s at op%d" % (len(vals), path, self.i))
            return False
        probs = []
        try:
            h, p = jose.decode(vals[0])
            jwk = h.get("jwk") or {}
            if any(k in jwk for k in ("d", "p", "q")):
                probs.append("private key in header")
                v(["C07"], "dpop-private", "the DPoP header carries the private key")
            jose.verify(vals[0], keys=[jose.pub_jwk(jwk)], algs=agreed)
            if h.get("typ") != "dpop+jwt":
                probs.append("typ %s" % h.get("typ"))
            if p.get("htm") != htm:
                probs.append("htm %s" % p.get("htm"))
            if p.get("htu") != self.base + path:
                probs.append("htu %s" % p.get("htu"))
            if not x.when(p.get("iat", 0)):
                probs.append("iat %s at %s" % (p.get("iat"), x.rp_nows()))
            if not p.get("jti") or (p["jti"] in self.w.all_jtis and not x.replay):
                probs.append("jti reused")
            elif not x.replay:
                self.w.oracle.fresh("DPoP jti", p["jti"], x.call)
            self.w.all_jtis.add(p.get("jti"))
            th = jose.thumb(jwk)
            if self.dpop_keys.setdefault(client["client_id"], th) != th:
                if x.call is not None:
                    probs.append("another key")
                self.dpop_keys[client["client_id"]] = th
        except (jose.Bad, KeyError, TypeError, ValueError) as e:
            probs.append("does not verify: %s" % e)
        if probs:
            v(["C16"] + (["C05"] if "jti reused" in probs else []), "dpop-proof",
              "op%d %s: %s" % (self.i, path, "; ".join(probs)))
            return False
        return True

    # -- userinfo --------------------------------------------------------------------
    def h_userinfo(self, x):
        ah = x.headers.get("authorization", "")
        at = ah[7:] if ah.startswith("Bearer ") else None
        if at is None and self.style:
            at = dict(parse_qsl(urlsplit(x.url).query)).get("access_token")
        g = self.ats.get(at)
        if g is None:
            self.w.oracle.on_bad_at(self, x, at)
            return J(401, {"error": "invalid_token"}, {"kind": "userinfo", "err": 1})
        self.w.oracle.on_userinfo(self, x, g, at)
        if not self.dpop_ok(x, x.method, "/userinfo", g.client):
            return J(401, {"error": "invalid_dpop_proof"}, {"kind": "userinfo", "err": 1})
        uid = self.fresh("uid", 8)
        d = {"sub": g.sub, "uid": uid, "grant": g.gid, "email": "%s@%s" % (g.sub, self.host),
             "name": "User %d at %d" % (g.user, self.i)}
        m = x.mut("ui")
        if self.style and (m or "").startswith("sig_"):
            m = None
        rec = {"op": self.i, "grant": g.gid, "mut": m, "sub": g.sub, "signed": None, "bad": None}
        srcs = self.w.claims_for(self, g, x)
        if srcs:
            d.update(srcs["claims"])
            rec["sources"] = srcs["expect"]
        if m == "other_sub":
            d["sub"] = "sub-%d" % (g.user + 1)
            rec["bad"] = m
        elif m == "sub_case":
            d["sub"] = d["sub"].upper()
            rec["bad"] = m
        elif m == "sub_prefix":
            d["sub"] = d["sub"] + "0"
            rec["bad"] = m
        elif m == "no_sub":
            del d["sub"]
            rec["bad"] = m
        elif m == "sub_list":
            d["sub"] = [g.sub, "sub-%d" % (g.user + 1)]
            rec["bad"] = m
        elif m == "other_grant":
            o = [q for q in self.grants.values() if q.user != g.user and q.user >= 0]
            if o:
                d.update({"sub": o[0].sub, "grant": o[0].gid, "name": "User %d" % o[0].user})
                rec["bad"] = m
        elif m == "error200":
            return J(200, {"error": "server_error"}, {"kind": "userinfo", "err": 1, "mut": m})
        elif m == "list":
            return J(200, [d], {"kind": "userinfo", "err": 1, "mut": m})
        elif m == "string":
            return J(200, "x", {"kind": "userinfo", "err": 1, "mut": m})
        elif m == "err401json":
            return J(401, {"error": "invalid_token", "error_description": "expired"},
                     {"kind": "userinfo", "err": 1, "mut": m})
        elif m == "err403text":
            return 403, {"content-type": "text/plain"}, "Forbidden", {"kind": "userinfo",
                                                                      "err": 1, "mut": m}
        elif m == "err400html":
            return 400, {"content-type": "text/html"}, "<p>no</p>", {"kind": "userinfo",
                                                                     "err": 1, "mut": m}
        elif m == "err400bare":
            return 400, {"content-type": "application/json"}, '{"message": "nope"}', {
                "kind": "userinfo", "err": 1, "mut": m}
        if self.style in ("linkedin", "github"):
            if "sub" in d:
                d["id"] = d.pop("sub")
        rec["sub_sent"] = d.get("sub")
        self.userinfos[uid] = rec
        meta = {"kind": "userinfo", "uid": uid, "grant": g.gid, "mut": m, "body": d}
        if self.cfg.get("ui") == "jwt" or (m or "").startswith("sig_"):
            alg = self.cfg.get("ui_alg", "RS256")
            hs = alg == "HS256"
            key = g.client["secret"] if hs else self.sig_key(alg)
            p = dict(d, iss=self.issuer, aud=g.client["client_id"])
            rec["signed"] = alg
            if m == "sig_none":
                jwt = self.sign(p, "none")
                rec["bad"] = m
            elif m == "sig_bad":
                jwt = self.sign(p, alg, key)
                a, b, s = jwt.split(".")
                raw = bytearray(jose.unb64(s))
                raw[-1] ^= 1
                jwt = ".".join([a, b, jose.b64(bytes(raw))])
                rec["bad"] = m
            elif m == "sig_evil":
                k = "not-the-secret-0123456789abcdef0123456789"
                if not hs:
                    k = dict(jose.pool()["rsa" if alg == "RS256" else "ec"][13])
                    k["kid"] = key["kid"]
                jwt = self.sign(p, alg, k)
                rec["bad"] = m
            elif m == "sig_foreign" and hs:
                # the public key as the secret
                jwt = self.sign(p, alg, json.dumps(jose.pub_jwk(self.cur_keys[0])))
                rec["bad"] = m
            elif m == "sig_foreign":
                k = dict(self.w.ops[(self.i + 1) % len(self.w.ops)].sig_key(alg))
                k["kid"] = key["kid"]
                jwt = self.sign(p, alg, k)
                rec["bad"] = m if len(self.w.ops) > 1 else None
            elif self.cfg.get("keys") == "two_nokid":
                jwt = jose.sign(p, alg, key)    # allow.missing_kid is about ID Tokens
            else:
                jwt = self.sign(p, alg, key)
            return 200, {"content-type": "application/jwt"}, jwt, meta
        return J(200, d, meta)

    # -- PAR ---------------------------------------------------------------------------
    def h_par(self, x):
        form = dict(parse_qsl(x.body, keep_blank_values=True))
        if "request" in form:
            params, err = self.open_request(form["request"], None)
            if err:
                self.w.v(["C17"], "par-bad-object", err)
                return J(400, {"error": "invalid_request"}, {"kind": "par", "err": 1})
            for k, v in form.items():
                if k != "request":
                    params.setdefault(k, v)
        else:
            params = form
        uri = "urn:ietf:params:oauth:request_uri:" + self.fresh("par")
        self.par_store[uri] = params
        m = x.mut("par")
        meta = {"kind": "par", "mut": m}
        if m == "list":
            return J(200, [uri], meta)
        if m == "no_uri":
            return J(200, {"expires_in": 60}, meta)
        if m == "400":
            return J(400, {"error": "invalid_request"}, meta)
        if m == "503":
            return 503, {"content-type": "text/plain"}, "busy", meta
        return J(200 + len(self.par_store) % 2, {"request_uri": uri, "expires_in": 60}, meta)

    def h_endsession(self, x):
        return 200, {"content-type": "text/html"}, "<html>bye</html>", {"kind": "endsession"}

    # -- back-channel logout tokens -----------------------------------------------------
    def logout_token(self, g, how, mut=None):
        c = g.client
        now = int(self.now())
        p = {"iss": self.issuer, "aud": c["client_id"],
             "iat": now if len(self.w.offsets) == 1 else min(now, int(self.w.rp_now())),
             "jti": self.fresh("ljti"),
             "events": {"http://schemas.openid.net/event/backchannel-logout": {}}}
        if how in ("sub", "both"):
            p["sub"] = g.sub
        if how in ("sid", "both"):
            p["sid"] = g.sid
        alg = c["alg"]
        key = c["secret"] if alg == "HS256" else self.sig_key(alg)
        if mut == "wrong_iss":
            p["iss"] = "https://evil.sim"
        elif mut == "wrong_aud":
            p["aud"] = "someone-else"
        elif mut == "nonce":
            p["nonce"] = "n"
        elif mut == "no_event":
            p["events"] = {"http://example.com/other": {}}
        elif mut == "events_gone":
            del p["events"]
        elif mut == "no_ids":
            p.pop("sub", None)
            p.pop("sid", None)
        elif mut == "iat_future":
            p["iat"] = int(max(now, self.w.rp_now())) + 600
        elif mut == "alg_none":
            alg, key = "none", None
        elif mut == "evil_key":
            if alg == "HS256":
                key = "evil-secret-evil-secret-evil-sec"
            else:
                key = dict(jose.pool()["rsa" if alg == "RS256" else "ec"][13])
                key["kid"] = self.sig_key(alg)["kid"]
        elif mut == "foreign_key" and len(self.w.ops) > 1 and alg != "HS256":
            o = self.w.ops[(self.i + 1) % len(self.w.ops)]
            key = dict(o.sig_key(alg))
            key["kid"] = self.sig_key(alg)["kid"]
        elif mut == "foreign_op" and len(self.w.ops) > 1 and alg != "HS256":
            # another provider's genuine token for its own client
            o = self.w.ops[(self.i + 1) % len(self.w.ops)]
            p["iss"] = o.issuer
            key = o.sig_key(alg)
        elif mut == "id_token":
            return self.mint(g)
        elif mut == "unknown_sid":
            p.pop("sub", None)
            p["sid"] = "sid-unknown"
        elif mut == "unknown_sub":
            p.pop("sid", None)
            p["sub"] = "sub-unknown"
        return self.sign(p, alg, key)


SOURCE_CLAIMS = {0: ("nickname", "phone_number"), 1: ("age", "score"), 2: ("level",)}


class Source:
    """A claims source (aggregated / distributed)."""

    def __init__(self, world, i):
        self.w = world
        self.i = i
        self.host = "src%d.sim" % i
        self.issuer = "https://" + self.host
        k = dict(jose.pool()["rsa"][12 if i else 11])
        k["kid"] = "rsa-g0"
        self.key = k
        self.tokens = {}

    def handle(self, x):
        ah = x.headers.get("authorization", "")
        at = ah[7:] if ah.startswith("Bearer ") else None
        path = urlsplit(x.url).path
        doc = self.w.source_doc(self, path, at, x)
        return doc


class Evil:
    host = "evil.sim"

    def handle(self, x):
        return J(200, {"access_token": "evil-token", "token_type": "Bearer", "sub": "sub-admin",
                       "email": "admin@evil.sim"}, {"kind": "evil", "err": 1})
