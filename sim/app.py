"""The relying party: real oidcrp code behind a thin web-application shell, plus its users."""
import copy
import json
import os
import shutil
from urllib.parse import parse_qsl
from urllib.parse import urlsplit

from . import jose
from . import kernel as K
from . import rng
from . import seams

from oidcrp.rp_handler import RPHandler
from oidcrp.rp_handler import backchannel_logout
from cryptojwt.key_jar import KeyJar

PKCE = "oidcrp.oauth2.add_on.pkce.add_support"
DPOP = "oidcrp.oauth2.add_on.dpop.add_support"
PAR = "oidcrp.oauth2.add_on.pushed_authorization.add_support"

SERVICES = {
    'web_finger': {'class': 'oidcrp.oidc.webfinger.WebFinger'},
    'discovery': {'class': 'oidcrp.oidc.provider_info_discovery.ProviderInfoDiscovery'},
    'registration': {'class': 'oidcrp.oidc.registration.Registration'},
    'registration_read': {'class': 'oidcrp.oidc.read_registration.RegistrationRead'},
    'authorization': {'class': 'oidcrp.oidc.authorization.Authorization'},
    'access_token': {'class': 'oidcrp.oidc.access_token.AccessToken'},
    'refresh_access_token': {'class': 'oidcrp.oidc.refresh_access_token.RefreshAccessToken'},
    'userinfo': {'class': 'oidcrp.oidc.userinfo.UserInfo'},
    'end_session': {'class': 'oidcrp.oidc.end_session.EndSession'},
}


ATTRS = ("allow", "base_url", "behaviour", "callback", "client_id", "client_preferences",
         "client_secret", "client_secret_expires_at", "clock_skew", "hash_seed", "hash2issuer",
         "issuer", "post_logout_redirect_uris", "redirect_uris", "register_args",
         "registration_response", "verify_args")


class App:
    host = "rp.sim"
    base = "https://rp.sim"

    def __init__(self, world, scratch):
        self.w = world
        self.gen = 0
        self.disk = {}              # issuer -> (config key, dump text)
        self.attrs = {}             # issuer -> what the context was like then
        self.snap = None            # oracle's picture at the time of the dump
        self.ckey = {}              # issuer -> config key it was set up with
        self.scratch = scratch
        self.no_persist = 0
        self.rp_keys = []
        for kty, i, kid in (("rsa", 10, "rp-rsa"), ("ec", 10, "rp-ec")):
            k = dict(jose.pool()[kty][i])
            k["kid"] = kid
            self.rp_keys.append(k)
        world.rp_pub = [jose.pub_jwk(k) for k in self.rp_keys]
        self.rph = self.make()
        self.n_open = 0

    # -- configuration -------------------------------------------------------------
    def plain_oauth2(self, o):
        """Client configuration for a provider without OpenID Connect."""
        c = o.cfg
        style = c["style"]
        mod = {"linkedin": "oidcrp.provider.linkedin.", "github": "oidcrp.provider.github."}
        srv = {"authorization": dict(SERVICES["authorization"])}
        if style in mod:
            srv["access_token"] = {"class": mod[style] + "AccessToken"}
            srv["userinfo"] = {"class": mod[style] + "UserInfo"}
        else:
            x = {"kwargs": {"conf": {"default_authn_method": ""}}}
            srv["access_token"] = {"class": "oidcrp.%s.access_token.AccessToken" % (
                "oidc" if style == "plain" else "oauth2")}
            if not c["auth"]:
                srv["access_token"].update(copy.deepcopy(x))
            srv["userinfo"] = dict(SERVICES["userinfo"], **x)
        if c["rt_service"]:
            srv["refresh_access_token"] = {"class": "oidcrp.%s.refresh_access_token."
                                           "RefreshAccessToken" % c["rt_service"]}
        s = c["static"]
        cnf = {"issuer": o.issuer, "client_id": s["client_id"], "hash_seed":
               "0123456789abcdef0123456789abcdef", "client_secret": s["client_secret"],
               "redirect_uris": list(s["redirect_uris"]), "services": srv,
               "behaviour": {"response_types": [c["rtype"]], "scope": list(c["scope"]),
                             "token_endpoint_auth_method": c["auth"]},
               "provider_info": {"authorization_endpoint": o.base + "/authorize",
                                 "token_endpoint": o.base + "/token",
                                 "userinfo_endpoint": o.base + "/userinfo"}}
        if c["pi_issuer"]:
            cnf["provider_info"]["issuer"] = o.issuer
        if c.get("pkce"):
            cnf["add_ons"] = {"pkce": {"function": PKCE, "kwargs": {
                "code_challenge_length": c["pkce"]["len"],
                "code_challenge_method": c["pkce"]["method"]}}}
        if self.w.sc["rp"].get("skew") is not None:
            cnf["clock_skew"] = self.w.skew
        if c.get("cfg_request_args"):
            cnf["request_args"] = copy.deepcopy(c["cfg_request_args"])
        if c.get("allow"):
            cnf["allow"] = dict(c["allow"])
        return cnf

    def features(self, c, static):
        """Client configuration for the provider description c."""
        prefs = {"application_type": "web", "application_name": "rp", "contacts": ["a@rp.sim"],
                 "response_types": list(c.get("rtypes") or [c["rtype"]]),
                 "scope": list(c["scope"]), "token_endpoint_auth_method": c["auth"],
                 "id_token_signed_response_alg": c["alg"]}
        if c["auth"] == "client_secret_jwt":
            prefs["token_endpoint_auth_signing_alg"] = "HS256"
        elif c["auth"] == "private_key_jwt":
            prefs["token_endpoint_auth_signing_alg"] = c.get("auth_alg", "RS256")
        if c.get("ui") == "jwt":
            prefs["userinfo_signed_response_alg"] = c.get("ui_alg", "RS256")
        if c.get("pf"):
            prefs.update(copy.deepcopy(c["pf"]))
            if "token_endpoint_auth_method" in c["pf"]:
                prefs.pop("token_endpoint_auth_signing_alg", None)
                if "token_endpoint_auth_signing_alg" in c["pf"]:
                    prefs["token_endpoint_auth_signing_alg"] = copy.deepcopy(
                        c["pf"]["token_endpoint_auth_signing_alg"])
        cnf = {"client_preferences": prefs, "hash_seed": "0123456789abcdef0123456789abcdef",
               "clock_skew": self.w.skew, "services": copy.deepcopy(SERVICES)}
        if self.w.sc["rp"].get("skew") is None:
            del cnf["clock_skew"]
        for k in ("web_finger",):
            if c["mode"] in ("static",):
                cnf["services"].pop(k, None)
        if not c.get("end_session"):
            cnf["services"].pop("end_session")
        if not c.get("ui"):
            cnf["services"].pop("userinfo")
        cnf["form_post_usable"] = True
        cnf["request_uri_usable"] = bool(c.get("reqreg"))
        cnf["backchannel_logout_usable"] = bool(c.get("end_session"))
        add = {}
        if c.get("pkce"):
            add["pkce"] = {"function": PKCE, "kwargs": {
                "code_challenge_length": c["pkce"]["len"],
                "code_challenge_method": c["pkce"]["method"]}}
        if c.get("rp_dpop"):
            add["dpop"] = {"function": DPOP, "kwargs": {"signing_algorithms":
                                                        list(c["rp_dpop"])}}
        if c.get("par"):
            add["pushed_authorization"] = {"function": PAR, "kwargs": dict(c["par"])}
        if add:
            cnf["add_ons"] = add
        cnf["local_dir"] = os.path.join(self.scratch, "requests")
        if c.get("cfg_request_args"):
            cnf["request_args"] = copy.deepcopy(c["cfg_request_args"])
        if c.get("allow"):
            cnf["allow"] = dict(c["allow"])
        if static:
            s = c["static"]
            cnf["client_id"] = s["client_id"]
            cnf["client_secret"] = s["client_secret"]
            cnf["redirect_uris"] = list(s["redirect_uris"])
            cnf["behaviour"] = dict(prefs)
            if c.get("end_session"):
                cnf["post_logout_redirect_uris"] = [self.base + "/post_logout/static%d" % c["idx"]]
        return cnf

    def make(self):
        sc = self.w.sc
        confs = {}
        for o in self.w.ops:
            c = o.cfg
            m = c["mode"]
            if m in ("dyn",):
                confs.setdefault("", self.features(c, False))
                continue
            if m == "oauth2":
                confs[c["cfgkey"]] = self.plain_oauth2(o)
                continue
            cnf = self.features(c, m in ("static", "disco_static"))
            cnf["issuer"] = o.issuer
            if m == "static":
                md = {k: v for k, v in o.metadata().items() if k != "jwks_uri"}
                md["keys"] = {"url": {o.issuer: o.base + "/jwks"}}
                cnf["provider_info"] = md
            confs[c["cfgkey"]] = cnf
        if "" not in confs:
            confs[""] = self.features(dict(self.w.ops[0].cfg, mode="dyn"), False)
        kj = KeyJar()
        kj.import_jwks({"keys": [dict(k) for k in self.rp_keys]}, "")
        kj.import_jwks({"keys": [dict(k) for k in self.rp_keys]}, self.base)
        for s in self.w.srcs:
            kj.import_jwks({"keys": [jose.pub_jwk(s.key)]}, s.issuer)
        rph = RPHandler(self.base, client_configs=confs, services=copy.deepcopy(SERVICES),
                        keyjar=kj, hash_seed="0123456789abcdef0123456789abcdef",
                        jwks_path="static/jwks.json")
        return rph

    # -- what the RP's web server serves ----------------------------------------------
    def serve(self, x):
        if urlsplit(x.url).path == "/static/jwks.json":
            return 200, {"content-type": "application/json"}, json.dumps(
                {"keys": self.w.rp_pub}), {}
        return 404, {"content-type": "text/plain"}, "", {"err": 1}

    def serve_request_object(self, uri):
        """The document the RP's web server has under a request_uri."""
        uri = uri.split("#")[0]
        if not uri.startswith(self.base + "/"):
            return None
        path = uri[len(self.base) + 1:]
        if ".." in path:
            return None
        fn = os.path.join(self.scratch, path)
        try:
            with seams.real_open(fn) as f:
                return f.read()
        except OSError:
            return None

    def disk_fault(self, path, mode):
        if "w" not in mode and "a" not in mode and "+" not in mode:
            return None
        ap = os.path.realpath(path)
        if not ap.startswith(self.scratch + os.sep):
            return None
        n = self.n_open
        self.n_open += 1
        t = K.current_task()
        call = t.data.get("call") if t else None
        for f in self.w.faults:
            if f["k"] == "disk" and f["n"] == n:
                self.w.fired("disk:" + f["how"])
                if call is not None:
                    call["faults"].append("disk:" + f["how"])
                return f["how"]
        return None

    # -- durability -----------------------------------------------------------------
    def persist(self):
        if self.no_persist:
            return
        out = {}
        for iss, client in list(self.rph.issuer2rp.items()):
            ctx = client.client_get("service_context")
            if iss not in self.ckey:
                self.ckey[iss] = iss
            try:
                out[iss] = (self.ckey[iss], json.dumps(ctx.dump()))
            except Exception as err:
                self.w.v(["C11"], "dump-fails", "service context of %s cannot be dumped as JSON: "
                         "%s" % (iss, type(err).__name__))
                return
        self.disk = out
        self.attrs = {iss: self.picture(client) for iss, client in self.rph.issuer2rp.items()}
        self.snap = self.w.oracle.snapshot()

    @staticmethod
    def picture(client):
        """The public attributes of a client's context that are plain data."""
        ctx = client.client_get("service_context")
        out = {}
        for name in ATTRS:
            try:
                val = getattr(ctx, name)
                if hasattr(val, "to_dict"):
                    val = val.to_dict()
                if isinstance(val, bytes):
                    val = val.decode("latin1")
                out[name] = json.loads(json.dumps(val))
            except (AttributeError, TypeError, ValueError):
                pass
        return out

    def crash(self):
        """The RP process dies and a new one comes up from the disk."""
        self.w.event("crash")
        self.w.fired("node:crash-restart")
        n = self.w.k.kill_in_rp()
        self.gen += 1
        self.w.oracle.on_crash(n)
        t = K.current_task()
        flag = t.line_off if t else 0
        if t:
            t.line_off = 1
        save, W = self.w, seams.W
        try:
            self.rph = self.make()
            for iss, (key, text) in self.disk.items():
                client = self.rph.init_client(key)
                ctx = client.client_get("service_context")
                ctx.load(json.loads(text))
                self.rph.issuer2rp[iss] = client
                self.rph.hash2issuer[key] = iss
                self.rph.hash2issuer[iss] = iss
                new = self.picture(client)
                for name, val in self.attrs.get(iss, {}).items():
                    if name in new and new[name] != val:
                        self.w.v(["C11"], "context-changed", "%s of %s is %r after the restart, "
                                 "was %r" % (name, iss, new[name], val))
        except (K.Killed, K.SimAbort):
            raise
        except Exception as err:
            import traceback
            self.w.v(["C11"], "restore-fails", "restart from the dump failed: %r" % err)
            self.w.event("restore", traceback.format_exc()[-300:])
        finally:
            if t:
                t.line_off = flag
        self.w.oracle.restore(self.snap)

    # -- calls ------------------------------------------------------------------------
    def call(self, name, fn, state=None, op=None, session=None, **info):
        task = self.w.k.me()
        rec = {"name": name, "state": state, "op": op, "session": session, "t0": self.w.k.now,
               "faults": [], "exchanges": [], "task": task.name, "gen": self.gen,
               "overlap": False, "info": info, "fronts": []}
        self.w.oracle.call_start(rec)
        task.data["call"] = rec
        task.in_rp += 1
        out = None
        try:
            try:
                out = ("ok", fn(self.rph))
            except K.Killed:
                task.drop_locks()
                out = ("crashed", None)
            except K.SimAbort:
                raise
            except RecursionError as err:
                out = ("err", err)
            except Exception as err:
                out = ("err", err)
        finally:
            task.in_rp -= 1
            task.data["call"] = None
        if task.killed:
            task.killed = False
            out = ("crashed", None)
        rec["t1"] = self.w.k.now
        rec["out"] = out
        self.w.event("call", name, out[0],
                     type(out[1]).__name__ if out[0] == "err" else "")
        self.w.cov.add("%s:%s" % (name, out[0] if out[0] != "err" else type(out[1]).__name__))
        if op is not None and self.w.ops[op].style:
            self.w.cov.add("%s:%s:%s" % (self.w.ops[op].style, name, out[0]))
        self.w.oracle.call_end(rec)
        return out, rec

    def client_of(self, rph, iss):
        return rph.issuer2rp[iss]

    def probe(self, fn):
        """Look at the RP without the scheduler interfering (harness reads)."""
        t = self.w.k.me()
        t.line_off += 1
        t.in_rp += 1
        try:
            return fn(self.rph)
        finally:
            t.in_rp -= 1
            t.line_off -= 1


def _warm():
    """Validate the RP's keys once, in the parent process."""
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    k = dict(jose.pool()["rsa"][10])
    k["kid"] = "rp-rsa"
    key_from_jwk_dict(k)
    kj = KeyJar()
    kj.import_jwks({"keys": [dict(k)]}, "")


_warm()
