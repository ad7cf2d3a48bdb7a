"""C09 (and C12, C18, C07): client-credentials tokens fetched and refreshed through a bad network.

Real: oidcrp.oauth2.Client with the client-credentials services, oidcmsg, cryptojwt, requests.
Simulated: the authorization servers, the network, threads, clock, entropy, restarts from a dump."""
import base64
import json
from urllib.parse import parse_qsl
from urllib.parse import unquote_plus
from urllib.parse import urlsplit

import requests
from requests.structures import CaseInsensitiveDict

from . import kernel as K
from . import m_base
from . import rng
from . import seams

from oidcmsg.message import Message
from oidcmsg.oauth2 import is_error_message
from oidcrp.oauth2 import Client

EXC = requests.exceptions
CC = "oidcrp.oauth2.client_credentials."
SERVICES = {
    "token": {"class": CC + "cc_access_token.CCAccessToken"},
    "refresh_token": {"class": CC + "cc_refresh_access_token.CCRefreshAccessToken"}}
FATAL = ["refuse", "lost", "reset", "trunc", "empty", "html", "statusbody", "status", "redir",
         "error200", "no_at", "list", "badlen"]


def generate(prop, seed):
    s = rng.Stream("cc", prop, seed)
    srv = []
    for i in range(s.range(1, 2)):
        srv.append({"rotation": s.pick(["none", "rotate", "some"]),
                    "expires": s.pick([None, 60, 3600, 100]), "exp_ref": s.pick([None, 90, 600]),
                    "rt": s.chance(0.9), "sec": s.pick(["hemligt", "a b+c%", "s:3/=&x", "pässw☃rd"])})
    faulty = s.chance(0.7)
    preempt = s.chance(0.35)
    tasks = []
    for b in range(s.range(1, 4)):
        steps = []
        for j in range(s.range(3, 12)):
            x = s.weighted([("get", 1.2), ("refresh", 7), ("check", 2), ("wait", 2),
                            ("restart", 0 if preempt else 0.8)]) if j else "get"
            st = {"s": x, "srv": s.below(len(srv)), "key": "k%d.%d" % (b, s.below(2))}
            if x == "wait":
                st["d"] = s.pick([0.1, 3, 70, 4000])
            if x == "get" and s.chance(0.3):
                st["scope"] = ["read", "write"]
            if x in ("get", "refresh") and faulty and s.chance(0.3):
                st["f"] = s.pick(FATAL + ["dup"])
                if st["f"] == "trunc":
                    st["frac"] = round(s.u() * 0.97, 2)
                if st["f"] in ("status", "statusbody"):
                    st["code"] = s.pick([400, 401, 403, 404, 429, 500, 502, 503])
                    st["body"] = s.pick(["", "busy", '{"error": "invalid_grant"}', "{}",
                                         '{"access_token": "x", "token_type": "Bearer"}'])
            steps.append(st)
        tasks.append({"id": "w%d" % b, "kind": "worker", "at": round(s.u() * s.pick([0.1, 3]), 2),
                      "steps": steps})
    sc = {"v": 1, "seed": "%s-%s" % (prop, seed), "prop": prop, "srv": srv, "tasks": tasks,
          "faults": [], "sched": {"seed": s.below(1 << 30)}, "faulty": faulty}
    if preempt:
        sc["preempt"] = True
        sc["sched"]["gap"] = s.pick([20, 80, 300])
    return sc


class AS:
    def __init__(self, sim, i, c):
        self.sim, self.i, self.c = sim, i, c
        self.host = "as%d.sim" % i
        self.id, self.secret = "cc client %d" % i, c["sec"] + "-%d" % i
        self.n = 0
        self.rts = {}               # valid refresh tokens -> grant number
        self.own = {}               # token -> (server, key)

    def tok(self, kind):
        self.n += 1
        return "%s-%d-%016x" % (kind, self.i, rng.h64(self.sim.sc["seed"], kind, self.i, self.n))

    def answer(self, x):
        """-> status, dict"""
        form = dict(parse_qsl(x.body))
        ah = x.headers.get("authorization", "")
        sim, call = self.sim, x.call
        st = call["st"]
        if call["kind"] == "get":
            try:
                u, p = base64.b64decode(ah[6:], validate=True).decode().split(":", 1)
                cred = (unquote_plus(u), unquote_plus(p))
            except Exception:
                cred = None
            sim.ev("C09", "C18")
            if not ah.startswith("Basic ") or cred != (self.id, self.secret):
                sim.v(["C18", "C09"], "cc-client-auth", "token request of %s authenticated with %r"
                      % (st["key"], ah))
                return 401, {"error": "invalid_client"}
            want = {"grant_type": "client_credentials"}
            if st.get("scope"):
                want["scope"] = "read write"
            if form != want:
                sim.v(["C09"], "cc-request", "token request body %r" % (form,))
            g = self.tok("g")
            return 200, self.tokens(g, self.c["expires"], self.c["rt"], st["key"])
        if form.get("grant_type") != "refresh_token":
            sim.v(["C09"], "cc-request", "refresh request body %r" % (form,))
            return 400, {"error": "unsupported_grant_type"}
        rt = ah[7:] if ah.startswith("Bearer ") else None
        m = sim.M.get((self.i, st["key"]))
        sim.ev("C09", "C04")
        if rt is None or m is None or rt != m["rt"]:
            sim.v(["C09"] + (["C04"] if rt in self.own and self.own[rt] != st["key"] else []),
                  "cc-wrong-refresh-token", "%s: refreshed with %r, latest is %r"
                  % (st["key"], rt, m and m["rt"]))
        if rt not in self.rts:
            return 400, {"error": "invalid_grant"}
        g = self.rts[rt]
        rot = {"none": False, "rotate": True, "some": self.n % 2 == 0}[self.c["rotation"]]
        if rot:
            del self.rts[rt]
        return 200, self.tokens(g, self.c["exp_ref"], rot, st["key"])

    def tokens(self, g, expires, rt, key):
        d = {"access_token": self.tok("at"), "token_type": "Bearer"}
        if expires:
            d["expires_in"] = expires
        if rt:
            d["refresh_token"] = self.tok("rt")
            self.rts[d["refresh_token"]] = g
            self.own[d["refresh_token"]] = key
        self.own[d["access_token"]] = key
        return d


class X:
    pass


class Sim(m_base.Mini):
    def __init__(self, sc):
        super().__init__(sc)
        self.srv = [AS(self, i, c) for i, c in enumerate(sc["srv"])]
        self.cl = [self.client(a) for a in self.srv]
        self.M = {}                 # (server, key) -> {"at", "rt", "exp"}
        seams.W.router = self.route

    def client(self, a):
        c = Client(config={"client_id": a.id, "client_secret": a.secret}, services=SERVICES)
        for n in ("accesstoken", "refresh_token"):
            c.client_get("service", n).endpoint = "https://%s/token" % a.host
        return c

    # ---- the wire ---------------------------------------------------------------
    def route(self, req, kw):
        task = self.k.me()
        self.requests += 1
        x = X()
        x.headers = {k.lower(): (v.decode() if isinstance(v, bytes) else v)
                     for k, v in req.headers.items()}
        b = req.body
        x.body = b.decode() if isinstance(b, bytes) else b or ""
        x.call = task.data["call"]
        st = x.call["st"]
        f = st.get("f") if not x.call["sent"] else None
        x.call["sent"] += 1
        lab = (self.sc["seed"], task.name, self.requests)
        host = urlsplit(req.url).netloc
        a = self.srv[st["srv"]]
        self.k.event("req", host, x.call["kind"], st["key"])
        self.ev("C07")
        text = req.url + "\n" + x.body + "\n" + repr(sorted(x.headers.items()))
        for o in self.srv:
            if o.host != host:
                for t in list(o.own) + [o.secret]:
                    if t in text:
                        self.v(["C07", "C04"], "cc-leak", "%s of %s sent to %s" % (t, o.host, host))
            elif o.secret in x.body + req.url or any(t in req.url for t in o.own):
                self.v(["C07"], "cc-leak", "a credential in the URL or body")
        if host != a.host or urlsplit(req.url).path != "/token":
            self.v(["C07", "C04"], "cc-wrong-endpoint", "%s asked for, %s reached"
                   % (a.host, req.url))
            raise EXC.ConnectionError("no such host")
        self.k.sleep(0.01 + 0.2 * rng.unit(lab, "lat"))
        if f:
            self.fired("net:%s" % f if f in ("refuse", "lost", "reset", "badlen", "dup") else
                       "resp:%s" % f)
        if f == "refuse":
            raise EXC.ConnectionError("connection refused")
        if f == "lost":
            self.k.sleep(30)
            raise EXC.ReadTimeout("timed out")
        status, d = a.answer(x)
        if f == "dup":
            a.n += 1                # the retransmission changes nothing the client could see
        body, ctype = json.dumps(d), "application/json"
        x.call["good"] = status == 200 and f in (None, "dup")
        x.call["resp"] = d
        if f in ("reset", "badlen"):
            self.k.sleep(0.1)
            raise (EXC.ConnectionError if f == "reset" else EXC.ChunkedEncodingError)("broken")
        hdrs = {"content-type": ctype}
        if f == "trunc":
            body = body[:int(len(body) * st["frac"])]
        elif f == "empty":
            body = ""
        elif f == "html":
            body, hdrs = "<html>", {"content-type": "text/html"}
        elif f in ("status", "statusbody"):
            status = st["code"]
            if f == "status":
                body = st["body"]
        elif f == "redir":
            status, body, hdrs = 302, "", {"location": "https://evil.sim/"}
        elif f == "error200":
            body = '{"error": "server_error"}'
        elif f == "no_at":
            body = json.dumps({k: v for k, v in d.items() if k != "access_token"})
        elif f == "list":
            body = json.dumps([d])
        self.k.sleep(0.01 + 0.1 * rng.unit(lab, "lat2"))
        x.call["arrived"] = int(seams.sim_now())
        r = requests.Response()
        r.status_code = status
        r.headers = CaseInsensitiveDict(hdrs)
        r._content = body.encode()
        r._content_consumed = True
        r.url, r.request, r.reason, r.encoding = req.url, req, "X", "utf-8"
        return r

    # ---- workers -----------------------------------------------------------------
    def task(self, t):
        def f(task):
            for st in t["steps"]:
                getattr(self, "s_" + st["s"])(st, task)
        return f

    def s_wait(self, st, task):
        self.k.sleep(st["d"])

    def s_get(self, st, task):
        args = {"grant_type": "client_credentials"}
        if st.get("scope"):
            args["scope"] = list(st["scope"])
        self.do(st, task, "get", "accesstoken", request_args=args)

    def s_refresh(self, st, task):
        self.do(st, task, "refresh", "refresh_token")

    def do(self, st, task, kind, name, **kw):
        k = (st["srv"], st["key"])
        before = self.M.get(k)
        task.data["call"] = call = {"st": st, "kind": kind, "sent": 0, "good": False,
                                    "resp": None, "t0": int(seams.sim_now())}
        task.in_rp += 1
        try:
            r = self.cl[st["srv"]].do_request(name, state=st["key"], **kw)
            err = None
            if not isinstance(r, Message):
                err = "returned %r" % (r,)
            elif is_error_message(r) or "error" in r:
                err = "error message"
        except Exception as e:
            r, err = None, e
        finally:
            task.in_rp -= 1
        self.ev("C09", "C12")
        self.k.event(kind, st["key"], "ok" if err is None else type(err).__name__)
        self.cov.add("%s:%s:%s" % (kind, st.get("f"), type(err).__name__ if err else "ok"))
        good = call["good"]
        if kind == "refresh" and (before is None or before["rt"] is None):
            if err is None:
                self.v(["C09"], "cc-refresh-from-nothing", "%s has no refresh token" % (k,))
            good = False
        elif call["sent"] == 0 and err is not None:
            self.v(["C09", "C12"], "cc-call-fails", "%s %s: nothing sent: %r" % (kind, k, err))
        if good and err is not None:
            self.v(["C09", "C12"], "cc-call-fails", "%s %s: answered well but: %r" % (kind, k, err))
        if not good and err is None:
            self.v(["C12", "C09"], "cc-failure-reported-as-success", "%s %s: fault %s, answer %r, "
                   "result %r" % (kind, k, st.get("f"), call["resp"], r))
        if good:
            d = call["resp"]
            if err is None and (r.get("access_token") != d["access_token"]):
                self.v(["C09", "C04"], "cc-result-differs", "%s %s: %r" % (kind, k, r))
            rt = d.get("refresh_token")
            if rt is None and kind == "refresh" and before:
                rt = before["rt"]
            ei = d.get("expires_in")
            self.M[k] = {"at": d["access_token"], "rt": rt,
                         "exp": ei and (call["arrived"] + ei, int(seams.sim_now()) + ei)}
        self.look(k, "%s (%s)" % (kind, "ok" if good else "failed"))

    def s_check(self, st, task):
        self.look((st["srv"], st["key"]), "check")

    def look(self, k, why):
        m = self.M.get(k)
        si = self.cl[k[0]].get_service_context().state
        self.ev("C09")
        try:
            it = si.get_item(Message, "token_response", k[1])
        except KeyError:
            it = None
        except Exception as e:
            self.v(["C09"], "cc-state-unreadable", "%s after %s: %r" % (k, why, e))
            return
        if m is None:
            if it is not None:
                self.v(["C09", "C12"], "cc-tokens-from-nowhere", "%s after %s: %r" % (k, why, it))
            return
        if it is None:
            self.v(["C09", "C12"], "cc-tokens-lost", "%s after %s" % (k, why))
            return
        for a, b in (("at", "access_token"), ("rt", "refresh_token")):
            if it.get(b) != m[a]:
                self.v(["C09", "C04"] + (["C12"] if "failed" in why else []) +
                       (["C11"] if self.restarts else []),
                       "cc-stored-differs", "%s after %s: %s is %r, expected %r"
                       % (k, why, b, it.get(b), m[a]))
        e = it.get("__expires_at")
        if (e is None) != (m["exp"] is None) or e is not None and not (
                m["exp"][0] - 1 <= e <= m["exp"][1] + 1):
            self.v(["C09", "C08"], "cc-expiry", "%s after %s: expires at %r, expected %r"
                   % (k, why, e, m["exp"]))

    def s_restart(self, st, task):
        if any(t.in_rp for t in self.k.tasks if not t.done):
            return
        i = st["srv"]
        try:
            text = json.dumps(self.cl[i].get_service_context().dump())
            c = self.client(self.srv[i])
            c.get_service_context().load(json.loads(text))
        except Exception as e:
            self.v(["C09", "C11"], "cc-restart-fails", repr(e))
            return
        self.cl[i] = c
        self.restarts += 1
        self.fired("process:restart")
        for k in sorted(self.M):
            if k[0] == i:
                self.look(k, "restart")


def execute(sc):
    return m_base.execute(Sim, sc)
