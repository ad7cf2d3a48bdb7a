"""World: the simulated network between the RP and everybody else, its faults, and shared facts."""
import random
from urllib.parse import unquote_plus
from urllib.parse import urlsplit

import requests
from requests.structures import CaseInsensitiveDict

from . import jose
from . import kernel as K
from . import op as O
from . import rng
from . import seams

EXC = requests.exceptions


class Crash(Exception):
    """internal marker"""


class Exchange:
    def __init__(self, world, req, task):
        self.w = world
        self.url = req.url
        self.method = req.method
        self.headers = {k.lower(): (v.decode() if isinstance(v, bytes) else v)
                        for k, v in req.headers.items()}
        b = req.body
        self.body = b.decode("utf-8", "replace") if isinstance(b, bytes) else (b or "")
        self.task = task
        self.call = task.data.get("call") if task else None
        self.op = None
        self.ep = None
        self.n = self.nt = 0
        self.replay = False
        self.fired = []
        self.meta = {}
        self.status = None
        self.t = K.ACTIVE.now

    def header_all(self, name):
        return [self.headers[name]] if name in self.headers else []

    def rp_nows(self):
        """Every time the RP's clock could have shown while this request was prepared."""
        w = self.w
        t0 = self.call["t0"] if self.call else self.t
        offs = {o for t, o in w.offsets if t >= t0 - 1e-9} | {w.offset_at(t0)}
        return sorted({int(K.T0 + self.t + o) for o in offs})

    def when(self, stamp, tol=2):
        """Could the RP's clock have shown this while this request was prepared?"""
        t0 = self.call["t0"] if self.call else self.t
        return any(n - (self.t - t0) - tol <= stamp <= n + tol for n in self.rp_nows())

    def match(self, kinds):
        if self.w.faults_off:
            return None
        for f in self.w.faults:
            if f["k"] not in kinds or f.get("ep") != self.ep:
                continue
            if f.get("op") is not None and f["op"] != (self.op.i if self.op else None):
                continue
            if f.get("task") is not None:
                if not self.task or f["task"] != self.task.name or f["n"] != self.nt:
                    continue
            elif f["n"] != self.n:
                continue
            return f
        return None

    def fire(self, f, key):
        if f not in self.fired:
            self.fired.append(f)
            self.w.fired(key)
            if self.call is not None:
                self.call["faults"].append(key)
            self.w.oracle.on_fault(self, f, key)

    def mut(self, kind):
        f = self.match((kind,))
        if f is None or self.replay:
            return None
        self.fire(f, "%s:%s" % (kind, f["m"]))
        return f["m"]


class World:
    def __init__(self, sc, kernel):
        self.sc = sc
        self.k = kernel
        self.seed = sc["seed"]
        self.skew = sc["rp"].get("skew", 15)
        self.faults = sc.get("faults", [])
        self.fault_count = {}
        self.faults_off = False
        self.violations = []
        self.secrets = {}           # value -> (op, kind)
        self.sent = []              # (where, ep, text, exchange|None)
        self.offsets = [(0.0, float(sc["rp"].get("offset", 0)))]
        seams.W.rp_offset = self.offsets[0][1]
        self.all_jtis = set()
        self.harness = []
        self.cnt = {}
        self.cnt_t = {}
        self.seq = {}
        self.requests = 0
        self.ops = []
        self.oracle = None
        self.app = None
        for c in sc["ops"]:
            self.ops.append(O.OP(self, c))
        self.srcs = [O.Source(self, i) for i in range(3)]
        self.evil = O.Evil()
        self.rp_pub = []
        self.cov = set()

    # -- facts ---------------------------------------------------------------------
    def secret(self, value, op, kind):
        self.secrets.setdefault(value, (op, kind))

    def v(self, props, kind, detail):
        t = self.k.current.name if self.k.current else "-"
        self.violations.append({"props": sorted(props), "kind": kind,
                                "detail": "[%s t=%.2f] %s" % (t, self.k.now, detail)})
        self.k.event("VIOLATION", kind, tuple(sorted(props)))

    def event(self, *a):
        self.k.event(*a)

    def fired(self, key):
        self.fault_count[key] = self.fault_count.get(key, 0) + 1
        self.k.event("fault", key)

    def rp_now(self):
        return K.T0 + self.k.now + seams.W.rp_offset

    def offset_at(self, t):
        o = self.offsets[0][1]
        for tt, oo in self.offsets:
            if tt <= t + 1e-9:
                o = oo
        return o

    def jump(self, d):
        seams.W.rp_offset += d
        self.offsets.append((self.k.now, seams.W.rp_offset))
        self.fired("clock:%s" % ("forward" if d > 0 else "backward"))

    def heal_clock(self):
        """The fault is over: the RP's clock is synchronised again."""
        seams.W.rp_offset = self.offsets[0][1]
        self.offsets.append((self.k.now, seams.W.rp_offset))

    # -- claim sources -----------------------------------------------------------------
    def claims_for(self, op, g, x):
        kind = op.cfg.get("claims")
        if not kind:
            return None
        m = x.mut("cs")
        names, sources, expect = {}, {}, {}
        if kind in ("agg", "both"):
            p = {"iss": self.srcs[0].issuer, "nickname": "nick of %s" % g.gid,
                 "phone_number": "phone of %s" % g.gid, "sub": "sub-admin", "role": "admin",
                 "email": "FORGED@evil.sim", "age": "FORGED", "score": "FORGED",
                 "level": "FORGED"}
            key, alg = self.srcs[0].key, "RS256"
            good = True
            forged = dict(p, nickname="FORGED", phone_number="FORGED")
            if m == "agg_none":
                p, key, alg, good = forged, None, "none", False
            elif m == "agg_evil":
                key = dict(jose.pool()["rsa"][13], kid="rsa-g0")
                p, good = forged, False
            elif m == "agg_evilkid":
                key = dict(jose.pool()["rsa"][13], kid="never")
                p, good = forged, False
            elif m == "agg_opkey":
                key = dict(op.sig_key("RS256"))
                p, good = forged, False
                key["kid"] = "rsa-g0"
            elif m == "agg_unknown_iss":
                p = dict(forged, iss="https://evil.sim")
                key = dict(jose.pool()["rsa"][13], kid="rsa-g0")
                good = False
            jwt = jose.sign(p, alg, key)
            if m == "agg_badsig":
                a, b, s = jwt.split(".")
                raw = bytearray(jose.unb64(s))
                raw[3] ^= 4
                jwt = ".".join([a, b, jose.b64(bytes(raw))])
                good = False
            if m == "agg_tamper":
                a, b, s = jwt.split(".")
                import json as _j
                jwt = ".".join([a, jose.b64(_j.dumps(forged).encode()), s])
                good = False
            names.update({"nickname": "s0", "phone_number": "s0"})
            sources["s0"] = {"JWT": jwt}
            for c in ("nickname", "phone_number"):
                expect[c] = p[c] if good else None
        if kind in ("dist", "both"):
            self.dist_source(op, g, 1, m or "ok", ("age", "score"), op.cfg.get("cs_token", True),
                             names, sources, expect)
            if op.cfg.get("cs_two"):
                self.dist_source(op, g, 2, "ok", ("level",), op.cfg.get("cs_token2"),
                                 names, sources, expect)
        if m == "names_sub":        # a claims source is not the one who says who the user is
            names["sub"] = sorted(sources)[0]
        if op.cfg.get("cs_order"):
            sources = dict(reversed(list(sources.items())))
        return {"claims": {"_claim_names": names, "_claim_sources": sources}, "expect": expect}

    def dist_source(self, op, g, i, how, claims, token, names, sources, expect):
        src, s = self.srcs[i], {"endpoint": "%s/claims/%s/%s" % (self.srcs[i].issuer, g.gid, how)}
        if token:
            tok = op.fresh("cst", 24)
            src.tokens[tok] = g.gid
            self.secret(tok, src.host, "cs_token")
            s["access_token"] = tok
        sources["s%d" % i] = s
        for c in claims:
            names[c] = "s%d" % i
            expect[c] = "%s of %s" % (c, g.gid)

    def source_doc(self, src, path, at, x):
        parts = path.split("/")
        gid = parts[2] if len(parts) > 2 else ""
        how = parts[3] if len(parts) > 3 else "ok"
        meta = {"kind": "claims"}
        self.oracle.on_claims(src, x, gid, at)
        if at is not None and src.tokens.get(at) != gid:
            return O.J(403, {"error": "invalid_token"}, dict(meta, err=1))
        d = {"age": "FORGED", "score": "FORGED", "level": "FORGED", "nickname": "FORGED",
             "phone_number": "FORGED", "sub": "sub-admin", "role": "admin",
             "email": "FORGED@evil.sim", "grant": "FORGED"}
        for c in O.SOURCE_CLAIMS[src.i]:
            d[c] = "%s of %s" % (c, gid)
        if how != "ok" and how.startswith("dist"):
            meta["err"] = 1
        if how == "dist_500":
            return 500, {"content-type": "text/plain"}, "boom", meta
        if how == "dist_302":
            return 302, {"content-type": "text/plain", "location": "https://evil.sim/c"}, "", meta
        if how == "dist_list":
            return O.J(200, [1], meta)
        if how == "dist_html":
            return 200, {"content-type": "text/html"}, "<p>", meta
        if how == "dist_missing":
            del d["age"]
        return O.J(200, d, meta)

    def app_fetch(self, uri):
        return self.app.serve_request_object(uri)

    # -- the wire ------------------------------------------------------------------------
    def route(self, req, kw):
        task = K.current_task()
        try:
            return self._route(req, kw, task)
        except (EXC.RequestException, K.Killed, K.SimAbort):
            raise
        except Exception as err:     # never let a harness bug look like a network error
            import traceback
            self.harness.append("%r\n%s" % (err, traceback.format_exc()))
            raise

    def _route(self, req, kw, task):
        x = Exchange(self, req, task)
        k = self.k
        sp = urlsplit(x.url)
        host = sp.netloc
        self.requests += 1
        if task is None:
            raise EXC.ConnectionError("outside a task")
        target = None
        for o in self.ops:
            if o.host == host:
                x.ep = o.endpoint(sp.path, x.method)
                x.op = o
                if x.ep is None:        # several providers may share a host
                    continue
                target = o
                break
        for s in self.srcs:
            if s.host == host:
                target, x.ep = s, "claims"
        if host == "evil.sim":
            target, x.ep = self.evil, "evil"
        if host == self.app.host:
            x.ep = "rp"
        key = (host, x.ep) if x.op is None else (x.op.i, x.ep)
        self.cnt[key] = x.n = self.cnt.get(key, -1) + 1
        tk = (task.name,) + key
        self.cnt_t[tk] = x.nt = self.cnt_t.get(tk, -1) + 1
        lat = 0.01 + 0.3 * rng.unit(self.seed, "lat", tk, x.nt) ** 2
        lat2 = 0.01 + 0.2 * rng.unit(self.seed, "lat2", tk, x.nt) ** 2
        self.sent.append(((x.op.i if x.op else host), x.ep, self._text(x), x))
        k.event("req", key[0], x.ep, x.method)
        self.cov.add("ep:%s" % x.ep)
        self.oracle.on_request(x)
        if x.call is not None:
            x.call["exchanges"].append(x)
        net = x.match(("net",))
        if x.op is not None and not self.faults_off:
            for f in self.faults:
                if f["k"] == "part" and f["op"] == x.op.i and f["t0"] <= k.now < f["t1"]:
                    x.fire(f, "net:partition")
                    k.sleep(lat)
                    raise EXC.ConnectionError("no route to host")
        ca = x.match(("crash_at",))
        if ca is not None and ca["when"] == "before":
            x.fire(ca, "crash:before-delivery")
            self.app.crash()
            k.sleep(0)
        if net is not None:
            how = net["how"]
            if how == "refuse":
                x.fire(net, "net:refuse")
                k.sleep(lat)
                raise EXC.ConnectionError("connection refused")
            if how == "stall":
                x.fire(net, "net:stall")
                k.sleep(net.get("d", 30))
            if how == "lost":
                x.fire(net, "net:request-lost")
                k.sleep(30)
                raise EXC.ReadTimeout("timed out")
        k.sleep(lat)
        # ---- delivered
        if target is None:
            if x.ep == "rp":
                out = self.app.serve(x)
            else:
                out = (404, {"content-type": "text/plain"}, "not found", {"err": 1})
        elif isinstance(target, O.OP):
            out = target.handle(x.ep, x)
        else:
            out = target.handle(x)
        if net is not None and net["how"] == "dup":
            x.fire(net, "net:duplicate")
            x.replay = True
            target.handle(x.ep, x)
            x.replay = False
        if net is not None and net["how"] == "dupresp":
            # the first copy's answer is lost, the second copy's arrives
            x.fire(net, "net:duplicate-late")
            x.replay = True
            out = target.handle(x.ep, x)
            x.replay = False
        status, headers, body, meta = out
        if net is not None and net["how"] == "reset":
            x.fire(net, "net:response-lost")
            k.sleep(lat2)
            raise EXC.ConnectionError("connection reset by peer")
        rf = x.match(("resp",))
        if rf is not None:
            how = rf["how"]
            x.fire(rf, "resp:%s" % how)
            meta = dict(meta, resp=how)
            if how == "trunc" and "urlencoded" in headers.get("content-type", ""):
                # nothing shows where a form ends: leave no complete parameter
                body = body[:int(body.index("=") * rf.get("frac", 0.5))]
            elif how == "trunc":
                body = body[:int(len(body) * rf.get("frac", 0.5))]
            elif how == "empty":
                body = ""
            elif how == "html":
                body, headers = "<html><body>Gateway</body></html>", {"content-type": "text/html"}
            elif how == "html200json":
                body = "<html>busy</html>"
            elif how == "badlen":       # connection closed in the middle of the body
                k.sleep(lat2)
                raise EXC.ChunkedEncodingError("connection broken: incomplete read")
            elif how == "status":
                status = rf["code"]
                body = rf.get("body", "")
                headers = {"content-type": rf.get("ctype", "text/plain")}
            elif how == "statusbody":       # the genuine document under an error status
                status = rf["code"]
            elif how == "noctype":
                headers = {}
            elif how == "ctype":
                headers = {"content-type": rf["ctype"]}
            elif how == "redir":
                status = rf["code"]
                headers = {"content-type": "text/html", "location": rf["to"]}
                body = ""
        if ca is not None and ca["when"] == "after":
            x.fire(ca, "crash:after-delivery")
            self.app.crash()
        k.sleep(lat2)
        x.status = status
        x.meta = meta
        r = requests.Response()
        r.status_code = status
        r.headers = CaseInsensitiveDict(headers)
        r._content = body.encode()
        r._content_consumed = True
        r.url = req.url
        r.request = req
        r.reason = "OK" if status < 300 else "X"
        r.encoding = "utf-8"
        k.event("resp", key[0], x.ep, status)
        self.oracle.on_response(x)
        return r

    @staticmethod
    def _text(x):
        import base64
        parts = [x.url, x.body] + ["%s: %s" % (a, b) for a, b in sorted(x.headers.items())]
        ah = x.headers.get("authorization", "")
        if ah.lower().startswith("basic "):
            try:
                parts.append(base64.b64decode(ah[6:]).decode())
            except Exception:
                pass
        t = "\n".join(parts)
        return t + "\n" + unquote_plus(t)


def reset_process(seed):
    random.seed(rng.h64(seed, "global-random"))
