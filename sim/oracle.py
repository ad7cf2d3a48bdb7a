"""Judges what the relying party does against an independent model of every session."""
import copy
import json
from urllib.parse import parse_qsl
from urllib.parse import urlsplit

from . import jose
from . import kernel as K
from . import seams

SETUP = ("discovery", "register", "webfinger")
ALLOWED = {"client_secret": {"token"}, "code": {"token"}, "verifier": {"token"},
           "refresh_token": {"token"}, "access_token": {"userinfo"},
           "id_token": {"endsession"}, "cs_token": {"claims"},
           "registration_token": {"readreg"}}
IDT_OK = (None, "aud_multi_ok", "exp_edge_ok", "iat_edge_ok")
ALNUM = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789")
AMBIG_RESP = ("noctype", "ctype")


class Oracle:
    def __init__(self, world):
        self.w = world
        self.S = {}                 # state -> session model
        self.all = {}               # every state ever returned (never forgotten)
        self.active = []
        self.setup = {}             # op -> {"gen", "cid", "t"}
        self.dirty = {}             # op -> jwks in doubt
        self.jwks_t = {}            # op -> RP time of last clean jwks fetch
        self.nonces = set()
        self.challenges = set()
        self.lstates = set()
        self.seen_fault = {}        # op -> number of faults fired so far
        self.rotated = set()
        self.restarts = 0
        self.undumped = set()
        self.skip_known = False
        self.redirects = {}         # (op) -> {kind: uri} registered callback uris
        self.evals = {}             # property -> number of decided obligations
        self.n_begin = 0
        self.cid_of = {}
        self.freshv = []

    def v(self, props, kind, detail):
        self.w.v(props, kind, detail)

    def ev(self, *props):
        for p in props:
            self.evals[p] = self.evals.get(p, 0) + 1

    def fresh(self, kind, val, call):
        """A value the library made up: long enough, and paid for with operating-system entropy."""
        self.ev("C05")
        if kind != "code_verifier":         # made at the time of the challenge
            self.freshv.append((call["t0"] if call else self.w.k.now, kind, val))
        cs = set(str(val))
        bits = 4 if cs <= set("0123456789abcdef-") else 5.954 if cs <= ALNUM else 6
        if len(str(val)) * bits < 120:
            self.v(["C05"], "short-value", "%s has %d characters (%d bits at most)"
                   % (kind, len(str(val)), len(str(val)) * bits))
        e = seams.W.entropy
        if e is not None and e.drawn + 16 * 8 < 15 * len(self.freshv):
            self.v(["C05"], "entropy-unpaid", "%d values of at least 120 bits were made from %d "
                   "bytes of operating-system entropy" % (len(self.freshv), e.drawn))

    # ---- snapshots ----------------------------------------------------------------
    def snapshot(self):
        busy = {c["state"] for c in self.active if c["state"]}
        s = {}
        for k, m in self.S.items():
            m2 = dict(m, tokens=dict(m["tokens"]))
            if k in busy:
                m2["unsure"] = True
            s[k] = m2
        setup = {o: dict(v) for o, v in self.setup.items()}
        return s, setup, bool(self.active), [dict(o.dpop_keys) for o in self.w.ops]

    def restore(self, snap):
        self.restarts += 1
        old = self.S
        if snap is None:
            self.S, self.setup = {}, {}
            for o in self.w.ops:
                o.dpop_keys = {}
        else:
            s, setup, busy, dpop = snap
            for o, d in zip(self.w.ops, dpop):
                o.dpop_keys = dict(d)       # a key made after the dump is lost with the process
            self.S = {k: dict(m, tokens=dict(m["tokens"]), restarted=True) for k, m in s.items()}
            self.setup = {o: dict(v) for o, v in setup.items()}
        for o in list(self.dirty):
            self.dirty[o] = True
        for k, m in old.items():
            if k not in self.S:
                self.w.event("lost", m["label"])
                if not m.get("unsure"):
                    self.undumped.add(k)
            else:
                self.S[k]["grant"] = m["grant"]     # the provider's side did not crash

    def on_crash(self, n):
        self.w.cov.add("crash-in-call:%d" % min(n, 3))

    # ---- calls ---------------------------------------------------------------------
    def call_start(self, rec):
        for c in self.active:
            if (rec["state"] and c["state"] == rec["state"]) or \
                    (c["op"] == rec["op"] and c["name"] == rec["name"] == "begin"):
                c["overlap"] = rec["overlap"] = True
            if c["state"] != rec["state"] or c["state"] is None:
                c["conc"] = rec["conc"] = True
        rec["off0"] = self.w.offset_at(self.w.k.now)
        rec["dirty"] = self.dirty.get(rec["op"], False)
        st = rec["state"]
        rec["before"] = self.look(st) if st else None
        rec["known"] = dict(self.S[st]) if st in self.S else None
        self.active.append(rec)

    def call_end(self, rec):
        if rec in self.active:
            self.active.remove(rec)
        if rec["gen"] != self.w.app.gen and rec["out"][0] != "crashed":
            rec["out"] = ("crashed", None)      # answer of a dead process: nobody saw it

    def look(self, state):
        """The stored session, as text (None: unknown)."""
        if state is None:
            return None

        def f(rph):
            for c in rph.issuer2rp.values():
                try:
                    d = c.client_get("service_context").state.get_state(state)
                except KeyError:
                    continue
                return json.dumps(_plain(d.to_dict()), sort_keys=True, default=str)
            return None
        try:
            return self.w.app.probe(f)
        except Exception as e:
            return "?%s" % type(e).__name__

    def others(self, state):
        return {k: self.look(k) for k in self.S if k != state}

    # ---- network hooks ---------------------------------------------------------------
    def on_fault(self, x, f, key):
        o = x.op.i if x.op else None
        if o is not None:
            self.seen_fault[o] = self.seen_fault.get(o, 0) + 1
            if x.ep == "jwks":
                self.dirty[o] = True
                for c in self.active:
                    if c["op"] == o:
                        c["dirty"] = True

    def on_rotate(self, i):
        self.rotated.add(i)
        self.dirty[i] = True
        for c in self.active:
            if c["op"] == i:
                c["dirty"] = True

    def on_request(self, x):
        c = x.call
        if c is None:
            return
        if x.ep in ("discovery", "register") and x.op is not None:
            st = self.setup.get(x.op.i)
            if st and c["name"] == "begin" and st["t"] < c["t0"] and not c.get("reset"):
                self.ev("C14")
                p = ["C14", "C13"]
                if st.get("restarted"):
                    p.append("C11")
                self.v(p, "set-up-again:%s" % x.ep,
                       "op%d is set up (client %s), yet begin(%s) repeats %s"
                       % (x.op.i, st["cid"], c["info"].get("how"), x.ep))
                c["reset"] = True
        # a call for one provider talks to that provider only
        if x.op is not None and c["op"] is not None and x.op.i != c["op"] and \
                x.ep in ("token", "userinfo", "register", "par", "discovery"):
            self.v(["C13", "C04", "C07"], "wrong-provider",
                   "%s for op%s sent a request to op%d %s" % (c["name"], c["op"], x.op.i, x.ep))

    def on_response(self, x):
        x.rp_t = self.w.rp_now()
        if x.op is not None and x.ep == "jwks" and x.status == 200 and not x.fired and \
                not x.meta.get("resp") and not x.meta.get("mut"):
            c = x.call
            if c is not None and c["name"] == "begin" and (c["overlap"] or
                                                           x.op.i in self.setup):
                return      # may be for a client that is not the one kept
            self.dirty[x.op.i] = False
            self.jwks_t[x.op.i] = self.w.rp_now()

    def on_register(self, op, c):
        m = c["meta"]
        cur = {u for u in c["redirect_uris"]}
        self.ev("C19")
        for o, uris in self.redirects.items():
            if o != op.i and uris & cur:
                self.v(["C19"], "shared-callback", "op%d and op%d got the same callback URI"
                       % (o, op.i))
        prev = self.redirects.get(op.i)
        if prev and prev != cur:
            self.v(["C19"], "callback-changed", "callback URIs of op%d changed" % op.i)
        self.redirects[op.i] = cur
        if op.cfg.get("neg"):
            self.ev("C24")
            for a, val in sorted(op.cfg["neg"].items()):
                if a == "scope" or a == op.cfg.get("nomatch"):
                    continue        # scope is not registered
                if m.get(a) != val:
                    self.v(["C24", "C13"], "negotiated-differs", "op%d: %s=%s registered, %s is "
                           "what both sides can do (client: %s, provider: %s)"
                           % (op.i, a, m.get(a), val, op.cfg["pf"][a], op.cfg["sup"][a]))
            if op.cfg.get("nomatch") not in (None, "response_types"):
                self.v(["C24"], "registered-without-match", "op%d: no common %s, yet the client "
                       "registers" % (op.i, op.cfg["nomatch"]))
        rt = (op.cfg.get("neg") or {}).get("response_types") or [op.cfg["rtype"]]
        rt = rt[0]
        if op.cfg.get("nomatch") == "response_types":
            return
        if rt not in m.get("response_types", ["code"]):
            self.v(["C13"], "registered-response-types", "%s registered, %s configured"
                   % (m.get("response_types"), rt))

    def _sess(self, x):
        c = x.call
        return self.S.get(c["state"]) if c and c["state"] else None

    def on_unknown_code(self, op, x, code):
        if x.call is not None and x.call["info"].get("attack"):
            return
        self.v(["C04", "C07", "C01"], "foreign-code", "op%d received a code it never issued" % op.i)

    def on_code(self, op, x, g):
        c = x.call
        if c["info"].get("attack"):
            return
        m = self._sess(x)
        self.ev("C04")
        if m is not None and m["grant"] and m["grant"] != g.gid:
            self.v(["C04", "C01"], "code-of-other-session", "%s sends the code of %s"
                   % (m["label"], g.gid))

    def on_refresh(self, op, x, g, rt, form):
        c = x.call
        m = self._sess(x)
        want = c["info"].get("scope")
        if want and c["name"] == "refresh":
            want = want.split() if isinstance(want, str) else want
            if set((form.get("scope") or "").split()) != set(want):
                self.v(["C09", "C04"], "refresh-scope", "%s asked for, %s sent"
                       % (want, form.get("scope")))
        if m is None or m.get("unsure"):
            return
        self.ev("C09")
        if m["grant"] != g.gid:
            self.v(["C04", "C09"], "refresh-of-other-session",
                   "%s sends the refresh token of %s" % (m["label"], g.gid))
        elif m["tokens"].get("rt") != rt and not c["overlap"]:
            self.v(["C09"], "stale-refresh-token", "%s does not send its latest refresh token"
                   % m["label"])

    def on_bad_refresh(self, op, x, rt, why):
        m = self._sess(x)
        if m is None or m.get("unsure") or not m["tokens"].get("rt"):
            return
        self.v(["C09", "C04"], "bad-refresh-token", "%s: %s" % (m["label"], why))

    def on_userinfo(self, op, x, g, at):
        m = self._sess(x)
        c = x.call
        if m is None or c is None:
            return
        if m["grant"] and m["grant"] != g.gid:
            self.v(["C04", "C07"], "access-token-of-other-session",
                   "%s uses the access token of %s" % (m["label"], g.gid))
        elif c["name"] == "userinfo" and not m.get("unsure") and not c["overlap"]:
            self.ev("C09")
            t = m["tokens"]
            if at not in [z for z in (t.get("at"), t.get("front_at")) if z]:
                self.v(["C09", "C08"], "stale-access-token", "%s uses an access token that is not "
                       "its current one" % m["label"])

    def on_bad_at(self, op, x, at):
        m = self._sess(x)
        if m is None or (x.call and x.call["name"] == "userinfo" and not
                         m["tokens"].get("at") and not m["tokens"].get("front_at")):
            return
        if x.call and x.call["faults"] and any(f.startswith(("tokresp", "resp"))
                                               for f in x.call["faults"]):
            return
        if m.get("unsure"):
            return
        self.v(["C04", "C07", "C08"], "unknown-access-token",
               "userinfo request of %s with %s" % (m["label"], "no token" if not at else
                                                   "a token op%d never issued" % op.i))

    def on_claims(self, src, x, gid, at):
        self.ev("C20")
        if at is not None and at not in src.tokens and not at.startswith("cbtoken-"):
            self.v(["C20", "C07"], "token-to-source", "claims source got a token not meant for it")
        elif (at is None or at.startswith("cbtoken-")) and gid in src.tokens.values():
            self.v(["C20"], "source-token-unused", "a claims source that comes with a token is asked "
                   "%s" % ("without" if at is None else "with another"))

    def on_readreg(self, op, x, cid, ok):
        su = self.setup.get(op.i)
        self.ev("C13", "C07")
        if not ok or su and su["cid"] != cid and not (x.call and x.call["faults"]):
            self.v(["C13", "C11"] if su and su.get("restarted") else ["C13"], "registration-token",
                   "registration of %s at op%d read %s" % (
                       cid, op.i, "for another client" if ok else "without its own token"))

    def regread_done(self, rec, op):
        kind, res = rec["out"]
        if kind == "crashed":
            return
        rec["judged"] = True
        self.ev("C12", "C13")
        xs = [x for x in rec["exchanges"] if x.ep == "readreg"]
        fatal = [x for x in xs if self.fatal(x)]
        su = self.setup.get(op.i)
        if kind == "ok" and not (hasattr(res, "get") and "error" in res):
            if fatal or not xs:
                self.v(["C12"], "failure-is-success", "reading the registration at op%d succeeds "
                       "although the provider answered %s" % (
                           op.i, fatal[0].meta if fatal else "nothing"))
            elif res.get("client_id") != xs[-1].meta.get("cid"):
                self.v(["C13"], "registration-mixed", "the registration read at op%d is that of %r"
                       % (op.i, res.get("client_id")))
        elif not rec["faults"] and not fatal and su and su["cid"] in op.clients:
            self.v(["C13", "C12"] + (["C11"] if su.get("restarted") else []),
                   "registration-read-fails", "op%d: %r" % (op.i, res))

    # ---- judging calls -----------------------------------------------------------------
    def final_checks(self):
        """C07: nothing secret anywhere it does not belong (whole history)."""
        w = self.w
        if not w.secrets:
            return
        secrets = [(s, o, k) for s, (o, k) in w.secrets.items()]
        for where, ep, text, x in w.sent:
            self.ev("C07")
            for s, o, k in secrets:
                if s in text:
                    if where == o and ep in ALLOWED[k]:
                        continue
                    if x is None and k == "id_token" and ep == "logout-url" and where == o:
                        continue
                    if x is not None and x.call is not None and x.call["info"].get("attack") and \
                            k == "code":
                        continue    # the attacker himself brought it to that endpoint
                    self.v(["C07"] + (["C06"] if k == "verifier" else []), "leak:%s" % k,
                           "%s of op%s sent to %s/%s" % (k, o, where, ep))

    def check_all_known(self, why, props):
        """Every login in progress is still known to the RP (C14)."""
        if self.skip_known:
            return
        for st, m in list(self.S.items()):
            if m["status"] in ("begun",) and not m.get("unsure"):
                op = self.w.ops[m["op"]]
                self.ev("C14")
                try:
                    iss = self.w.app.probe(lambda r: r.state2issuer(st))
                except Exception as e:
                    iss = "?%s" % type(e).__name__
                if iss != op.issuer:
                    self.v(props, "login-forgotten", "%s: state2issuer gives %s after %s"
                           % (m["label"], iss, why))
                    m["unsure"] = True

    def tags(self, m, rec, base):
        """Which properties an unexplained failure of an honest, fault-free call breaks."""
        t = set(base)
        o = rec["op"]
        if m and m.get("restarted") or (self.restarts and rec["name"] != "begin" and m and
                                        m.get("restarted")):
            t.add("C11")
        if self.seen_fault.get(o):
            t.add("C12")
        if o in self.rotated:
            t.add("C15")
        return sorted(t)

    # begin ----------------------------------------------------------------------------
    def begin_done(self, rec, label, user, how, req_args, jar, want):
        """-> state or None. jar: parsed effective request params or None"""
        kind, res = rec["out"]
        w = self.w
        op = w.ops[rec["op"]]
        c = op.cfg
        setup_bad = [x for x in rec["exchanges"] if x.ep in SETUP and self.fatal(x)]
        if kind == "crashed":
            return None
        rec["judged"] = True
        if c.get("nomatch"):
            self.ev("C24")
            if kind == "ok":
                self.v(["C24"], "begin-without-match", "%s: begin at op%d succeeds, yet client and "
                       "provider have no %s in common" % (label, op.i, c["nomatch"]))
            return None
        if kind == "err":
            self.ev("C12", "C13")
            if not rec["faults"] and not want.get("may_fail"):
                p = self.tags(None, rec, ["C13", "C14"] if rec.get("conc") else ["C13"])
                if rec.get("conc"):
                    p = p + ["C04"]
                if want.get("reqobj"):
                    p = p + ["C17"]
                if c.get("pf"):
                    p = p + ["C24"]
                if self.restarts:
                    p = p + ["C11"]
                self.v(p, "begin-fails", "%s: begin(%s) at op%d raised %r"
                       % (label, how, op.i, res))
            self.check_all_known("a failed begin", ["C14", "C12"])
            return None
        # success
        if not isinstance(res, dict) or "url" not in res or "state" not in res:
            self.v(["C12"], "begin-result", "%s: begin returned %r" % (label, type(res)))
            return None
        state, url = res["state"], res["url"]
        w.sent.append((op.i, "begin-url", url + "\n" + _unq(url), None))
        self.ev("C13", "C19", "C05")
        if setup_bad:
            self.v(["C12", "C13"], "begin-despite-fault", "%s: begin succeeded although %s failed"
                   % (label, setup_bad[0].ep))
        if url.split("?")[0] != op.base + "/authorize":
            self.v(["C13", "C07", "C04"], "wrong-authorization-endpoint",
                   "%s: op%d asked for, URL is %s" % (label, op.i, url.split("?")[0]))
            return None
        if state in self.all:
            self.v(["C05", "C04"], "state-reused", "%s: state used before" % label)
        self.fresh("state", state, rec)
        self.all[state] = {"op": op.i, "label": label, "gen": w.app.gen}
        params, hw, err = op.resolve(url)
        q = dict(parse_qsl(urlsplit(url).query))
        want_obj = want.get("reqobj")
        self.ev("C17")
        if want_obj and hw != want_obj and not err:
            if not (want_obj == "par" and hw == "plain"):
                self.v(["C17"], "request-object-missing", "%s: %s wanted, %s sent"
                       % (label, want_obj, hw))
            elif not rec["faults"]:
                self.v(["C17"], "par-skipped", "%s: request not pushed though op%d was fine"
                       % (label, op.i))
        if err:
            p = ["C17"]
            self.v(p, "request-object-bad", "%s: %s" % (label, err))
            return None
        if hw != "plain":
            w.cov.add("req:%s" % hw)
        if params.get("state") != state and self.one_file(op, q, params):
            self.v(["C17"], "registered-request-uri", "%s: the registered request_uri yields the "
                   "request of %s" % (label, self.all[params["state"]]["label"]))
            return None
        if params.get("state") != state:
            self.v(["C17", "C04"] if hw != "plain" else ["C04"], "wrong-request",
                   "%s: the provider obtains state of %s" % (
                       label, self.all.get(params.get("state"), {}).get("label")))
            return None
        cid = params.get("client_id")
        cl = op.clients.get(cid)
        if cl is None:
            self.v(["C13", "C04"], "wrong-client-id", "%s: client_id %s unknown at op%d"
                   % (label, cid, op.i))
            return None
        su = self.setup.get(op.i)
        self.ev("C14")
        if su and su["cid"] != cid:
            self.v(["C14", "C13"] + (["C11"] if su.get("restarted") else []), "other-registration",
                   "%s: client_id %s, op%d was set up with %s" % (label, cid, op.i, su["cid"]))
        self.setup[op.i] = {"cid": cid, "t": w.k.now if not su else su["t"]}
        ru = params.get("redirect_uri")
        if ru not in cl["redirect_uris"]:
            self.v(["C19"], "redirect-not-registered", "%s: %s" % (label, ru))
            return None
        rt = " ".join(sorted(str(params.get("response_type", "")).split()))
        wrt = " ".join(sorted((
            req_args.get("response_type") or (c.get("cfg_request_args") or {}).get(
                "response_type") or c["rtype"]).split()))
        if rt != wrt:
            self.v(["C04", "C17", "C13", "C24"], "wrong-response-type", "%s: %s wanted, %s sent"
                   % (label, wrt, rt))
        if not cl.get("static"):
            rm = req_args.get("response_mode") or (c.get("cfg_request_args") or {}).get(
                "response_mode")
            k = "authz_fp_cb" if rm == "form_post" else (
                "authz_cb" if rt == "code" else "authz_im_cb")
            if "/%s/" % k not in ru:
                self.v(["C19"], "redirect-kind", "%s: %s for %s" % (label, ru, rt))
        nonce = params.get("nonce")
        if "id_token" in rt or "code" in rt:
            if not nonce:
                self.v(["C02", "C05"], "no-nonce", "%s: no nonce" % label)
            elif nonce in self.nonces:
                self.v(["C05", "C02", "C04"], "nonce-reused", "%s: nonce used before" % label)
            elif not req_args.get("nonce"):
                self.fresh("nonce", nonce, rec)
            self.nonces.add(nonce)
        scope = set(str(params.get("scope", "")).split())
        wscope = set(req_args.get("scope") or (c.get("cfg_request_args") or {}).get("scope") or
                     c["scope"])
        if "openid" not in scope or not wscope <= scope or scope - wscope - {"openid"}:
            self.v(["C04", "C17", "C13", "C24"], "wrong-scope", "%s: scope %s, %s wanted"
                   % (label, sorted(scope), sorted(wscope)))
        for k, val in req_args.items():
            if k not in ("response_type", "scope", "claims") and params.get(k) != val:
                self.v(["C04", "C17"], "wrong-parameter", "%s: %s=%r, %r wanted"
                       % (label, k, params.get(k), val))
        for k in ("login_hint", "acr_values", "ui_locales", "prompt", "max_age", "claims"):
            if k in params and k not in req_args and k not in (c.get("cfg_request_args") or {}) \
                    and not (k == "prompt" and "offline_access" in scope):
                self.v(["C04", "C17"], "foreign-parameter", "%s: %s=%r of another login"
                       % (label, k, params[k]))
        if c.get("pkce") and "code" in rt:
            ch, me = params.get("code_challenge"), params.get("code_challenge_method")
            self.ev("C06")
            if not ch or me != c["pkce"]["method"]:
                self.v(["C06"] + (["C17"] if hw != "plain" else []), "no-challenge",
                       "%s: challenge %s method %s" % (label, bool(ch), me))
            if ch and ch in self.challenges:
                self.v(["C06", "C05"], "challenge-reused", "%s: challenge used before" % label)
            elif ch:
                self.fresh("code_challenge", ch, rec)
            self.challenges.add(ch)
        self.S[state] = {"label": label, "state": state, "op": op.i, "user": user, "status":
                         "begun", "grant": None, "nonce": nonce, "rt": set(rt.split()),
                         "redirect_uri": ru, "tokens": {}, "unsure": False, "params": params,
                         "cid": cid, "url": url if hw == "request_uri" else None,
                         "sid": None, "sub": None, "t": w.k.now, "collect": False,
                         "logout": []}
        self.check_all_known("begin(%s) of %s" % (how, label), ["C14"])
        return state

    def one_file(self, op, q, params):
        """A provider that wants request URIs registered gets one: a known limit of the library."""
        cl = op.clients.get(q.get("client_id")) or {}
        return q.get("request_uri") in (cl.get("request_uris") or []) and \
            self.all.get(params.get("state"), {}).get("op") == op.i

    def at_provider(self, m, op):
        """The user's browser has arrived at the provider, which fetches the request."""
        if not m.get("url"):
            return
        self.ev("C17")
        params, hw, err = op.resolve(m["url"])
        if err or params.get("state") == m["state"]:
            return      # judged when the request was made; keys may have changed since
        q = dict(parse_qsl(urlsplit(m["url"]).query))
        known = self.all.get(params.get("state"), {}).get("label")
        if self.one_file(op, q, params):
            self.v(["C17"], "registered-request-uri", "%s: the registered request_uri yields the "
                   "request of %s" % (m["label"], known))
        else:
            self.v(["C17", "C04"], "wrong-request", "%s: by now the provider obtains state of %s"
                   % (m["label"], known))

    # responses that cannot lead to success
    @staticmethod
    def fatal(x):
        if x.status is None:
            return True
        if x.meta.get("err"):
            return True
        r = x.meta.get("resp")
        if r in ("trunc", "empty", "html", "html200json", "redir", "badlen", "statusbody"):
            return True
        if r == "status":
            return not 200 <= x.status < 300 or True
        m = x.meta.get("mut")
        if x.ep == "token":
            return m in ("error200", "no_at", "at_list", "exp_text", "list", "string", "null",
                         "idt_garbage")
        if x.ep == "discovery":
            return bool(m)
        if x.ep == "register":
            return m in ("error", "error200", "list", "plain400", "no_id")
        if x.ep == "webfinger":
            return m in ("norel", "empty")
        return False

    def idt_verdict(self, jwt_rec, m, rec):
        """'ok' | 'bad:<why>' | 'edge' for an ID Token against session m, RP clock during rec."""
        w = self.w
        op = w.ops[m["op"]]
        p, alg, skew = jwt_rec["payload"], jwt_rec["alg"], w.skew
        cl = op.clients[m["cid"]]
        offs = {o for t, o in w.offsets if rec["t0"] <= t <= w.k.now} | {rec["off0"]}
        lo = K.T0 + rec["t0"] + min(offs)
        hi = K.T0 + w.k.now + max(offs)
        try:
            keys = list(op.published)
            jose.verify(jwt_rec["jwt"], keys=keys, secret=cl["secret"])
        except jose.Bad as e:
            return "bad:signature (%s)" % e
        if alg == "none":
            return "bad:none"
        if not cl.get("static") and alg != cl["alg"]:
            return "bad:alg %s" % alg
        if p.get("iss") != op.issuer:
            return "bad:iss"
        aud = p.get("aud")
        aud = aud if isinstance(aud, list) else [aud]
        if m["cid"] not in aud:
            return "bad:aud"
        if len(aud) > 1 and p.get("azp") != m["cid"]:
            return "bad:azp"
        if "azp" in p and p["azp"] != m["cid"]:
            return "bad:azp"
        if p.get("nonce") != m["nonce"]:
            return "bad:nonce"
        edge = False
        if p["exp"] + skew < lo - 1:
            return "bad:exp"
        if p["exp"] + skew <= hi + 1:
            edge = True
        if p["iat"] - skew > hi + 1:
            return "bad:iat"
        if p["iat"] - skew >= lo - 1:
            edge = True
        if p["iat"] + 4 * 3600 < hi + skew + 2:
            edge = True
        if jwt_rec["front"]:
            if jwt_rec["at"] and p.get("at_hash") != jose.half_hash(jwt_rec["at"]):
                return "bad:at_hash"
            if jwt_rec["code"] and p.get("c_hash") != jose.half_hash(jwt_rec["code"]):
                return "bad:c_hash"
        return "edge" if edge else "ok"

    def token_exp(self, meta, x_t):
        ei = meta.get("expires_in")
        return None if not ei else int(self.w.rp_now()) + int(ei)

    # callback --------------------------------------------------------------------------
    def callback_done(self, rec, label, issuer, resp, expect, front=None, attack=None):
        """expect: 'accept' (honest response) | 'refuse:<why>'."""
        kind, res = rec["out"]
        w = self.w
        st = resp.get("state")
        m = self.S.get(st)
        if m is None and rec.get("known") is not None and rec["gen"] != w.app.gen:
            return kind
        if kind == "crashed":
            if m is not None:
                m["unsure"] = True
            return kind
        rec["judged"] = True
        ok = kind == "ok" and isinstance(res, dict) and "error" not in res
        if kind == "ok" and not isinstance(res, dict):
            self.v(["C12"], "finalize-result", "%s: finalize returned %r" % (label, type(res)))
            return "bad"
        clear_race = rec.get("cleared")
        sent = [x for x in rec["exchanges"] if x.ep in ("token", "userinfo", "par")]
        # --- C01: not a response for this login and issuer
        if expect.startswith("refuse"):
            self.ev("C01")
            if ok:
                self.v(["C01"] + (["C04"] if attack else []), "foreign-response-accepted",
                       "%s: finalize accepted a response (%s)" % (label, expect))
                return "bad"
            if sent:
                self.v(["C01", "C07"], "refused-response-used",
                       "%s: %s, yet %s was contacted" % (label, expect, sent[0].ep))
            if rec["before"] is not None and not rec["overlap"]:
                after = self.look(st)
                if after != rec["before"] and st in self.S and not rec.get("conc_same"):
                    self.v(["C01", "C12"], "refused-response-stored",
                           "%s: %s changed the session %s" % (label, expect, m["label"] if m
                                                              else "?"))
            return "refused"
        if m is None:       # unknown to the model: lost or cleared; handled by the caller
            if ok:
                self.v(["C01", "C11"], "unknown-login-completed", "%s completed though unknown"
                       % label)
            return "refused"
        op = w.ops[m["op"]]
        if resp.get("error"):
            self.ev("C01", "C12")
            if ok:
                self.v(["C12", "C01"], "error-is-success", "%s: error response accepted" % label)
            if sent:
                self.v(["C12", "C01"], "error-used", "%s: error response led to a %s request"
                       % (label, sent[0].ep))
            if not ok and m["status"] == "begun":
                m["status"] = "denied"
            return "refused"
        # --- what was served during this call
        toks = [x for x in rec["exchanges"] if x.ep == "token" and x.op is op]
        uis = [x for x in rec["exchanges"] if x.ep == "userinfo" and x.op is op]
        fatal = [x for x in toks + uis if self.fatal(x)]
        tok = toks[-1].meta if toks and toks[-1].meta.get("kind") == "token" and not \
            toks[-1].meta.get("err") else None
        if rec.get("twice"):
            fatal = fatal if not m["tokens"] else []
        mids = []
        if front and front.get("mid"):
            mids.append(front["mid"])
        if tok and tok.get("mid"):
            mids.append(tok["mid"])
        verdicts = {mid: self.idt_verdict(op.minted[mid], m, rec) for mid in mids}
        bad = {k: x for k, x in verdicts.items() if x.startswith("bad")}
        ui_rec = op.userinfos.get(uis[-1].meta.get("uid")) if uis else None
        ui_mismatch = None
        if ui_rec and mids:
            idsub = op.minted[mids[-1]]["payload"]["sub"]
            if ui_rec["sub_sent"] != idsub:
                ui_mismatch = "sub %r, ID Token %r" % (ui_rec["sub_sent"], idsub)
        if ui_rec and ui_rec["bad"] and ui_rec["bad"].startswith("sig"):
            ui_mismatch = "signature " + ui_rec["bad"]
        if ok:
            self.ev("C02", "C03", "C04", "C12")
            if bad:
                self.v(["C02"], "bad-id-token-accepted", "%s: %s (mutation %s)" % (
                    label, list(bad.values())[0], op.minted[list(bad)[0]]["mut"]))
            if fatal:
                x = fatal[0]
                self.v(["C12"], "failure-is-success", "%s: finalize reports success although %s "
                       "answered %s %s" % (label, x.ep, x.status, x.meta.get("resp") or
                                           x.meta.get("mut") or x.fired and x.fired[0]))
            if ui_mismatch:
                self.v(["C03"], "userinfo-other-subject", "%s: %s" % (label, ui_mismatch))
            self._judge_success(rec, m, op, label, res, front, tok, ui_rec)
            self._adopt(rec, m, op, front, tok, res)
            return "ok"
        # --- refused / failed
        self.ev("C02", "C12")
        strict = (not rec["faults"] and not fatal and not bad and not ui_mismatch and
                  "edge" not in verdicts.values() and not rec["dirty"] and not m["unsure"] and
                  not rec.get("twice") and m["status"] == "begun" and
                  not (toks and toks[-1].meta.get("err")) and not rec.get("expired_code"))
        if rec["dirty"] and not strict and not rec["faults"] and not bad and not fatal and \
                "edge" not in verdicts.values() and not m["unsure"] and not rec.get("twice") and \
                m["status"] == "begun" and not ui_mismatch:
            # key set in doubt: must work once the cached copy is due for a refresh
            last = self.jwks_t.get(op.i)
            fetched = any(x.ep == "jwks" for x in rec["exchanges"])
            if last is not None and self.w.rp_now() - last > 310 and len(w.offsets) == 1 and \
                    rec["t1"] - rec["t0"] < 60 and not fetched:
                self.ev("C15")
                self.v(["C15"], "keys-not-followed", "%s: key set of op%d is %d s old and not "
                       "fetched again" % (label, op.i, self.w.rp_now() - last))
        if strict:
            if rec["out"][0] == "err":
                what = repr(res)
            else:
                what = "error result %r" % (res.get("error"),)
            mut = [op.minted[x]["mut"] for x in mids]
            base = ["C04"]
            if any(mut) or not all(mut) and mids:
                base.append("C02")
            if m.get("crowd"):
                base.append("C14")
            if op.cfg.get("pkce") and toks and toks[-1].meta.get("err"):
                base.append("C06")
            if op.cfg.get("rp_dpop"):
                base.append("C16")
            if ui_rec:
                base.append("C03")
            if op.cfg.get("pf"):
                base.append("C24")
            self.v(self.tags(m, rec, base), "honest-login-fails",
                   "%s at op%d (%s) fails: %s" % (label, op.i, " ".join(sorted(m["rt"])), what))
        if m["status"] == "begun" or m["status"] == "failed":
            m["status"] = "failed"
            if bad and not m["tokens"].get("mid"):
                self.ev("C02")
                try:
                    act = w.app.probe(lambda r: r.has_active_authentication(st))
                except Exception:
                    act = False
                if act and not (front and len(mids) == 2 and not verdicts[mids[0]].startswith(
                        "bad")):
                    self.v(["C02"], "authenticated-by-bad-token",
                           "%s: refused (%s), yet has_active_authentication() is true"
                           % (label, list(bad.values())[0]))
            if ui_mismatch:
                after = self.look(st)
                self.ev("C03")
                if after and '"user_info"' in after:
                    self.v(["C03"], "refused-userinfo-stored", "%s: %s" % (label, ui_mismatch))
            m["unsure"] = True
        else:
            # a repeated callback must not damage what the first one established
            if not rec["overlap"] and m["status"] == "done" and not m["unsure"]:
                self._check_held(m, rec, ["C12"])
        return "failed"

    def _judge_success(self, rec, m, op, label, res, front, tok, ui_rec):
        st = m["state"]
        if res.get("state") != st:
            self.v(["C04", "C01"], "wrong-state-returned", "%s: finalize returned another state"
                   % label)
        idt = res.get("id_token")
        if idt:
            d = _plain(idt)
            rec_i = op.minted.get(d.get("mid"))
            self.ev("C02")
            if rec_i is None:
                self.v(["C02", "C04"], "unknown-id-token", "%s: reports an ID Token op%d never "
                       "issued" % (label, op.i))
            else:
                if rec_i["grant"] != m["grant"]:
                    self.v(["C04", "C02"], "id-token-of-other", "%s reports the ID Token of %s"
                           % (label, rec_i["grant"]))
                for k, val in rec_i["payload"].items():
                    if d.get(k) != val and not (k == "aud" and d.get(k) == [val]):
                        self.v(["C02"], "id-token-altered", "%s: claim %s is %r, signed %r"
                               % (label, k, d.get(k), val))
                        break
        elif (front and front.get("mid")) or (tok and tok.get("mid")):
            self.v(["C02"], "id-token-dropped", "%s: ID Token received but not reported" % label)
        at = res.get("token")
        want = [z for z in ((front or {}).get("at"), (tok or {}).get("at"),
                            m["tokens"].get("at")) if z]
        if at and at not in want:
            self.v(["C04"], "foreign-access-token", "%s reports an access token of another "
                   "session" % label)
        ui = res.get("userinfo")
        if op.cfg.get("ui") and at:
            d = _plain(ui) if ui is not None else {}
            self.judge_userinfo(rec, m, op, label, d, ui_rec)
        elif ui:
            d = _plain(ui)
            if d.get("grant") != m["grant"]:
                self.v(["C04"], "claims-of-other", "%s reports claims of %s" % (label,
                                                                                d.get("grant")))

    def judge_userinfo(self, rec, m, op, label, d, ui_rec):
        self.ev("C03", "C04")
        uid = d.get("uid") if isinstance(d, dict) else None
        if uid not in op.userinfos:
            self.v(["C12", "C04"], "userinfo-not-issued", "%s: reports user information op%d did "
                   "not issue: %s" % (label, op.i, _short(d)))
            return
        r = op.userinfos[uid]
        if r["grant"] != m["grant"]:
            self.v(["C04", "C03"], "userinfo-of-other", "%s reports user information of %s"
                   % (label, r["grant"]))
        self.judge_claims(m, op, label, d, r, False)

    def judge_claims(self, m, op, label, d, r, fetched):
        src = r.get("sources")
        if not src:
            return
        self.ev("C20")
        for c, val in src.items():
            dist = c in ("age", "score", "level")
            if c in d:
                if val is None or d[c] != val:
                    self.v(["C20"], "unverified-claim", "%s: %s=%r" % (label, c, d[c]))
            elif val is not None and (not dist or fetched == "ok"):
                self.v(["C20"], "promised-claim-missing", "%s: %s missing" % (label, c))
        for c in ("role", "nickname", "phone_number", "age", "score", "level"):
            if c in d and c not in src:
                self.v(["C20"], "unpromised-claim", "%s: %s=%r was never promised"
                       % (label, c, d[c]))
        email = "%s@%s" % (r["sub"], op.host)
        if d.get("email") != email or d.get("sub") != r["sub_sent"] or \
                d.get("grant") != r["grant"]:
            self.v(["C20"], "claim-overwritten", "%s: a claims source changed %s" % (
                label, [k for k in ("email", "sub", "grant") if k in d]))

    def _adopt(self, rec, m, op, front, tok, res):
        """The model's session after a successful login."""
        t = m["tokens"]
        now = int(self.w.rp_now())
        if front:
            if front.get("at"):
                t["front_at"] = front["at"]
                ei = front.get("expires_in")
                t0 = int(K.T0 + rec["t0"] + rec["off0"])
                t["front_exp"] = t0 + int(ei) if ei else None
                t["front_slop"] = max(0, now - t0)
            if front.get("mid"):
                t["mid"] = front["mid"]
        if tok:
            t["at"] = tok["at"]
            self._set_exp(t, rec, tok)
            if tok.get("rt"):
                t["rt"] = tok["rt"]
            if tok.get("mid"):
                t["mid"] = tok["mid"]
        g = op.grants.get(m["grant"])
        if g is not None:
            # what the RP can know: 'code token' yields no ID Token
            seen = t.get("mid") or (isinstance(res, dict) and res.get("userinfo") and
                                    op.style not in ("linkedin", "github"))
            m["sub"] = g.sub if seen else None
            m["sid"] = g.sid if op.cfg.get("sid") and t.get("mid") else None
        m["status"] = "done"
        m["t_done"] = self.w.k.now
        m["order"] = self.w.k.steps
        m["unsure"] = bool(rec["overlap"] and not rec.get("twice"))
        m["t_tok"] = (rec["t0"], self.w.k.now)

    def _set_exp(self, t, rec, tok):
        """Expiry counts from the answer's arrival; keys may be fetched before it is recorded."""
        t1 = self.w.rp_now()
        t0 = min([x.rp_t for x in rec["exchanges"] if x.ep == "token" and x.meta is tok] or [t1])
        t["exp"] = int(t0) + int(tok["expires_in"]) if tok.get("expires_in") else None
        t["slop"] = max(0, t1 - t0)

    def _check_held(self, m, rec, props):
        """What the session held before is still there (read from the RP's public calls)."""
        st = m["state"]
        t = m["tokens"]
        cur = [z for z in (t.get("at"), t.get("front_at")) if z]
        if not cur:
            return
        try:
            got = self.w.app.probe(lambda r: r.get_valid_access_token(st))[0]
        except Exception:
            return
        if got not in cur:
            self.v(props, "token-lost", "%s: access token changed" % m["label"])

    # other calls -------------------------------------------------------------------------
    def userinfo_done(self, rec, m):
        kind, res = rec["out"]
        if kind == "crashed":
            return
        rec["judged"] = True
        op = self.w.ops[m["op"]]
        label = m["label"]
        uis = [x for x in rec["exchanges"] if x.ep == "userinfo"]
        ui_rec = op.userinfos.get(uis[-1].meta.get("uid")) if uis else None
        fatal = [x for x in uis if self.fatal(x)]
        mism = None
        if ui_rec and m["tokens"].get("mid"):
            idsub = op.minted[m["tokens"]["mid"]]["payload"]["sub"]
            if ui_rec["sub_sent"] != idsub:
                mism = "sub %r, ID Token %r" % (ui_rec["sub_sent"], idsub)
        if ui_rec and ui_rec["bad"] and ui_rec["bad"].startswith("sig"):
            mism = "signature " + ui_rec["bad"]
        self.ev("C03", "C12")
        if kind == "ok":
            if fatal:
                self.v(["C12"], "failure-is-success", "%s: get_user_info succeeds although "
                       "userinfo answered %s %s" % (label, fatal[0].status,
                                                    fatal[0].meta.get("mut") or
                                                    fatal[0].meta.get("resp")))
                return
            if mism and not m["unsure"]:
                self.v(["C03"], "userinfo-other-subject", "%s: %s (refreshes: %d)" % (
                    label, mism, m.get("refreshes", 0)))
            d = _plain(res)
            self.judge_userinfo(rec, m, op, label, d, ui_rec)
            return d
        if mism:
            if not rec["overlap"] and rec["before"] is not None:
                after = self.look(m["state"])
                if after != rec["before"]:
                    self.v(["C03", "C12"], "refused-userinfo-stored", "%s: %s" % (label, mism))
        elif fatal or rec["faults"]:
            if not rec["overlap"] and self.look(m["state"]) != rec["before"]:
                self.v(["C12"], "failure-changes-session", "%s: a failed userinfo call changed "
                       "the session" % label)
        elif not m["unsure"] and not rec["dirty"] and not rec["overlap"]:
            t = m["tokens"]
            if t.get("at") or t.get("front_at"):
                base = ["C04", "C03"]
                if m.get("refreshes"):
                    base.append("C09")
                if op.cfg.get("rp_dpop"):
                    base.append("C16")
                self.v(self.tags(m, rec, base), "userinfo-fails", "%s: %r" % (label, res))

    def refresh_done(self, rec, m):
        kind, res = rec["out"]
        label = m["label"]
        op = self.w.ops[m["op"]]
        if kind == "crashed":
            m["unsure"] = True
            return
        rec["judged"] = True
        toks = [x for x in rec["exchanges"] if x.ep == "token"]
        tok = toks[-1].meta if toks and toks[-1].meta.get("kind") == "token" and not \
            toks[-1].meta.get("err") and toks[-1].status is not None else None
        fatal = [x for x in toks if self.fatal(x)]
        bad = None
        other = None
        vd = "ok"
        if tok and tok.get("mid"):
            r = op.minted[tok["mid"]]
            mm = dict(m)
            if "nonce" not in r["payload"]:
                mm["nonce"] = None
            vd = self.idt_verdict(r, mm, rec)
            if vd.startswith("bad"):
                bad = vd
            if r["payload"]["sub"] != m["sub"] and m["tokens"].get("mid"):
                other = r["payload"]["sub"]
        self.ev("C09", "C12")
        t = m["tokens"]
        if kind == "ok":
            if not t.get("rt"):
                if not m["unsure"]:
                    self.v(["C09", "C12"], "refresh-from-nothing", "%s has no refresh token, yet "
                           "refresh succeeds" % label)
                return
            if fatal:
                self.v(["C12", "C09"], "failure-is-success", "%s: refresh succeeds although token "
                       "endpoint answered %s %s" % (label, fatal[0].status,
                                                    fatal[0].meta.get("resp") or
                                                    fatal[0].meta.get("mut")))
                m["unsure"] = True
                return
            if other:
                self.v(["C03"], "refresh-other-subject", "%s: refreshed ID Token names %s"
                       % (label, other))
                m["unsure"] = True
            if bad:
                self.v(["C02", "C03"], "bad-refreshed-id-token", "%s: %s" % (label, bad))
                m["unsure"] = True
            if tok is None:
                self.v(["C12", "C09"], "refresh-without-answer", "%s" % label)
                return
            d = _plain(res)
            if d.get("access_token") != tok["at"]:
                self.v(["C04", "C09"], "refresh-other-token", "%s: refresh returns a token the "
                       "provider did not issue now" % label)
            t.setdefault("old", [])
            t["old"] = t["old"] + [z for z in (t.get("at"),) if z]
            t["at"] = tok["at"]
            self._set_exp(t, rec, tok)
            if tok.get("rt"):
                t["rt"] = tok["rt"]
            if tok.get("mid") and not bad:
                t["mid"] = tok["mid"]
            m["refreshes"] = m.get("refreshes", 0) + 1
            m["t_tok"] = (rec["t0"], self.w.k.now)
            return
        if not rec["overlap"] and rec["before"] is not None:
            after = self.look(m["state"])
            if after != rec["before"]:
                self.v(["C09", "C12"] + (["C03"] if other else []), "failed-refresh-changes",
                       "%s: a failed refresh changed the session (%s)" % (label, _short(res)))
        if not (fatal or rec["faults"] or bad or other or m["unsure"] or rec["overlap"] or
                rec["dirty"] or vd == "edge"):
            if t.get("rt") and not (toks and toks[-1].meta.get("err")):
                self.v(self.tags(m, rec, ["C09", "C04"]), "refresh-fails", "%s (%d before): %r"
                       % (label, m.get("refreshes", 0), res))

    def times(self, rec):
        """The earliest and the latest time the RP's clock showed during the call."""
        w = self.w
        t0 = rec["t0"]
        ts = [K.T0 + t0 + w.offset_at(t0), w.rp_now()]
        prev = w.offset_at(t0)
        for t, o in w.offsets:
            if t >= t0 - 1e-9:
                ts += [K.T0 + t + prev, K.T0 + t + o]
                prev = o
        return min(ts), max(ts)

    def valid_token_done(self, rec, m):
        kind, res = rec["out"]
        if kind == "crashed" or rec["overlap"]:
            return
        rec["judged"] = True
        label = m["label"]
        op = self.w.ops[m["op"]]
        lo, now = self.times(rec)
        t = m["tokens"]
        g = op.grants.get(m["grant"])
        if kind == "ok":
            try:
                tok, exp = res[0], res[1]
            except Exception:
                self.v(["C08"], "valid-token-shape", "%s: %r" % (label, res))
                return
            self.ev("C08")
            if g is None or tok not in g.ats:
                self.v(["C08", "C04"], "token-never-received", "%s: reports an access token this "
                       "session never received" % label)
                return
            if tok in t.get("old", []):
                self.v(["C09", "C08"], "replaced-token-reported", "%s: reports the access token "
                       "replaced by a refresh" % label)
                return
        if m["unsure"] or m["status"] == "failed":
            return
        if any(m["t_tok"][0] - .001 <= z <= m["t_tok"][1] + .001 for z, _ in self.w.offsets[1:]):
            return      # the clock jumped while the token was being fetched
        cur = []
        slop = 3
        for a, e, z in (("at", "exp", "slop"), ("front_at", "front_exp", "front_slop")):
            if t.get(a):
                cur.append((t[a], t.get(e)))
                slop = max(slop, 3 + t.get(z, 0))
        if any(e is not None and lo - slop <= e <= now + slop for _, e in cur):
            return
        valid = [(a, e) for a, e in cur if e is None or e > now]
        self.ev("C08")
        p = ["C08"] + (["C11"] if m.get("restarted") else []) + \
            (["C09"] if m.get("refreshes") else [])
        if kind == "ok":
            hit = [(a, e) for a, e in valid if a == tok]
            if not hit:
                self.v(p, "invalid-token-reported", "%s: reports an access token that is "
                       "%s at %d" % (label, "expired" if tok in [a for a, _ in cur] else
                                     "not current", now))
            else:
                e = hit[0][1]
                if (e is None and exp) or (e is not None and abs(exp - e) > slop):
                    self.v(p, "wrong-expiry", "%s: expiry %s reported, %s computed"
                           % (label, exp, e))
        elif valid:
            self.v(p, "valid-token-denied", "%s: holds a valid access token, yet %r" % (label, res))

    def active_done(self, rec, m):
        kind, res = rec["out"]
        if kind == "crashed" or rec["overlap"] or m["unsure"]:
            return
        rec["judged"] = True
        op = self.w.ops[m["op"]]
        mid = m["tokens"].get("mid")
        lo, now = self.times(rec)
        p = ["C08"] + (["C11"] if m.get("restarted") else []) + \
            (["C09"] if m.get("refreshes") else [])
        self.ev("C08")
        if kind == "err":
            self.v(p, "active-raises", "%s: has_active_authentication raised %r"
                   % (m["label"], res))
            return
        if not mid:
            if res:
                self.v(p + ["C02"], "active-without-token", "%s: no ID Token, yet authentication "
                       "active" % m["label"])
            return
        exp = op.minted[mid]["payload"]["exp"]
        if lo - 3 <= exp <= now + 3:
            return
        if bool(res) != (exp > now):
            self.v(p, "active-wrong", "%s: authentication reported %s, ID Token exp is %+d s"
                   % (m["label"], res, exp - now))

    def logout_done(self, rec, m, plru):
        kind, res = rec["out"]
        if kind == "crashed" or rec["overlap"]:
            return
        rec["judged"] = True
        op = self.w.ops[m["op"]]
        label = m["label"]
        if not op.cfg.get("end_session"):
            if kind == "ok":
                self.v(["C10"], "logout-nowhere", "%s: logout gives a URL though op%d has no "
                       "end-session endpoint" % (label, op.i))
            return
        self.ev("C10")
        if kind == "err":
            if not m["unsure"]:
                self.v(self.tags(m, rec, ["C10"]), "logout-fails", "%s: %r" % (label, res))
            return
        url = res.get("url", "")
        w = self.w
        w.sent.append((op.i, "logout-url", url + "\n" + _unq(url), None))
        if url.split("?")[0] != op.base + "/endsession":
            self.v(["C10", "C13"], "logout-endpoint", "%s: %s" % (label, url.split("?")[0]))
            return
        q = dict(parse_qsl(urlsplit(url).query))
        hint = q.get("id_token_hint")
        mid = m["tokens"].get("mid")
        if not m["unsure"]:
            want = op.minted[mid]["jwt"] if mid else None
            if hint != want:
                g = None
                try:
                    g = jose.decode(hint)[1].get("grant") if hint else None
                except jose.Bad:
                    pass
                p = ["C10"] + (["C09"] if m.get("refreshes") else []) + \
                    (["C04"] if g and g != m["grant"] else []) + \
                    (["C11"] if m.get("restarted") else [])
                self.v(p, "logout-hint", "%s: hint %s (refreshes %d)" % (
                    label, "missing" if not hint else "is the ID Token of %s" % g
                    if g != m["grant"] else "is not the latest", m.get("refreshes", 0)))
        ls = q.get("state")
        if not ls or ls in self.lstates or ls in self.all:
            self.v(["C10", "C05"], "logout-state", "%s: logout state %s" % (
                label, "missing" if not ls else "used before"))
            return
        self.lstates.add(ls)
        self.fresh("logout state", ls, rec)
        m["logout"] = m["logout"] + [ls]
        st = m["state"]

        def back(r):
            return [c.client_get("service_context").state.get_state_by_logout_state(ls)
                    for i, c in r.issuer2rp.items() if i == op.issuer][0]
        try:
            got = w.app.probe(back)
        except Exception as e:
            got = type(e).__name__
        if got != st:
            self.v(["C10"], "logout-state-unbound", "%s: logout state maps to %s" % (label, got))
        cl = op.clients[m["cid"]]
        want = [plru] if plru else (cl["meta"].get("post_logout_redirect_uris") or (
            ["https://rp.sim/post_logout/static%d" % op.i] if cl.get("static") else []))
        got = q.get("post_logout_redirect_uri")
        if (want and got not in want) or (not want and got):
            self.v(["C10"], "post-logout-uri", "%s: %s, expected one of %s" % (label, got, want))

    def clear_done(self, rec, m, others):
        kind, res = rec["out"]
        if kind == "crashed":
            m["unsure"] = True
            return
        rec["judged"] = True
        self.ev("C22")
        st, label = m["state"], m["label"]
        op = self.w.ops[m["op"]]
        if kind == "err":
            if not rec["overlap"] and not m["unsure"]:
                self.v(["C22"], "clear-fails", "%s: clear_session raised %r" % (label, res))
            return
        m["status"] = "cleared"
        del self.S[st]
        if self.look(st) is not None:
            self.v(["C22"], "clear-incomplete", "%s: still known after clear_session" % label)

        def lookups(r):
            out = []
            for c in r.issuer2rp.values():
                si = c.client_get("service_context").state
                for what, f, val in (("nonce", si.get_state_by_nonce, m["nonce"]),
                                     ("sub", si.get_state_by_sub, m["sub"]),
                                     ("sid", si.get_state_by_sid, m["sid"])) + tuple(
                        ("logout state", si.get_state_by_logout_state, z) for z in m["logout"]):
                    if not val:
                        continue
                    try:
                        if f(val) == st:
                            out.append(what)
                    except KeyError:
                        pass
            return out
        try:
            left = self.w.app.probe(lookups)
        except Exception as e:
            left = [type(e).__name__]
        if left:
            self.v(["C22", "C10"], "clear-leaves-refs", "%s: %s still leads to the removed session"
                   % (label, ", ".join(left)))
        if others is not None and not rec.get("conc") and not rec["overlap"]:
            for k, val in others.items():
                if k in self.S and self.look(k) != val:
                    self.v(["C22"], "clear-hits-other", "clearing %s changed %s"
                           % (label, self.S[k]["label"]))

    def bclogout_done(self, rec, op, g, how, mut, tok_state):
        """g: the grant the token is about."""
        kind, res = rec["out"]
        if kind == "crashed":
            return None
        rec["judged"] = True
        self.ev("C10")
        live = [m for m in self.S.values() if m["op"] == op.i and m["status"] == "done"]
        unsure = any(m["unsure"] for m in self.S.values() if m["op"] == op.i) or \
            any(c["op"] == op.i and c is not rec and c["name"] in ("callback", "clear")
                for c in self.active) or rec["dirty"] or rec["faults"] or \
            any(m["status"] == "failed" for m in self.S.values() if m["op"] == op.i)
        if mut:
            if mut in ("foreign_key", "foreign_op") and (len(self.w.ops) == 1 or
                                                         g.client["alg"] == "HS256"):
                mut = None
        if mut:
            if kind == "ok":
                self.v(["C10"], "bad-logout-token-accepted", "op%d: %s accepted, returned %s"
                       % (op.i, mut, self.S.get(res, {}).get("label", res)))
            return None
        by_sid = [m for m in live if m["sid"] and m["sid"] == g.sid and m["grant"] == g.gid]
        by_sub = [m for m in live if m["sub"] == g.sub]
        if how in ("sid", "both"):
            if by_sid:
                want = [by_sid[0]["state"]]
                must = True
            else:
                want, must = [], False
                if how == "both" and not op.cfg.get("sid"):
                    want = [m["state"] for m in by_sub]
        else:
            want = [m["state"] for m in by_sub]
            same = [m for m in self.all_by_sub(op, g.sub)]
            must = not op.style and bool(by_sub) and max(by_sub, key=lambda m: m["order"]) is not None and \
                not any(s not in self.S for s in same)
        if kind == "ok":
            if res not in want and not unsure:
                self.v(["C10", "C22"], "logout-wrong-session", "op%d: token for %s (%s) gives %s"
                       % (op.i, g.gid, how, self.S.get(res, {}).get("label", res)))
            return res if res in want else None
        if must and not unsure:
            skewed = len(self.w.offsets) > 1
            if not skewed:
                self.v(self.tags(None, rec, ["C10"]), "logout-token-refused",
                       "op%d: genuine logout token for %s (%s) refused: %r" % (op.i, g.gid, how,
                                                                              res))
        return None

    def all_by_sub(self, op, sub):
        out = []
        for g in op.grants.values():
            if getattr(g, "sub", None) == sub and g.state in self.all:
                out.append(g.state)
        return out

    def info_done(self, rec, m):
        kind, res = rec["out"]
        if kind == "crashed":
            return
        rec["judged"] = True
        self.ev("C04", "C22")
        if kind == "err":
            self.v(self.tags(m, rec, ["C22", "C14"]), "session-unknown", "%s: %r"
                   % (m["label"], res))
            return
        d = _plain(res)
        op = self.w.ops[m["op"]]
        if d.get("iss") != op.issuer:
            self.v(["C22", "C04"], "session-issuer", "%s: iss %s" % (m["label"], d.get("iss")))
        text = json.dumps(d, default=str)
        for g in op.grants.values():
            if g.gid != m["grant"] and getattr(g, "state", None) in self.all and \
                    m["grant"] is not None:
                for z in g.ats + g.rts:
                    if z in text:
                        self.v(["C04"], "foreign-token-in-session", "%s holds a token of %s"
                               % (m["label"], g.gid))
                        return


def _unq(u):
    from urllib.parse import unquote_plus
    return unquote_plus(u)


def _short(d):
    s = repr(d)
    return s if len(s) < 160 else s[:157] + "..."


def _plain(o):
    if hasattr(o, "to_dict"):
        try:
            return _plain(o.to_dict())
        except Exception:
            return dict(o)
    if isinstance(o, dict):
        return {k: _plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_plain(v) for v in o]
    return o
