"""Executes one scenario under the simulator (in the calling process; callers fork)."""
import copy
import os
import random
import shutil
import tempfile

from . import seams                     # must come first: installs the seams
from . import app as A
from . import kernel as K
from . import net as N
from . import op as O
from . import oracle as R
from . import rng

from oidcrp.rp_handler import backchannel_logout

FINAL_TRIES = 3


class Session:
    """What a browser session of one user knows."""

    def __init__(self, label, op, user):
        self.label, self.op, self.user = label, op, user
        self.state = None
        self.resp = None
        self.front = None
        self.consumed = False
        self.ui = None
        self.n = 0


class Runner:
    def __init__(self, sc, scratch, max_steps=60000):
        self.sc = sc
        N.reset_process(sc["seed"])
        self.k = K.Kernel(sc.get("sched"), max_steps)
        K.ACTIVE = self.k
        seams.W.entropy = rng.Entropy("os", sc["seed"])
        self.w = N.World(sc, self.k)
        self.o = R.Oracle(self.w)
        self.w.oracle = self.o
        seams.W.router = self.w.route
        self.w.no_persist = sc.get("no_persist", 0)
        self.app = A.App(self.w, scratch)
        self.w.app = self.app
        self.app.no_persist = sc.get("no_persist", 0)
        for op in self.w.ops:
            self.app.ckey[op.issuer] = op.cfg.get("cfgkey") or op.issuer
        seams.W.disk = self.app.disk_fault
        self.w.responses = []           # authorization responses seen by anybody
        self.logins = 0
        self.begun = 0
        self.finals = {}

    # ---- the run ------------------------------------------------------------------
    def go(self):
        pre = self.sc.get("preempt")
        if "worker" in self.sc:
            def fork(task):
                task.data["idle"] = True
                seams.W.entropy.label = ("os", self.sc["seed"], self.sc["worker"])
            self.k.spawn("fork", fork, self.sc["fork"])
        for t in self.sc["tasks"]:
            self.k.spawn(t["id"], getattr(self, "t_" + t["kind"])(t), t.get("at", 0))
        if pre:
            seams.lines_on()
        try:
            self.k.run()
        finally:
            if pre:
                seams.lines_off()
        if not self.k.capped:
            self.o.final_checks()
        return self

    def quiet(self, except_=()):
        """True when only the callers of this are still running."""
        return all(t.done or t.data.get("idle") for t in self.k.tasks)

    # ---- timers ------------------------------------------------------------------
    def t_crash(self, t):
        def f(task):
            task.data["idle"] = True
            self.app.crash()
        return f

    def t_dump(self, t):
        def f(task):
            task.data["idle"] = True
            if self.o.active:
                self.w.cov.add("dump-mid-call")
            self.app.persist()
        return f

    def t_reseed(self, t):
        """The application (or a library of it) re-seeds the process-wide random module."""
        def f(task):
            task.data["idle"] = True
            random.seed(t["x"])
            self.w.fired("random:reseed")
        return f

    def t_jump(self, t):
        def f(task):
            task.data["idle"] = True
            self.w.jump(t["d"])
        return f

    def t_rotate(self, t):
        def f(task):
            task.data["idle"] = True
            op = self.w.ops[t["op"]]
            op.rotate()
            self.w.fired("keys:rotate")
            self.o.on_rotate(op.i)
        return f

    # ---- users ---------------------------------------------------------------------
    def t_user(self, t):
        def f(task):
            s = Session(t["id"], t["op"], t["user"])
            for st in t["steps"]:
                if not getattr(self, "s_" + st["s"])(s, st, task):
                    if st.get("stop", st["s"] in ("begin", "auth")):
                        break
        return f

    def t_final(self, t):
        """After everything else: the faults are over, fresh logins must work."""
        def f(task):
            task.data["idle"] = True
            while not self.quiet():
                self.k.sleep(1)
            if len(self.w.offsets) > 1 and not self.w.faults_off:
                self.w.heal_clock()
            self.w.faults_off = True
            # keys that were fetched while the clock was ahead count as fresh until it is that late
            offs = [o for _, o in self.w.offsets]
            self.k.sleep(t.get("gap", 400) + max(offs) - offs[-1])
            op = self.w.ops[t["op"]]
            why = []
            for i in range(FINAL_TRIES):
                s = Session("%s.%d" % (t["id"], i), t["op"], t["user"])
                ok = self.s_begin(s, {"how": t.get("how", "key")}, task, collect=why) and \
                    self.s_auth(s, {}, task) and self.s_cb(s, {}, task, collect=why)
                if ok:
                    self.o.ev("C12")
                    self.finals[op.i] = i + 1
                    return
                self.k.sleep(1)
            p = ["C12", "C13"] if not self.begun_final(s) else ["C12"]
            if self.o.restarts:
                p.append("C11")
            if op.i in self.o.rotated:
                p.append("C15")
            self.w.v(p, "no-recovery", "op%d: %d fresh logins failed after all faults had stopped: "
                     "%s" % (op.i, FINAL_TRIES, why[-1:]))
        return f

    @staticmethod
    def begun_final(s):
        return s.state is not None

    # ---- steps of a session -----------------------------------------------------------
    def model(self, s):
        return self.o.S.get(s.state) if s.state else None

    def s_wait(self, s, st, task):
        self.k.sleep(st["d"])
        return True

    def s_burst(self, s, st, task):
        """Many people start a login and walk away."""
        for i in range(st["n"]):
            x = Session("%s.%d" % (s.label, i), s.op, s.user)
            self.o.skip_known = bool(i % 25) and i + 1 < st["n"]
            try:
                if not self.s_begin(x, {"how": "key"}, task):
                    break
            finally:
                self.o.skip_known = False
        return True

    def s_begin(self, s, st, task, collect=None):
        op = self.w.ops[s.op]
        c = op.cfg
        how = st.get("how", "iss")
        key = c.get("cfgkey") or op.issuer
        if c["mode"] != "dyn" and op.i not in self.o.setup:
            if key != op.issuer or how != "iss":
                how = "key"
        kw = {}
        if how == "iss":
            kw["issuer_id"] = op.issuer
        elif how == "slash":
            kw["issuer_id"] = op.issuer[:-1] if op.issuer.endswith("/") else op.issuer + "/"
        elif how == "key":
            kw["issuer_id"] = key
        elif how == "wf":
            kw["user_id"] = "user%d@%s" % (s.user, op.host) if s.user % 2 else \
                "https://%s/user%d" % (op.host, s.user)
        args = copy.deepcopy(st.get("args")) or {}
        if args.get("nonce"):
            args["nonce"] = "app-%s-%d-nonce-of-the-application" % (s.label, s.n + 1)
        beh = copy.deepcopy(st.get("beh"))
        ro = (beh or {}).get("request_param")
        want = {"reqobj": ro, "may_fail": st.get("may_fail")}
        if c.get("par"):
            want["reqobj"] = "par"
        call_args = copy.deepcopy(args) if args or s.user % 3 == 0 else None
        out, rec = self.app.call(
            "begin", lambda r: r.begin(req_args=call_args, behaviour_args=beh, **kw),
            op=op.i, how=how)
        s.n += 1
        label = s.label if s.n == 1 else "%s#%d" % (s.label, s.n)
        others = [m for m in self.o.S.values() if m["op"] == op.i and m["status"] == "begun"]
        state = self.o.begin_done(rec, label, s.user, how, args, None, want)
        if out[0] == "err" and collect is not None:
            collect.append("begin: %r" % (out[1],))
        if state is None:
            return False
        for m in others:
            m["crowd"] = True
        self.begun += 1
        s.state = state
        s.resp, s.consumed, s.front = None, False, None
        self.app.persist()
        return True

    def s_auth(self, s, st, task):
        m = self.model(s)
        if m is None:
            return self.lost(s)
        op = self.w.ops[s.op]
        if m["cid"] not in op.clients:
            return False
        if st.get("deny"):
            s.resp = {"state": m["state"], "error": st["deny"]}
            s.front = {}
            return True
        self.o.at_provider(m, op)
        uri, mode, resp, g = op.authorize(s.user, m["params"])
        if uri != m["redirect_uri"]:
            self.w.v(["C19", "C17"], "redirect-differs", "%s" % s.label)
        m["grant"] = g.gid
        op.front_idt(g, resp, st.get("idt"))
        s.front = {}
        if "id_token" in resp:
            s.front["mid"] = g.idts[-1]
        if "access_token" in resp:
            s.front["at"] = resp["access_token"]
            s.front["expires_in"] = resp.get("expires_in")
        s.resp = {k: str(v) for k, v in resp.items()}
        s.consumed = False
        s.g = g
        self.w.responses.append({"label": s.label, "op": s.op, "resp": dict(s.resp),
                                 "state": m["state"], "user": s.user, "gid": g.gid})
        return True

    def lost(self, s):
        """The model has no such session (any more): the RP must not know it either."""
        if s.state is None or s.state in self.o.S:
            return False
        seen = self.o.look(s.state)
        self.o.ev("C11")
        if seen is not None and s.state in self.o.undumped:
            self.w.v(["C11"], "undumped-session-known", "%s is not in the dump but known after "
                     "the restart" % s.label)
        return False

    def s_cb(self, s, st, task, collect=None):
        if s.resp is None:
            return False
        op = self.w.ops[s.op]
        resp = dict(s.resp)
        expect = "accept"
        issuer = op.issuer
        alter = st.get("alter")
        n = len(self.w.ops)
        if alter == "no_state":
            resp.pop("state", None)
            expect = "refuse:no state"
        elif alter == "iss_bad":
            resp["iss"] = "https://evil.sim"
            resp.setdefault("client_id", self.model(s)["cid"] if self.model(s) else "x")
            expect = "refuse:iss of another issuer"
        elif alter == "cid_bad":
            resp["client_id"] = "someone-else"
            resp.setdefault("iss", op.issuer)
            expect = "refuse:client_id of another client"
        elif alter == "state_trunc":
            resp["state"] = resp["state"][:-1]
            expect = "refuse:unknown state"
        elif alter == "other_issuer" and n > 1:
            issuer = self.w.ops[(s.op + 1) % n].issuer
            expect = "refuse:state of another issuer"
        elif alter:
            return True
        if s.state not in self.o.S and not alter:
            # the model no longer knows this login (cleared, or lost in a restart)
            expect = "refuse:unknown state"
        info = {}
        beh = {"collect_tokens": True} if st.get("collect") else None
        g = getattr(s, "g", None)
        m = self.model(s)
        twice = s.consumed
        if alter is None:
            s.consumed = True

        def fn(r):
            return r.finalize(issuer, resp, behaviour_args=beh) if beh else \
                r.finalize(issuer, resp)
        gen = self.app.gen
        opi = op.i
        out, rec = self.app.call("callback", fn, state=resp.get("state"), op=opi,
                                 session=s.label, alter=alter)
        rec["twice"] = twice
        if g is not None and op.now() - g.code_at > 590 if g is not None and g.code else False:
            rec["expired_code"] = True
        r = self.o.callback_done(rec, s.label, issuer, resp, expect, s.front)
        if out[0] == "err" and collect is not None:
            collect.append("callback: %r" % (out[1],))
        elif out[0] == "ok" and r != "ok" and collect is not None:
            collect.append("callback: %r" % (out[1],))
        if r == "ok":
            self.logins += 1
            if isinstance(out[1], dict):
                s.ui = out[1].get("userinfo")
        self.app.persist()
        if alter:
            return True
        return r == "ok"

    def s_dup_cb(self, s, st, task):
        """The browser delivers the same response twice at the same time."""
        if s.resp is None:
            return False
        s2 = Session(s.label + "'", s.op, s.user)
        s2.__dict__.update({k: v for k, v in s.__dict__.items() if k != "label"})
        s2.label = s.label + "'"
        s2.consumed = True
        s.dup = True

        def f(t):
            self.s_cb(s2, {}, t)
        self.k.spawn(s.label + "'", f, self.k.now + st.get("d", 0))
        s.consumed = True
        return self.s_cb(s, {}, task)

    def _done(self, s):
        m = self.model(s)
        return m if m is not None and m["status"] == "done" else None

    def s_userinfo(self, s, st, task):
        m = self._done(s)
        if m is None or not self.w.ops[s.op].cfg.get("ui"):
            return True
        at = st.get("tok") and (m["tokens"].get("at") or m["tokens"].get("front_at"))
        out, rec = self.app.call(
            "userinfo", lambda r: r.get_user_info(s.state, access_token=at) if at else
            r.get_user_info(s.state), state=s.state, op=s.op)
        d = self.o.userinfo_done(rec, m) if m is self.model(s) or out[0] != "crashed" else None
        if out[0] == "ok":
            s.ui = out[1]
        self.app.persist()
        return True

    def s_refresh(self, s, st, task):
        m = self._done(s)
        if m is None:
            return True
        if m["tokens"].get("rt") is None and not st.get("force"):
            return True
        scope = st.get("scope")
        out, rec = self.app.call(
            "refresh", lambda r: r.refresh_access_token(s.state, scope=scope) if scope else
            r.refresh_access_token(s.state), state=s.state, op=s.op, scope=scope)
        m2 = self.model(s)
        if m2 is not None:
            self.o.refresh_done(rec, m2)
        self.app.persist()
        return True

    def s_valid_token(self, s, st, task):
        m = self.model(s)
        if m is None:
            return True
        out, rec = self.app.call("valid_token", lambda r: r.get_valid_access_token(s.state),
                                 state=s.state, op=s.op)
        if self.model(s) is m:
            self.o.valid_token_done(rec, m)
        return True

    def s_active(self, s, st, task):
        m = self._done(s)
        if m is None:
            return True
        out, rec = self.app.call("active", lambda r: r.has_active_authentication(s.state),
                                 state=s.state, op=s.op)
        if self.model(s) is m:
            self.o.active_done(rec, m)
        return True

    def s_regread(self, s, st, task):
        op = self.w.ops[s.op]
        su = self.o.setup.get(op.i)
        if su is None or op.cfg.get("static") or \
                not self.app.probe(lambda r: op.issuer in r.issuer2rp):
            return True
        out, rec = self.app.call(
            "regread", lambda r: self.app.client_of(r, op.issuer).do_request("registration_read"),
            op=op.i)
        self.o.regread_done(rec, op)
        self.app.persist()
        return True

    def s_info(self, s, st, task):
        m = self.model(s)
        if m is None:
            self.lost(s)
            return True
        out, rec = self.app.call("info", lambda r: r.get_session_information(s.state),
                                 state=s.state, op=s.op)
        if self.model(s) is m:
            self.o.info_done(rec, m)
        return True

    def s_logout(self, s, st, task):
        m = self._done(s)
        if m is None:
            return True
        plru = st.get("plru")

        def fn(r):
            if plru:
                return r.logout(s.state, post_logout_redirect_uri=plru)
            if st.get("close"):
                return r.close(s.state)
            return r.logout(s.state)
        out, rec = self.app.call("logout", fn, state=s.state, op=s.op)
        if self.model(s) is m:
            self.o.logout_done(rec, m, plru)
        self.app.persist()
        return True

    def s_clear(self, s, st, task):
        m = self.model(s)
        if m is None:
            return True
        others = self.o.others(s.state)
        for c in self.o.active:
            if c["state"] == s.state:
                c["cleared"] = True
        out, rec = self.app.call("clear", lambda r: r.clear_session(s.state), state=s.state,
                                 op=s.op)
        if self.model(s) is m:
            self.o.clear_done(rec, m, others)
        self.app.persist()
        return True

    def s_bclogout(self, s, st, task):
        """The provider reports a logout of this user's session."""
        g = getattr(s, "g", None)
        op = self.w.ops[s.op]
        if g is None or not self.o.setup.get(s.op):
            return True
        how, mut = st.get("how", "both"), st.get("mut")
        if how == "sid" and not op.cfg.get("sid"):
            how = "sub"
        try:
            tok = op.logout_token(g, how, mut)
        except IndexError:
            return True
        iss = op.issuer

        def fn(r):
            return backchannel_logout(r.issuer2rp[iss], request_args={"logout_token": tok})
        out, rec = self.app.call("bclogout", fn, op=s.op, session=s.label)
        st2 = self.o.bclogout_done(rec, op, g, how, mut, s.state)
        if st2 and st.get("clear", True):
            m = self.o.S.get(st2)
            if m is not None:
                s2 = Session(m["label"], m["op"], m["user"])
                s2.state = st2
                self.s_clear(s2, {}, task)
        return True

    def s_distclaims(self, s, st, task):
        m = self._done(s)
        op = self.w.ops[s.op]
        if m is None or s.ui is None or not op.cfg.get("claims") or not op.cfg.get("ui"):
            return True
        iss = op.issuer
        ui = s.ui
        if not hasattr(ui, "get") or "_claim_sources" not in ui:
            return True
        before = R._plain(ui)
        url = []

        def cb(endpoint):
            url.append(endpoint)
            return "cbtoken-%s" % s.label
        nocb = st.get("nocb")

        def fn(r):
            return r.issuer2rp[iss].fetch_distributed_claims(ui, None if nocb else cb)
        out, rec = self.app.call("distclaims", fn, op=s.op, session=s.label)
        if out[0] == "crashed":
            return True
        rec_ui = op.userinfos.get(before.get("uid"))
        if rec_ui is None:
            return True
        after = R._plain(ui)
        bad = [x for x in rec["exchanges"] if x.ep == "claims" and self.o.fatal(x)]
        if out[0] == "ok":
            d = R._plain(out[1])
            self.o.judge_claims(m, op, s.label, d, rec_ui,
                                "ok" if not bad and not rec["faults"] else False)
            self.o.ev("C20")
            if any(c in d and c not in before for x in bad
                   for c in O.SOURCE_CLAIMS[[q.host for q in self.w.srcs].index(
                       x.url.split("/")[2])]):
                self.w.v(["C20"], "claims-from-failure", "%s: claims added although the source "
                         "answered %s" % (s.label, bad[0].status))
        else:
            d = after
            self.o.judge_claims(m, op, s.label, d, rec_ui, False)
            dist_src = [x for x in rec["exchanges"] if x.ep == "claims"]
            if not rec["faults"] and not bad and dist_src and not \
                    any("dist_missing" in x.url for x in dist_src):
                self.w.v(["C20"], "distributed-claims-fail", "%s: %r" % (s.label, out[1]))
        return True

    # ---- attackers ----------------------------------------------------------------------
    def t_attack(self, t):
        def f(task):
            for st in t["steps"]:
                getattr(self, "a_" + st["a"])(t, st, task)
        return f

    def _victim(self, st, need_code=False):
        rs = [r for r in self.w.responses if not st.get("op") or r["op"] == st["op"] - 1]
        if not rs:
            return None
        return rs[st.get("pick", 0) % len(rs)]

    def a_wait(self, t, st, task):
        self.k.sleep(st["d"])

    def _deliver(self, t, issuer, resp, why, opi):
        out, rec = self.app.call("callback", lambda r: r.finalize(issuer, resp),
                                 state=resp.get("state"), op=opi, session=t["id"], attack=why)
        self.o.callback_done(rec, t["id"], issuer, resp, "refuse:" + why, None, attack=why)
        self.w.cov.add("attack:" + why)
        self.app.persist()

    def a_cross(self, t, st, task):
        """A victim's response delivered to the callback of another issuer."""
        r = self._victim(st)
        if r is None or len(self.w.ops) < 2:
            return
        o = self.w.ops[(r["op"] + 1 + st.get("pick", 0) % (len(self.w.ops) - 1)) %
                       len(self.w.ops)]
        if not self.o.setup.get(o.i):
            return
        resp = dict(r["resp"])
        if st.get("err"):
            resp = {"state": resp["state"], "error": "access_denied"}
        elif st.get("code"):
            resp = {"state": resp["state"], "code": "attacker-code"}
        self._deliver(t, o.issuer, resp, "state of another issuer", o.i)

    def a_unknown(self, t, st, task):
        r = self._victim(st)
        o = self.w.ops[(r["op"] if r else 0)]
        if not self.o.setup.get(o.i):
            return
        resp = {"state": "made-up-%d" % st.get("pick", 0), "code": "made-up"}
        if st.get("err"):
            resp = {"state": "made-up", "error": "access_denied"}
        elif r and st.get("steal"):
            resp = dict(r["resp"], state=r["state"][::-1])
        self._deliver(t, o.issuer, resp, "unknown state", o.i)

    def a_missing(self, t, st, task):
        r = self._victim(st)
        if r is None:
            return
        o = self.w.ops[r["op"]]
        resp = dict(r["resp"])
        resp.pop("state")
        self._deliver(t, o.issuer, resp, "no state", o.i)

    def a_contra(self, t, st, task):
        """A response whose iss / client_id contradict the login it names."""
        r = self._victim(st)
        if r is None:
            return
        o = self.w.ops[r["op"]]
        resp = dict(r["resp"])
        m = self.o.S.get(r["state"])
        if m is None:
            return
        if st.get("what") == "cid":
            resp.update(iss=o.issuer, client_id="attacker-client")
        else:
            resp.update(iss="https://evil.sim", client_id=m["cid"])
        self._deliver(t, o.issuer, resp, "contradicting " + st.get("what", "iss"), o.i)

    def a_inject(self, t, st, task):
        """The attacker logs in himself and plants his code in the victim's session."""
        def open_(z):
            c = self.w.ops[z["op"]].cfg if z else {}
            if c.get("rtype") == "code token" or c.get("style") and not c.get("pkce"):
                return False    # neither nonce nor verifier protects these
            return z is not None and z["status"] == "begun" and not z.get("unsure") and \
                z["label"][:3] != "att" and \
                not any(c["state"] == z["state"] for c in self.o.active)
        for _ in range(st.get("tries", 1)):
            ms = sorted((z for z in self.o.S.values() if open_(z)), key=lambda z: z["label"])
            if ms:
                break
            self.k.sleep(0.2)
        else:
            return
        m = ms[st.get("pick", 0) % len(ms)]
        o = self.w.ops[m["op"]]
        r = {"state": m["state"]}
        a = Session(t["id"], o.i, t["user"])
        if not self.s_begin(a, {"how": "key"}, task) or not self.s_auth(a, {}, task):
            return
        m = self.o.S.get(r["state"])
        if not open_(m):
            return
        resp = dict(a.resp, state=r["state"])
        if "code" not in resp and "id_token" not in resp:
            return
        m["unsure"] = True
        front = dict(a.front)
        out, rec = self.app.call("callback", lambda q: q.finalize(o.issuer, resp),
                                 state=r["state"], op=o.i, session=t["id"], attack="injected code")
        m["unsure"] = True
        kind, res = rec["out"]
        rec["judged"] = True
        self.w.cov.add("attack:inject")
        self.o.ev("C02", "C01")
        if kind == "ok" and isinstance(res, dict) and "error" not in res:
            self.w.v(["C02", "C01", "C06"] if o.cfg.get("pkce") else ["C02", "C01"],
                     "injected-response-accepted", "%s: the response of %s completes the login of "
                     "%s" % (t["id"], a.label, m["label"]))
        m["status"] = "failed" if m["status"] == "begun" else m["status"]
        self.app.persist()

    def a_replay(self, t, st, task):
        """An already used response is delivered again."""
        r = self._victim(st)
        if r is None:
            return
        m = self.o.S.get(r["state"])
        o = self.w.ops[r["op"]]
        if m is None or m["status"] != "done" or m["grant"] != r["gid"]:
            return
        if any(c["state"] == r["state"] for c in self.o.active):
            return
        g = o.grants[r["gid"]]
        front = {}
        if "id_token" in r["resp"]:
            front["mid"] = [z for z in g.idts if o.minted[z]["front"]][0]
        if "access_token" in r["resp"]:
            front["at"] = r["resp"]["access_token"]
            front["expires_in"] = r["resp"].get("expires_in")
        out, rec = self.app.call("callback", lambda q: q.finalize(o.issuer, dict(r["resp"])),
                                 state=r["state"], op=o.i, session=t["id"])
        rec["twice"] = True
        if self.o.S.get(r["state"]) is m:
            self.o.callback_done(rec, t["id"], o.issuer, r["resp"], "accept", front)
        self.w.cov.add("attack:replay")
        self.app.persist()


def execute(sc, max_steps=60000):
    """-> result dict. Changes process-wide state: call it in a forked child."""
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="oidcsim-"))
    cwd = os.getcwd()
    try:
        os.mkdir(os.path.join(scratch, "requests"))
        os.mkdir(os.path.join(scratch, "req_uri"))
        os.chdir(scratch)
        r = Runner(sc, scratch, max_steps)
        err = None
        try:
            r.go()
        except K.HarnessError as e:
            err = str(e)
        k, w = r.k, r.w
        res = {"violations": w.violations, "evals": r.o.evals, "faults": w.fault_count,
               "simtime": k.now, "steps": k.steps, "lines": k.lines, "requests": w.requests,
               "inter": k.interleaving(), "cov": sorted(w.cov), "digest": k.digest(),
               "begun": r.begun, "logins": r.logins, "capped": k.capped,
               "restarts": r.o.restarts, "choices": k.choices, "points": k.points_hit,
               "finals": r.finals, "harness": ([err] if err else []) + w.harness,
               "log": k.log}
        if "worker" in sc:
            res["fresh"] = r.o.freshv
        return res
    finally:
        K.ACTIVE = None
        seams.W.disk = None
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
