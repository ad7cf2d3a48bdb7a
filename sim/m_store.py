"""C22: histories of session-store operations against a plain map, with restarts and threads.

Real: oidcrp.state_interface (and oidcmsg's messages and import/export). Simulated: the callers
(threads with statement preemption, each on sessions of its own), process crashes with only a dump
surviving - the latest or an older one."""
import copy
import json

from . import m_base
from . import rng

from oidcmsg.message import Message
from oidcmsg.oauth2 import AccessTokenResponse
from oidcmsg.oidc import AuthorizationRequest
from oidcmsg.oidc import OpenIDSchema
from oidcrp.state_interface import StateInterface

TYPES = ["auth_request", "auth_response", "token_response", "refresh_token_request",
         "refresh_token_response", "user_info", "token", "my_item"]
JSONT = TYPES[:6]
XT = ["nonce", "subject id", "session id", "logout state"]
STORE = {"nonce": "store_nonce2state", "subject id": "store_sub2state",
         "session id": "store_sid2state", "logout state": "store_logout_state2state"}
GET = {"nonce": "get_state_by_nonce", "subject id": "get_state_by_sub",
       "session id": "get_state_by_sid", "logout state": "get_state_by_logout_state"}
WRAP = {"nonce": "__%s__", "subject id": "==%s==", "session id": "..%s..",
        "logout state": "::%s::"}
PARAMS = ["access_token", "refresh_token", "id_token", "nonce", "scope", "sub", "redirect_uri",
          "x", "deep"]
FORMS = ["%s", "%s", "%s", "{%s}", "%s/ä☃", "a b %s", "%s\"q\"", "_%s_", "%s.=:", "ref%s",
         "{}%s", "%%s%s", "%s__", "..%s"]


def generate(prop, seed):
    s = rng.Stream("store", prop, seed)
    multi = s.chance(0.4)
    tasks = []
    nt = s.range(2, 4) if multi else 1
    cnt = [0]

    def uniq(p):
        cnt[0] += 1
        return "%s%dx%sz" % (p, cnt[0], "%04x" % s.below(1 << 16))

    for b in range(nt):
        keys = [s.pick(FORMS) % uniq("K") for _ in range(s.range(2, 4))]
        ids = [s.pick(FORMS) % uniq("I") for _ in range(s.range(3, 6))]
        steps = []
        for _ in range(s.range(8, 40)):
            x = s.weighted([("create", 4), ("auto", 1), ("item", 6), ("get", 5), ("iss", 3),
                            ("bind", 6), ("find", 6), ("remove", 2.5), ("extend", 3), ("multi", 3),
                            ("dump", 1.5), ("restart", 0 if multi else 1.2), ("odd", 0.7)])
            st = {"s": x, "key": s.below(8), "id": s.below(len(ids)), "x": s.pick(XT),
                  "typ": s.pick(TYPES)}
            if x == "item":
                st["form"] = s.pick(["msg", "msg", "dict", "json", "areq", "atr", "ui"])
                st["val"] = {}
                for p in s.sample(PARAMS, s.range(1, 4)):
                    st["val"][p] = s.weighted([(uniq("V"), 5), (cnt[0], 1),
                                               ([uniq("V"), "b"], 1), ({"k": [uniq("V")]}, 1),
                                               (True, 0.5), ("uni☃" + uniq("V"), 1)])
                if s.chance(0.3):
                    st["val"]["id_token"] = uniq("V")
                    st["val"]["__verified_id_token"] = {"sub": uniq("V"), "iss": "https://a.b"}
            elif x == "create" or x == "auto":
                st["iss"] = "https://%s.example.org/%s" % (uniq("i"), s.pick(["", "a/b", "ü"]))
            elif x in ("extend", "multi"):
                st["params"] = s.sample(PARAMS, s.range(1, 4))
                st["types"] = s.sample(JSONT, s.range(1, 4))
                st["orig"] = s.chance(0.3)
                st["have"] = s.sample(PARAMS, s.below(3))
            elif x == "restart":
                st["back"] = s.pick([0, 0, 0, 1, 2])
            steps.append(st)
        tasks.append({"id": "t%d" % b, "kind": "store", "at": 0, "keys": keys, "ids": ids,
                      "steps": steps})
    sc = {"v": 1, "seed": "%s-%s" % (prop, seed), "prop": prop, "tasks": tasks, "faults": [],
          "sched": {"seed": s.below(1 << 30)}, "faulty": any(
              st["s"] == "restart" for t in tasks for st in t["steps"])}
    if multi:
        sc["preempt"] = True
        sc["sched"]["gap"] = s.pick([4, 12, 40])
    return sc


class Sess:
    def __init__(self, iss):
        self.iss = iss
        self.items = {}
        self.ids = set()            # everything ever bound to it
        self.marks = set()          # strings only this session ever contained


class Sim(m_base.Mini):
    def __init__(self, sc):
        super().__init__(sc)
        self.db = StateInterface()
        self.M = {}                 # key -> Sess
        self.B = {}                 # (xtyp, value) -> key
        self.gone = []              # (what, marker strings) of removed sessions
        self.amb = set()            # (xtyp, value) of which the store may know too little
        self.dumps = []
        self.auto = []

    def call(self, fn, *a, **k):
        me = self.k.me()
        me.in_rp += 1
        try:
            return "ok", fn(*a, **k)
        except Exception as err:
            return "err", err
        finally:
            me.in_rp -= 1

    def task(self, t):
        def f(task):
            task.data["keys"] = list(t["keys"])
            for st in t["steps"]:
                keys = task.data["keys"]
                getattr(self, "s_" + st["s"])(keys[st["key"] % len(keys)], st, t, task)
            for k in sorted(k for k in self.M if k in task.data["keys"]):
                self.s_iss(k, None, t, task)
                for typ in sorted(self.M[k].items):
                    self.s_get(k, {"typ": typ}, t, task)
        return f

    def bad(self, kind, msg, restart=False):
        p = ["C22"]
        if self.restarts:
            p.append("C11")
        self.v(p, kind, msg)

    # ---- operations ---------------------------------------------------------------
    def s_create(self, key, st, t, task):
        if key in self.M:
            return
        r, v = self.call(self.db.create_state, st["iss"], key)
        self.ev("C22")
        self.k.event("create", key, r)
        if key.startswith("__") and key.endswith("__"):
            if r == "ok":
                self.bad("reserved-key-accepted", "create_state(%r)" % key)
            return
        if r != "ok" or v != key:
            self.bad("create-fails", "create_state(%r): %r" % (key, v))
            return
        self.M[key] = Sess(st["iss"])
        self.M[key].marks.add(st["iss"])

    def s_auto(self, key, st, t, task):
        r, v = self.call(self.db.create_state, st["iss"])
        self.ev("C22", "C05")
        self.k.event("auto", r)
        if r != "ok":
            self.bad("create-fails", "create_state(): %r" % (v,))
            return
        if v in self.M or v in self.auto:
            self.v(["C05", "C22"], "state-repeats", "create_state() returned %r again" % v)
        if len(v) < 20:
            self.v(["C05"], "value-short", "state %r" % v)
        self.auto.append(v)
        self.M[v] = Sess(st["iss"])
        self.M[v].marks.add(st["iss"])
        task.data["keys"].append(v)

    def s_iss(self, key, st, t, task):
        r, v = self.call(self.db.get_iss, key)
        self.ev("C22")
        self.k.event("iss", key, r, repr(v))
        m = self.M.get(key)
        if m is None:
            if r == "ok":
                self.bad("unknown-resolves", "get_iss(%r) of a session that does not exist: %r"
                         % (key, v))
            elif not isinstance(v, KeyError):
                self.bad("not-keyerror", "get_iss(%r): %r" % (key, v))
        elif r != "ok" or v != m.iss:
            self.bad("issuer-differs", "get_iss(%r): %r, stored %r" % (key, v, m.iss))

    @staticmethod
    def value(st):
        """-> (item to store, dict to expect, class to read it with)"""
        val = copy.deepcopy(st["val"])
        if st["form"] == "dict":
            return val, val, Message
        if st["form"] == "json":
            return json.dumps(val), val, Message
        if st["form"] == "areq":
            d = {"response_type": "code", "client_id": "c", "redirect_uri": "https://r/x",
                 "scope": ["openid", "email"], "state": "s"}
            d.update({k: v for k, v in val.items() if k in ("nonce", "x") and isinstance(v, str)})
            return AuthorizationRequest(**d), AuthorizationRequest(**d).to_dict(), \
                AuthorizationRequest
        if st["form"] == "atr":
            d = {"access_token": "at", "token_type": "Bearer", "expires_in": 60}
            d.update({k: v for k, v in val.items() if k in ("access_token", "refresh_token", "x")
                      and isinstance(v, str)})
            return AccessTokenResponse(**d), AccessTokenResponse(**d).to_dict(), \
                AccessTokenResponse
        if st["form"] == "ui":
            d = {"sub": "u"}
            d.update({k: v for k, v in val.items() if k in ("sub", "deep", "x") and
                      not isinstance(v, bool) and not (k == "sub" and not isinstance(v, str))})
            return OpenIDSchema(**d), OpenIDSchema(**d).to_dict(), OpenIDSchema
        return Message(**val), val, Message

    def s_item(self, key, st, t, task):
        m = self.M.get(key)
        if m is None:
            return
        item, want, cls = self.value(st)
        r, v = self.call(self.db.store_item, item, st["typ"], key)
        self.ev("C22")
        self.k.event("item", key, st["typ"], r)
        if r != "ok":
            self.bad("store-fails", "store_item(%s, %r): %r" % (st["typ"], key, v))
            return
        m.items[st["typ"]] = (want, cls)
        for x in rec_strings(want):
            if x.startswith("V") and x.endswith("z"):
                m.marks.add(x)

    def s_get(self, key, st, t, task):
        m = self.M.get(key)
        have = m.items.get(st["typ"]) if m else None
        cls = have[1] if have else Message
        r, v = self.call(self.db.get_item, cls, st["typ"], key)
        self.ev("C22")
        self.k.event("get", key, st["typ"], r)
        if have is None:
            if r == "ok":
                self.bad("unknown-resolves", "get_item(%s, %r) was never stored: %r"
                         % (st["typ"], key, v))
            elif not isinstance(v, KeyError):
                self.bad("not-keyerror", "get_item(%s, %r): %r" % (st["typ"], key, v))
            return
        if r != "ok":
            self.bad("item-lost", "get_item(%s, %r): %r" % (st["typ"], key, v))
        elif not isinstance(v, cls) or v.to_dict() != cls(**have[0]).to_dict():
            self.bad("item-differs", "get_item(%s, %r): %r, stored %r"
                     % (st["typ"], key, v, have[0]))

    def s_bind(self, key, st, t, task):
        m = self.M.get(key)
        if m is None:
            return
        val = t["ids"][st["id"]]
        b = (st["x"], val)
        fn = getattr(self.db, STORE[st["x"]])
        r, v = self.call(fn, val, key)
        self.ev("C22")
        self.k.event("bind", st["x"], val, key, r)
        if r != "ok":
            self.bad("store-fails", "%s(%r, %r): %r" % (STORE[st["x"]], val, key, v))
            return
        self.B[b] = key
        m.ids.add(b)

    def s_find(self, key, st, t, task):
        b = (st["x"], t["ids"][st["id"]])
        r, v = self.call(getattr(self.db, GET[b[0]]), b[1])
        self.ev("C22", "C10")
        self.k.event("find", b, r, repr(v))
        want = self.B.get(b)
        if want is None:
            if r == "ok":
                self.bad("unknown-resolves", "%s(%r) resolves to %r" % (GET[b[0]], b[1], v))
            elif not isinstance(v, KeyError):
                self.bad("not-keyerror", "%s(%r): %r" % (GET[b[0]], b[1], v))
        elif r != "ok" or v != want:
            self.bad("identifier-misresolved", "%s(%r): %r, last bound to %r"
                     % (GET[b[0]], b[1], v, want))

    def s_remove(self, key, st, t, task):
        m = self.M.get(key)
        r, v = self.call(self.db.remove_state, key)
        self.ev("C22")
        self.k.event("remove", key, r)
        if m is None:
            return              # whether that is an error is not specified
        if r != "ok":
            self.bad("remove-fails", "remove_state(%r): %r" % (key, v))
            return
        del self.M[key]
        for b in [b for b, k in self.B.items() if k == key]:
            del self.B[b]
        # nothing of it may be left, except what other sessions have (had) in common with it
        shared = set()
        for o in self.M.values():
            shared |= {b[1] for b in o.ids}
        marks = set(m.marks) | {key} | ({b[1] for b in m.ids} - shared)
        text = json.dumps(self.db.dump(), ensure_ascii=False)
        esc = text.replace("\\", "")
        for x in sorted(marks):
            y = x.replace("\\", "")
            if y in esc or json.dumps(y)[1:-1].replace("\\", "") in esc:
                self.bad("trace-left", "%r is still in the store after remove_state(%r)"
                         % (x, key))
                break

    def s_extend(self, key, st, t, task):
        typ = st["typ"]
        m = self.M.get(key)
        have = m.items.get(typ) if m else None
        cls = have[1] if have else Message
        args = {p: "mine" for p in st["have"]}
        want = dict(args)
        if have:
            self.merge(want, cls(**have[0]), st)
        r, v = self.call(self.db.extend_request_args, args, cls, typ, key, st["params"],
                         st["orig"])
        self.ev("C22")
        self.k.event("extend", key, typ, r)
        if r != "ok":
            self.bad("extend-fails", "extend_request_args(%s, %r): %r" % (typ, key, v))
        elif plain(v) != plain(want):
            self.bad("args-differ", "extend_request_args(%s, %r, %s): %r, expected %r"
                     % (typ, key, st["params"], v, want))

    @staticmethod
    def merge(want, item, st):
        for p in st["params"]:
            vn = "__verified_" + p
            if not st["orig"] and vn in item:
                want[p] = item[vn]
            elif p in item:
                want[p] = item[p]

    def s_multi(self, key, st, t, task):
        m = self.M.get(key)
        args = {p: "mine" for p in st["have"]}
        want = dict(args)
        if m:
            for typ in st["types"]:
                if typ in m.items:
                    # the stored JSON, not the typed reading of it
                    d, cls = m.items[typ]
                    x = json.loads(cls(**d).to_json()) if cls is not Message else d
                    self.merge(want, Message(**x), st)
        r, v = self.call(self.db.multiple_extend_request_args, args, key, st["params"],
                         st["types"], st["orig"])
        self.ev("C22")
        self.k.event("multi", key, r)
        if m is None:
            if r == "ok" and v != want:
                self.bad("unknown-resolves", "multiple_extend_request_args(%r): %r" % (key, v))
            return
        if r != "ok":
            self.bad("extend-fails", "multiple_extend_request_args(%r): %r" % (key, v))
        elif plain(v) != plain(want):
            self.bad("args-differ", "multiple_extend_request_args(%r, %s, %s): %r, expected %r"
                     % (key, st["params"], st["types"], v, want))

    def s_odd(self, key, st, t, task):
        """Keys the store uses itself are no sessions."""
        m = self.M.get(key)
        ks = [k for k in ("ref%sref" % key, WRAP[st["x"]] % t["ids"][st["id"]])
              if k not in self.M]
        for k in ks:
            r, v = self.call(self.db.get_iss, k)
            self.ev("C22")
            if r == "ok":
                self.bad("unknown-resolves", "get_iss(%r): %r" % (k, v))

    def s_dump(self, key, st, t, task):
        r, v = self.call(self.db.dump)
        if r != "ok":
            self.bad("dump-fails", "%r" % (v,))
            return
        if len(self.sc["tasks"]) > 1:
            return
        try:
            text = json.dumps(v)
        except Exception as err:
            self.bad("dump-fails", "not JSON: %r" % (err,))
            return
        self.dumps.append((text, copy.deepcopy(self.M), dict(self.B)))
        self.k.event("dump", len(self.dumps))

    def s_restart(self, key, st, t, task):
        back = st["back"]
        if not back or not self.dumps:
            self.s_dump(key, st, t, task)
            back = 1
        if not self.dumps:
            return
        text, M, B = self.dumps[-min(back, len(self.dumps))]
        self.restarts += 1
        self.fired("process:restart-old-dump" if back > 1 else "process:restart")
        db = StateInterface()
        r, v = self.call(db.load, json.loads(text))
        if r != "ok":
            self.bad("load-fails", "%r" % (v,))
            return
        self.db = db
        self.M, self.B = copy.deepcopy(M), dict(B)


def plain(x):
    if isinstance(x, Message):
        return plain(x.to_dict())
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def rec_strings(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from rec_strings(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from rec_strings(v)
    elif isinstance(x, str):
        yield x


def execute(sc):
    return m_base.execute(Sim, sc)
