"""C21: RP nodes write cookies, browsers keep them - badly - and bring them back.

Real: oidcrp.cookie. Simulated: the browsers' storage (bit rot, torn writes, splices, swaps, old
copies), several RP nodes with equal or different keys, restarts, the clock, OS entropy."""
import base64
import email.utils
from http.cookies import SimpleCookie

from . import m_base
from . import rng
from . import kernel as K
from . import seams

from oidcrp.cookie import CookieDealer
from oidcrp.cookie import make_cookie
from oidcrp.cookie import parse_cookie

NAMES = ["sess", "state", "oidc_rp"]
WORDS = ["alice", "Something to pass along", "a|b", "x::y", "k=v&z=1", "9", "1800000000",
         "värde", "sub:12|34", "{\"a\": [1, 2]}", "quote\"d", "a;b,c", "0" * 300,
         "semi;colon", "back\\slash", "uni\u2603\U0001f600", "::", "|", "a::b::c"]
TAMPER = ["sub", "sub", "sub", "del", "ins", "trunc", "drop_field", "dup_field", "swap_fields",
          "splice_value", "splice_ts", "splice_sig", "ts_edit", "shift", "shift_back",
          "case", "empty_sig", "noop", "reorder_b64", "extend"]


def generate(prop, seed):
    s = rng.Stream("cookie", prop, seed)
    nodes = []
    for i in range(s.range(1, 3)):
        if i and s.chance(0.5):
            n = dict(nodes[0])
            x = s.below(4)
            if x == 0:
                n["seed"] = s.below(1 << 30)
            elif x == 1 and n["key"] is not None:
                n["key"] = s.below(1 << 30)
            elif x == 2:
                n["key"] = None if n["key"] is not None else s.below(1 << 30)
        else:
            n = {"seed": s.below(1 << 30), "key": s.pick([None, s.below(1 << 30)]),
                 "bin": s.chance(0.4), "klen": s.pick([16, 24, 32])}
        nodes.append(n)
    tasks = []
    for b in range(s.range(1, 3)):
        steps, have = [], 0
        for _ in range(s.range(3, 14)):
            x = s.weighted([("set", 5), ("read", 6), ("tamper", 6), ("wait", 2), ("restart", 1),
                            ("delete", 0.5)])
            if not have:
                x = "set"
            st = {"s": x, "node": s.below(len(nodes)), "slot": s.below(4), "name": s.pick(NAMES)}
            if x == "set":
                have = 1
                st["how"] = s.pick(["dealer", "make", "make"])
                w = s.pick(WORDS)
                if s.chance(0.5):
                    w += "".join(s.pick("abcdefXYZ0189 |:=;,") for _ in range(s.below(20)))
                st["value"] = w
                st["typ"] = s.pick(["sso", "", "t|x", "upm"])
                st["ts"] = s.pick(["", "", "1463043535", "%d" % s.below(10 ** 10)])
                st["expire"] = s.pick([0, 5, 60])
                st["path"] = s.pick(["", "/", "/oidc"])
            elif x == "tamper":
                st["m"] = s.pick(TAMPER)
                st["i"] = s.below(1 << 20)
                st["c"] = s.pick("aA0|:=+/_z9 \"\\;")
                st["other"] = s.below(4)
                st["read"] = True
            elif x == "wait":
                st["d"] = s.pick([0.5, 61, 4000])
            elif x == "read":
                if s.chance(0.15):
                    st["as"] = s.pick(NAMES)        # asks for another cookie name
                if s.chance(0.15):
                    st["from"] = s.below(4)         # whole value under another name
            steps.append(st)
        tasks.append({"id": "b%d" % b, "kind": "browser", "at": round(s.u() * 3, 2),
                      "steps": steps})
    return {"v": 1, "seed": "%s-%s" % (prop, seed), "prop": prop, "nodes": nodes, "tasks": tasks,
            "faults": [], "sched": {"seed": s.below(1 << 30)}, "faulty": True}


class Server:
    cookie_name = "oidc_rp"

    def __init__(self, c):
        raw = rng.Entropy("ck", c["seed"])(c["klen"])
        self.seed = raw if c["bin"] else raw.hex().encode()
        self.symkey = None
        if c["key"] is not None:
            self.symkey = rng.Entropy("ek", c["key"])(16).hex().encode()
        self.id = (self.seed, self.symkey)


class Sim(m_base.Mini):
    def __init__(self, sc):
        super().__init__(sc)
        self.nodes = []
        for c in sc["nodes"]:
            s = Server(c)
            self.nodes.append((s, CookieDealer(s)))
        self.ivs = {}           # key -> set of iv

    def task(self, t):
        def f(task):
            jar = {}            # slot -> record
            for st in t["steps"]:
                getattr(self, "s_" + st["s"])(jar, st)
        return f

    def s_wait(self, jar, st):
        self.k.sleep(st["d"])

    def s_restart(self, jar, st):
        s = Server(self.sc["nodes"][st["node"]])
        self.nodes[st["node"]] = (s, CookieDealer(s))
        self.restarts += 1
        self.fired("node:restart")

    def s_set(self, jar, st):
        srv, dealer = self.nodes[st["node"]]
        now = int(seams.sim_now())
        try:
            if st["how"] == "dealer":
                hdr = dealer.create_cookie(st["value"], st["typ"], st["name"])
                ts = str(now)
                load = "::".join([st["value"], ts, st["typ"]])
            else:
                load, ts = st["value"], st["ts"] or str(now)
                hdr = make_cookie(st["name"], load, srv.seed, expire=st["expire"],
                                  path=st["path"], timestamp=st["ts"], enc_key=srv.symkey)
        except Exception as err:
            self.v(["C21"], "cookie-not-written", "%s %r: %r" % (st["how"], st["value"], err))
            return
        self.k.event("set", st["slot"], hdr[1])
        self.ev("C21")
        if srv.symkey:
            for z in (st["value"], load):
                if len(z) >= 5 and not z.isdigit() and any(q in hdr[1] for q in (
                        z, base64.b64encode(z.encode()).decode().rstrip("="),
                        z.encode().hex())):
                    self.v(["C21"], "cookie-readable", "the encrypted cookie shows its value")
            try:
                iv = list(SimpleCookie(hdr[1]).values())[0].value.split("|")[1]
            except Exception:
                iv = None
            if iv is not None:
                seen = self.ivs.setdefault(srv.id, set())
                if iv in seen:
                    self.v(["C21", "C05"], "cookie-iv-reused", "two cookies under one key use the "
                           "same initialisation vector: their values can be recovered")
                seen.add(iv)
        ttl = 5 if st["how"] == "dealer" else st["expire"]
        end = self.expires(hdr[1], st["name"])
        if ttl and (end is None or not now + ttl * 60 - 60 <= end <= now + ttl * 60 + 60):
            self.v(["C21"], "cookie-lifetime", "%d minutes asked for at %d: %r"
                   % (ttl, now, hdr[1]))
        jar[st["slot"]] = {"hdr": hdr[1], "name": st["name"], "node": st["node"], "load": load,
                           "ts": ts, "how": st["how"], "value": st["value"], "typ": st["typ"],
                           "id": srv.id, "bad": None, "enc": bool(srv.symkey)}

    def s_delete(self, jar, st):
        srv, dealer = self.nodes[st["node"]]
        try:
            hdr = dealer.delete_cookie(st["name"])
        except Exception as err:
            self.v(["C21"], "cookie-not-written", "delete_cookie: %r" % (err,))
            return
        self.k.event("delete", hdr[1])
        self.ev("C21")
        end = self.expires(hdr[1], st["name"])
        if end is None or end > seams.sim_now():
            self.v(["C21"], "cookie-not-deleted", "delete_cookie at %d gives %r"
                   % (seams.sim_now(), hdr[1]))
            return
        for sl in [a for a, r in jar.items() if r["name"] == st["name"]]:
            del jar[sl]

    @staticmethod
    def expires(hdr, name):
        m = SimpleCookie(hdr).get(name)
        if not m or not m["expires"]:
            return None
        return email.utils.parsedate_to_datetime(m["expires"]).timestamp()

    @staticmethod
    def payload(hdr, name):
        m = SimpleCookie(hdr).get(name)
        return m.value if m else None

    @staticmethod
    def wrap(name, val):
        c = SimpleCookie()
        c[name] = val
        return c[name].OutputString()

    def s_tamper(self, jar, st):
        if not jar:
            return
        ks = sorted(jar)
        r = dict(jar[ks[st["slot"] % len(ks)]])
        o = jar[ks[st["other"] % len(ks)]]
        val, oval = self.payload(r["hdr"], r["name"]), self.payload(o["hdr"], o["name"])
        if not val or not oval:
            return
        p, q = val.split("|"), oval.split("|")
        i, c, m = st["i"], st["c"], st["m"]
        if not r["enc"] and len(p) > 3:
            p = ["|".join(p[:-2])] + p[-2:]
        if not o["enc"] and len(q) > 3:
            q = ["|".join(q[:-2])] + q[-2:]
        n = len(val)
        new = val
        if m == "sub":
            new = val[:i % n] + c + val[i % n + 1:]
        elif m == "del":
            new = val[:i % n] + val[i % n + 1:]
        elif m == "ins":
            new = val[:i % n] + c + val[i % n:]
        elif m == "trunc":
            new = val[:i % n]
        elif m == "extend":
            new = val + c
        elif m == "drop_field":
            z = list(p)
            del z[i % len(z)]
            new = "|".join(z)
        elif m == "dup_field":
            z = list(p)
            z.insert(i % len(z), z[i % len(z)])
            new = "|".join(z)
        elif m == "swap_fields":
            z = list(p)
            a, b = i % len(z), (i // 7) % len(z)
            z[a], z[b] = z[b], z[a]
            new = "|".join(z)
        elif m in ("splice_value", "splice_ts", "splice_sig"):
            j = {"splice_value": 0, "splice_ts": 1, "splice_sig": -1}[m]
            z = list(p)
            z[j] = q[min(j, len(q) - 1) if j >= 0 else -1]
            new = "|".join(z)
        elif m == "ts_edit":
            z = list(p)
            j = 0 if r["enc"] else 1
            z[j] = str(int(z[j] or 0) + 1 + i % 5000) if z[j].isdigit() else c
            new = "|".join(z)
        elif m in ("shift", "shift_back") and not r["enc"]:
            k = 1 + i % 3
            if m == "shift":
                p[0], p[1] = p[0] + p[1][:k], p[1][k:]
            else:
                p[0], p[1] = p[0][:-k], p[0][-k:] + p[1]
            new = "|".join(p)
        elif m == "reorder_b64" and r["enc"]:
            k = 1 + i % 4
            p[2], p[3] = p[2][:-k] if len(p[2]) > k else p[2], (p[2][-k:] if len(p[2]) > k else
                                                               "") + p[3]
            new = "|".join(p)
        elif m == "case":
            j = i % n
            new = val[:j] + val[j].swapcase() + val[j + 1:]
        elif m == "empty_sig":
            p[-1] = ""
            new = "|".join(p)
        self.fired("browser:%s" % m)
        r["hdr"] = self.wrap(r["name"], new)
        if new != val:
            r["bad"] = m
        self.read(r, st["node"] if st["i"] % 4 == 0 else r["node"], r["name"], None)

    def s_read(self, jar, st):
        if not jar:
            return
        ks = sorted(jar)
        r = dict(jar[ks[st["slot"] % len(ks)]])
        if "from" in st:
            val = self.payload(r["hdr"], r["name"])
            if val:
                r["name"] = st["name"]
                r["hdr"] = self.wrap(r["name"], val)
        self.read(r, st["node"], st.get("as") or r["name"], jar)

    def read(self, r, node, name, jar):
        srv, dealer = self.nodes[node]
        kaka = r["hdr"]
        got, err = None, None
        try:
            if r["how"] == "dealer":
                got = dealer.get_cookie_value(kaka, name)
                want = (r["value"], r["ts"], r["typ"])
            else:
                got = parse_cookie(name, srv.seed, kaka, srv.symkey)
                want = (r["load"], r["ts"])
        except Exception as e:
            err = e
        self.ev("C21")
        self.cov.add("read:%s" % (type(err).__name__ if err else "none" if got is None else "ok"))
        self.k.event("read", r["bad"], repr(got), type(err).__name__)
        honest = r["bad"] is None and srv.id == r["id"] and name == r["name"]
        if honest:
            if got is None or tuple(got) != want:
                if r["how"] == "dealer" and "::" in r["typ"]:
                    return
                self.v(["C21"], "cookie-not-read-back", "%s wrote %r, read back gives %r"
                       % (r["how"], want, err or got))
            return
        if got is None:
            return
        got = tuple(got)
        if name != r["name"]:
            self.v(["C21"], "cookie-other-name", "asked for %s, got the value of %s"
                   % (name, r["name"]))
        elif srv.id != r["id"] and (len({srv.id[1], r["id"][1]}) > 1 and srv.id[0] == r["id"][0]
                                    and srv.id[1] is not None and r["id"][1] is None):
            # a node that also knows an encryption key takes plain cookies made with its seed
            if got != want and not r["enc"] and "".join(got) == "".join(want):
                self.v(["C21"], "cookie-boundary-shift", "%r written, %r read" % (want, got))
            elif got != want:
                self.v(["C21"], "cookie-altered", "%r written, %r read" % (want, got))
        elif srv.id != r["id"]:
            self.v(["C21"], "cookie-other-key", "a cookie written under another seed or key is "
                   "accepted: %r" % (got,))
        elif got != want:
            if not r["enc"] and len(got) == len(want) == 2 and "".join(got) == "".join(want):
                self.v(["C21"], "cookie-boundary-shift", "%r written, %r read after %s"
                       % (want, got, r["bad"]))
            else:
                self.v(["C21"], "cookie-altered", "%r written, %r read after %s"
                       % (want, got, r["bad"]))


def execute(sc):
    return m_base.execute(Sim, sc)
