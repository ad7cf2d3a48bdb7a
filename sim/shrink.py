"""Minimises a failing scenario: tasks, steps, faults, options, preemption points, choices."""
import copy
import json

from . import pool
from . import seams


class Shrinker:
    def __init__(self, fn, sc, sig, budget_s=45.0, max_runs=400):
        self.fn, self.best, self.sig = fn, sc, sig
        self.end = seams.real_monotonic() + budget_s
        self.left = max_runs
        self.runs = 0
        self.res = None

    def fails(self, sc):
        if self.left <= 0 or seams.real_monotonic() > self.end:
            return None
        self.left -= 1
        self.runs += 1
        st, r = pool.child(self.fn, sc)
        if st != "ok":
            return r if self.sig == ("hang",) and r == "hang" else None
        for v in r["violations"]:
            if v["kind"] == self.sig[0] and self.sig[1] in v["props"]:
                return r
        return None

    def take(self, sc):
        r = self.fails(sc)
        if r:
            self.best, self.res = sc, r
            return True
        return False

    def ddmin(self, get, put):
        items = get(self.best)
        n = 2
        while len(items) >= 1:
            size = max(1, len(items) // n)
            done = False
            for i in range(0, len(items), size):
                rest = items[:i] + items[i + size:]
                c = copy.deepcopy(self.best)
                put(c, copy.deepcopy(rest))
                if self.take(c):
                    items = get(self.best)
                    n = max(2, n - 1)
                    done = True
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(items), n * 2)
            if self.left <= 0 or seams.real_monotonic() > self.end:
                break

    def go(self):
        if "tasks" in self.best:
            for _ in range(2):
                before = json.dumps(self.best, sort_keys=True)
                self.ddmin(lambda s: s["tasks"], lambda s, x: s.__setitem__("tasks", x))
                self.ddmin(lambda s: s["faults"], lambda s, x: s.__setitem__("faults", x))
                for i in range(len(self.best["tasks"])):
                    if self.best["tasks"][i].get("steps"):
                        self.ddmin(lambda s: s["tasks"][i]["steps"],
                                   lambda s, x: s["tasks"][i].__setitem__("steps", x))
                self.options()
                if json.dumps(self.best, sort_keys=True) == before:
                    break
            self.schedule()
        return self.best, self.res

    def options(self):
        b = self.best
        for cand in self._options(b):
            if json.dumps(cand, sort_keys=True) != json.dumps(self.best, sort_keys=True):
                self.take(cand)

    def _options(self, b):
        if self.best.get("preempt"):
            c = copy.deepcopy(self.best)
            c.pop("preempt")
            c["sched"] = {"seed": c["sched"].get("seed", 0)}
            yield c
        if "sched" in self.best and not self.best["sched"].get("fifo"):
            c = copy.deepcopy(self.best)
            c["sched"]["fifo"] = True
            yield c
        if self.best.get("rp", {}).get("offset"):
            c = copy.deepcopy(self.best)
            c["rp"]["offset"] = 0
            yield c
        for i in range(len(self.best.get("ops", []))):
            for key in ("par", "pkce", "cfg_request_args", "rp_dpop", "dpop", "claims", "sid",
                        "aud_list", "iss_param", "scope_resp", "reqreg"):
                if self.best["ops"][i].get(key):
                    c = copy.deepcopy(self.best)
                    for o in c["ops"]:
                        if o["idx"] == i or o["mode"] == "dyn" == self.best["ops"][i]["mode"]:
                            o[key] = None if key not in ("reqreg", "sid") else False
                    yield c
        for i, t in enumerate(self.best["tasks"]):
            for j, st in enumerate(t.get("steps", [])):
                for key in ("args", "beh", "idt", "collect", "plru", "close"):
                    if key in st:
                        c = copy.deepcopy(self.best)
                        c["tasks"][i]["steps"][j].pop(key)
                        yield c

    def schedule(self):
        if self.res is None:
            self.res = self.fails(self.best)
        if not self.res or not isinstance(self.res, dict):
            return
        c = copy.deepcopy(self.best)
        sched = {"choices": self.res["choices"], "seed": c["sched"].get("seed", 0)}
        if c.get("preempt"):
            sched["points"] = self.res["points"]
        c["sched"] = sched
        if not self.take(c):
            return
        if c.get("preempt"):
            self.ddmin(lambda s: s["sched"]["points"],
                       lambda s, x: s["sched"].__setitem__("points", x))
        ch = self.best["sched"]["choices"]
        # leave only the choices that differ from "carry on with the running task"
        for size in (len(ch), max(1, len(ch) // 2), max(1, len(ch) // 4), 1):
            i = 0
            while i < len(self.best["sched"]["choices"]):
                cur = self.best["sched"]["choices"]
                if any(cur[i:i + size]):
                    c = copy.deepcopy(self.best)
                    c["sched"]["choices"] = cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]
                    self.take(c)
                i += size
        cur = self.best["sched"]["choices"]
        while cur and not cur[-1]:
            cur = cur[:-1]
        c = copy.deepcopy(self.best)
        c["sched"]["choices"] = cur
        self.take(c)
