"""What the smaller simulators share: one kernel, one log, the result format of the main one."""
import os
import random
import shutil
import tempfile

from . import kernel as K
from . import rng
from . import seams


class Mini:
    def __init__(self, sc, max_steps=60000):
        self.sc = sc
        random.seed(rng.h64(sc["seed"], "global-random"))
        self.k = K.Kernel(sc.get("sched"), max_steps)
        K.ACTIVE = self.k
        seams.W.entropy = rng.Entropy("os", sc["seed"])
        self.violations = []
        self.evals = {}
        self.faults = {}
        self.cov = set()
        self.harness = []
        self.restarts = 0
        self.requests = 0

    def v(self, props, kind, detail):
        t = self.k.current.name if self.k.current else "-"
        self.violations.append({"props": sorted(props), "kind": kind,
                                "detail": "[%s t=%.2f] %s" % (t, self.k.now, detail)})
        self.k.event("VIOLATION", kind)

    def ev(self, *props):
        for p in props:
            self.evals[p] = self.evals.get(p, 0) + 1

    def fired(self, key):
        self.faults[key] = self.faults.get(key, 0) + 1
        self.k.event("fault", key)

    def go(self):
        pre = self.sc.get("preempt")
        for t in self.sc["tasks"]:
            self.k.spawn(t["id"], self.task(t), t.get("at", 0))
        if pre:
            seams.lines_on()
        try:
            self.k.run()
        finally:
            if pre:
                seams.lines_off()
        if not self.k.capped:
            self.end()

    def end(self):
        pass


def execute(cls, sc):
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="oidcsim-"))
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        m = cls(sc)
        err = []
        try:
            m.go()
        except K.HarnessError as e:
            err = [str(e)]
        k = m.k
        return {"violations": m.violations, "evals": m.evals, "faults": m.faults,
                "simtime": k.now, "steps": k.steps, "lines": k.lines, "requests": m.requests,
                "inter": k.interleaving(), "cov": sorted(m.cov), "digest": k.digest(),
                "begun": 0, "logins": 0, "capped": k.capped, "restarts": m.restarts,
                "choices": k.choices, "points": k.points_hit, "finals": {},
                "harness": err + m.harness, "log": k.log}
    finally:
        K.ACTIVE = None
        seams.W.router = None
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
