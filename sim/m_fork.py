"""C05: a pre-forked server. Two workers carry on from the same process image; the operating system
gives each its own entropy, everything else (the random module's state included) is cloned."""
from . import gen
from . import pool
from . import rng
from . import run
from . import seams


def generate(prop, seed):
    sc = gen.generate(prop, seed)
    s = rng.Stream("fork", prop, seed)
    sc.pop("preempt", None)
    sc["sched"].pop("gap", None)
    last = max([t.get("at", 0) for t in sc["tasks"]] + [1])
    sc["fork"] = round(s.u() * last, 2)
    # some logins begin after the fork for sure
    for i in range(s.range(2, 3)):
        t = dict(s.pick([t for t in sc["tasks"] if t["kind"] == "user"]))
        t["id"] = "late%d" % i
        t["at"] = round(sc["fork"] + 0.1 + s.u() * 20, 2)
        sc["tasks"].append(t)
    return sc


def one(arg):
    sc, worker = arg
    sc = dict(sc, worker=worker)
    return run.execute(sc)


def execute(sc):
    out = []
    for w in ("A", "B"):
        st, r = pool.child(one, (sc, w))
        if st != "ok":
            raise RuntimeError("worker %s: %s" % (w, r))
        out.append(r)
    a, b = out
    res = a
    t = sc["fork"]
    va = {(k, v) for at, k, v in a["fresh"] if at > t}
    vb = {(k, v) for at, k, v in b["fresh"] if at > t}
    res["evals"]["C05"] = res["evals"].get("C05", 0) + len(va) + len(vb)
    res["faults"]["process:fork"] = 1
    for k, v in sorted(va & vb)[:3]:
        res["violations"].append({"props": ["C05"], "kind": "clone-repeats",
                                  "detail": "two workers forked at t=%.2f both created the %s %s"
                                            % (t, k, v)})
    res["violations"] += [z for z in b["violations"] if z not in res["violations"]]
    res["harness"] += b["harness"]
    for k in ("simtime", "steps", "lines", "requests", "begun", "logins", "restarts"):
        res[k] += b[k]
    res["digest"] = a["digest"] + b["digest"][:16]
    res["cov"] = sorted(set(a["cov"]) | set(b["cov"]))
    res.pop("fresh")
    return res
