"""Decides one property by seeded simulation.

  python -m sim.check C04 [--tier quick|thorough] [--runs N] [--jobs N] [--cap SECONDS]

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the harness is broken."""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

if __name__ == "__main__" and (os.environ.get("PYTHONHASHSEED") is None or
                               not os.environ.get("SIM_REEXEC")):
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ["SIM_REEXEC"] = "1"
    py = PY if os.path.exists(PY) else sys.executable
    os.chdir(ROOT)
    os.execv(py, [py, "-W", "ignore", "-m", "sim.check"] + sys.argv[1:])

import argparse  # noqa: E402
import collections  # noqa: E402
import hashlib  # noqa: E402
import json  # noqa: E402
import re  # noqa: E402

from . import seams  # noqa: E402,F401
from . import gen  # noqa: E402
from . import known  # noqa: E402
from . import mini  # noqa: E402
from . import pool  # noqa: E402
from . import run  # noqa: E402
from . import shrink  # noqa: E402

clock = seams.real_monotonic
# runs per tier: (main simulator, mini simulator)
TIERS = {
    "quick": collections.defaultdict(lambda: (1900, 0), {
        "C04": (1600, 0), "C05": (900, 500), "C16": (1300, 0), "C24": (1600, 0), "C21": (0, 14000),
        "C22": (900, 8000), "C09": (1600, 2500)}),
    "thorough": collections.defaultdict(lambda: (30000, 0), {
        "C05": (10000, 8000), "C21": (0, 150000), "C22": (12000, 90000), "C09": (22000, 10000)}),
}
CAPS = {"quick": 200, "thorough": 3000}
SHRINK_KINDS = 3


def execute(job):
    kind, sc = job["sim"], job["sc"]
    r = run.execute(sc) if kind == "main" else mini.execute(kind, sc)
    return r


def exec_sc(sc):
    return execute({"sim": sc.get("sim", "main"), "sc": sc})


def scenario(prop, idx, base, n_main):
    seed = base * 10_000_000 + idx
    if idx < n_main:
        return gen.generate(prop, seed)
    return mini.generate(prop, seed)


def worker(w, jobs, prop, base, total, n_main, cap, out, t0):
    for i in range(w, total, jobs):
        if clock() - t0 > cap:
            break
        sc = scenario(prop, i, base, n_main)
        st, r = pool.child(exec_sc, sc)
        rec = {"i": i}
        if st != "ok":
            rec["died"] = r
        else:
            for k in ("log", "choices", "points"):
                r.pop(k, None)
            rec.update(r)
        rec["faulty"] = sc.get("faulty", False)
        rec["preempt"] = bool(sc.get("preempt"))
        out.write(json.dumps(rec) + "\n")
        out.flush()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--mini", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SIM_JOBS") or 8))
    ap.add_argument("--cap", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--survey", action="store_true", help="list every violation kind of every "
                    "property met (development aid)")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in TIERS else "quick"
    n_main, n_mini = TIERS[tier][prop]
    if a.runs is not None:
        n_main = a.runs
    if a.mini is not None:
        n_mini = a.mini
    if not mini.has(prop):
        n_mini = 0
    total = n_main + n_mini
    cap = a.cap or CAPS[tier]
    t0 = clock()
    import tempfile
    tmp = tempfile.mkdtemp(prefix="simchk-")
    pids = []
    for w in range(a.jobs):
        fn = os.path.join(tmp, "w%d" % w)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                with seams.real_open(fn, "w") as f:
                    worker(w, a.jobs, prop, a.seed, total, n_main, cap, f, t0)
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 2
            finally:
                os._exit(code)
        pids.append(pid)
    bad_worker = False
    for p in pids:
        _, st = os.waitpid(p, 0)
        bad_worker |= st != 0
    recs = []
    for w in range(a.jobs):
        with seams.real_open(os.path.join(tmp, "w%d" % w)) as f:
            recs += [json.loads(l) for l in f if l.endswith("\n")]
    import shutil
    shutil.rmtree(tmp)
    recs.sort(key=lambda r: r["i"])
    t_run = clock() - t0

    harness = []
    hits = []               # (idx, violation)
    allkinds = collections.Counter()
    for r in recs:
        if "died" in r:
            if r["died"] == "hang":
                hits.append((r["i"], {"props": [prop], "kind": "hang",
                                      "detail": "the run did not end within %d CPU seconds"
                                                % pool.CPU_S}))
            else:
                harness.append("run %d: %s" % (r["i"], r["died"]))
            continue
        harness += ["run %d: %s" % (r["i"], h) for h in r["harness"]]
        if r.get("capped"):
            harness.append("run %d: step cap" % r["i"])
        for v in r["violations"]:
            for p in v["props"]:
                allkinds[(p, v["kind"])] += 1
            if prop in v["props"]:
                hits.append((r["i"], v))
    if a.survey:
        ex = {}
        for r in recs:
            for v in r.get("violations", []):
                ex.setdefault((tuple(v["props"]), v["kind"]), []).append((r["i"], v["detail"]))
        for (p, k), l in sorted(ex.items(), key=lambda z: -len(z[1])):
            print(len(l), ",".join(p), k)
            for i, d in l[:3]:
                print("      #%d %s" % (i, d[:260]))
        for h in harness[:5]:
            print("HARNESS", h[-1500:])

    kn = known.load(ROOT)
    new, seen_known = [], collections.OrderedDict()
    for i, v in hits:
        e = known.match(kn, prop, v)
        if e is not None:
            seen_known[e["id"]] = e
        else:
            new.append((i, v))

    replays = []
    if new and not harness:
        kinds = collections.OrderedDict()
        for i, v in new:
            kinds.setdefault(v["kind"], []).append((i, v))
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        for kind, l in list(kinds.items())[:1 if a.no_shrink else SHRINK_KINDS]:
            i, v = l[0]
            sc = scenario(prop, i, a.seed, n_main)
            size0 = len(json.dumps(sc))
            res = None
            if not a.no_shrink and kind != "hang":
                sh = shrink.Shrinker(exec_sc, sc, (kind, prop),
                                     budget_s=60 if not replays else 25)
                sc2, res = sh.go()
                if res is not None:
                    sc = sc2
                    v = [z for z in res["violations"] if z["kind"] == kind and
                         prop in z["props"]][0]
            safe = re.sub(r"[^A-Za-z0-9_.-]", "_", kind)
            path = os.path.join(rdir, "%s-%s.json" % (prop, safe))
            with seams.real_open(path, "w") as f:
                json.dump({"property": prop, "kind": kind, "detail": v["detail"],
                           "seed": "run %d of VERIF_SEED=%d" % (i, a.seed),
                           "digest": res["digest"] if res else None, "runs_hit": len(l),
                           "bytes_before_minimising": size0, "scenario": sc}, f, indent=1)
            replays.append((kind, path, v))

    write_evidence(prop, tier, a.seed, recs, hits, new, seen_known, t_run, t0, total, n_main,
                   replays, harness)
    for e in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    n_ok = sum(1 for r in recs if "died" not in r)
    print("%s %s: %d of %d runs in %.1f s (%d jobs), %d violations (%d new)"
          % (prop, tier, n_ok, total, t_run, a.jobs, len(hits), len(new)))
    if harness or bad_worker:
        for h in harness[:5]:
            print("HARNESS-ERROR", h[-2000:])
        if not new:
            return 2
    if new:
        if not replays:
            i, v = new[0]
            rdir = os.path.join(ROOT, "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_",
                                                                   v["kind"])))
            with seams.real_open(path, "w") as f:
                json.dump({"property": prop, "kind": v["kind"], "detail": v["detail"],
                           "scenario": scenario(prop, i, a.seed, n_main)}, f, indent=1)
            replays.append((v["kind"], path, v))
        for kind, path, v in replays:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   %s: %s" % (kind, v["detail"]))
        return 1
    if n_ok < min(total, 50):
        print("HARNESS-ERROR only %d runs completed" % n_ok)
        return 2
    return 0


def write_evidence(prop, tier, seed, recs, hits, new, seen_known, t_run, t0, total, n_main,
                   replays, harness):
    ok = [r for r in recs if "died" not in r]
    faults, cov = collections.Counter(), set()
    inter, digests = set(), set()
    ev = collections.Counter()
    nontriv = set()
    for r in ok:
        faults.update(r["faults"])
        cov |= set(r["cov"])
        inter.add(r["inter"])
        digests.add(r["digest"])
        ev.update(r["evals"])
        if r["evals"].get(prop):
            nontriv.add(r["digest"])
    hour = 3600.0 / t_run if t_run else 0
    samples = []
    for r in [z for z in ok if z["evals"].get(prop)][:3]:
        samples.append("run %d: %d logins begun, %d completed, %d restarts, faults %s, %d "
                       "obligations of %s decided" % (r["i"], r.get("begun", 0),
                                                      r.get("logins", 0), r.get("restarts", 0),
                                                      r["faults"] or "none",
                                                      r["evals"].get(prop, 0), prop))
    cfg = collections.Counter()
    for r in ok:
        cfg[("faulty" if r["faulty"] else "fault-free") +
            ("/statement-preemption" if r["preempt"] else "/io-interleaving")] += 1
    e = {"property": prop, "tier": tier, "seed": seed, "level": level_of(prop),
         "coverage": {
             "evaluations": ev.get(prop, 0),
             "distinct_nontrivial": len(nontriv),
             "rule": "an evaluation is one obligation of this property decided by the oracle "
                     "(a call judged, a request inspected, a lookup compared); a distinct "
                     "nontrivial case is a simulated run with at least one such obligation whose "
                     "full event history (SHA-256 over every request, response, fault, call and "
                     "result with its virtual time) differs from all others",
             "samples": samples or ["none"],
             "simulated_runs": len(ok), "planned_runs": total,
             "runs_per_hour": int(len(ok) * hour), "seeds_per_hour": int(len(ok) * hour),
             "seed_range": "VERIF_SEED=%d, run indices 0..%d" % (seed, total - 1),
             "simulated_seconds": int(sum(r["simtime"] for r in ok)),
             "configurations": dict(cfg),
             "fault_kinds_injected": dict(sorted(faults.items())),
             "distinct_histories": len(digests), "distinct_interleavings": len(inter),
             "interleaving_measure": "hash of the sequence of task switches (task name and "
                                     "statement count at each switch)",
             "distinct_outcomes_reached": len(cov), "outcomes": sorted(cov)[:120],
             "logins_begun": sum(r.get("begun", 0) for r in ok),
             "logins_completed": sum(r.get("logins", 0) for r in ok),
             "http_requests": sum(r.get("requests", 0) for r in ok),
             "process_restarts": sum(r.get("restarts", 0) for r in ok),
             "statements_scheduled": sum(r.get("lines", 0) for r in ok),
             "runs_main_simulator": sum(1 for r in ok if r["i"] < n_main),
             "runs_mini_simulator": sum(1 for r in ok if r["i"] >= n_main),
             "real_components": "all of /repo/src/oidcrp, oidcmsg, cryptojwt, requests (session, "
                                "encoding, status handling)",
             "stubbed_components": "requests.adapters.HTTPAdapter.send (simulated network), "
                                   "OpenID providers, claim sources, browsers, clock, OS entropy, "
                                   "file-open faults, process crash = new RPHandler from dump",
             "known_findings_met": [k["id"] for k in seen_known.values()],
             "harness_errors": harness[:3]},
         "wall_s": round(clock() - t0, 2),
         "violations": [{"kind": k, "replay": p, "detail": v["detail"]} for k, p, v in replays] or
         ([{"kind": v["kind"], "run": i} for i, v in new[:3]]),
         "assumptions": [
             "the simulated providers implement OIDC Core/Discovery/Registration, RFC 7636, 9449, "
             "9126 and back-channel logout as written in sim/op.py (independent JOSE code on "
             "'cryptography')",
             "the RP persists every service context as JSON (ctx.dump()) after each call; memory "
             "not in the dump is lost in a crash",
             "a clean batch of seeds is evidence, not proof; whole-file minimised replays are "
             "exact under PYTHONHASHSEED=0"]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with seams.real_open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1, sort_keys=True)


def level_of(prop):
    with seams.real_open(os.path.join(ROOT, "MANIFEST.json")) as f:
        for c in json.load(f)["checks"]:
            if c["property"] == prop:
                return c["level"]
    return "exploration"


if __name__ == "__main__":
    sys.exit(main())
