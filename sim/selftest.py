"""python -m sim.selftest [N]   the simulator itself: one seed, one execution.

Every scenario is executed twice in fresh processes, and once more in another interpreter with
another PYTHONHASHSEED; the full histories have to be the same. Exit 0/2."""
import hashlib
import json
import os
import subprocess
import sys

_PY = "/opt/venv/bin/python"
if os.path.exists(_PY) and not os.environ.get("SIM_REEXEC"):
    os.environ["SIM_REEXEC"] = "1"
    os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    os.execv(_PY, [_PY, "-W", "ignore", "-m", "sim.selftest"] + sys.argv[1:])

N = int(sys.argv[1]) if len(sys.argv) > 1 and sys.argv[1].isdigit() else 3
PROPS = ["C%02d" % i for i in range(1, 23)]


def digests(n):
    from . import seams     # noqa: F401
    from . import check
    from . import gen
    from . import mini
    from . import pool
    out = {}
    for p in PROPS:
        for i in range(n):
            scs = []
            if p != "C21":
                scs.append(gen.generate(p, 77_000_000 + i))
            if mini.has(p):
                scs.append(mini.generate(p, 77_000_000 + i))
            for sc in scs:
                a = pool.child(check.exec_sc, sc)
                b = pool.child(check.exec_sc, sc)
                k = "%s/%s/%d" % (p, sc.get("sim", "main"), i)
                if a[0] != "ok" or b[0] != "ok":
                    out[k] = "died %r" % (a[1] if a[0] != "ok" else b[1],)
                    continue
                a, b = a[1], b[1]
                same = a["digest"] == b["digest"] and a["choices"] == b["choices"] and \
                    a["inter"] == b["inter"] and not a["harness"]
                out[k] = a["digest"] if same else "differs between two runs"
    return out


def main():
    if "--emit" in sys.argv:
        print(json.dumps(digests(N)))
        return 0
    res = []
    for hs in ("0", "12345"):
        r = subprocess.run([sys.executable, "-W", "ignore", "-m", "sim.selftest", str(N), "--emit"],
                           env=dict(os.environ, PYTHONHASHSEED=hs), capture_output=True, text=True)
        if r.returncode:
            print(r.stderr[-2000:])
            return 2
        res.append(json.loads(r.stdout))
    bad = [k for k in res[0] if len(res[0][k]) != 64 and len(res[0][k]) != 80]
    for k in bad[:5]:
        print("NOT REPEATABLE", k, res[0][k][-600:])
    diff = [k for k in res[0] if res[0][k] != res[1].get(k)]
    print("%d scenarios: %d not repeatable, %d depend on PYTHONHASHSEED (%s); all histories %s"
          % (len(res[0]), len(bad), len(diff), ", ".join(diff[:8]),
             hashlib.sha256(json.dumps(res[0], sort_keys=True).encode()).hexdigest()[:16]))
    return 2 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
