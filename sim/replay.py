"""python -m sim.replay FILE [-v]   run a replay file again; exit 1 if it shows its violation."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    _py = "/opt/venv/bin/python"
    _py = _py if os.path.exists(_py) else sys.executable
    os.execv(_py, [_py, "-W", "ignore", "-m", "sim.replay"] + sys.argv[1:])

import json  # noqa: E402

from . import seams  # noqa: E402
from . import check  # noqa: E402
from . import pool  # noqa: E402


def main():
    with seams.real_open(sys.argv[1]) as f:
        d = json.load(f)
    st, r = pool.child(check.exec_sc, d["scenario"])
    if st != "ok":
        print("run ended: %s" % r)
        return 1 if d["kind"] == "hang" and r == "hang" else 2
    if "-v" in sys.argv:
        for e in r["log"]:
            print(e)
    hit = False
    for v in r["violations"]:
        same = v["kind"] == d["kind"] and d["property"] in v["props"]
        hit |= same
        print("%s %s %s: %s" % ("*" if same else " ", ",".join(v["props"]), v["kind"], v["detail"]))
    if d.get("digest"):
        print("history %s" % ("identical to the recorded one" if r["digest"] == d["digest"] else
                              "DIFFERS from the recorded one (the code changed?)"))
    for h in r["harness"]:
        print("HARNESS", h)
    print("VIOLATION property=%s replay=%s" % (d["property"], sys.argv[1]) if hit else
          "the violation does not show")
    return 1 if hit else 0


if __name__ == "__main__":
    sys.exit(main())
