"""python -m sim.one PROP SEED  : run one scenario and show what happened (development aid)."""
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-m", "sim.one"] + sys.argv[1:])
from . import gen, run  # noqa: E402

sc = gen.generate(sys.argv[1], int(sys.argv[2]))
if "-s" in sys.argv:
    print(json.dumps(sc, indent=1))
r = run.execute(sc)
if "-l" in sys.argv:
    for e in r["log"]:
        print(e)
for k in ("violations", "harness"):
    for v in r[k]:
        print(k, v)
print({k: r[k] for k in r if k not in ("log", "violations", "harness", "choices", "points", "cov")})
