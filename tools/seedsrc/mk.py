"""Writes /verif/seeded/<id>/ from bugs.py and confirms each: applies, passes the stable tests, demonstration 0 / nonzero."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import bugs
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
REPO = "/repo"
PY = "/opt/venv/bin/python"
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
base = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]


def one(id):
    prop, edits, needs, what, demo = bugs.B[id]
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.run(["git", "clone", "-q", REPO, d + "/repo"], check=True)
        w = d + "/repo"
        for f, old, new in edits:
            s = open(w + "/" + f).read()
            if s.count(old) != 1:
                return id, "old text found %d times in %s" % (s.count(old), f)
            open(w + "/" + f, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        # removed lines must be original ones
        mine = []
        for f in {e[0] for e in edits}:
            orig = set(subprocess.run(["git", "-C", REPO, "show", base + ":" + f], capture_output=True, text=True).stdout.splitlines())
            cur, on = None, False
            for l in diff.splitlines():
                if l.startswith("--- a/"):
                    on = l[6:] == f
                elif on and l.startswith("-") and not l.startswith("---"):
                    if l[1:] not in orig and l[1:].strip():
                        mine.append(l)
        o = os.path.join(OUT, id)
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(o + "/meta.json", "w"), indent=1)
        shutil.copy(HERE + "/demolib.py", o)
        open(o + "/demo.py", "w").write('"""%s"""\nimport sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *  # noqa\nfrom demolib import _s  # noqa\n%s' % (what.replace('"', "'"), demo))
        open(o + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nHERE=$(cd "$(dirname "$0")" && pwd)\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 "$PY" -W ignore "$HERE/demo.py"\n')
        os.chmod(o + "/demo.sh", 0o755)
        r0 = subprocess.run(["bash", o + "/demo.sh"], cwd=REPO, capture_output=True, text=True)
        r1 = subprocess.run(["bash", o + "/demo.sh"], cwd=w, capture_output=True, text=True)
        os.makedirs(d + "/t")
        shutil.copytree(w + "/tests", d + "/t/tests")
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x", "-q", "tests"], cwd=d + "/t",
                           env=dict(os.environ, PYTHONPATH=w + "/src"), capture_output=True, text=True)
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
        msg = []
        if r0.returncode:
            msg.append("demo fails unchanged: " + (r0.stdout + r0.stderr)[-700:])
        if not r1.returncode:
            msg.append("demo passes with patch: " + (r1.stdout + r1.stderr)[-300:])
        if "BROKEN" not in r1.stdout and r1.returncode:
            msg.append("demo crashed with patch: " + (r1.stdout + r1.stderr)[-500:])
        if t.returncode:
            msg.append("tests: " + last + " " + " ".join(re.findall(r"FAILED.*", t.stdout)[:4]))
        if mine:
            msg.append("NOT ORIGINAL: " + " / ".join(mine[:4]))
        return id, "; ".join(msg) or "ok (" + last + ")"
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = sys.argv[1:] or list(bugs.B)
with ThreadPoolExecutor(4) as ex:
    for id, m in ex.map(one, ids):
        print(id, "->", m, flush=True)
