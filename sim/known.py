"""Known findings: genuine defects recorded rather than repaired."""
import json
import os
import re

from . import seams


def load(root):
    out = []
    fn = os.path.join(root, "known_findings.jsonl")
    if os.path.exists(fn):
        with seams.real_open(fn) as f:
            for l in f:
                if l.strip():
                    out.append(json.loads(l))
    return out


def match(entries, prop, v):
    """Only an open entry whose property, kind and specifics all fit explains a violation."""
    for e in entries:
        if e.get("status") == "open" and e["property"] == prop and e["kind"] == v["kind"] and \
                re.search(e["match"], v["detail"]):
            return e
    return None
