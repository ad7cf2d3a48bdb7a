"""Runs scenarios in forked children: one process image per run, nothing leaks between runs."""
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

from . import seams

_now = seams.real_monotonic
CPU_S = 25
WALL_S = 120


def child(fn, arg, cpu=CPU_S, wall=WALL_S):
    """fn(arg) in a forked child -> ("ok", result) | ("died", why)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            try:
                out = {"ok": fn(arg)}
            except BaseException:
                out = {"crash": traceback.format_exc()}
            data = json.dumps(out, default=str).encode()
            while data:
                n = os.write(w, data[:1 << 16])
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = _now() + wall
    why = None
    while True:
        left = end - _now()
        if left <= 0:
            why = "wall"
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    if why:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if why:
        return "died", "hang"
    if os.WIFSIGNALED(st):
        return "died", "hang" if os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL) else \
            "signal %d" % os.WTERMSIG(st)
    try:
        d = json.loads(b"".join(buf))
    except ValueError:
        return "died", "no result (status %d)" % st
    if "crash" in d:
        return "died", d["crash"]
    return "ok", d["ok"]
