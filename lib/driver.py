"""Runs batches of commands through the in-process drivers (drivers/drv_*.cpp)."""
import subprocess, os, signal, threading, resource
from core import *


def _batch(exe, cmds, cwd, env, timeout):
    """run cmds through one driver process. Each command is one line, each answer is one line."""
    out = []
    todo = list(cmds)
    e = dict(os.environ, **(env or {}))
    while todo:
        p = subprocess.Popen([exe], cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, start_new_session=True,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        limits(p.pid)
        try:
            o, _ = p.communicate(("\n".join(todo) + "\n").encode(), timeout=timeout)
            state = "crash"
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, _ = p.communicate()
            state = "hang"
        lines = o.decode("latin-1").split("\n")
        lines = lines[:-1]  # the last one is incomplete, if not empty
        lines = lines[:len(todo)]
        out += lines
        todo = todo[len(lines):]
        if todo:  # the driver died or hung on the first of them
            out.append(f"{state}\t{p.returncode}")
            todo = todo[1:]
    return out


def drive(exe, cmds, cwd=None, env=None, timeout=120, workers=None, atomic=1):
    """spread commands over several driver processes; `atomic`: commands come in groups of that
    size which must go to the same process"""
    cmds = list(cmds)
    n = workers or NCPU
    groups = [cmds[i:i + atomic] for i in range(0, len(cmds), atomic)]
    size = max(1, (len(groups) + n - 1) // n)
    parts = [sum(groups[i:i + size], []) for i in range(0, len(groups), size)]
    res = pmap(lambda p: _batch(exe, p, cwd, env, timeout), parts, n)
    return [x for r in res for x in r]
