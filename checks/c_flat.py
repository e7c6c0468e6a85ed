"""P16 reading records through iterators"""
import os
from core import *
from driver import drive
import recs as R
from c_tools import desc


def p16(c):
    bins = build("drv_flat")
    acts = ["Deref", "Get", "Back", "Move", "Copy", "Compare", "Reset", "Break", "Repair"]
    c.model("FlatFile", "FlatFile", acts)
    if THOROUGH:
        c.model("FlatFile", "FlatFileThorough", acts, timeout=1500, workers=0)
    scen = c.generate("FlatFile", "FlatFileGen", simulate=900 if not THOROUGH else 12000, depth=16)
    r = rng("flat")
    scen = r.sample(scen, min(len(scen), 4000 if not THOROUGH else 60000))
    base = newdir("flat")
    types = ["sha1", "ntlm", "sha1t64"]
    files = {}

    def dbfile(typ, n, private):
        if not private and (typ, n) in files:
            return files[typ, n]
        recs = [(h, r.choice(R.COUNTS)) for h in R.hashes(r, max(n, 1), R.SIZES[typ])[:n]]
        p = f"{base}/{typ}.{n}" + (f".{len(files)}x" if private else "")
        R.write(p, recs)
        files[(typ, n) if not private else p] = p
        return p
    jobs = []    # typ, path, buf, n, its, ops

    def add(typ, n, buf, its, ops):
        size = R.SIZES[typ] + 4
        brk = any(o[0] == "break" for o in ops)
        out = []
        for o in ops:
            o = list(o)
            if o[0] == "break":
                o[1] = r.choice([0, 0, n * size - 1, max(0, r.randrange(n + 1) * size - r.choice([0, 1, 5])),
                                 r.randrange(n * size + 1)]) if n else 0
                o[1] = max(0, o[1])
            if o[0] == "deref" and r.random() < .3:
                o[0] = "arrow"
            out.append(o)
        jobs.append((typ, dbfile(typ, n, brk), buf, n, its, out))
    for i, s in enumerate(scen):
        add(types[i % 3], s["n"], s["buf"], 3, s["ops"])
    # longer histories with the buffer sizes used by the tools, and odd ones
    for i in range(260 if not THOROUGH else 4000):
        typ = types[i % 3]
        size = R.SIZES[typ] + 4
        buf = r.choice([1, 2, 3, 7, 50, 4096 // size, 65536 // size, 1000])
        n = r.choice([1, 2, buf - 1, buf, buf + 1, 2 * buf, 2 * buf + 1, 3 * buf - 1, r.randrange(1, 3 * buf + 2)])
        n = max(1, min(n, 9000))
        pos = [0, 0, 0, 0]
        ops, broken = [], False
        fault = r.random() < .35
        for _ in range(40):
            k = r.random()
            j = r.randrange(4)
            if k < .40:
                ops.append(["deref", j + 1, 0])
            elif k < .65:
                t = r.choice([0, n, n - 1, buf, buf - 1, buf + 1, pos[j] + 1, pos[j] - 1, pos[j] + buf,
                              pos[j] - buf, r.randrange(n + 1)])
                t = max(0, min(n, t))
                ops.append(["move", j + 1, t - pos[j]])
                pos[j] = t
            elif k < .72:
                m = r.randrange(4)
                ops.append(["copy", j + 1, m + 1])
                pos[j] = pos[m]
            elif k < .78:
                ops.append(["cmp", j + 1, r.randrange(4) + 1])
            elif k < .85:
                ops.append(["get", r.choice([0, n - 1, r.randrange(n), min(n - 1, buf)]), 0])
            elif k < .88:
                ops.append(["back", 0, 0])
            elif k < .92:
                ops.append(["lower", r.randrange(n), 0])
            elif k < .94:
                e = r.randrange(2)
                ops.append(["reset", j + 1, e])
                pos[j] = n * e
            elif k < .95:
                ops.append(["movedb", 0, 0])
                pos = [0, 0, 0, 0]
            elif fault:
                ops.append(["repair" if broken else "break", 0, 0])
                broken = not broken
        add(typ, n, buf, 4, ops)

    def cmd(j):
        typ, path, buf, n, its, ops = j
        s = ";".join(f"{o[0]},{o[1] - (o[0] in ('deref', 'arrow', 'move', 'copy', 'cmp', 'reset'))},"
                     f"{o[2] - (o[0] in ('copy', 'cmp'))},{i + len(ops)}" for i, o in enumerate(ops))
        return f"{typ}\t{path}\t{buf}\t{its}\t{s}"
    # a scenario which damages its file has a private copy of it
    evs = []
    for j, a in zip(jobs, drive(f"{bins}/drv_flat", [cmd(j) for j in jobs])):
        typ, path, buf, n, its, ops = j
        f = a.split("\t")
        if f[0] != "ok":
            c.violation(f"the database code ended with '{a}' for {cmd(j)}", {"command": cmd(j), "answer": a})
        rs = f[1].split(";")[:-1]
        evs.append({"op": "open", "n": int(rs[0]), "truth": n, "its": its, "type": typ, "buf": buf})
        if int(rs[0]) != n:
            c.violation(f"number_records is {rs[0]} for a file of {n}", {"command": cmd(j)})
        for o, x in zip(ops, rs[1:]):
            e = {"op": o[0], "i": o[1], "d": o[2]}
            if ":" in x:
                x, y = x.split(":")
                e["old" if o[0] == "move" else "diff"] = int(y)
            elif o[0] == "move":
                e["old"] = -9
            elif o[0] == "cmp":
                e["diff"] = -99
            e["res"] = int(x) if x != "bad" else -77
            evs.append(e)
    c.evals = sum(e["op"] in ("deref", "arrow", "get", "back", "lower") for e in evs)
    c.notes["histories"] = len(jobs)
    c.sample(evs[:15])

    def describe(i):
        k = i
        while evs[k]["op"] != "open":
            k -= 1
        return str(evs[k:i + 1])
    c.validate("FlatFileTrace", "FlatFileTrace", evs, "flat_file::database", describe, count=len(jobs))
