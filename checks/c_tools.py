"""P10 topn, P13 diff, P20 dupes"""
import os, re
from core import *
from driver import drive
import recs as R
from c_sort import match_ids

BUFS = [0, 1, 2, 5, 169, 170, 171, 999, 1000, 1001, 2000, 2729, 2730, 2731, 3275, 3276, 3277, 5459,
        5460, 5461, 5462, 5463]


def desc(evs):
    return lambda i: str({k: (v if len(str(v)) < 400 else str(v)[:400] + "...")
                          for k, v in evs[i].items()})


# ------------------------------------------------------------------------------------------ P10
def p10(c):
    bins = build("hibp_topn")
    acts = ["Fill", "Replace", "Skip", "ReadDone", "Write", "WriteDone"]
    c.model("TopN", "TopN", acts)
    if THOROUGH:
        c.model("TopN", "TopNThorough", acts, timeout=900)
    scen = c.generate("TopN", "TopNGen")
    r = rng("topn")
    scen = scen if THOROUGH else r.sample(scen, 2200)
    jobs = []
    types = ["sha1", "ntlm", "sha1t64"]
    for i, s in enumerate(scen):
        typ = types[i % 3]
        hm = R.embed(r, {1, 2, 3}, R.SIZES[typ])
        cm = R.embed_counts(r, {1, 2})
        if r.random() < .15:
            cm[1] = -1
        jobs.append((i, typ, [(hm[h], cm[x]) for h, x in s["in"]], s["n"], i % 2 == 0))
    for i in range(len(scen), len(scen) + (90 if not THOROUGH else 900)):
        typ = types[i % 3]
        n = BUFS[i % len(BUFS)] if i % 3 else r.randrange(0, 6000)
        hs = R.hashes(r, max(1, n), R.SIZES[typ])[:n]
        draw = R.count_source(r)
        inp = [(h, draw()) for h in hs]
        k = r.random()
        if k < .1:
            inp.sort(key=lambda x: x[1])
        elif k < .2:
            inp.sort(key=lambda x: -x[1])
        elif k < .25 and n:
            inp = [r.choice(inp) for _ in inp]
        N = r.choice([0, 1, n // 2, max(0, n - 1), n, n + 1, max(0, n - 2), min(n, 999), min(n, 1000),
                      min(n, 1001), min(n, 2000), r.randrange(0, n + 2)])
        jobs.append((i, typ, inp, N, r.random() < .5))

    def one(j):
        i, typ, inp, n, std = j
        size = R.SIZES[typ]
        d = newdir("tn")
        R.write(d + "/in", inp)
        cmd = [f"{bins}/hibp-topn", d + "/in", "-N", str(n)]
        cmd += {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}[typ]
        cmd += ["--stdout"] if std else ["-o", d + "/out"]
        x = run(cmd)
        if std:
            data = x.out
        else:
            data = slurp(d + "/out") if os.path.exists(d + "/out") else b""
        out = R.unpack(data, size)
        k = R.Ranker([h for h, _ in inp])
        ev = {"type": typ, "n": n, "std": std, "in": k.recs(inp), "rc": 99 if x.hang else x.rc,
              "whole": len(data) % (size + 4) == 0,
              "inputSame": slurp(d + "/in") == R.pack(inp)}
        if len(inp) <= 12:
            ev["out"] = k.recs(out)
        else:
            ev["ids"] = ids = match_ids(inp, out)
            good = [j for j in ids if j]
            ev["w"] = max(good, key=lambda j: (-inp[j - 1][1], inp[j - 1][0])) if good else 0
            if n == 0:   # nothing kept: nothing to compare with
                ev["out"], ev["in"] = k.recs(out), ev["in"][:2]
                del ev["ids"]
        rmdir(d)
        return ev
    evs = pmap(one, jobs)
    c.evals = len(evs)
    c.sample(evs[len(scen) // 2])
    c.validate("TopNTrace", "TopNTrace", evs, "hibp-topn", desc(evs))


# ------------------------------------------------------------------------------------------ P13
HUNK = re.compile(r"^([UI]):([0-9A-Fa-f]{8,}):([0-9A-Fa-f]+):(-?\d+)$")


def hunks(lines, rk):
    out = []
    for ln in lines:
        m = HUNK.match(ln)
        if not m:
            out.append([9, 0, 0, 0])
            continue
        h = bytes.fromhex(m[3]) if len(m[3]) % 2 == 0 else b""
        pos = int(m[2], 16)
        out.append([int(m[1] == "I"), pos if pos < 2 ** 31 else -1, rk(h),
                    int(m[4]) if abs(int(m[4])) < 2 ** 31 else -2])
    return out


def p13(c):
    bins = build("drv_diff", "hibp_diff")
    acts = ["Skip", "Insert", "Update", "Deletion", "Finish"]
    c.model("Diff", "Diff", acts)
    if THOROUGH:
        c.model("Diff", "DiffThorough", acts, timeout=900)
    scen = c.generate("Diff", "DiffGen")
    r = rng("diff")
    base = newdir("diff")
    jobs = []

    def add(typ, old, new):
        n = len(jobs)
        R.write(f"{base}/{n}.old", old)
        R.write(f"{base}/{n}.new", new)
        jobs.append((n, typ, old, new))
    for i, s in enumerate(scen):
        typ = ["sha1", "ntlm"][i % 2]
        hm = R.embed(r, range(1, 5), R.SIZES[typ])
        cm = R.embed_counts(r, {1, 2})
        add(typ, [(hm[h], cm[x]) for h, x in s["old"]], [(hm[h], cm[x]) for h, x in s["new"]])
    for i in range(150 if not THOROUGH else 1500):
        typ = ["sha1", "ntlm"][i % 2]
        n = BUFS[i % len(BUFS)] if i % 4 else r.randrange(0, 6000)
        hs = R.hashes(r, n + 40, R.SIZES[typ])
        ins = set(r.sample(range(len(hs)), r.choice([0, 1, 2, 5, 40])))
        bnd = {"sha1": 2730, "ntlm": 3276}[typ]
        k = r.randrange(8)
        if k == 0:       # a run of adjacent insertions, also at the ends and at the buffer boundary
            a = r.choice([0, max(0, len(hs) - 20), min(len(hs) - 20, bnd - 10), r.randrange(len(hs) - 19)])
            ins = set(range(a, a + r.randrange(1, 20)))
        if k == 1 and n <= 2000:
            ins = set(range(len(hs)))
        draw = R.count_source(r)
        new = [(h, draw()) for h in hs]
        old = [x for j, x in enumerate(new) if j not in ins]
        for _ in range(r.choice([0, 0, 1, 3, 20])):
            if old:
                j = r.choice([0, len(old) - 1, r.randrange(len(old)), min(len(old) - 1, bnd - r.randrange(3))])
                old[j] = (old[j][0], old[j][1] ^ r.choice([1, 256, 65536, 2 ** 30]))
        if r.random() < .25 and new:  # deletion
            j = r.choice([0, len(new) - 1, r.randrange(len(new))])
            del new[j]
        add(typ, old, new)
    out = drive(f"{bins}/drv_diff", [f"{t}\t{base}/{n}.old\t{base}/{n}.new" for n, t, _, _ in jobs])
    evs = []

    def event(old, new, rc, lines, same=True):
        k = R.Ranker([h for h, _ in old + new])
        return {"old": k.recs(old), "new": k.recs(new), "rc": rc, "hunks": hunks(lines, k),
                "inputSame": same}
    for (n, typ, old, new), a in zip(jobs, out):
        f = a.split("\t")
        lines = f[1].split("|")[:-1] if len(f) > 1 and f[0] in ("ok", "ex") else []
        evs.append(event(old, new, 0 if f[0] == "ok" else 1, lines))
    c.sample(evs[len(scen) // 3])

    def tool(j):
        n, typ, old, new = j
        cmd = [f"{bins}/hibp-diff", f"{base}/{n}.old", f"{base}/{n}.new"] + (["--ntlm"] if typ == "ntlm" else [])
        x = run(cmd)
        t = x.out.decode("latin-1")
        lines = t.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        same = (slurp(f"{base}/{n}.old") == R.pack(old)
                and slurp(f"{base}/{n}.new") == R.pack(new))
        return event(old, new, 99 if x.hang else x.rc, lines, same)
    tev = pmap(tool, r.sample(jobs[:len(scen)], 250) + jobs[len(scen):][:100])
    c.evals = len(evs) + len(tev)
    c.validate("DiffTrace", "DiffTrace", evs, "run_diff", desc(evs))
    c.validate("DiffTrace", "DiffTrace", tev, "hibp-diff", desc(tev))
    rmdir(base)


# ------------------------------------------------------------------------------------------ P20
def p20(c):
    bins = build("hibp_dupes")
    c.model("Dupes", "Dupes", ["Step", "Finish"])
    r = rng("dupes")
    jobs = []
    for i in range(900 if not THOROUGH else 9000):
        typ = ["sha1", "ntlm"][i % 2]
        size = R.SIZES[typ]
        bits = r.choice([32, 33, 39, 40, 41, 48, 63, 64, 64, r.randrange(32, 65)])
        n = r.choice([0, 1, 2, 3, 5, 9])
        hs = set()
        base = r.choice([bytes(size), b"\xff" * size, r.randbytes(size), r.randbytes(size)])
        while len(hs) < n:
            k = r.random()
            b = bytearray(base)
            if k < .3:       # only later bytes differ: a duplicate
                b[8:] = r.randbytes(size - 8)
            elif k < .75:    # one bit at or next to the border
                p = min(63, max(0, bits - 1 + r.choice([-1, 0, 0, 1, 1, 2])))
                b[p // 8] ^= 128 >> (p % 8)
                if r.random() < .5:
                    b[8:] = r.randbytes(size - 8)
            else:
                q = r.randrange(size)
                b[q:] = r.randbytes(size - q)
            hs.add(bytes(b))
            if r.random() < .3:
                base = bytes(b)
        jobs.append((typ, [(h, r.choice(R.COUNTS + [-1])) for h in sorted(hs)], bits))
    for b in (0, 1, 8, 16, 31, 65, 66, 96, 128, 160, -1, -32, 2 ** 31 + 40, 2 ** 32 + 40, 2 ** 64 + 40):   # refused
        jobs.append(("sha1", [(bytes([k]) * 20, 1) for k in (0, 0, 7)], b))
    for i in range(24 if not THOROUGH else 200):     # across buffer boundaries (65536 bytes)
        typ = ["sha1", "ntlm"][i % 2]
        size = R.SIZES[typ]
        n = r.choice([2731, 3277, 5461, 6554, 8000])
        bits = r.choice([32, 40, 64])
        heads = sorted({r.randbytes(8) for _ in range(n)})
        dup = {2730, 2729, 3276, 3275, 5460, 6552, 1, n - 1} | set(r.sample(range(1, n), 20))
        hs = []
        for j, h in enumerate(heads):
            prev = hs[-1] if hs else None
            if j in dup and prev and r.random() < .8 and prev[8:] < b"\xfe" * (size - 8):
                hs.append(prev[:8] + (int.from_bytes(prev[8:], "big") + 1 + r.randrange(1000)).to_bytes(size - 8, "big"))
            else:
                hs.append(h + bytes(2) + r.randbytes(size - 10))
        hs = sorted(set(hs))
        jobs.append((typ, [(h, j % 100) for j, h in enumerate(hs)], bits))

    def one(j):
        typ, db, bits = j
        d = newdir("du")
        R.write(d + "/db", db)
        cmd = [f"{bins}/hibp-dupes", d + "/db"]
        if bits != 64 or len(db) % 2:
            cmd.append(f"--bits={bits}")
        if typ == "ntlm":
            cmd.append("--ntlm")
        x = run(cmd)
        idx = {R.text(h, n): i + 1 for i, (h, n) in enumerate(db)}
        L = R.SIZES[typ] * 2
        rec = re.compile(r"(?<![0-9A-Fa-f])([0-9A-Fa-f]{%d}:-?\d+)" % L)
        printed = [idx.get(m.upper(), 0) for m in rec.findall(x.out.decode("latin-1"))]
        ev = {"type": typ, "bits": bits if abs(bits) < 1000 else 999, "rc": 99 if x.hang else x.rc, "printed": printed}
        if len(db) <= 12:
            ev["db"] = [list(h[:8]) for h, _ in db]
        elif 1 <= bits <= 64:
            lead = [int.from_bytes(h[:8], "big") >> (64 - bits) for h, _ in db]
            m = {v: i for i, v in enumerate(sorted(set(lead)))}
            ev["cls"] = [m[v] for v in lead]
        rmdir(d)
        return ev
    evs = pmap(one, jobs)
    c.evals = len(evs)
    c.sample(evs[5])
    c.notes["reported_dupes"] = sum(len(e["printed"]) for e in evs)
    c.validate("DupesTrace", "DupesTrace", evs, "hibp-dupes", desc(evs))
