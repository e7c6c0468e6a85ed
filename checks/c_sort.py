"""P11: disk sort"""
import os
from core import *
from driver import drive
import recs as R


def match_ids(inp, out):
    """which input record each output record is; 0 if there is none (left)"""
    pos = {}
    for i, x in enumerate(inp):
        pos.setdefault(x, []).append(i + 1)
    for v in pos.values():
        v.reverse()
    return [pos[x].pop() if pos.get(x) else 0 for x in out]


def observe(d, name, inp, size, mode, rc, named, outname, files_before):
    path = os.path.join(d, name)
    try:
        with open(path, "rb") as f:
            same = f.read() == R.pack(inp)
    except OSError:
        same = False
    outp = os.path.join(d, outname)
    try:
        out = R.read(outp, size)
        whole = os.path.getsize(outp) % (size + 4) == 0
    except OSError:
        out, whole = [], False
    left = sorted(set(os.listdir(os.path.dirname(path))) - set(files_before)
                  - {os.path.basename(outp)})
    k = R.Ranker([h for h, _ in inp])
    ev = {"mode": mode, "rc": rc, "named": bool(named and whole), "in": k.recs(inp),
          "inputSame": same, "leftover": left}
    if len(inp) <= 12:
        ev["out"] = k.recs(out)
    else:
        ev["ids"] = match_ids(inp, out)
    return ev


def p11(c):
    bins = build("drv_sort", "hibp_sort")
    exe = f"{bins}/drv_sort"
    acts = ["SortChunk", "SplitDone", "MergeStep", "MergeDone"]
    c.model("ExtSort", "ExtSort", acts)
    if THOROUGH:
        c.model("ExtSort", "ExtSortThorough", acts, timeout=900)
    scen = c.generate("ExtSort", "ExtSortGen")
    r = rng("sort")
    base = newdir("sort")
    jobs = []
    types = ["sha1", "ntlm", "sha1t64"]

    def add(typ, mode, inp, chunk, extra=0, bufrecs=0):
        size = R.SIZES[typ]
        n = len(jobs)
        d = os.path.join(base, str(n))
        os.mkdir(d)
        p = os.path.join(d, "db")
        R.write(p, inp)
        mem = chunk * (size + 4) + extra % (size + 4)
        jobs.append((d, typ, mode, inp, f"{typ}\t{mode}\t{mem}\t{p}\t{bufrecs or 4096 // (size + 4)}",
                     chunk))

    for i, s in enumerate(scen):
        typ = types[i % 3]
        hm = R.embed(r, {1, 2}, R.SIZES[typ])
        cm = R.embed_counts(r, {1, 2})
        add(typ, s["mode"], [(hm[h], cm[x]) for h, x in s["in"]], s["chunk"], r.randrange(100))
    sizes = [0, 1, 2, 3, 13, 100, 169, 170, 171, 341, 999, 1000, 1001, 1999, 2000, 2001, 2500]
    for i in range(120 if not THOROUGH else 1500):
        typ = types[i % 3]
        n = sizes[i % len(sizes)] if i < 60 else r.randrange(0, 2600)
        hs = R.hashes(r, max(1, n if r.random() < .6 else n // 3), R.SIZES[typ])
        draw = R.count_source(r)
        cs = [draw() for _ in range(4)] if r.random() < .4 else None
        inp = [(r.choice(hs), r.choice(cs) if cs else draw()) for _ in range(n)]
        if r.random() < .1:
            inp.sort()
        if r.random() < .1:
            inp.sort(reverse=True)
        chunk = r.choice([1, 2, 7, 100, 999, 1000, 1001, 1500, max(1, n - 1), max(1, n), n + 1,
                          max(1, n // 2), max(1, n // 3), max(1, (n + 1) // 2)])
        if n // chunk > 400:      # limits open files
            chunk = max(1, n // 50)
        add(typ, r.choice(["hash", "count"]), inp, chunk, r.randrange(100),
            r.choice([0, 0, 1, 3, 1000]))
    out = drive(exe, [j[4] for j in jobs])
    events = []
    for (d, typ, mode, inp, cmd, chunk), a in zip(jobs, out):
        f = a.split("\t")
        ok = f[0] == "ok"
        ev = observe(d, "db", inp, R.SIZES[typ], mode, 0 if ok else 1,
                     ok and f[1] == os.path.join(d, "db.sorted"), "db.sorted", ["db"])
        ev["chunk"] = chunk
        events.append(ev)
        rmdir(d)
    c.sample(events[len(scen) // 2])

    # the program itself: options, paths, and big enough for several chunks of 1 MB
    def tool(k):
        rr = rng("sorttool", k)
        ntlm = k % 2 == 1
        mode = "count" if k % 4 >= 2 else "hash"
        size = 16 if ntlm else 20
        percmb = 1024 * 1024 // (size + 4)
        n = ([percmb - 1, 2 * percmb + 17, percmb + 1, percmb * 2, percmb] * 4)[k] if k < big \
            else rr.choice([0, 1, 2, 5, 12, 300, 2731])
        if n > 1000:
            hs = [rr.randbytes(size) for _ in range(n)]
        else:
            hs = R.hashes(rr, max(1, n), size)
        inp = [(rr.choice(hs) if rr.random() < .1 else hs[j], rr.randrange(0, 9 if n < 50 else 60000))
               for j in range(n)]
        rr.shuffle(inp)
        d = newdir("st")
        names = ["db", "my db.bin", "d'b", 'd"b"', "{}db{0}", "sub/x.y.bin", "./rel.bin", "db\\n", "ü.bin"]
        name = names[k % len(names)]
        os.makedirs(os.path.join(d, "sub"), exist_ok=True)
        R.write(os.path.join(d, name), inp)
        before = os.listdir(os.path.dirname(os.path.join(d, name)))
        arg = os.path.join(d, name) if k % 3 == 0 else name
        cmd = [f"{bins}/hibp-sort", "-i", arg]
        if n > 1000:
            cmd += ["--max-memory", "1"]
        elif rr.random() < .6:
            cmd += ["--max-memory", str(rr.choice([1, 2, 5, 1000, 2048, 4095, 4096, 4097, 8192, 65536, 2 ** 20, 2 ** 22, 2 ** 32]))]
        if ntlm:
            cmd.append("--ntlm")
        if mode == "count":
            cmd.append("--sort-by-count")
        x = run(cmd, cwd=d, timeout=120)
        ev = observe(d, name, inp, size, mode, x.rc if not x.hang else 99,
                     True, name + ".sorted", before)
        ev["cmd"] = " ".join(cmd)
        rmdir(d)
        return ev
    big = 4 if not THOROUGH else 12
    tev = pmap(tool, range(big + (48 if not THOROUGH else 400)))
    c.evals = len(events) + len(tev)
    c.sample({k: v for k, v in tev[-1].items() if k not in ("in", "ids")})

    def desc(evs):
        return lambda i: str({k: v for k, v in evs[i].items() if k not in ("in", "ids", "out")}) + \
            f" input {str(evs[i]['in'])[:300]} output {str(evs[i].get('out', evs[i].get('ids')))[:300]}"
    c.validate("ExtSortTrace", "ExtSortTrace", events, "disksort", desc(events))
    c.validate("ExtSortTrace", "ExtSortTrace", tev, "hibp-sort", desc(tev))
