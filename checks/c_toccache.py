"""P09 stored tables of contents over histories of updates, searches (also at the same time), crashes and full disks"""
import bisect, os, threading, time
from core import *
import recs as R
from c_tools import desc
from c_lookup import search, prefix_hash

SIZE = [3, 3, 4, 3, 2, 2]      # as in TocCache.tla


def p09(c):
    bins = build("hibp_search", "fault")
    shim = f"{bins}/libfault.so"
    acts = ["Tick", "Update", "SetDisk", "Search", "Check", "Build", "OpenTmp", "Write", "Rename", "Crash"]
    c.model("TocCache", "TocCache", acts)
    if THOROUGH:
        c.model("TocCache", "TocCacheThorough", acts, timeout=1500, workers=8, heap="12g")
    # TLC's random walks, and all short histories around an update
    scen = c.generate("TocCache", "TocCacheGen", simulate=6000, depth=60)
    r = rng("toccache")
    good = [s for s in scen if sum(o[0] == "search" for o in s) >= 2 and any(o[0] == "update" for o in s)]

    def both_write(s):
        """two searches with the same bits write at the same time, and what they write is trusted afterwards"""
        fresh, last = False, 0
        for op, a, crash, at in s:
            fresh = op == "tick" or fresh and op != "update"
            if op == "search" and fresh and at == "write" and last == a and crash in ("write", "rename"):
                return True
            last = a if op == "search" and not at else last
        return False
    n = 420 if not THOROUGH else 5000
    both = [s for s in good if both_write(s)]
    scen = r.sample(both, min(len(both), n // 4))
    scen += r.sample(good, min(len(good), n - len(scen)))
    types = list(R.SIZES)

    def dbs(typ, bits):
        """versions whose records have different positions"""
        size = R.SIZES[typ]
        out = []
        for v in range(6):
            hs = set()
            for p in range(2 * SIZE[v]):      # prefixes of bits + 1 bits
                k = 3 if p else 3 + 4 * [0, 2, 1, 5, 3, 4][v]
                want = len(hs) + k
                while len(hs) < want:
                    hs.add(prefix_hash(r, p, bits + 1, size))
            out.append([(h, r.choice(R.COUNTS)) for h in sorted(hs)])
        return out
    jobs = []
    for i, s in enumerate(scen):
        typ = types[i % 3]
        b = r.choice([15, 19, 20, 24, r.randrange(15, 25)])
        jobs.append((typ, b, dbs(typ, b), s, r.choice([10 ** 9, 10 ** 9, 10 ** 7, 10 ** 3, 1]), random.Random(f"{SEED}{i}")))

    def play(j):
        typ, b, vs, ops, gran, q = j
        d = newdir("tc")
        p = f"{d}/db"
        size = R.SIZES[typ]
        t, ver, disk = 1, 0, "ok"
        evs = [{"op": "start", "type": typ, "bits": b, "gran": gran}]

        def stamp():
            return 10 ** 18 + t * gran

        def update(v):
            nonlocal ver
            ver = v
            # replaced, or overwritten in place
            if q.random() < .5 and os.path.exists(p):
                R.write(p + ".new", vs[v - 1])
                os.rename(p + ".new", p)
            else:
                R.write(p, vs[v - 1])
            os.utime(p, ns=(stamp(), stamp()))
            evs.append({"op": "update", "ver": v, "n": len(vs[v - 1])})
        def query():
            """a hash of the present version or of another one -> (hash, rank)"""
            hs = [h for h, _ in vs[ver - 1]]
            if q.random() < .8:
                m = q.randrange(6 + 4 * 5, len(hs)) if len(hs) > 26 else q.randrange(len(hs))
                m = q.choice([m, len(hs) - 1, q.randrange(len(hs))])
                return hs[m], 2 * (m + 1)
            h = q.choice(q.choice([x for w, x in enumerate(vs) if w != ver - 1]))[0]
            m = bisect.bisect_left(hs, h)
            return h, 2 * (m + 1) if m < len(hs) and hs[m] == h else 2 * m + 1

        def faults(crash):
            env = {"LD_PRELOAD": shim, "VF_PATH": ".toc"}
            if crash in ("build", "open"):
                env.update(VF_OP="open", VF_ACT="kill")
            elif crash == "write":
                env.update(VF_OP="write", VF_ACT="shortkill",
                           VF_BYTES=str(q.choice([0, 1, 2, 4, 4, 7, 8, 8, 9, 12, 15])))
            elif crash == "rename":
                env.update(VF_OP="rename", VF_ACT="kill")
            elif disk == "full":
                env.update(VF_OP="write", VF_ACT=q.choice(["28", "short"]),
                           VF_BYTES=str(q.choice([1, 4, 4, 8, 8, 11])))
            else:
                env = {}
            return env

        def one(bits, crash, env, qq):
            h, rank = qq
            recs = vs[ver - 1]
            st, rec, x = search(bins, p, typ, h.hex().upper(), True, toc=bits, env=env)
            try:
                ans = recs.index(rec) + 1 if rec else -1
            except ValueError:
                ans = 0
            return {"op": "search", "bits": bits, "q": rank, "status": st, "ans": ans,
                    "killed": bool(crash) and x.rc == -9, "disk": disk, "at": crash, "tick": t, "ver": ver}

        def restamp():
            for f in os.listdir(d):
                if "toc" in f and os.stat(f"{d}/{f}").st_mtime_ns > 10 ** 18 + 10 ** 14:
                    os.utime(f"{d}/{f}", ns=(stamp(), stamp()))

        def searches(bits, crash):
            for _ in range(1 if crash else 2):
                evs.append(one(bits, crash, faults(crash), query()))
                restamp()

        def overlapping(bits, at, inner):
            """a search which waits at the given step until the others have been there"""
            env = {"LD_PRELOAD": shim, "VF_PATH": ".toc", "VF_US": "5000000", "VF_WAIT": d + "/go", "VF_N": "1",
                   "VF_ONCE": "1", "VF_COUNT": d + "/there", "VF_ACT": "delay",
                   "VF_OP": {"build": "open", "open": "open", "write": "write", "rename": "rename"}[at]}
            if at == "write" and q.random() < .8:
                env.update(VF_ACT="part", VF_BYTES=str(q.choice([1, 4, 4, 8])))
            box, qq = [], query()
            th = threading.Thread(target=lambda: box.append(one(bits, "", env, qq)))
            th.start()
            while th.is_alive() and not os.path.exists(d + "/there"):
                time.sleep(.001)
            time.sleep(.003)
            for b2, crash in inner:
                evs.append(dict(one(b2, crash, faults(crash), query()), during=at))
                restamp()
            open(d + "/go", "w").close()
            th.join()
            restamp()
            evs.append(box[0])
            searches(bits, "")
            for f in ("go", "there"):
                if os.path.exists(f"{d}/{f}"):
                    os.unlink(f"{d}/{f}")
        update(1)
        k = 0
        while k < len(ops):
            op, a, crash, _ = ops[k]
            k += 1
            if op == "tick":
                t += 1
            elif op == "update":
                update(a)
            elif op == "disk":
                disk = crash
            elif op == "search":
                inner, at = [], ""
                while k < len(ops) and ops[k][0] == "search" and ops[k][3]:
                    at = at or ops[k][3]
                    inner.append((b + ops[k][1] - 1, ops[k][2]))
                    k += 1
                if inner:
                    overlapping(b + a - 1, at, inner)
                else:
                    searches(b + a - 1, "" if crash and q.random() < .7 else crash)
        rmdir(d)
        return evs
    res = pmap(play, jobs)
    evs = [e for es in res for e in es]
    c.sample(res[0])
    c.notes["searches"] = sum(e["op"] == "search" for e in evs)
    c.notes["overlapping"] = sum("during" in e for e in evs)
    c.notes["killed"] = sum(e.get("killed", False) for e in evs)
    c.evals = c.notes["searches"]

    def describe(i):
        k = i
        while evs[k]["op"] != "start":
            k -= 1
        return str(evs[k:i + 1])
    c.validate("TocCacheTrace", "TocCacheTrace", evs, "hibp-search --toc", describe, count=len(jobs))
