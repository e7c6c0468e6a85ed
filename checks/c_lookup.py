"""P07 lookup, P08 lookup through a table of contents"""
import hashlib, os
from core import *
from driver import drive
import recs as R
from c_tools import desc

FLAG = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}
FOUND = re.compile(r"^found\s*=\s*([0-9A-Fa-f]+):(-?\d+)\s*$", re.M)
NOTFOUND = re.compile(r"^not found\s*$", re.M)


def search(bins, db, typ, query, hashed, toc=None, timeout=60, env=None, **k):
    """-> (status, record or None, Res)"""
    cmd = [f"{bins}/hibp-search"] + FLAG[typ] + (["--hash"] if hashed else [])
    if toc is not None:
        cmd += ["--toc"] + ([f"--toc-bits={toc}"] if toc != 20 else [])
    cmd += [db, query]
    x = run(cmd, timeout=timeout, env=env, **k)
    t = x.out.decode("latin-1")
    f, nf = FOUND.findall(t), NOTFOUND.findall(t)
    if x.hang or x.rc < 0:
        return "crash", None, x
    if x.rc != 0:
        return ("refused" if not f and not nf else "confused"), None, x
    if len(f) == 1 and not nf:
        return "found", (bytes.fromhex(f[0][0]) if len(f[0][0]) % 2 == 0 else b"", int(f[0][1])), x
    if len(nf) == 1 and not f:
        return "notfound", None, x
    return "confused", None, x




def neighbours(r, hs, size):
    """absent hashes next to, between, before and after the given sorted ones"""
    s, out = set(hs), set()
    top = 256 ** size - 1
    for h in hs:
        v = int.from_bytes(h, "big")
        for d in (1, -1, 256, -256):
            if 0 <= v + d <= top:
                out.add((v + d).to_bytes(size, "big"))
        b = bytearray(h)
        b[r.randrange(size)] ^= 1 << r.randrange(8)
        out.add(bytes(b))
    out |= {bytes(size), b"\xff" * size, b"\x80" + bytes(size - 1), b"\x7f" + b"\xff" * (size - 1)}
    return sorted(out - s)


PWS = ["password", "123456", " ", "a", "correct horse battery staple", "p%20w+d", "\u00e4\u00f6\u00fc",
       "\U0001F600\u20ac", "x" * 55, "x" * 56, "x" * 63, "x" * 64, "x" * 65, "x" * 119, "x" * 200, "tab\tquote\"'",
       "0" * 40, "5BAA61E4C9B93F3F0682250B6CF8331B7EE68FD8", "ABCDEF0123456789", "a;b&c|d", "$HOME"]


def p07(c):
    bins = build("hibp_search", "drv_ntlm")
    acts = ["Size", "Entry", "Built", "Start", "Halve", "Answer"]
    c.model("Lookup", "Lookup", acts)
    if THOROUGH:
        c.model("Lookup", "LookupThorough", acts, timeout=900)
    r = rng("lookup")
    scen = c.generate("Lookup", "LookupGen")
    scen = list({json.dumps(s["db"]): s["db"] for s in scen}.values()) + [[]]
    nt = [bytes.fromhex(a.split("\t")[1]) for a in
          drive(f"{bins}/drv_ntlm", [p.encode().hex() for p in PWS])]

    def pwhash(typ, i):
        if typ == "ntlm":
            return nt[i]
        return hashlib.sha1(PWS[i].encode()).digest()[:R.SIZES[typ]]
    base = newdir("lk")
    jobs = []
    types = list(R.SIZES)

    def small(typ, recs, q, mode, needle=None):
        p = f"{base}/{len(jobs)}"
        R.write(p, recs)
        jobs.append((typ, p, recs, q, mode, needle))
    # every small database: each value of the model is a hash, queried as in the model
    for i, db in enumerate(scen):
        for k in range(1 if not THOROUGH else 3):
            typ = types[(i + k) % 3]
            size = R.SIZES[typ]
            hm = R.embed(r, range(8), size)
            recs = [(hm[x], r.choice(R.COUNTS)) for x in db]
            for q in r.sample(range(8), 3 if not THOROUGH else 8):
                small(typ, recs, hm[q].hex().upper(), "hash")
    # duplicates, as truncated hashes may be
    for i in range(30 if not THOROUGH else 200):
        hs = R.hashes(r, 4, 8)
        recs = sorted([(h, r.choice(R.COUNTS)) for h in hs for _ in range(r.choice([1, 1, 2, 3]))],
                      key=lambda x: x[0])
        small("sha1t64", recs, r.choice(hs).hex().upper(), "hash")
    # invalid queries, some of which would be found if they were taken for a hash
    for i in range(200 if not THOROUGH else 1500):
        typ = types[i % 3]
        size = R.SIZES[typ]
        hs = R.hashes(r, 3, size)
        recs = [(h, r.choice(R.COUNTS)) for h in hs]
        t = r.choice(hs).hex().upper()
        j = r.randrange(len(t))
        t = r.choice([t.lower() if t.lower() != t else t + "0", t[:-1], t + "0", t + " ", " " + t, t[:j] + "G" + t[j + 1:],
                      t[:j] + "g" + t[j + 1:], t + ":1", t + t, t[:16] if size != 8 else t + "00", t[:32] if size != 16 else t[:30],
                      t[:20] + t[20:].lower() + "a" if i % 2 else t[:j] + r.choice(":/@`\u00b0\u00c1") + t[j + 1:], "0", "x",
                      t[:j] + " " + t[j + 1:], t[:j] + "\n" + t[j + 1:]])
        small(typ, recs, t, "hash")
    # plaintext
    for i in range(len(PWS)):
        for typ in types:
            h = pwhash(typ, i)
            for present in (True, False):
                hs = set(R.hashes(r, 4, size := R.SIZES[typ])) | set(neighbours(r, [h], size)[:2])
                hs.discard(h)
                if present:
                    hs.add(h)
                recs = [(x, r.choice(R.COUNTS)) for x in sorted(hs)]
                small(typ, recs, PWS[i], "plain", h)
                if present or i % 3 == 0:
                    small(typ, recs, h.hex().upper(), "hash")

    # not UTF-8: no ntlm hash, but a sha1 one
    for b in (b"\xff", b"abc\x80", b"\xc3", b"p\xe2\x82", b"\xf0\x9f\x98", b"\xc0\xaf"):
        for typ in types:
            hs = set(R.hashes(r, 4, R.SIZES[typ]))
            if typ != "ntlm":
                hs.add(hashlib.sha1(b).digest()[:R.SIZES[typ]])
            else:
                hs.add(bytes.fromhex("31d6cfe0d16ae931b73c59d7e0c089c0"))    # of the empty password
            small(typ, [(x, r.choice(R.COUNTS)) for x in sorted(hs)], os.fsdecode(b), "plain", None)

    def one(j):
        typ, p, recs, q, mode, needle = j
        st, rec, x = search(bins, p, typ, q, mode == "hash")
        ev = {"kind": "one", "type": typ, "size": R.SIZES[typ], "mode": mode, "toc": 0,
              "db": [[list(h), n] for h, n in recs], "status": st}
        if mode == "hash":
            ev["text"] = list(os.fsencode(q))
        else:
            ev["pw"] = list(os.fsencode(q))
        if rec:
            ev["rec"] = [list(rec[0]), rec[1]]
        return ev
    evs = pmap(one, jobs)
    c.sample(evs[40])
    c.evals += len(evs)
    c.notes["found"] = sum(e["status"] == "found" for e in evs)
    c.notes["refused"] = sum(e["status"] == "refused" for e in evs)
    c.validate("LookupTrace", "LookupTrace", evs, "hibp-search", desc(evs))

    # databases around the buffer sizes
    bigs = []
    for i in range(36 if not THOROUGH else 300):
        typ = types[i % 3]
        size = R.SIZES[typ]
        buf = 4096 // (size + 4)
        n = r.choice([0, 1, 2, buf - 1, buf, buf + 1, 2 * buf, 2 * buf + 1, 5 * buf + 3, 1000, 20000])
        hs = R.hashes(r, max(1, n), size)[:n]
        recs = [(h, r.choice(R.COUNTS)) for h in hs]
        p = f"{base}/big{i}"
        R.write(p, recs)
        qs = []
        for k in {0, 1, n // 2, n - 1, n - 2, buf - 1, buf, 2 * buf, r.randrange(n + 1)}:
            if 0 <= k < n:
                qs.append((2 * (k + 1), hs[k]))
        idx = {h: 1 for h in hs}
        import bisect
        for a in r.sample(neighbours(r, [hs[k] for k in {0, n - 1, n // 2}] if n else [], size), 4):
            if a not in idx:
                qs.append((2 * bisect.bisect_left(hs, a) + 1, a))
        bigs.append((typ, p, recs, qs))

    def big(j):
        typ, p, recs, qs = j
        index = {x: i + 1 for i, x in enumerate(recs)}
        out, rc = [], 0
        for rank, h in qs:
            st, rec, x = search(bins, p, typ, h.hex().upper(), True)
            if st not in ("found", "notfound"):
                rc = x.rc or 99
            out.append([rank, index.get(rec, 0) if st == "found" else -1])
        return {"kind": "many", "type": typ, "n": len(recs), "qs": out, "rc": rc}
    evs = pmap(big, bigs)
    c.evals += sum(len(e["qs"]) for e in evs)
    c.validate("LookupTrace", "LookupTrace", evs, "hibp-search on bigger databases", desc(evs))
    sparse(c, bins, r, False)


def sparse(c, bins, r, toc):
    """databases larger than 2 and 4 GiB, in sparse files: many records of hash 0, a few others at the end"""
    evs = []
    sizes = [2 ** 31, 2 ** 32, 5 * 2 ** 30, 21 * 10 ** 9] if not toc else [2 ** 32 + 2 ** 20]
    if not toc:
        sizes.append((2 ** 31 + 2 ** 20) * 12)     # that many records
    for i, gb in enumerate(sizes):
        typ = list(R.SIZES)[(i + (SEED if toc else 0)) % 3] if i != 4 else "sha1t64"
        size = R.SIZES[typ]
        n = size + 4
        k = gb // n + r.randrange(-3, 3)
        d = newdir("sp")
        if toc:      # no gap in 15 bits
            tail = sorted(((p << (size * 8 - 15)) + r.getrandbits(size * 8 - 15)).to_bytes(size, "big") for p in range(1, 6))
        else:
            tail = R.hashes(r, 6, size, r.choice(["random", "ends", "prefix"]))
        recs = [(h, r.choice(R.COUNTS)) for h in tail]
        with open(d + "/db", "wb") as f:
            f.truncate(n * k)
            f.seek(n * k)
            f.write(R.pack(recs))
        qs = [(2 * j + 2, h) for j, h in enumerate(tail)]
        for a in r.sample(neighbours(r, tail[:3], size), 5):
            if a != bytes(size):
                qs.append((2 * sum(h < a for h in tail) + 1, a))
        out, rc = [], 0
        for rank, h in qs:
            st, rec, x = search(bins, d + "/db", typ, h.hex().upper(), True, toc=15 if toc else None, timeout=300)
            if st not in ("found", "notfound"):
                rc = x.rc or 99
            out.append([rank, recs.index(rec) + 1 if rec in recs else 0 if st == "found" else -1])
        evs.append({"kind": "many", "type": typ, "n": len(recs), "qs": out, "rc": rc, "bytes": str(n * (k + len(recs)))})
        rmdir(d)
    c.evals += sum(len(e["qs"]) for e in evs)
    c.validate("LookupTrace", "LookupTrace", evs, "hibp-search on databases of several GiB", desc(evs))


def prefix_hash(r, p, bits, size, kind=None):
    rest = size * 8 - bits
    k = kind if kind is not None else r.randrange(4)
    low = [0, (1 << rest) - 1, r.getrandbits(rest), r.getrandbits(rest)][k]
    return ((p << rest) | low).to_bytes(size, "big")


def p08(c):
    import bisect
    bins = build("drv_toc", "hibp_search")
    acts = ["Size", "Entry", "Built", "Start", "Halve", "Answer"]
    c.model("Lookup", "Lookup", acts)
    if THOROUGH:
        c.model("Lookup", "LookupThorough", acts, timeout=900)
    scen = c.generate("Lookup", "LookupGen")
    r = rng("toc")
    types = list(R.SIZES)
    base = newdir("toc")
    jobs = []        # typ, path, recs, bits, queries

    def add(typ, hs, bits, nq=24):
        size = R.SIZES[typ]
        hs = sorted(set(hs))
        recs = [(h, r.choice(R.COUNTS)) for h in hs]
        p = f"{base}/{len(jobs)}"
        R.write(p, recs)
        os.utime(p, (1e9, 1e9))
        n = len(hs)
        pick = {0, n - 1, n // 2} | {r.randrange(n) for _ in range(nq)} if n else set()
        pick = {k for k in pick if 0 <= k < n}
        qs = [(2 * (k + 1), hs[k]) for k in sorted(pick)]
        near = [hs[k] for k in pick]
        ab = neighbours(r, near, size)
        if n:
            last = int.from_bytes(hs[-1], "big") >> (size * 8 - bits)
            for d in (0, 1, 2):
                if last + d < 1 << bits:
                    ab += [prefix_hash(r, last + d, bits, size, k) for k in (0, 1, 2)]
            ab += [prefix_hash(r, r.randrange(last + 1), bits, size) for _ in range(8)]
        s = set(hs)
        ab = [a for a in set(ab) if a not in s]
        for a in r.sample(sorted(ab), min(len(ab), nq)):
            qs.append((2 * bisect.bisect_left(hs, a) + 1, a))
        jobs.append((typ, p, recs, bits, qs))
    # the databases of the model: the leading 3 bits there are the last ones of the prefix here
    pool = [s for s in scen if s["bits"] == 3]
    for i, s in enumerate(pool if THOROUGH else r.sample(pool, 120)):
        typ = types[i % 3]
        bits = r.choice([15, 16, 17, 18, 20, 23, 24, 25])
        hs = [prefix_hash(r, x, bits, R.SIZES[typ]) for x in s["db"]]
        # ... the prefixes of the model have several records here
        hs += [prefix_hash(r, x, bits, R.SIZES[typ]) for x in s["db"] for _ in range(r.choice([0, 0, 1, 3]))]
        add(typ, hs, r.choice([bits, bits, bits, max(15, bits - 1), max(15, bits - 3), min(25, bits + 1)]))
    # no gap: 0..last, a random number of records in each
    for i in range(60 if not THOROUGH else 500):
        typ = types[i % 3]
        bits = r.randrange(15, 26)
        last = r.choice([0, 1, 2, 7, 8, 31, 100, 999, 1000, 1001])
        hs = []
        for x in range(last + 1):
            for _ in range(r.choice([1, 1, 2, 5]) if last < 500 else 1):
                hs.append(prefix_hash(r, x, bits, R.SIZES[typ]))
        if i % 5 == 0 and last:        # one gap
            g = r.choice([0, last - 1, last // 2])
            hs = [h for h in hs if int.from_bytes(h, "big") >> (R.SIZES[typ] * 8 - bits) != g]
        if i % 7 == 0:   # one prefix has most of the records
            g = r.choice([0, last, last, r.randrange(last + 1)])
            hs += [prefix_hash(r, g, bits, R.SIZES[typ], 2) for _ in range(r.choice([300, 2000, 7000, 7000, 20000, 70000]))]
        add(typ, hs, bits if i % 3 else max(15, bits - r.randrange(0, 5)))
    # complete ones
    for i in range(3 if not THOROUGH else 9):
        typ = types[i % 3]
        b = 15 if not THOROUGH else r.choice([15, 16, 17])
        hs = [prefix_hash(r, x, b, R.SIZES[typ], 2 if i < 2 else None) for x in range(2 ** b) for _ in range(1 + (x % 3 == 0))]
        if i == 2:
            hs[5] = prefix_hash(r, 0, b, R.SIZES[typ], 0)
        add(typ, hs, b, 200)
    add("sha1", [], 16)
    cmds = []
    for typ, p, recs, bits, qs in jobs:
        q = ",".join(h.hex() for _, h in qs)
        cmds += [f"{typ}\t{p}\t{bits}\t1\t{q}", f"{typ}\t{p}\t{bits}\t0\t{q}"]
    ans = drive(f"{bins}/drv_toc", cmds, atomic=2)
    evs = []

    def event(j, built, out, rc, mode):
        typ, p, recs, bits, qs = j
        sh = R.SIZES[typ] * 8 - bits
        return {"kind": "many", "type": typ, "mode": mode, "n": len(recs), "bits": bits, "rc": rc,
                "built": built, "pfx": [int.from_bytes(h, "big") >> sh for h, _ in recs],
                "qs": [[a, b] for (a, _), b in zip(qs, out)]}
    for k, j in enumerate(jobs):
        index = {f"{h.hex()}:{n}": i + 1 for i, (h, n) in enumerate(j[2])}
        for m in (0, 1):
            f = ans[2 * k + m].split("\t")
            built, out, rc = True, [], 0
            if f[0] == "nobuild":
                built = False
            elif f[0] == "ok":
                out = [-1 if x == "-" else index.get(x, 0) for x in f[1].split(",")[:-1]]
                if len(out) != len(j[4]):
                    rc = 97 if j[4] else 0
            else:
                rc = 99
            evs.append(event(j, built, out, rc, ["built", "loaded"][m]))
    c.sample(evs[2])
    c.evals += sum(len(e["qs"]) for e in evs)
    c.notes["refused_for_gap"] = sum(not e["built"] for e in evs)
    c.validate("LookupTrace", "LookupTrace", evs, "toc_build/toc_search", desc(evs))

    # the tool: all queries of a database one after the other, the first of them builds the toc
    def tool(j):
        typ, p, recs, bits, qs = j
        index = {x: i + 1 for i, x in enumerate(recs)}
        for f in os.listdir(base):
            if f.startswith(os.path.basename(p) + "."):
                os.remove(f"{base}/{f}")
        out, rc, built = [], 0, True
        for rank, h in qs[:3] + qs[-3:]:
            st, rec, x = search(bins, p, typ, h.hex().upper(), True, toc=bits)
            if st == "refused":
                built = False
            elif st not in ("found", "notfound"):
                rc = 99
            out.append([rank, index.get(rec, 0) if st == "found" else -1])
        ev = event(j, built, [], rc, "tool")
        ev["qs"] = out
        return ev
    tjobs = [j for j in jobs if j[4] and len(j[2]) < 20000]
    evs = pmap(tool, r.sample(tjobs, 70 if not THOROUGH else len(tjobs)))
    c.evals += sum(len(e["qs"]) for e in evs)
    c.validate("LookupTrace", "LookupTrace", evs, "hibp-search --toc", desc(evs))

    def bits_of(b):
        typ = r.choice(types)
        hs = sorted(bytes(R.SIZES[typ] - 1) + bytes([k]) for k in range(1, 200, 2))
        p = f"{base}/bits{b}"
        R.write(p, [(h, 1) for h in hs])
        os.utime(p, (1e9, 1e9))
        out = []
        for k in (0, 1, 99, 100, 198, 199):
            h = bytes(R.SIZES[typ] - 1) + bytes([k])
            out.append({"kind": "bits", "bits": b if abs(b) < 1000 else 999, "in": h in hs,
                        "status": search(bins, p, typ, h.hex().upper(), True, toc=b)[0]})
        return out
    evs = [e for b in [*range(14, 27), 0, 1, 2, 8, 31, 32, 33, 64, -1, -20, 2 ** 32 + 20, 2 ** 64 + 20] for e in bits_of(b)]
    c.evals += len(evs)
    c.validate("LookupTrace", "LookupTrace", evs, "hibp-search --toc-bits", desc(evs))
    rmdir(base)
    sparse(c, bins, r, True)
