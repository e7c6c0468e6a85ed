"""P24 memory needed, P25 disk access needed"""
import array, bisect, json, os, shutil, sys
from core import *
from httpc import Conn, HibpServer, request
from dlserver import Server
import recs as R

FLAG = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}


def mutants(c):
    c.model("Resources", "Resources", ["Scan", "Keep", "Chunk", "Spill", "Merge", "Halve", "Look"])
    for s in ("slurp", "keep", "back", "linear"):
        if tlc("Resources", f"Resources_{s}", workers=2).ok:
            raise CheckError(f"the model does not notice the design {s}")


class Db:
    """n records in ascending order, evenly spread over the prefixes (or shuffled)"""

    def __init__(self, r, path, typ, n, order="sorted", dense=0):
        self.path, self.typ, self.n, self.rec = path, typ, n, R.SIZES[typ] + 4
        k = self.rec
        step = (1 << 32) // max(1, n - dense)
        seq = array.array("I", [i * step for i in range(n - dense)])
        if dense:              # that many records more in the middle share their first four bytes
            a = (n - dense) // 2
            seq = seq[:a] + array.array("I", [seq[a]]) * dense + seq[a:]
        if order == "shuffled":
            l = list(seq)
            r.shuffle(l)
            seq = array.array("I", l)
        elif order == "descending":
            seq = array.array("I", reversed(seq))
        self.seq = seq
        big = array.array("I", seq)
        big.byteswap()
        pre = big.tobytes()
        data = bytearray(r.randbytes(4 * n + 64) * (k // 4 + 1))[:n * k]
        for i in range(4):
            data[i::k] = pre[i::4]
        if dense:              # the next bytes put them in order
            for i in range(n):
                data[i * k + 4:i * k + 8] = i.to_bytes(4, "big")
        data[k - 1::k] = bytes(n)          # the sign and high bits of the count
        with open(path, "wb") as f:
            f.write(data)
        os.utime(path, (1e9, 1e9))

    @property
    def kb(self):
        return self.n * self.rec // 1024 + 1

    def hash(self, i):
        with open(self.path, "rb") as f:
            f.seek(i * self.rec)
            return f.read(self.rec - 4)

    def chapter(self, h, bits):
        """number of records with the same leading bits"""
        if not bits:
            return self.n
        p = int.from_bytes(h[:4], "big") >> (32 - bits)
        return bisect.bisect_left(self.seq, (p + 1) << (32 - bits)) - bisect.bisect_left(self.seq, p << (32 - bits))


def peak(bins, cmd, **k):
    d = newdir("pk")
    x = run([f"{bins}/peak", d + "/kb"] + cmd, timeout=300, **k)
    kb = int(open(d + "/kb").read() or 0) if os.path.exists(d + "/kb") else 0
    rmdir(d)
    return kb, 99 if x.hang else x.rc, x


def desc(evs):
    return lambda i: json.dumps(evs[i])


def changed(r, db, path):
    """a newer version: some counts, some records more"""
    with open(db.path, "rb") as f:
        data = bytearray(f.read())
    k = db.rec
    for _ in range(30):
        i = r.randrange(db.n)
        data[i * k + k - 4] ^= 1
    i = r.randrange(1, db.n)
    h = db.hash(i - 1)
    new = (int.from_bytes(h, "big") + 1).to_bytes(k - 4, "big") + b"\1\0\0\0"
    data[i * k:i * k] = new
    with open(path, "wb") as f:
        f.write(data)


# ------------------------------------------------------------------------------------------ P24
def p24(c):
    bins = build("hibp_convert", "hibp_topn", "hibp_sort", "hibp_diff", "hibp_dupes", "hibp_search", "hibp_server",
                 "hibp_download", "peak")
    mutants(c)
    r = rng("memory")
    d = newdir("mem")
    N = 2_500_000 if not THOROUGH else 12_000_000
    evs = []

    def both(tool, what, m, rec, size, cmds, **k):
        """cmds: (small, big)"""
        got = []
        for cmd, clean, kw in cmds:
            kb, rc, x = peak(bins, cmd, **kw)
            for p in clean:
                if os.path.exists(p):
                    os.remove(p)
            got.append((kb, rc))
        e = {"kind": "mem", "tool": tool, "what": what, "m": m, "rec": rec, "size": size,
             "small": got[0][0], "big": got[1][0], "rc": got[0][1] or got[1][1]}
        evs.append(e)
        return e

    def tools(typ):
        big = Db(r, f"{d}/{typ}.big", typ, N)
        small = Db(r, f"{d}/{typ}.small", typ, 2000)
        shuf = Db(r, f"{d}/{typ}.shuf", typ, N, "shuffled")
        desc_ = Db(r, f"{d}/{typ}.desc", typ, N, "descending")
        ssm = Db(r, f"{d}/{typ}.sshuf", typ, 2000, "shuffled")
        fl = FLAG[typ]
        pairs = (small, big)
        jobs = []

        def add(tool, what, m, f, dbs=pairs):
            jobs.append((tool, what, m, big.rec, big.kb, [f(x, f"{d}/{typ}.o{len(jobs)}{i}") for i, x in enumerate(dbs)]))
        if typ != "sha1t64":
            for x in pairs:
                run([f"{bins}/hibp-convert", "--bin-to-txt", "-i", x.path, "-o", x.path + ".txt"] + fl)
                changed(r, x, x.path + ".new")
            add("scan", "convert --bin-to-txt", 0, lambda x, o: ([f"{bins}/hibp-convert", "--bin-to-txt", "-i", x.path, "-o", o] + fl, [o], {}))
            add("scan", "convert --txt-to-bin", 0, lambda x, o: ([f"{bins}/hibp-convert", "--txt-to-bin", "-i", x.path + ".txt", "-o", o] + fl, [o], {}))
            add("scan", "diff", 0, lambda x, o: ([f"{bins}/hibp-diff", x.path, x.path + ".new"] + fl, [], {}))
            add("scan", "diff of the same", 0, lambda x, o: ([f"{bins}/hibp-diff", x.path, x.path] + fl, [], {}))
            add("scan", "dupes", 0, lambda x, o: ([f"{bins}/hibp-dupes", x.path] + fl, [], {}))
            for mb in ((1, 3, 8) if typ == "sha1" else (2, 20)):
                for by in ([], ["--sort-by-count"]):
                    for dbs in ((ssm, shuf), (small, desc_), (small, big)):
                        if dbs[1] is not shuf and (mb != 1 or by):
                            continue
                        add("sort", f"sort {by} of {os.path.basename(dbs[1].path)}", mb * 1024,
                            lambda x, o, mb=mb, by=by: ([f"{bins}/hibp-sort", "-i", x.path, "--max-memory", str(mb)] + by + fl,
                                                        [x.path + ".sorted"], {}), dbs)
        for k in (10, 1000, 200_000):
            add("topn", f"topn -N {k}", k, lambda x, o, k=k: ([f"{bins}/hibp-topn", x.path, "-N", str(min(k, x.n // 2)), "-o", o] + fl, [o], {}))
        q = "5BAA61E4C9B93F3F0682250B6CF8331B7EE68FD8"[:2 * R.SIZES[typ]]
        add("scan", "search", 0, lambda x, o: ([f"{bins}/hibp-search", x.path, "--hash", q] + fl, [], {}))
        for bits in (15, 20):
            for what in ("built", "loaded"):
                add("toc", f"search --toc-bits {bits} {what}", 2 ** bits,
                    lambda x, o, bits=bits: ([f"{bins}/hibp-search", x.path, "--toc", "--toc-bits", str(bits), "--hash", q] + fl, [], {}),
                    (x0, big) if (x0 := Db(r, f"{d}/{typ}.tiny", typ, 1)) else ())
        return jobs

    def one(j):
        return both(*j)
    for typ in R.SIZES:
        jobs = tools(typ)
        # the same file is not sorted twice at a time
        par, ser = [j for j in jobs if j[0] not in ("sort", "toc")], [j for j in jobs if j[0] in ("sort", "toc")]
        f = c.pool.submit(lambda: [one(j) for j in ser])
        pmap(one, par, 4)
        f.result()
        for x in os.listdir(d):
            os.remove(os.path.join(d, x))
        c.log(f"{typ}: {len(jobs)} pairs of runs")
    server_memory(c, bins, r, d, evs)
    download_memory(c, bins, r, evs)
    c.evals = 2 * len(evs)
    c.sample(evs[0])
    c.sample(evs[-1])
    c.notes["growth_kB"] = {e["what"] + f" ({e['rec']})": e["big"] - e["small"] for e in evs}
    c.validate("ResourcesTrace", "ResourcesTrace", evs, "peak memory", desc(evs))
    rmdir(d)


def hwm(pid):
    with open(f"/proc/{pid}/status") as f:
        for ln in f:
            if ln.startswith("VmHWM:"):
                return int(ln.split()[1])
    return 0


def ask(port, paths):
    """one request after the other, on new connections now and then; -> number answered"""
    ok = 0
    for i in range(0, len(paths), 100):
        co = Conn(port)
        for p in paths[i:i + 100]:
            co.send(request("GET", p))
            x = co.response()
            if not x or x[0] != 200:
                break
            ok += 1
        co.close()
    return ok


def server_memory(c, bins, r, d, evs):
    """many requests to one server; also a big database against a small one, with and without a table of contents"""
    def start(x, bits):
        return HibpServer(f"{bins}/hibp-server", ["--sha1-db", x.path, "--threads", "2"]
                          + (["--toc", "--toc-bits", str(bits)] if bits else []), wait=120)

    def paths(x, k):
        return [f"/check/sha1/{x.hash(r.randrange(x.n)).hex().upper()}".encode() if r.random() < .7 else
                b"/check/plain/" + r.randbytes(8).hex().encode() for _ in range(k)]
    big, small = Db(r, d + "/s.big", "sha1", 2_500_000), Db(r, d + "/s.small", "sha1", 1)
    for bits in (0, 20):
        sizes = []
        for x in (small, big):
            s = start(x, bits)
            if not s.p:
                evs.append({"kind": "mem", "tool": "toc", "what": "server", "m": 0, "rec": 24, "size": 0, "small": 0,
                            "big": 0, "rc": 98})
                return
            k = 300
            got = pmap(lambda p: ask(s.port, p), [paths(x, k) for _ in range(4)], 4)
            sizes.append(hwm(s.p.pid))
            if x is big:
                more = pmap(lambda p: ask(s.port, p), [paths(x, 8 * k) for _ in range(4)], 4)
                evs.append({"kind": "mem", "tool": "scan", "what": f"server --toc-bits {bits}, requests", "m": 0, "rec": 24,
                            "size": 0, "small": sizes[-1], "big": hwm(s.p.pid), "rc": 0 if sum(more) else 97})
            s.close()
        evs.append({"kind": "mem", "tool": "toc" if bits else "scan", "what": f"server --toc-bits {bits}, databases",
                    "m": 2 ** bits if bits else 0, "rec": 24, "size": big.kb, "small": sizes[0], "big": sizes[1],
                    "rc": 0 if sum(got) else 97})


def download_memory(c, bins, r, evs):
    for typ, fl in (("sha1", []), ("text", ["--txt-out"])):
        pool = sorted(r.sample(range(1 << 40), 900))
        body = b"".join(b"%010X%s:%d\r\n" % (x, r.randbytes(13).hex()[:25].upper().encode(), r.randrange(1, 99))
                        for x in pool)
        P, got = 5, []
        for n in (40, 3000 if not THOROUGH else 20000):
            # slower than the writer, as what arrives too early is kept in memory. (Also with persistent connections:
            # otherwise curl prefers the newest request, and nearly everything arrives too early.)
            srv = Server(lambda f, a: ("ok", body), lambda x: None, latency=.02, keepalive=True)
            o = newdir("dm")
            kb, rc, x = peak(bins, [f"{bins}/hibp-download", o + "/out", "--limit", str(n), "--parallel-max", str(P),
                                    "--testing", "--no-progress"] + fl, env=srv.env())
            srv.close()
            rmdir(o)
            got.append((kb, rc))
        evs.append({"kind": "mem", "tool": "download", "what": f"download {typ}", "m": P * (len(body) // 1024 + 1), "rec": 24,
                    "size": n * len(body) // 1024, "small": got[0][0], "big": got[1][0], "rc": got[0][1] or got[1][1]})


# ------------------------------------------------------------------------------------------ P25
class Reads:
    """counts what a program reads of one file"""

    def __init__(self, bins, path):
        self.f = os.path.join(newdir("rd"), "reads")
        self.env = {"LD_PRELOAD": f"{bins}/libfault.so", "VF_OP": "read", "VF_N": "0", "VF_PATH": path + "$",
                    "VF_READS": self.f}
        self.pos = 0

    def new(self):
        """since the last call: (reads, bytes)"""
        if not os.path.exists(self.f):
            return 0, 0
        with open(self.f) as f:
            f.seek(self.pos)
            t = f.read()
        self.pos += len(t)
        got = [int(x) for x in t.split()]
        return len(got), sum(max(0, x) for x in got)


def p25(c):
    bins = build("hibp_convert", "hibp_topn", "hibp_sort", "hibp_diff", "hibp_dupes", "hibp_search", "hibp_server", "fault")
    mutants(c)
    r = rng("reads")
    d = newdir("cost")
    evs = []
    N = 300_000 if not THOROUGH else 3_000_000
    dbs = {}
    for typ in R.SIZES:
        dbs[typ] = [Db(r, f"{d}/{typ}.{i}", typ, n, dense=k) for i, (n, k) in enumerate(
            [(1_150_000 if typ == "sha1" else N, 0), (N, N // 3), (r.randrange(2 ** 17, 2 ** 18), 0), (1, 0), (2, 0), (r.randrange(3, 60), 0),
             (r.randrange(300, 6000), 0)])]
    # each byte once
    jobs = []
    for typ in R.SIZES:
        fl = FLAG[typ]
        for x in dbs[typ]:
            o = x.path + ".out"
            jobs.append((x, x.path, "topn", [f"{bins}/hibp-topn", x.path, "-N", str(x.n // 2), "-o", o + "t"] + fl))
            if typ == "sha1t64":
                continue
            run([f"{bins}/hibp-convert", "--bin-to-txt", "-i", x.path, "-o", x.path + ".txt"] + fl)
            changed(r, x, x.path + ".new") if x.n > 1 else shutil.copy(x.path, x.path + ".new")
            jobs += [(x, x.path, "convert to text", [f"{bins}/hibp-convert", "--bin-to-txt", "-i", x.path, "-o", o + "c"] + fl),
                     (x, x.path + ".txt", "convert to binary", [f"{bins}/hibp-convert", "--txt-to-bin", "-i", x.path + ".txt", "-o", o + "b"] + fl),
                     (x, x.path, "diff, the old one", [f"{bins}/hibp-diff", x.path, x.path + ".new"] + fl),
                     (x, x.path + ".new", "diff, the new one", [f"{bins}/hibp-diff", x.path, x.path + ".new"] + fl),
                     (x, x.path, "dupes", [f"{bins}/hibp-dupes", x.path] + fl)]
            for mb in (1, 3, 100):
                lp = f"{x.path}.s{mb}"
                os.symlink(x.path, lp)
                jobs.append((x, x.path, "sort", [f"{bins}/hibp-sort", "-i", lp, "--max-memory", str(mb)] + fl))

    def scan(j):
        x, path, what, cmd = j
        rd = Reads(bins, path)
        y = run(cmd, env=rd.env, timeout=300)
        n, b = rd.new()
        return {"kind": "scan", "what": what, "type": x.typ, "n": x.n, "size": os.path.getsize(path) // 1024 + 1,
                "reads": n, "read": b // 1024 + 1, "rc": 99 if y.hang else y.rc}
    evs += pmap(scan, jobs)
    # tables of contents: built once, reading each byte once; then used
    jobs = [(x, bits) for typ in R.SIZES for x in dbs[typ] for bits in (0, 15, 17, r.choice([16, 18]), 20)
            if not bits or x.n >= 2 ** bits or x.n == 1]

    def lookups(j):
        x, bits = j
        lp = f"{x.path}.l{bits}"
        os.symlink(x.path, lp)
        out = []
        opts = FLAG[x.typ] + (["--toc", "--toc-bits", str(bits)] if bits else [])
        if x.n > 1 and any(x.chapter((p << (32 - bits)).to_bytes(4, "big"), bits) == 0 for p in range((x.seq[-1] >> (32 - bits)) + 1)) if bits else False:
            return []          # a gap: such a database has no table of contents
        rd = Reads(bins, x.path)
        if bits:
            y = run([f"{bins}/hibp-search", lp, "--hash", x.hash(0).hex().upper()] + opts, env=rd.env, timeout=300)
            n, b = rd.new()
            out.append({"kind": "scan", "what": f"search, building --toc-bits {bits}", "type": x.typ, "n": x.n, "size": x.kb,
                        "reads": n, "read": b // 1024 + 1, "rc": 99 if y.hang else y.rc})
        pick = [0, x.n - 1, x.n // 2, x.n // 3] + [r.randrange(x.n) for _ in range(5)]
        qs = [x.hash(i) for i in pick]
        qs += [R.hashes(r, 1, x.rec - 4, "random")[0] for _ in range(3)]
        qs += [bytes(x.rec - 4), b"\xff" * (x.rec - 4)] + [h[:-1] + bytes([h[-1] ^ 1]) for h in qs[:5]]
        for h in qs:
            y = run([f"{bins}/hibp-search", lp, "--hash", h.hex().upper()] + opts, env=rd.env, timeout=300)
            n, b = rd.new()
            out.append({"kind": "lookup", "what": f"search --toc-bits {bits}", "type": x.typ, "n": x.n, "hash": h.hex(),
                        "chapter": x.chapter(h, bits), "reads": n, "read": b // 1024 + 1, "rc": 99 if y.hang else y.rc})
        return out
    for o in pmap(lookups, jobs):
        evs += o
    # the server, each request alone
    sj = [(x, bits) for x in (dbs["sha1"][0], dbs["ntlm"][1], dbs["sha1t64"][2])
          for bits in (0, 15, 20 if x.typ == "sha1" else 16)]

    def served(j):
        x, bits = j
        lp = f"{x.path}.v{bits}"
        os.symlink(x.path, lp)
        rd = Reads(bins, x.path)
        out = []
        s = HibpServer(f"{bins}/hibp-server", [f"--{x.typ}-db", lp] + (["--toc", "--toc-bits", str(bits)] if bits else []),
                       env=rd.env, wait=120)
        if not s.p:
            return [{"kind": "scan", "what": "server", "rc": 98, "size": 0, "read": 0}]
        rd.new()
        for _ in range(25):
            h = x.hash(r.choice([0, x.n - 1, x.n // 2, r.randrange(x.n)])) if r.random() < .6 else r.randbytes(x.rec - 4)
            co = Conn(s.port)
            co.send(request("GET", f"/check/{x.typ}/{h.hex().upper()}".encode()))
            a = co.response()
            co.close()
            n, b = rd.new()
            if not a and s.alive():
                continue       # RESTinio may drop a request (see DESIGN.md)
            out.append({"kind": "lookup", "what": f"server --toc-bits {bits}", "type": x.typ, "n": x.n, "hash": h.hex(),
                        "chapter": x.chapter(h, bits), "reads": n, "read": b // 1024 + 1,
                        "rc": 0 if a and a[0] == 200 else 97})
        s.close()
        return out
    for o in pmap(served, sj):
        evs += o
    c.evals = len(evs)
    c.sample([e for e in evs if e["kind"] == "scan"][0])
    c.sample([e for e in evs if e["kind"] == "lookup"][-1])
    c.notes["lookups"] = sum(e["kind"] == "lookup" for e in evs)
    c.notes["reads_at_most"] = max(e.get("reads", 0) for e in evs if e["kind"] == "lookup")
    c.validate("ResourcesTrace", "ResourcesTrace", evs, "disk access", desc(evs))
    rmdir(d)
