"""P14 what the server answers, P15 independence of concurrent requests"""
import bisect, hashlib, os, random, socket, struct, threading, time
from urllib.parse import quote
from core import *
from driver import drive
from httpc import Conn, HibpServer, conversation, request, resp_event
import recs as R

TYPES = ["sha1", "ntlm", "sha1t64"]
PWS = ["password", "123456", "a", "correct horse battery staple", "p%20w+d", "\u00e4\u00f6\u00fc", "100%25", "a b",
       "\U0001F600\u20ac", "x" * 55, "x" * 64, "x" * 119, "tab\tquote\"'", "5BAA61E4C9B93F3F0682250B6CF8331B7EE68FD8",
       "a/b", "/", "?", "a?b=c&d", "#", "a;b&c|d", "$HOME", "%", "%%", "50%", "+", " ", "a\x00b", "\x7f\x01", "...", "..",
       "~user", "<>{}[]|\\^`", "PASSWORD", "0", ":password", "(a)", "\r\n", "plain", "sha1", "caf\u00e9", "cafe\u0301"]


def raw(p):
    return p.encode() if isinstance(p, str) else p


def escape(r, b):
    """one of the ways to write a password in a URL"""
    k = r.randrange(5)
    if k == 0:
        return quote(b, safe="")
    if k == 1:        # only what has to be
        return quote(b, safe="!$&'()*+,;=:@-._~")
    if k == 2:
        return "".join(f"%{x:02X}" for x in b)
    if k == 3:
        return "".join(f"%{x:02x}" for x in b)
    return "".join(f"%{x:02X}" if r.random() < .3 or not (chr(x).isalnum() and x < 128) else chr(x) for x in b)


def nthashes(bins, pws):
    out = []
    for a in drive(f"{bins}/drv_ntlm", [raw(p).hex() for p in pws]):
        f = a.split("\t")
        out.append(bytes.fromhex(f[1]) if f[0] == "ok" else None)
    return out


def talk(port, reqs, json, evs, faulty=False, timeout=60):
    """a conversation, recorded as events -> number of requests answered before the server closed it"""
    raws = [(q["method"], q["path"]) for q in reqs]
    total = 0

    def record(part, res, dropped):
        nonlocal total
        k = len(raws) - len(part) if part else 0
        evs.append(event([jpath(q) for q in reqs[k:]], res, faulty, dropped))
        total += len(res[0])
    conversation(port, raws, json, record, timeout)
    return total


def event(reqs, res, faulty=False, dropped=False):
    out, reset, rest = res[:3]
    if rest:
        out = out + [{"status": 0, "count": -9, "len": len(rest), "close": False}]
    return {"kind": "conn", "reqs": reqs, "resps": out, "reset": reset, "faulty": faulty, "dropped": dropped}


def describe(evs):
    def f(k):
        e = evs[k]
        if e["kind"] == "cfg":
            return f"server {e.get('cmd')} did not start: {e.get('err')}"
        last = None
        for e2 in evs[k::-1]:
            if e2["kind"] == "cfg":
                last = e2
                break
        return (f"{last.get('cmd')}: " + "; ".join(
            f"{q['method']} {bytes(q['path']).decode('latin-1')[:100]} -> "
            + (f"{a['status']} {a['count']}" if a else "no answer")
            for q, a in list(zip(e["reqs"], e["resps"] + [None] * len(e["reqs"])))[:60]))
    return f


def stale_toc(bins, path, typ, old, new, bits):
    """a table of contents of an earlier version of the database lies beside it"""
    R.write(path, old)
    os.utime(path, (1e9, 1e9))
    flag = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}[typ]
    x = run([f"{bins}/hibp-search"] + flag + ["--toc", "--toc-bits", str(bits), path, "x"])
    for f in os.listdir(os.path.dirname(path)):
        if f.startswith(os.path.basename(path) + "."):
            os.utime(os.path.join(os.path.dirname(path), f), (1e9 + 10, 1e9 + 10))
    R.write(path, new)
    os.utime(path, (1e9 + 1000, 1e9 + 1000))
    return x.rc == 0


def p14(c):
    bins = build("hibp_server", "hibp_search", "drv_ntlm")
    c.model("Server", "Server", ["Take", "Refuse", "Probe", "Seek", "Read", "ReadFails", "Use"])
    r = rng("server")
    pws = [raw(p) for p in PWS]
    nt = dict(zip(pws, nthashes(bins, pws)))

    def pwhash(typ, pw):
        return nt[pw] if typ == "ntlm" else hashlib.sha1(pw).digest()[:R.SIZES[typ]]
    subsets = [[t for i, t in enumerate(TYPES) if m >> i & 1] for m in range(1, 8)]
    jobs = []
    for has in subsets:
        for json in (False, True):
            for toc in (False, True):
                for rep in range(1 if not THOROUGH else 4):
                    jobs.append((has, json, toc, len(jobs)))

    def table(r, d, has, toc, bits):
        db = {}
        for typ in TYPES:
            size = R.SIZES[typ]
            if typ not in has:
                db[typ] = None
                continue
            if toc:
                # no gaps among the leading bits
                top = r.choice([0, 1, 5, 20])
                hs = set()
                for x in range(top + 1):
                    for _ in range(r.choice([1, 1, 2, 4])):
                        hs.add(((x << (size * 8 - bits)) | r.getrandbits(size * 8 - bits)).to_bytes(size, "big"))
            else:
                hs = {pwhash(typ, p) for p in r.sample(pws, len(pws) // 2)} - {None}
                hs |= set(R.hashes(r, r.choice([0, 3, 30]), size))
                for h in r.sample(sorted(hs), 3):
                    v = int.from_bytes(h, "big")
                    hs.add(max(0, v - 1).to_bytes(size, "big"))
            db[typ] = [(h, r.choice(R.COUNTS)) for h in sorted(hs)]
        return db

    def one(job):
        has, json, toc, no = job
        r = rng("server", no)
        d = newdir("s")
        bits = r.choice([15, 16, 18, 20, 20, 22, 25])
        db = table(r, d, has, toc, bits)
        args = []
        for typ in has:
            p = f"{d}/{typ}.bin"
            if toc and r.random() < .6:
                old = table(r, d, has, toc, bits)[typ]
                stale_toc(bins, p, typ, old, db[typ], bits)
            else:
                R.write(p, db[typ])
            args += [f"--{typ}-db", p]
        if json:
            args.append("--json")
        if toc:
            args.append("--toc")
            if bits != 20 or r.random() < .5:
                args += ["--toc-bits", str(bits)]
        args += ["--threads", str(r.choice([1, 1, min(4, NCPU)]))]
        s = HibpServer(f"{bins}/hibp-server", args)
        evs = [{"kind": "cfg", "mode": "table", "has": has, "started": s.p is not None, "cmd": "hibp-server " + " ".join(args),
                "err": "" if s.p else s.err.decode("latin-1")[:300],
                "db": {t: [[list(h), n] for h, n in v] for t, v in db.items() if v is not None}}]
        if s.p is None:
            rmdir(d)
            return evs
        reqs = []

        def get(path, method="GET"):
            reqs.append((method, path))
        for typ in TYPES:
            size = R.SIZES[typ]
            hs = [h for h, _ in db[typ]] if db[typ] else []
            some = r.sample(hs, min(len(hs), 8)) + hs[:1] + hs[-1:]
            for h in some:
                get(f"/check/{typ}/{h.hex().upper()}")
                get(f"/check/{typ}/{r.choice(nbrs(r, h)).hex().upper()}")
            h = r.choice(some) if some else r.randbytes(size)
            t = h.hex().upper()
            j = r.randrange(len(t))
            for b in (t[:-1], t + "0", t[:j] + "G" + t[j + 1:], t.lower() if t.lower() != t else t + "FF", "0", t + t,
                      t[:j] + r.choice(":@-_g") + t[j + 1:], t[:16], t[:32], t + "00000000", r.randbytes(size).hex().upper()):
                get(f"/check/{typ}/{b}")
            get(f"/check/{typ}/{R.hashes(r, 1, size)[0].hex().upper()}")
        for p in r.sample(pws, 14):
            get("/check/plain/" + escape(r, p))
        for typ in has:     # passwords of which only a neighbour is known, or the hash is
            for h, _ in db[typ][:2]:
                get("/check/plain/" + h.hex().upper())
        for q in r.sample(["/", "/check", "/check/sha1", "/check/plain", "/check/foo/bar", "/check/sha256/" + "0" * 64,
                           "/chk/plain/password", "/plain/password", "/check/plain/a/b", "/check/sha1/" + "0" * 40 + "/x",
                           "/check/SHA1/" + "0" * 40, "/check/Plain/password", "/x/check/plain/password", "/check/sha1t6/" + "0" * 16,
                           "/check/sha/" + "0" * 40, "/checkplain/password", "/favicon.ico"], 7):
            get(q)
        for m in ("POST", "PUT", "DELETE", "OPTIONS"):
            get("/check/plain/password", m)
        r.shuffle(reqs)
        # an error closes the connection: requests which will be answered share one
        i = 0
        while i < len(reqs):
            k = r.choice([1, 1, 2, 5])
            part = [{"method": m, "path": p} for m, p in reqs[i:i + k]]
            while part:
                n = talk(s.port, part, json, evs)
                last = evs[-1]
                if n < len(part) and last["resps"] and last["resps"][-1]["close"]:
                    last["reqs"] = last["reqs"][:len(last["resps"])]
                    part = part[n:]
                else:
                    part = []
            i += k
        if not s.alive():
            evs.append({"kind": "cfg", "started": False, "cmd": "hibp-server " + " ".join(args), "err": "died", "has": []})
        s.close()
        rmdir(d)
        return evs
    allevs = pmap(one, jobs, 4)
    evs = [e for x in allevs for e in x]
    n = sum(len(e["resps"]) for e in evs if e["kind"] == "conn")
    c.sample(next(e for e in evs if e["kind"] == "conn"))
    c.evals += n
    st = {}
    for e in evs:
        for x in e.get("resps", []):
            k = f"{x['status']}{'' if x['status'] != 200 else (' absent' if x['count'] == -1 else ' count')}"
            st[k] = st.get(k, 0) + 1
    c.notes["answers"] = st
    # a part per configuration, in parallel
    chunks = [sum(allevs[i::4], []) for i in range(4)]
    for i, ch in enumerate(chunks):
        c.bg.append(c.pool.submit(c.validate, "ServerTrace", "ServerTrace", ch, f"hibp-server {i}", describe(ch)))
    dense(c, bins, r, nt)


def nbrs(r, h):
    v = int.from_bytes(h, "big")
    top = 256 ** len(h) - 1
    b = bytearray(h)
    b[r.randrange(len(h))] ^= 1 << r.randrange(8)
    return [min(top, v + 1).to_bytes(len(h), "big"), max(0, v - 1).to_bytes(len(h), "big"), bytes(b)]


def ranked_db(r, typ, hashes):
    off = TYPES.index(typ)
    hs = sorted(set(hashes))
    return [(h, 3 * (k + 1) + off) for k, h in enumerate(hs)], hs


class Ranked:
    """big databases of all three types with known passwords, and the requests for them"""

    def __init__(self, r, bins, nt, n, dense_bits=None, has=TYPES):
        self.has = has
        pws = [p for p in nt if nt[p] is not None]
        self.pws = [p for p in pws if len(p) < 150]
        self.longs = [p for p in pws if len(p) >= 150] or self.pws
        self.nt = nt
        self.hs, self.dbs = {}, {}
        for typ in has:
            size = R.SIZES[typ]
            hs = set()
            if dense_bits:
                sh = size * 8 - dense_bits
                for x in range(2 ** dense_bits):
                    hs.add(((x << sh) | r.getrandbits(sh)).to_bytes(size, "big"))
            while len(hs) < n:
                hs.add(r.randbytes(size))
            for p in r.sample(pws, len(pws) // 2):
                hs.add(self.pwhash(typ, p))
            self.dbs[typ], self.hs[typ] = ranked_db(r, typ, hs)

    def pwhash(self, typ, pw):
        return self.nt[pw] if typ == "ntlm" else hashlib.sha1(pw).digest()[:R.SIZES[typ]]

    def rank(self, typ, h):
        hs = self.hs[typ]
        k = bisect.bisect_left(hs, h)
        return 2 * (k + 1) if k < len(hs) and hs[k] == h else 2 * k + 1

    def write(self, d):
        args = []
        for typ in self.has:
            R.write(f"{d}/{typ}.bin", self.dbs[typ])
            args += [f"--{typ}-db", f"{d}/{typ}.bin"]
        return args

    def cfg(self, s, args):
        return {"kind": "cfg", "mode": "ranked", "has": list(self.has), "started": s.p is not None,
                "cmd": "hibp-server " + " ".join(args), "err": "" if s.p else s.err.decode("latin-1")[:300],
                "size": {t: len(self.hs.get(t, [])) for t in TYPES}}

    def hash(self, r, typ, i=None):
        """a lookup of the i-th record, or of some record or absent hash"""
        hs = self.hs[typ]
        if i is None:
            i = r.randrange(len(hs))
        h = hs[i]
        if r.random() < .3:
            h = r.choice(nbrs(r, h))
        q = {"method": "GET", "path": f"/check/{typ}/{h.hex().upper()}", "ranks": {t: 1 for t in TYPES}}
        q["ranks"][typ] = self.rank(typ, h)
        return q

    def plain(self, r):
        p = r.choice(self.pws)
        return {"method": "GET", "path": "/check/plain/" + escape(r, p),
                "ranks": {t: self.rank(t, self.pwhash(t, p)) if t in self.has else 1 for t in TYPES}}

    def wrong(self, r):
        t = r.choice(["/check/sha1/0", "/check/foo/x", "/nothing", "/check/ntlm/" + "0" * 31 + "g", "/check/plain/a/b",
                      "/check/sha1t64/" + "0" * 15])
        return {"method": r.choice(["GET", "GET", "POST"]), "path": t, "ranks": {t: 1 for t in TYPES}}


    def long(self, r):
        p = r.choice(self.longs)
        return {"method": "GET", "path": "/check/plain/" + escape(r, p), "plain": len(p),
                "ranks": {t: self.rank(t, self.pwhash(t, p)) if t in self.has else 1 for t in TYPES}}


def burst(port, reqs, json, evs, conns=16, timeout=30):
    """requests on many connections at the same moment"""
    cs = [Conn(port, timeout) for _ in range(conns)]
    done = [[] for _ in cs]
    sent = [[] for _ in cs]
    for i in range(0, len(reqs), conns):
        part = reqs[i:i + conns]
        data = [request(q["method"], q["path"]) for q in part]
        for c, q, b, l in zip(cs, part, data, sent):
            l.append(q)
            c.send(b)
        for k, (c, q) in enumerate(zip(cs, part)):
            x = c.response()
            if x is not None:
                done[k].append(resp_event(x, json))
            if x is None or done[k][-1]["close"]:
                dropped = x is None and (c.eof or c.reset)
                evs.append(event([jpath(y) for y in sent[k]], (done[k], c.reset, c.buf), False, dropped))
                c.close()
                cs[k], done[k], sent[k] = Conn(port, timeout), [], []
                if dropped:
                    talk(port, [q], json, evs)
    for c, l, o in zip(cs, sent, done):
        if l:
            evs.append(event([jpath(y) for y in l], (o, c.reset, c.buf)))
        c.close()


def rude(port, w, r, json, stop, evs, lock, most):
    """a client which sends rubbish, stalls, does not read or goes away while its request is in work"""
    held = []

    def rst(c):
        if c.s:
            try:
                c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            except OSError:
                pass
            c.close()
    while not stop.is_set():
        c = Conn(port, 5)
        k = r.randrange(9)
        q = [w.hash(r, r.choice(w.has)) for _ in range(r.choice([1, 2, 4]))]
        if k == 0:
            c.send(r.randbytes(r.choice([1, 20, 5000])))
            c.close()
        elif k == 1:        # never finishes its request
            c.send(request("GET", q[0]["path"])[:r.randrange(1, 60)])
            held.append(c)
        elif k in (2, 3):   # away before the answer
            for x in q:
                c.send(request("GET", x["path"]))
            if r.random() < .5:
                time.sleep(r.random() * .01)
            rst(c) if k == 2 else c.close()
            with lock:
                evs.append({"kind": "left", "reqs": [jpath(x) for x in q], "resps": []})
        elif k == 4:        # away after the first of its answers
            got = []
            for x in q:
                c.send(request("GET", x["path"]))
                if not got:
                    a = c.response()
                    if a is None:
                        break
                    got.append(resp_event(a, json))
            rst(c)
            with lock:
                evs.append({"kind": "left", "reqs": [jpath(x) for x in q], "resps": got})
        elif k == 5:        # does not read
            for x in q * 20:
                c.send(request("GET", x["path"]))
            held.append(c)
        elif k == 6:        # too long
            c.send(b"GET /check/sha1/" + b"A" * r.choice([5000, 60000]) + b" HTTP/1.1\r\nHost: x\r\n\r\n")
            c.close()
        elif k == 7:        # not HTTP any more, in the middle
            c.send(request("GET", q[0]["path"])[:-2] + r.choice(
                [b"Content-Length: -1\r\n\r\n", b"Transfer-Encoding: chunked\r\n\r\nzz\r\n", b"\x00: \x01\r\n\r\n",
                 b"Content-Length: 99999\r\n\r\nabc", b"A" * 20000 + b": b\r\n\r\n", b"Upgrade: h2c\r\n\r\n"]))
            if r.random() < .5:
                held.append(c)
            else:
                c.close()
        else:
            c.close()
        if len(held) > most:
            rst(held.pop(r.randrange(len(held))))
        time.sleep(.002)
    for c in held:
        rst(c)


def jpath(q):
    if "plain" in q:
        return {"plain": q["plain"], "ranks": q["ranks"], "method": "GET", "path": list(b"(long)")}
    return dict(q, path=list(q["path"].encode("latin-1")))


def dense(c, bins, r, nt):
    """complete databases: a table of contents with all prefixes, and plain passwords through it"""
    evs = []
    for i in range(2 if not THOROUGH else 8):
        bits = 15 if i == 0 else r.choice([15, 16])
        w = Ranked(r, bins, nt, 0, bits)
        d = newdir("s")
        json = i % 2 == 1
        args = w.write(d) + ["--toc", "--toc-bits", str(bits), "--threads", "1"] + (["--json"] if json else [])
        s = HibpServer(f"{bins}/hibp-server", args)
        evs.append(w.cfg(s, args))
        if s.p:
            for k in range(60):
                qs = [w.plain(r) if r.random() < .5 else w.hash(r, r.choice(TYPES)) for _ in range(4)]
                talk(s.port, qs, json, evs)
                c.evals += 4
            s.close()
        rmdir(d)
    c.validate("ServerTrace", "ServerTrace", evs, "hibp-server with complete tables of contents", describe(evs))


def p15(c):
    bins = build("hibp_server", "drv_ntlm", "fault")
    acts = ["Take", "Refuse", "Probe", "Seek", "Read", "ReadFails", "Use"]
    c.model("Server", "Server", acts)
    c.model("Server", "ServerPipe", acts)
    c.model("Server", "ServerLeave", acts + ["Leave"])
    c.model("Server", "ServerLive", acts + ["Leave"])
    if THOROUGH:
        c.model("Server", "ServerThorough", acts, timeout=1800, workers=8)
    sh = tlc("Server", "ServerShared", workers=2)
    if sh.violated != "Independent":
        raise CheckError("the model does not notice a shared database object")
    scen = c.generate("Server", "ServerGen")
    pws = [raw(p) for p in PWS]
    r = rng("conc")
    for i in range(40):
        pws.append("".join(r.choice("abcXYZ019 %/+\u00e9\u20ac") for _ in range(r.choice([160, 300, 600]))).encode())
    nt = dict(zip(pws, nthashes(bins, pws)))
    nsrv = 12 if not THOROUGH else 80

    def serve(no):
        r = rng("conc", no)
        has = TYPES if no % 3 != 2 else r.sample(TYPES, 2)
        toc = no % 3 == 1
        bits = 15
        w = Ranked(r, bins, nt, r.choice([700, 3000, 20000]) if not toc else 0, bits if toc else None, has)
        d = newdir("s")
        json = no % 4 == 3
        threads = [1, 2, 4, min(8, NCPU)][(no + no // 4) % 4]
        args = w.write(d) + ["--threads", str(min(threads, NCPU))] + (["--json"] if json else [])
        if toc:
            args += ["--toc", "--toc-bits", str(bits)]
        env = {}
        if no % 2 == 0:    # every read of a database takes a while
            env = {"LD_PRELOAD": f"{bins}/libfault.so", "VF_OP": "read", "VF_PATH": ".bin", "VF_N": "1", "VF_ACT": "delay",
                   "VF_US": str(r.choice([300, 1000]))}
        few = no % 4 == 1      # not many connections can be open at the same time
        s = HibpServer(f"{bins}/hibp-server", args, env=env, files=r.choice([100, 150]) if few else None)
        evs = [w.cfg(s, args)]
        if s.p is None:
            rmdir(d)
            return evs
        lock = threading.Lock()

        def conn(reqs, faulty):
            part = []
            talk(s.port, reqs, json, part, faulty, 30)
            with lock:
                evs.extend(part)

        def phase(conns, faulty):
            ts = [threading.Thread(target=conn, args=(q, faulty)) for q in conns]
            for t in ts:
                t.start()
            for t in ts:
                t.join()

        def mixed(n, errors):
            out = []
            for _ in range(n):
                x = r.random()
                out.append(w.wrong(r) if x < errors else w.plain(r) if x < .35 else w.hash(r, r.choice(w.has)))
            return out
        size = {t: os.path.getsize(f"{d}/{t}.bin") for t in has}
        order = []
        if no % 5 == 0:      # the databases are away when the first requests come
            for t in has:
                os.rename(f"{d}/{t}.bin", f"{d}/{t}.away")
            phase([[w.hash(r, r.choice(w.has))] for _ in range(6)], True)
            for t in has:
                os.rename(f"{d}/{t}.away", f"{d}/{t}.bin")
        # behaviours of the model: its hashes are far apart in the databases here
        conns = []
        for g in r.sample(scen, 6 if not THOROUGH else 30):
            typ = r.choice(w.has)
            at = sorted(r.sample(range(len(w.hs[typ])), 2))
            for reqs in g["sent"]:
                q = []
                for x in reqs:
                    if x == -1:
                        q.append(w.wrong(r))
                    else:      # 2 and 4 are records, the others lie around them
                        v = int.from_bytes(w.hs[typ][at[0 if x <= 2 else 1]], "big")
                        v = min(256 ** R.SIZES[typ] - 1, max(0, v + {0: -2, 1: -1, 2: 0, 3: -1, 4: 0, 5: 1, 6: 2}[x]))
                        h = v.to_bytes(R.SIZES[typ], "big")
                        q.append({"method": "GET", "path": f"/check/{typ}/{h.hex().upper()}",
                                  "ranks": {t: w.rank(t, h) if t == typ else 1 for t in TYPES}})
                if q:
                    conns.append(q)
        phase(conns, False)
        for rnd in range(3 if not THOROUGH else 6):
            phase([mixed(r.choice([8, 25]), .02 if k % 4 else .3) for k in range(r.choice([4, 12]))], False)
            if rnd < 2:
                # for a while, the databases cannot be read beyond some place
                data = {t: open(f"{d}/{t}.bin", "rb").read() for t in has}
                for t in has:
                    os.truncate(f"{d}/{t}.bin", r.randrange(0, size[t] // 24) * (R.SIZES[t] + 4) + 5)
                phase([mixed(r.choice([1, 6]), .1) for k in range(8)], True)
                for t in has:
                    with open(f"{d}/{t}.bin", "r+b") as f:
                        f.write(data[t])
        long = []
        burst(s.port, [w.long(r) if r.random() < .8 else w.plain(r) for _ in range(640 if not THOROUGH else 3000)], json, long)
        evs.extend(long)
        if few:
            many = [Conn(s.port, 5) for _ in range(250)]
            for x in r.sample(many, 125):
                x.send(request("GET", w.hash(r, r.choice(w.has))["path"]))
            time.sleep(.2)
            for x in many:
                x.close()
            phase([mixed(8, .05) for k in range(3)], False)
        # others send rubbish, stall or go away meanwhile
        stop = threading.Event()
        bad = [threading.Thread(target=rude, args=(s.port, w, random.Random(r.random()), json, stop, evs, lock, 5 if few else 40))
               for _ in range(3)]
        for t in bad:
            t.start()
        for _ in range(2 if not THOROUGH else 6):
            phase([mixed(r.choice([8, 25]), .05) for k in range(6)], False)
        stop.set()
        for t in bad:
            t.join()
        # the same hash from everywhere, then others
        q = [w.hash(r, r.choice(w.has)) for _ in range(4)]
        phase([q[k % 4:] + q[:k % 4] for k in range(8)], False)
        if not s.alive():
            evs.append({"kind": "cfg", "started": False, "cmd": "hibp-server " + " ".join(args), "err": "died", "has": []})
        s.close()
        rmdir(d)
        return evs
    allevs = pmap(serve, range(nsrv), 3)
    c.sample(allevs[0][1])
    n = 0
    for x in allevs:
        n += sum(len(e["resps"]) for e in x if e["kind"] == "conn")
    c.evals += n
    c.notes["answers under load"] = n
    c.notes["clients which went away early"] = sum(e["kind"] == "left" for x in allevs for e in x)
    c.notes["answers 500 while the databases could not be read"] = sum(
        a["status"] == 500 for x in allevs for e in x if e["kind"] == "conn" for a in e["resps"])
    evs = sum(allevs, [])
    c.validate("ServerTrace", "ServerTrace", evs, "hibp-server under load", describe(evs))
