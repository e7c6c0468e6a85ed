"""P27: who can talk to whom, and what is left of a query. Local.tla, LocalTrace.tla"""
import hashlib, json, os, random, signal, socket, ssl, subprocess, threading, time
from core import *
from httpc import _running, limits
import recs as R

IP = {"a": "127.0.0.1", "b": "127.0.0.2", "all": "0.0.0.0", "far": "192.0.2.77"}
SIZE = {"sha1": 20, "ntlm": 16, "sha1t64": 8}
WHO = hashlib.sha1(b"who is there?").digest()


def ports(r, n):
    """free ones, not those which other programs get"""
    out = []
    while len(out) < n:
        p = r.randrange(20001, 32000)
        s = socket.socket()
        try:
            s.bind(("0.0.0.0", p))
            out.append(p)
        except OSError:
            pass
        s.close()
    return out


def http(ip, port, path, timeout=10):
    """what comes back; None if nobody is there"""
    try:
        s = socket.create_connection((ip, port), timeout)
    except OSError:
        return None
    got = b""
    try:
        s.sendall(b"GET " + path + b" HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
        while k := s.recv(4096):
            got += k
    except OSError:
        pass
    s.close()
    return got


def answerer(ip, port):
    """which server answers there: its database says so"""
    x = http(ip, port, b"/check/sha1/" + WHO.hex().upper().encode())
    if x is None:
        return 0
    b = x.split(b"\r\n\r\n")[-1].strip()
    return int(b) - 1000 if x.startswith(b"HTTP/1.1 200") and b.isdigit() else -1


def net(path, what):
    if not os.path.exists(path):
        return []
    return [x.split()[1:] for x in open(path).read().splitlines() if x.startswith(what + " ")]


def contains(d, words, skip=()):
    """files below d which contain one of these words"""
    out = []
    for top, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(top, f)
            if f in skip or not os.path.isfile(p):
                continue
            t = slurp(p)
            low = t.lower()
            if any(w in t or w.lower() in low for w in words):
                out.append(f)
    return sorted(out)


_base = {}


def database(n, who):
    """records of n bytes for each 15 bits, and WHO with this count"""
    if n not in _base:
        _base[n] = [((i << 1).to_bytes(2, "big") + hashlib.sha1(b"%d" % i).digest()[:n - 2], i + 1) for i in range(1 << 15)]
    return R.pack(sorted(_base[n] + [(WHO[:n], who)]))


class Srv:
    def __init__(self, bins, d, s, r):
        self.s, self.d, self.bins, self.r, self.runs = s, f"{d}/s{s}", bins, r, 0
        os.makedirs(self.d)
        for typ, n in SIZE.items():
            with open(f"{self.d}/{typ}.db", "wb") as f:
                f.write(database(n, 1000 + s))

    def start(self, a, port):
        self.runs += 1
        t = f"{self.d}/r{self.runs}"
        self.go_file, self.net = t + ".go", t + ".net"
        cmd = [f"{self.bins}/hibp-server", "--sha1-db", f"{self.d}/sha1.db", "--ntlm-db", f"{self.d}/ntlm.db",
               "--sha1t64-db", f"{self.d}/sha1t64.db", "--port", str(port), "--toc", "--toc-bits", "15"]
        if a != "default":
            cmd += ["--bind-address", IP[a]]
        if self.r.random() < .3:
            cmd += ["--threads", "1"]
        for f in os.listdir(self.d):           # so that it has to prepare itself
            if ".toc" in f:
                os.unlink(f"{self.d}/{f}")
        e = {k: v for k, v in os.environ.items() if not k.lower().endswith("_proxy")}
        e.update(LD_PRELOAD=f"{self.bins}/libfault.so", VF_OP="open", VF_PATH=".toc", VF_ACT="delay", VF_US="20000000",
                 VF_WAIT=self.go_file, VF_NET=self.net, HOME=self.d, TMPDIR=self.d)
        self.out = open(t + ".out", "w+b")
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.out, env=e, cwd=self.d,
                                  start_new_session=True)
        _running.add(self.p.pid)
        limits(self.p.pid)
        self.port, self.ip = port, IP.get(a, "127.0.0.1")

    def go(self):
        """-> exit status, -1: running"""
        open(self.go_file, "w").close()
        t = time.time() + 30
        while time.time() < t:
            if self.p.poll() is not None:
                return self.p.returncode
            if net(self.net, "listen"):
                time.sleep(.02)
                return -1 if self.p.poll() is None else self.p.returncode
            time.sleep(.005)
        return -2

    def said(self):
        self.out.seek(0)
        return self.out.read()

    def end(self, sig):
        try:
            os.kill(self.p.pid, sig)
        except ProcessLookupError:
            pass
        try:
            self.p.wait(10)
            return True
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait(10)
            return False


def word(r):
    return "".join(r.choice("abcdefghjkmnpqrstuvwxyz") for _ in range(14))


def history(bins, ops, r):
    """-> events, whether somebody else had one of the ports"""
    d = newdir("lo")
    ps = ports(r, 2)
    n = max(o["s"] for o in ops)
    srv = {s: Srv(bins, d, s, r) for s in range(1, n + 1)}
    evs, up, asked, foreign = [{"op": "new", "n": n}], {}, [], False
    bound = {v: k for k, v in IP.items()}

    def sees():
        return {a: [answerer(IP[a], p) for p in ps] for a in ("a", "b")}
    for o in ops:
        s = srv[o["s"]]
        e = dict(op=o["op"], s=o["s"])
        if o["op"] == "start":
            s.start(o["a"], ps[o["p"] - 1])
            e.update(a=o["a"], p=o["p"])
            s.where = o
            time.sleep(.03)
        elif o["op"] == "go":
            rc = s.go()
            said = s.said()
            e.update(rc=rc, said=len(said.strip()) > 0, err=said.decode("latin-1")[-200:] if rc != -1 else "",
                     listens=[[bound.get(h, h), ps.index(int(p)) + 1 if int(p) in ps else int(p)]
                              for h, p in net(s.net, "listen")] if rc == -1 else [])
            if rc == -1:
                up[o["s"]] = s
                # questions whose traces are looked for
                for _ in range(4):
                    pw = word(r)
                    hs = [hashlib.sha1(pw.encode()).hexdigest().upper(), hashlib.md5(pw.encode()).hexdigest().upper()]
                    asked.extend([pw.encode()] + [h.encode() for h in hs])
                    for path in (b"/check/plain/" + pw.encode(), b"/check/sha1/" + hs[0].encode(),
                                 b"/check/ntlm/" + hs[1].encode(), b"/check/sha1t64/" + hs[0].encode()[:16],
                                 b"/check/sha1/" + hs[0].encode()[:-1], b"/check/ntlm/" + pw.encode(),
                                 b"/check/plain/" + pw.encode() + b"%FF", b"/" + pw.encode(), b"/check/md5/" + pw.encode()):
                        http(s.ip if s.where["a"] != "all" else "127.0.0.1", s.port, path)
            elif b"in use" in said:
                foreign = not any(u.where["p"] == s.where["p"] for u in up.values())
        else:
            e["gone"] = s.end(signal.SIGINT if o["op"] == "int" else signal.SIGKILL)
            up.pop(o["s"], None)
        e["sees"] = sees()
        evs.append(e)
    for s in srv.values():
        if hasattr(s, "p"):
            s.end(signal.SIGKILL)
            s.out.close()
    # a stored table of contents has no room for more than its entries
    evs.append({"op": "trace", "kept": contains(d, asked), "dials": [x for s in srv.values() for k in range(1, s.runs + 1)
                                                                   for x in net(f"{s.d}/r{k}.net", "dial")]})
    rmdir(d)
    return evs, foreign


def search(bins, r, k):
    d = newdir("lo")
    typ = r.choice(list(SIZE))
    n = SIZE[typ]
    with open(d + "/db", "wb") as f:
        f.write(database(n, 7) if r.random() < .8 else b"")
    pw = word(r)
    h = hashlib.sha1(pw.encode()).hexdigest().upper()[:2 * n]
    q = [[pw], ["--hash", h], ["--hash", pw]][k % 3]
    opt = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}[typ] + (["--toc", "--toc-bits", "15"] if r.random() < .5 else [])
    x = run([f"{bins}/hibp-search", "db"] + q + opt, cwd=d,
            env={"LD_PRELOAD": f"{bins}/libfault.so", "VF_OP": "", "VF_NET": d + "/net", "HOME": d, "TMPDIR": d})
    ev = {"op": "search", "args": q + opt, "rc": x.rc, "kept": contains(d, [pw.encode(), h.encode()]),
          "dials": net(d + "/net", "dial"), "listens": net(d + "/net", "listen")}
    rmdir(d)
    return ev


NAME = "api.pwnedpasswords.com"
CERTS = {   # subject, signed by the authority
    "good": (NAME, True), "self": (NAME, False), "name": ("api.pwnedpasswords.net", True), "old": (NAME, True)}


def certificates():
    d = newdir("ca")

    def ssl_(*a):
        subprocess.run(["openssl", *a], cwd=d, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ssl_("req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", "ca.key", "-out", "ca.crt", "-days", "30", "-subj", "/CN=CA",
         "-addext", "basicConstraints=critical,CA:TRUE")
    for k, (name, signed) in CERTS.items():
        ssl_("req", "-newkey", "rsa:2048", "-nodes", "-keyout", k + ".key", "-out", k + ".csr", "-subj", "/CN=" + name)
        with open(f"{d}/{k}.ext", "w") as f:
            f.write(f"subjectAltName=DNS:{name}\nextendedKeyUsage=serverAuth\n")
        by = ["-CA", "ca.crt", "-CAkey", "ca.key", "-CAcreateserial"] if signed else ["-signkey", k + ".key"]
        ssl_("x509", "-req", "-in", k + ".csr", *by, "-out", k + ".crt", "-days", "-1" if k == "old" else "30", "-extfile", k + ".ext")
    return d


class Host:
    """a proxy behind which there is a host with one of these certificates"""

    def __init__(self, certs, kind, bodies):
        self.hosts, self.told, self.bodies, self.urls = [], False, bodies, []
        self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        self.ctx.load_cert_chain(f"{certs}/{kind}.crt", f"{certs}/{kind}.key")
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(100)
        self.port = self.s.getsockname()[1]
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.conn, args=(c,), daemon=True).start()

    @staticmethod
    def head(c):
        b = b""
        while b"\r\n\r\n" not in b:
            k = c.recv(4096)
            if not k:
                return None
            b += k
        return b.split(b"\r\n")[0].decode("latin-1").split(" ")

    def conn(self, c):
        try:
            c.settimeout(20)
            line = self.head(c)
            if line is None:
                return
            self.hosts.append(line[1])
            if line[0] != "CONNECT":
                self.told = True
                self.answer(c, line[1])
                return
            c.sendall(b"HTTP/1.1 200 OK\r\n\r\n")
            c = self.ctx.wrap_socket(c, server_side=True)
            line = self.head(c)
            if line is not None:
                self.told = True
                self.answer(c, line[1])
        except (OSError, ssl.SSLError):
            pass
        finally:
            c.close()

    def answer(self, c, url):
        self.urls.append(url)
        body = self.bodies.get(url, b"")
        c.sendall(b"HTTP/1.1 %d X\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (200 if body else 404, len(body)) + body)
        try:
            c.unwrap()
        except (AttributeError, OSError):
            pass

    def close(self):
        self.s.shutdown(socket.SHUT_RDWR)
        self.s.close()


def fetch(bins, certs, kind, typ, resume):
    d = newdir("lo")
    n = SIZE[typ]
    tail = (16 if typ == "ntlm" else 20) * 2 - 5
    opt = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}[typ]
    rows = {k: [("%0*X" % (tail, k * 77 + j + (j << 60)), j + 1) for j in range(3)] for k in range(3)}
    bodies = {f"/range/{k:05X}" + ("?mode=ntlm" if typ == "ntlm" else ""): b"\r\n".join(b"%s:%d" % (s.encode(), z) for s, z in v)
              for k, v in rows.items()}
    want = [R.pack([(bytes.fromhex("%05X" % k + s)[:n], z) for s, z in v]) for k, v in rows.items()]
    f = Host(certs, kind, bodies)
    u = f"http://127.0.0.1:{f.port}"
    first = b""
    if resume:
        first = want[0]
        with open(d + "/out", "wb") as o:
            o.write(first)
    x = run([f"{bins}/hibp-download", d + "/out", "--limit", "3", "--no-progress"] + opt + (["--resume"] if resume else []),
            env={"https_proxy": u, "http_proxy": u, "no_proxy": "", "NO_PROXY": "", "LD_PRELOAD": f"{bins}/libfault.so",
                 "VF_OP": "", "VF_CA": certs + "/ca.crt"}, timeout=60)
    f.close()
    got = slurp(d + "/out") if os.path.exists(d + "/out") else b""
    ev = {"op": "fetch", "cert": kind, "type": typ, "resume": resume, "rc": x.rc if not x.hang else -99, "hosts": f.hosts,
          "told": f.told, "got": len(got) - len(first), "all": got == b"".join(want), "err": x.err.decode("latin-1")[-200:]}
    rmdir(d)
    return ev


def p27(c):
    bins = build("hibp_download", "hibp_search", "hibp_server", "fault")
    c.model("Local", "LocalThorough" if THOROUGH else "Local", ("Start", "Listen", "Stop", "Ask", "Dial", "Proved", "Get"))
    r = rng("local")
    g = c.generate("Local", "LocalGen", simulate=400 if not THOROUGH else 4000, depth=12)
    g = [o for o in g if sum(x["op"] == "go" for x in o) >= 2]
    g = r.sample(g, min(len(g), 90 if not THOROUGH else 1500))
    lone = [[{"op": "start", "s": 1, "a": a, "p": 1}, {"op": "go", "s": 1}, {"op": how, "s": 1},
             {"op": "start", "s": 1, "a": b, "p": 1}, {"op": "go", "s": 1}]
            for a in ("default", "a", "b", "all", "far") for b in ("default", "all") for how in ("int", "kill")]

    def one(j):
        for _ in range(3):
            evs, foreign = history(bins, j[0], random.Random(j[1]))
            if not foreign:
                break
            j = (j[0], j[1] + 1)
        return evs
    hs = pmap(one, [(o, r.randrange(2 ** 30)) for o in lone + g], 6)
    c.log(f"{len(hs)} histories of servers")
    ss = pmap(lambda k: search(bins, random.Random(k), k), [r.randrange(2 ** 30) * 3 + i % 3 for i in range(60 if not THOROUGH else 1000)])
    certs = certificates()
    fs = pmap(lambda k: fetch(bins, certs, *k), [(k, t, b) for k in CERTS for t in SIZE for b in (False, True)])
    evs = [e for h in hs for e in h] + ss + fs
    c.sample(hs[0])
    c.sample(fs)
    c.evals = len(hs) + len(ss) + len(fs)
    c.notes["histories"] = len(hs)

    def describe(i):
        k = i
        while evs[k]["op"] not in ("new", "search", "fetch"):
            k -= 1
        return json.dumps(evs[k:i + 1])[:3000]
    c.validate("LocalTrace", "LocalTrace", evs, "servers, lookups and downloads", describe, count=c.evals)
