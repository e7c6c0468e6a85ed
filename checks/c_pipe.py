"""P26 the tools work together: histories of downloads, crashes, conversions, sorts, reductions, questions"""
import os
from core import *
from dlserver import Server
from httpc import HibpServer, conversation
from c_download import body
from c_lookup import search, neighbours
from c_tools import hunks, desc
import recs as R

OPT = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}
FULL = {"sha1": 20, "ntlm": 16, "sha1t64": 20}
LINE = re.compile(rb"([0-9A-F]+):(0|-?[1-9][0-9]*)")
ACTS = ["Gain", "Recount", "Lose", "Download", "Cut", "Resume", "Convert", "Sort", "TopN", "Cat", "Diff", "Search",
        "Dupes"]
BYTES = {"bin": ("hash", "count")}


class World:
    """what is published: blocks of concrete records for the hashes of the specification"""

    def __init__(self, r, typ, nf, nk, big):
        self.r, self.typ, self.nf, self.size = r, typ, nf, R.SIZES[typ]
        self.full = FULL[typ]
        ns = 2 * self.full - 5
        self.block, self.cnt = {}, {}
        cut = 2 * self.size - 5
        for f in range(nf):
            n = [r.choice([1, 1, 2, 3] if not big else [1, 40, 150, 300]) for _ in range(nk)]
            fam = r.choice(["random", "close", "far"])
            pre = "".join(r.choices("0123456789ABCDEF", k=ns))
            suf = {}
            while len(suf) < sum(n):
                s = "".join(r.choices("0123456789ABCDEF", k=ns))
                if fam == "close":
                    j = r.choice([cut - 4, cut - 6, 11, 10])
                    s = pre[:j] + s[j:]
                elif fam == "far":
                    s = r.choice("078F") + s[1:]
                suf[s[:cut]] = s        # (the truncated ones are distinct)
            suf = [suf[k] for k in sorted(suf)]
            for k in range(nk):
                self.block[f, k], suf = suf[:n[k]], suf[n[k]:]
        draw = R.count_source(r)
        self.draw = lambda: max(0, draw())
        hs = sorted(self.hash(f, s) for (f, k), b in self.block.items() for s in b)
        self.all = hs
        self.absent = neighbours(r, hs[:3] + hs[-2:], self.size)
        self.rank = R.Ranker(hs)
        self.has = [dict() for _ in range(nf)]      # per file: key -> counts of its block

    def hash(self, f, s):
        return bytes.fromhex("%05X" % f + s)[:self.size]

    def put(self, f, k, c=None):
        self.has[f][k] = [self.draw() for _ in self.block[f, k]]
        if c is not None and self.r.random() < .5:      # blocks with the counts of the specification
            self.has[f][k] = [c] * len(self.block[f, k])

    def lose(self, f, k):
        del self.has[f][k]

    def records(self, f):
        return [(self.hash(f, s), n) for k in sorted(self.has[f]) for s, n in zip(self.block[f, k], self.has[f][k])]

    def body(self, f):
        return body(self.r, [f"{s}:{n}".encode() for k in sorted(self.has[f])
                             for s, n in zip(self.block[f, k], self.has[f][k])],
                    self.r.choice(["crlf", "crlf-open", "crlf-open", "lf", "lf-open"]))


class Work:
    def __init__(self, bins, hist, typ, salt, big=False):
        self.q = rng("pipe", salt)
        self.bins, self.typ, self.o = bins, typ, OPT[typ]
        hist = list(hist)
        self.nf = len(hist[0]["pub"])
        self.w = World(self.q, typ, self.nf, 3, big)
        for f, recs in enumerate(hist[0]["pub"]):
            for h, c in recs:
                self.w.put(f, (h - 1) % 3, c)
        self.n = 3
        self.hist = hist[1:]
        self.d = newdir("pi")
        self.bits = self.q.choice([20, 20, 20, 19, 18, 15, 16])
        self.kind = ["none"] * self.n
        self.torn = [False] * self.n
        self.evs = []

    def path(self, t):
        return f"{self.d}/slot{t}.{self.kind[t - 1]}"

    def name(self, t, kind):
        return f"{self.d}/slot{t}.{kind}"

    def contents(self):
        out = []
        for t in range(1, self.n + 1):
            k = self.kind[t - 1]
            p = self.path(t)
            if k == "none" or not os.path.exists(p):
                out.append({"k": "none" if k == "none" else "gone", "r": [], "torn": False})
                continue
            data = slurp(p)
            if k == "bin":
                out.append({"k": k, "r": self.w.rank.recs(R.unpack(data, self.w.size)),
                            "torn": len(data) % (self.w.size + 4) != 0})
            else:
                recs = []
                lines = data.split(b"\n")
                if lines[-1] != b"":
                    lines.append(b"")
                    recs.append([0, 0])     # an open line
                for ln in lines[:-1]:
                    m = LINE.fullmatch(ln)
                    h = m and len(m[1]) == 2 * self.w.size and bytes.fromhex(m[1].decode())
                    recs.append([self.w.rank(h), int(m[2])] if h else [0, 0])
                out.append({"k": k, "r": recs, "torn": False})
        return out

    def clean(self):
        return all(re.fullmatch(r"slot\d\.(bin|txt)(\.\d+\.toc)?", x) for x in os.listdir(self.d))

    def note(self, op, rc=0, **k):
        self.evs.append(dict(k, op=op, rc=rc, slots=self.contents(), clean=self.clean()))
        for x in os.listdir(self.d):        # what was left behind is noted once
            if not re.fullmatch(r"slot\d\.(bin|txt)(\.\d+\.toc)?", x):
                os.unlink(os.path.join(self.d, x))

    def pub(self):
        self.evs.append({"op": "pub", "pub": [self.w.rank.recs(self.w.records(f)) for f in range(self.nf)]})

    def become(self, t, kind):
        """slot t is now of this kind, the file of the other is gone"""
        if self.kind[t - 1] not in ("none", kind) and os.path.exists(self.path(t)):
            os.unlink(self.path(t))
        self.kind[t - 1] = kind
        self.torn[t - 1] = False

    def tool(self, cmd, stdin=None):
        x = run(cmd, cwd=self.d, stdin=stdin)
        return x, (-99 if x.hang else x.rc)

    def play(self):
        w, q = self.w, self.q
        bits = self.bits
        lead = {v: i for i, v in enumerate(sorted({h[:4] for h in w.all}))}
        self.lead = 32
        self.evs.append({"op": "start", "n": self.n, "type": self.typ, "seed": SEED,
                         "file": [int.from_bytes(h[:4], "big") >> 12 for h in w.all],
                         "lead": [lead[h[:4]] for h in w.all]})
        self.pub()
        bodies = {}

        def plan(f, a):
            return ("ok", bodies[f]) if f in bodies else ("code:404", b"")
        srv = Server(plan, lambda x: None, q.randrange(2 ** 30), 0.0, self.typ == "ntlm")
        try:
            for f in range(self.nf):
                bodies[f] = w.body(f)
            for op in self.hist:
                self.step(op, bodies, srv)
                t = op.get("t")
                if t and op["op"] != "diff" and any(x.startswith(f"slot{t}.bin.") for x in os.listdir(self.d)):
                    # the table of contents is that of what was there before
                    self.step({"op": "search", "s": t, "toc": True}, bodies, srv)
        finally:
            srv.close()
            rmdir(self.d)
        return self.evs

    def has(self, t, kind=None):
        return self.kind[t - 1] != "none" and (kind is None or self.kind[t - 1] == kind)

    def strict(self, t):
        r = self.contents()[t - 1]["r"]
        return all(a[0] < b[0] for a, b in zip(r, r[1:]))

    def replace(self, t, kind, cmd, force=True, to="-o", into=None):
        """run a tool which writes slot t"""
        out = self.name(t, kind)
        other = self.has(t) and self.kind[t - 1] != kind
        x, rc = self.tool(cmd)
        if rc == 0:
            self.become(t, kind)
        elif other and os.path.exists(out):
            # the new file (of another name) may be there, empty
            os.unlink(out)
        return rc

    def step(self, op, bodies, srv):
        w, q, o = self.w, self.q, self.o
        k = op["op"]
        if k in ("gain", "recount", "lose"):
            f = op["f"] - 1
            if k == "lose":
                w.lose(f, op["k"] - 1)
            else:
                w.put(f, op["k"] - 1, op["c"])
            bodies[f] = w.body(f)
            return self.pub()
        if self.typ == "sha1t64" and (k in ("convert", "sort", "diff", "dupes") or op.get("kind") == "txt"):
            return      # not with this format
        s, t = op.get("s"), op.get("t")
        net = dict(env=srv.env(), cwd=self.d, timeout=90)
        dl = [f"{self.bins}/hibp-download", "--testing", "--no-progress", "--parallel-max",
              str(q.choice([1, 2, 3, 300]))] + o
        if k == "download":
            if self.has(t) and self.kind[t - 1] != op["kind"] and op["force"]:
                self.become(t, "none")
                self.kind[t - 1] = "none"
            kind = op["kind"] if not self.has(t) or op["force"] else self.kind[t - 1]
            x = run(dl + [self.name(t, kind), "--limit", str(op["lim"])] + (["--txt-out"] if kind == "txt" else [])
                    + (["--force"] if op["force"] else []), **net)
            if x.rc == 0:
                self.become(t, kind)
            self.note("download", -99 if x.hang else x.rc, t=t, kind=kind, lim=op["lim"], force=op["force"])
        elif k == "cut":
            if not self.has(t, "bin"):
                return
            size = os.path.getsize(self.path(t))
            rec = w.size + 4
            if size < rec:
                return
            n = q.choice([0, 1, size // rec - 1, q.randrange(size // rec)]) * rec
            n = min(n, size - rec)
            if op["torn"]:
                n += q.choice([1, rec - 1, q.randrange(1, rec)])
            st = os.stat(self.path(t))
            os.truncate(self.path(t), n)
            self.torn[t - 1] = n % rec != 0
            self.note("cut", t=t)
        elif k == "resume":
            if not self.has(t, "bin"):
                return
            cur = self.contents()[t - 1]["r"]
            want = [x for f in range(op["lim"]) for x in w.rank.recs(w.records(f))]
            if cur != want[:len(cur)]:
                return      # not a beginning of it any more
            x = run(dl + [self.name(t, "bin"), "--limit", str(op["lim"]), "--resume"], **net)
            self.torn[t - 1] = os.path.getsize(self.path(t)) % (w.size + 4) != 0
            self.note("resume", -99 if x.hang else x.rc, t=t, lim=op["lim"])
        elif k == "convert":
            if not self.has(s):
                return
            sk = self.kind[s - 1]
            kind = "txt" if sk == "bin" else "bin"
            out = self.name(t, kind)
            n = op["n"] * q.choice([1, 1, 7, 20]) if op["n"] < 99 else 10 ** 6
            cmd = [f"{self.bins}/hibp-convert", "--bin-to-txt" if sk == "bin" else "--txt-to-bin"] + o
            cmd += ["-l", str(n)] if op["n"] < 99 else []
            sin = sk == "txt" and q.random() < .4
            sout = q.random() < .4
            data = open(self.path(s), "rb").read() if sin else None
            cmd += ["--stdin"] if sin else ["-i", self.path(s)]
            if sout:
                x, rc = self.tool(cmd + ["--stdout"], data)
                if rc == 0:
                    self.become(t, kind)
                    with open(out, "wb") as f:
                        f.write(x.out)
            else:
                fresh = not os.path.exists(out)
                x, rc = self.tool(cmd + ["-o", out, "-f"], data)
                if rc == 0:
                    self.become(t, kind)
                elif fresh and os.path.exists(out) and self.kind[t - 1] != kind:
                    os.unlink(out)
            self.note("convert", rc, s=s, t=t, n=n)
        elif k == "sort":
            if not self.has(s) or os.path.getsize(self.path(s)) == 0:
                return
            if self.kind[s - 1] == "txt":       # sort(1)
                lines = sorted(open(self.path(s), "rb").read().split(b"\n")[:-1])
                self.become(t, "txt")
                with open(self.path(t), "wb") as f:
                    f.write(b"".join(x + b"\n" for x in lines))
                return self.note("sort", 0, s=s, t=t, m="hash")
            cmd = [f"{self.bins}/hibp-sort", "-i", self.path(s)] + o
            cmd += ["--sort-by-count"] if op["m"] == "count" else []
            cmd += ["--max-memory", "1"] if q.random() < .3 else []
            x, rc = self.tool(cmd)
            if rc == 0 and os.path.exists(self.path(s) + ".sorted"):
                os.rename(self.path(s) + ".sorted", self.name(t, "bin"))
                self.become(t, "bin")
            self.note("sort", rc, s=s, t=t, m=op["m"])
        elif k == "topn":
            if not self.has(s, "bin"):
                return
            n = op["n"] * q.choice([1, 1, 2, 5])
            sout = q.random() < .3
            out = self.name(t, "bin")
            cmd = [f"{self.bins}/hibp-topn", self.path(s), "-N", str(n)] + o
            x, rc = self.tool(cmd + (["--stdout"] if sout else ["-o", out, "-f"]))
            if rc == 0:
                self.become(t, "bin")
                if sout:
                    with open(out, "wb") as f:
                        f.write(x.out)
            self.note("topn", rc, s=s, t=t, n=n)
        elif k == "cat":
            u = op["u"]
            if not self.has(s) or not self.has(u, self.kind[s - 1]) or self.torn[s - 1] or self.torn[u - 1]:
                return
            data = open(self.path(s), "rb").read() + open(self.path(u), "rb").read()
            if len(data) > 10 ** 5:
                return
            kind = self.kind[s - 1]
            self.become(t, kind)
            with open(self.path(t), "wb") as f:
                f.write(data)
            self.note("cat", 0, s=s, u=u, t=t)
        elif k == "diff":
            if not (self.has(s, "bin") and self.has(t, "bin")) or not (self.strict(s) and self.strict(t)):
                return
            x, rc = self.tool([f"{self.bins}/hibp-diff", self.path(s), self.path(t)] + o)
            lines = x.out.decode("latin-1").split("\n")
            self.note("diff", rc, s=s, t=t, hunks=hunks(lines[:-1] if lines[-1] == "" else lines, w.rank))
        elif k == "search":
            cur = self.contents()[s - 1]
            if not self.has(s, "bin") or not cur["r"] or not self.strict(s):
                return
            toc = op["toc"]
            has = [w.all[x[0] - 1] for x in cur["r"] if x[0]]
            asked = [q.choice(w.all) for _ in range(2)] + q.sample(has, min(len(has), 4)) + [q.choice(w.absent)]
            ans, rc = [], 0
            if not self.torn[s - 1] and q.random() < .12:
                a = [f"--{self.typ}-db", self.path(s), "--threads", "2"]
                sv = HibpServer(f"{self.bins}/hibp-server", a + (["--toc", "--toc-bits", str(self.bits)] if toc else []))
                if sv.p is None:
                    rc = 1 if isinstance(sv.rc, int) and sv.rc > 0 else -99
                else:
                    word = {"sha1": "sha1", "ntlm": "ntlm", "sha1t64": "sha1t64"}[self.typ]
                    got = []
                    reqs = [("GET", f"/check/{word}/" + h.hex().upper()) for h in asked]
                    conversation(sv.port, reqs, False, lambda rq, res, dropped: got.extend(res[0]))
                    sv.close()
                    for h, a in zip(asked, got + [{"status": 0, "count": -7}] * 9):
                        ans.append([w.rank(h), a["count"] if a["status"] == 200 else -7])
            else:
                for h in asked:
                    st, rec, x = search(self.bins, self.path(s), self.typ, h.hex().upper(), True,
                                        toc=self.bits if toc else None)
                    if st in ("refused", "crash"):
                        rc = x.rc
                        break
                    ans.append([w.rank(h), rec[1] if st == "found" and rec[0] == h else -1 if st == "notfound" else -8])
            self.note("search", rc, s=s, toc=toc, bits=self.bits, ans=ans)
        elif k == "dupes":
            if not self.has(s, "bin") or not self.strict(s):
                return
            cur = self.contents()[s - 1]["r"]
            x, rc = self.tool([f"{self.bins}/hibp-dupes", self.path(s), "--bits", "32"] + o)
            idx = {(a, b): i + 1 for i, (a, b) in enumerate(map(tuple, cur))}
            rec = re.compile(r"(?<![0-9A-Fa-f])([0-9A-Fa-f]{%d}):(-?\d+)" % (2 * w.size))
            printed = [idx.get((w.rank(bytes.fromhex(h)), int(n)), 0) for h, n in rec.findall(x.out.decode("latin-1"))]
            self.note("dupes", rc, s=s, printed=printed)


def p26(c):
    bins = build("hibp_download", "hibp_convert", "hibp_sort", "hibp_topn", "hibp_diff", "hibp_dupes", "hibp_search",
                 "hibp_server")
    c.model("Pipeline", "PipelineThorough" if THOROUGH else "Pipeline", ACTS, timeout=3000)
    gen = [g for g in c.generate("Pipeline", "PipelineGen", simulate=8000 if not THOROUGH else 60000, depth=20)]
    r = rng("pipe")
    r.shuffle(gen)
    jobs = []
    for i, g in enumerate(gen[:550 if not THOROUGH else 8000]):
        jobs.append((g, ["sha1", "ntlm", "sha1", "ntlm", "sha1t64"][i % 5], i, i % 12 == 0))
    runs = pmap(lambda j: Work(bins, *j).play(), jobs, 16)
    n = {}
    for e in (e for x in runs for e in x):
        n[e["op"]] = n.get(e["op"], 0) + 1
        if e.get("rc", 0) != 0:
            n["failed " + e["op"]] = n.get("failed " + e["op"], 0) + 1
    c.notes["steps"] = n
    c.evals = sum(len(x) for x in runs)
    c.sample(runs[1])
    for i in range(0, len(runs), 150):
        evs = [e for x in runs[i:i + 150] for e in x]
        c.validate("PipelineTrace", "PipelineTrace", evs, "work with the tools",
                   lambda p, evs=evs: json.dumps({k: v for k, v in evs[p].items() if k != "slots"})[:600],
                   count=len(runs[i:i + 150]))
