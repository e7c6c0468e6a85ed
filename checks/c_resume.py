"""P06 downloads which are cut off at any byte and resumed, against a server which may gain records"""
import os
from core import *
from dlserver import Server
import recs as R
from c_download import HEX, body

HASH = {"sha1": 20, "ntlm": 16, "sha1t64": 20}
OPT = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}
ACTS = ["Fetch", "Write", "Finish", "Crash", "Update", "Resume", "Over"]


class World:
    """the records of all prefix files: keys of the specification -> blocks of concrete records"""

    def __init__(self, r, typ, n, k, trunc, adversarial=False, blocks=None, base=0):
        self.base = base        # files below have no records
        self.typ, self.n, self.trunc = typ, n, trunc
        self.size = R.SIZES[typ]
        ns = 2 * HASH[typ] - 5
        cut = 2 * self.size - 5
        self.rec, self.ids, self.lines = {}, {}, {}
        for f in range(n):
            bl = {key: 1 if trunc else r.choice(blocks or [1, 1, 1, 2, 3, 7]) for key in range(1, k + 1)}
            m = sum(bl.values())
            suf = set()
            fam = r.choice(["random", "random", "close", "first"])
            pre = "".join(r.choices(HEX, k=ns))
            while len(suf) < m:
                s = "".join(r.choices(HEX, k=ns))
                if fam == "close" and not trunc:
                    j = r.choice([cut - 3, ns - 3, 2]) if typ == "sha1t64" else r.choice([ns - 3, ns - 8])
                    j = min(j, cut - 3)
                    s = pre[:j] + s[j:]
                elif fam == "first":
                    s = r.choice("08F") + s[1:]
                suf.add(s)
            suf = sorted(suf)
            if trunc:       # keys 2i-1 and 2i share the truncated hash
                for i in range(0, m - 1, 2):
                    a, b = sorted([suf[i][cut:], suf[i + 1][cut:]])
                    if a == b:
                        b = b[:-1] + ("0" if b[-1] != "0" else "1")
                        a, b = sorted([a, b])
                    suf[i], suf[i + 1] = suf[i][:cut] + a, suf[i][:cut] + b
            if adversarial and typ == "sha1t64" and m > 1:
                # the last hash of the file ends with what an earlier one begins with
                j = r.randrange(m - 1)
                suf[-1] = suf[-1][:ns - cut] + suf[j][:cut]
            pos = 0
            for key in range(1, k + 1):
                b = []
                for s in suf[pos:pos + bl[key]]:
                    cnt = r.choice(R.COUNTS) if not trunc else (key + 1) // 2
                    b.append((s, cnt))
                pos += bl[key]
                self.rec[f, key] = b
        self.r = r

    def stored(self, f, s, cnt):
        h = bytes.fromhex("%05X" % (self.base + f) + s)[:self.size]
        i = self.ids.setdefault((f, h, cnt), len(self.ids) + 1)
        self.lines[h, cnt] = (f, i)
        return i

    def content(self, f, keys):
        """numbers of the stored records of f if it has these keys"""
        return [self.stored(f, *x) for k in sorted(keys) for x in self.rec[f, k]]

    def file(self, f, keys):
        return body(self.r, [f"{s}:{c}".encode() for k in sorted(keys) for s, c in self.rec[f, k]],
                    self.r.choice(["crlf", "crlf-open", "crlf-open", "lf", "lf-open"]))

    def disk(self, path):
        if not os.path.exists(path):
            return [], 0
        data = slurp(path)
        n = self.size + 4
        return [list(self.lines.get(x, (-1, 0))) for x in R.unpack(data, self.size)], len(data) % n


def events_of(c, world, first, ops, bins, shim, q):
    """play a history. first: keys of each file at first. ops: (cut, n, torn), (gain, f, key), (resume,)"""
    w = world
    d = newdir("rs")
    out = d + "/out"
    keys = {f: set(first[f]) for f in range(w.n)}
    bodies = {f: w.file(f, keys[f]) for f in keys}
    evs = [{"op": "start", "n": w.n, "type": w.typ}]
    for f in keys:
        evs.append({"op": "content", "f": f, "recs": w.content(f, keys[f])})
    faults = {}

    def plan(f, a):
        f -= w.base
        if f < 0:
            return "ok", b""
        if f in faults:
            return faults.pop(f)
        return ("ok", bodies[f]) if f in bodies else ("code:404", b"")
    srv = Server(plan, lambda x: None, q.randrange(2 ** 30), 0, w.typ == "ntlm")
    P = q.choice([1, 2, 5, 300])

    def go(resume, limit, env=None):
        cmd = [f"{bins}/hibp-download", out, "--limit", limit_arg(q, w.base + limit), "--parallel-max", str(P), "--testing",
               "--no-progress"] + OPT[w.typ] + (["--resume"] if resume else [])
        return run(cmd, env=dict(srv.env(), **(env or {})), timeout=60)

    def finish(x, limit, fault=False):
        dk, torn = w.disk(out)
        evs.append({"op": "run", "rc": x.rc if not x.hang else -99, "limit": limit, "disk": dk, "torn": torn > 0,
                    "fault": fault, "err": x.err.decode("latin-1")[-200:]})
    resumed = False     # what the next run is
    i = 0
    ops = list(ops)
    while i <= len(ops):
        op = ops[i] if i < len(ops) else ("end",)
        if op[0] == "gain":
            keys[op[1]].add(op[2])
            bodies[op[1]] = w.file(op[1], keys[op[1]])
            evs.append({"op": "content", "f": op[1], "recs": w.content(op[1], keys[op[1]])})
        elif op[0] == "resume":
            resumed = True
            if q.random() < .2:        # an attempt to resume which fails: the server is not well
                dk, _ = w.disk(out)
                if dk and dk[-1][0] >= 0:
                    f = dk[-1][0]
                    # an error page which looks like the file up to the last record on disk
                    upto = bodies[f].replace(b"\r", b"").strip(b"\n").split(b"\n")
                    m = sum(1 for z in dk if z[0] == f)
                    lookalike = b"\r\n".join(upto[:m])
                    faults[f] = q.choice([(f"code:{q.choice([404, 429, 500, 503, 302])}", lookalike)] * 3 + [("code:404", bodies[f]), ("code:500", b"<html>:500</html>"),
                                          ("short", bodies[f] + b"x"), ("reset", b""), ("empty", b""),
                                          ("code:404", b"no:such thing" + b"0" * 40 + b":1\r\n")])
                    if q.random() < .06:        # ... or falls silent
                        faults[f] = (q.choice(["stall", "stallbody", "drip"]), bodies[f] + b"x")
                    x = go(True, w.n)
                    ft = f not in faults
                    faults.clear()
                    finish(x, w.n, ft)
                    if x.rc == 0:
                        break
        elif op[0] == "cut":
            # to what length: op[1] records of the specification, and perhaps a part of the next
            before = os.path.getsize(out) if os.path.exists(out) else -1
            kill = q.random() < .4
            x = None
            # count concrete records: each abstract record of the disk is a block
            x = go(resumed, w.n) if not kill else go(resumed, w.n, {
                "LD_PRELOAD": shim, "VF_OP": "write", "VF_PATH": "/out", "VF_ACT": "shortkill",
                "VF_BYTES": str(q.randrange(0, 40 * (w.size + 4)) if q.random() < .7 else q.randrange(0, 60)),
                "VF_N": "1"})
            if kill and x.rc == -9:
                pass
            else:
                finish(x, w.n)
                if x.rc != 0:
                    # the rest of the history means nothing any more
                    break
                dk, torn = w.disk(out)
                bounds = [0]
                cur = None
                for rec in dk:          # ends of the blocks
                    bounds.append(bounds[-1] + 1)
                # boundaries of abstract records
                ab, pos = [0], 0
                for f in range(w.n):
                    for k in sorted(keys[f]):
                        pos += len(w.rec[f, k])
                        ab.append(pos)
                j = min(op[1], len(ab) - 1)
                a = ab[j]
                b = ab[j + 1] if j + 1 < len(ab) else a
                n = a * (w.size + 4)
                if op[2] and b > a:
                    n = q.randrange(n + 1, b * (w.size + 4))
                size = os.path.getsize(out)
                if n < size:
                    os.truncate(out, n)
            dk, torn = w.disk(out)
            evs.append({"op": "cut", "disk": dk, "torn": torn, "bytes": os.path.getsize(out) if os.path.exists(out) else 0})
            if not os.path.exists(out):
                resumed = False
        else:
            x = go(resumed, w.n)
            finish(x, w.n)
        i += 1
    srv.close()
    rmdir(d)
    return evs


def limit_arg(q, n):
    """a --limit up to file n: there are no more than 0x100000"""
    if n != 0x100000:
        return str(n)
    return str([n, n + 1, n + 1000, 2 ** 32 + 5, 2 ** 63][(q if isinstance(q, int) else q.randrange(5)) % 5])


def p06(c):
    bins = build("hibp_download", "fault")
    shim = f"{bins}/libfault.so"
    for m in ("Resume", "ResumeTrunc") + (("ResumeThorough", "ResumeTruncThorough") if THOROUGH else ()):
        c.model("Resume", m, ACTS, timeout=1500)
    r = rng("resume")
    jobs = []
    n = 330 if not THOROUGH else 5000
    for cfg, num, trunc in (("ResumeGen", 2000, False), ("ResumeGenTrunc", 1000, True)):
        g = [s for s in c.generate("Resume", cfg, simulate=num * (1 if not THOROUGH else 6), depth=60)
             if any(o[0] == "cut" for o in s["hist"])]
        for s in r.sample(g, min(len(g), n if not trunc else n // 2)):
            typ = "sha1t64" if trunc else r.choice(["sha1", "ntlm", "sha1t64"])
            q = random.Random(r.randrange(2 ** 40))
            w = World(q, typ, 3, 4 if trunc else 3, trunc, adversarial=q.random() < .5, base=q.choice([0, 0, 8, 14, 30]))
            jobs.append((w, s["cont"], [tuple(o) for o in s["hist"]], q))
    res = pmap(lambda j: events_of(c, j[0], j[1], j[2], bins, shim, j[3]), jobs)
    c.log(f"{len(jobs)} histories of TLC played")
    # each byte at which a small download can be cut
    sweep = []
    high = [0x9, 0x0F, 0x9D, 0xA0, 0xFFE, 0xFFFE, 0x12345, 0x9FFFE, 0xABCDE, 0xFFFFC]
    for typ, base in [(t, 0) for t in HASH] + [(t, b) for t in HASH
                                                  for b in (high if THOROUGH else r.sample(high[:-1], 3) + high[-1:])]:
        for adv in (False, True) if typ == "sha1t64" else (False,):
            q = random.Random(r.randrange(2 ** 40))
            w = World(q, typ, 4, 3, False, adv, blocks=[1], base=base)
            first = [[1, 2, 3], [], [1, 2], [1, 2, 3]]
            total = 8 * (w.size + 4)
            step = 1 if THOROUGH else 3
            if base:            # an output without a record would mean starting at 00000
                for k in range(1, 9):
                    sweep.append((w, first, k * (w.size + 4) + r.choice([0, 0, 1, 7])))
                continue
            for off in sorted(set(range(0, total, step)) | {k * (w.size + 4) for k in range(9)}
                              | {k * (w.size + 4) + 1 for k in range(8)} | {k * (w.size + 4) - 1 for k in range(1, 9)}):
                sweep.append((w, first, off))

    def cutat(j):
        w, first, off = j
        d = newdir("sw")
        out = d + "/out"
        keys = {f: set(first[f]) for f in range(w.n)}
        bodies = {f: w.file(f, keys[f]) for f in keys}
        evs = [{"op": "start", "n": w.n, "type": w.typ}]
        recs = []
        for f in keys:
            evs.append({"op": "content", "f": f, "recs": w.content(f, keys[f])})
            recs += [(bytes.fromhex("%05X" % (w.base + f) + s)[:w.size], n) for k in sorted(keys[f]) for s, n in w.rec[f, k]]
        with open(out, "wb") as fo:
            fo.write(R.pack(recs)[:off])
        dk, torn = w.disk(out)
        evs.append({"op": "cut", "disk": dk, "torn": torn, "bytes": off})
        srv = Server(lambda f, a: ("code:400", b"") if f >= 0x100000 else
                     ("ok", bodies[f - w.base] if f >= w.base else b""), lambda x: None, 1, 0, w.typ == "ntlm")
        x = run([f"{bins}/hibp-download", out, "--limit", limit_arg(off, w.base + w.n), "--testing", "--no-progress", "--resume"]
                + OPT[w.typ], env=srv.env(), timeout=90)
        srv.close()
        dk, torn = w.disk(out)
        evs.append({"op": "run", "rc": x.rc if not x.hang else -99, "limit": w.n, "disk": dk, "torn": torn > 0,
                    "fault": False, "err": x.err.decode("latin-1")[-200:]})
        rmdir(d)
        return evs
    for w in {id(j[0]): j[0] for j in sweep}.values():     # number the records before the threads start
        for f in range(w.n):
            w.content(f, range(1, 4))
    res += pmap(cutat, sweep)
    c.log(f"{len(sweep)} cut positions")
    evs = [e for x in res for e in x]
    c.sample(res[0])
    c.sample(res[-1])
    c.notes["histories"] = len(jobs)
    c.notes["cut_positions"] = len(sweep)
    c.evals = len(jobs) + len(sweep)

    def describe(i):
        k = i
        while evs[k]["op"] != "start":
            k -= 1
        return json.dumps(evs[k:i + 1])[:3000]
    c.validate("ResumeTrace", "ResumeTrace", evs, "hibp-download --resume", describe, count=len(res))
