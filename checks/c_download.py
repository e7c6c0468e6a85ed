"""P01..P05 downloads: schedules generated by TLC played into the real download code over a simulated
network, and the real program against a server which fails requests; both judged by DownloadTrace"""
import os, shutil, threading, time
from core import *
from driver import drive
from dlserver import Server
import recs as R

HEX = "0123456789ABCDEF"
ACTS = ["Arrive", "Fill", "Handle", "Proc", "Enq", "End", "Throw", "Check", "Fall", "Wake", "Begin", "Finish", "WFail"]


def suffixes(r, n, size):
    """n distinct suffixes (after the 5 digits of the prefix), ascending"""
    k = 2 * size - 5
    out = set()
    while len(out) < n:
        out.add("".join(r.choices(HEX, k=k)))
    return sorted(out)


def body(r, lines, shape=None):
    """the bytes of a file with these lines"""
    shape = shape or r.choice(["crlf", "crlf", "crlf-open", "lf", "lf-open", "mixed", "blank"])
    if shape == "blank":
        out = b""
        for ln in lines:
            out += r.choice([b"", b"\r\n", b"\n", b"\r\r\n"]) + ln + r.choice([b"\r\n", b"\n", b"\r\r\n"])
        return out + r.choice([b"", b"\r\n", b"\n", b"\r"])
    if shape == "mixed":
        return b"".join(ln + r.choice([b"\r\n", b"\n"]) for ln in lines)
    sep = b"\r\n" if shape.startswith("crlf") else b"\n"
    return sep.join(lines) + (b"" if shape.endswith("open") or not lines else sep)


def mkfile(r, n, size, shape=None):
    lines = [f"{s}:{r.choice(R.COUNTS)}".encode() for s in suffixes(r, n, size)]
    return lines, body(r, lines, shape)


CODES = [404, 429, 500, 503, 502, 204, 206, 301, 302, 403, 401, 201, 304, 100 * 4]
CURL = [7, 18, 28, 52, 55, 56, 92, 16, 6, 35]


def badbody(r, good, prefix, size):
    """what a failed attempt may have delivered"""
    k = r.randrange(5)
    if k == 0:
        return b""
    if k == 1 and good:
        return good[:r.randrange(len(good))]
    if k == 2:
        return good             # everything, but the transfer failed nonetheless
    if k == 3:
        return mkfile(r, r.randrange(1, 4), size)[1]
    return b"<html>error</html>\r\n"


class Lines:
    """text of a line -> (file, number)"""

    def __init__(self):
        self.d = {}

    def add(self, f, lines):
        for k, ln in enumerate(lines):
            self.d[b"%05X" % f + ln] = (f, k + 1)

    def events(self, texts):
        """runs of consecutive lines"""
        out = []
        for t in texts:
            f, k = self.d.get(t, (-1, 0))
            e = out[-1] if out else None
            if e and f == e["f"] and f != -1 and k == e["to"] + 1:
                e["to"] = k
            else:
                out.append({"op": "out", "f": f, "from": k, "to": k, "text": t.decode("latin-1")[:60]})
        return out


# ---------------------------------------------------------------- the simulated network
def sim_job(r, sched=None, N=None, P=None):
    """one scenario for dlsim: a schedule of TLC, or one run freely"""
    ntlm, testing = r.random() < .3, r.random() < .7
    size = 16 if ntlm else 20
    if sched is not None:
        fs = [s[1] for s in sched if s[0] == "a"]
        base = r.choice([0, 0, 9, 0xFF, 0x0FFFE, 0xABCDE, 0x100000 - N])
    else:
        N = r.choice([0, 1, 2, 3, 5, 17, 40, 130])
        P = r.choice([1, 2, 3, 8, 50, 300])
        base = r.choice([0, 0, 0, 15, 0xFFF0, 0x100000 - N])
    wf = {s[1] for s in sched or () if s[0] == "x"}
    files, outc, L = {}, {}, Lines()
    for f in range(N):
        n = r.choice([0, 1, 1, 2, 3, 7]) if f not in wf else r.choice([1, 2, 3])
        lines, b = mkfile(r, n, size)
        files[f] = (lines, b)
        L.add(f + base, lines)

    def bad(f):
        g = files[f][1]
        http = r.choice(CODES)
        if r.random() < .5:
            return (r.choice(CURL), r.choice([0, 200, 200, 200]), badbody(r, g, "", size))
        return (0, http, badbody(r, g, "", size))
    if sched is not None:
        tr = {}
        for s in sched:
            if s[0] == "a":
                tr[s[1]] = tr.get(s[1], 0) + 1
                if not s[2]:
                    outc[s[1], tr[s[1]]] = bad(s[1])
                    if tr[s[1]] == 6:
                        outc[s[1], 0] = bad(s[1])
        steps = [f"{s[0]}{s[1] + base}" if len(s) > 1 else s[0] for s in sched
                 if s[0] in "aht" or files[s[1]][0]]
    else:
        steps = []
        mode = r.choice(["none", "few", "many", "hard"])
        for f in range(N):
            if mode == "few" and r.random() < .1 or mode == "many" and r.random() < .6:
                for a in range(r.choice([1, 1, 2, 5])):
                    outc[f, a + 1] = bad(f)
        if mode == "hard" and N:
            for f in r.sample(range(N), r.choice([1, 1, min(N, 2)])):
                for a in range(6):
                    outc[f, a + 1] = bad(f)
                outc[f, 0] = bad(f)     # and for ever
    cmd = "\t".join([str(r.randrange(2 ** 31)), str(int(testing)), str(int(ntlm)), str(base), str(base + N),
                     str(P), str(int(r.random() < .15)), ",".join(steps),
                     ",".join(f"{f + base}.{a}.{o[0]}.{o[1]}.{o[2].hex()}" for (f, a), o in outc.items()),
                     ",".join(f"{f + base}.{len(x[0])}.{x[1].hex()}" for f, x in files.items())])
    return cmd, dict(N=N, P=P, base=base, ntlm=ntlm, testing=testing, files=files, L=L,
                     small=N <= 5, faults=bool(outc or wf))


def sim_events(job, ans):
    j = job
    evs = [{"op": "start", "S": j["base"], "N": j["base"] + j["N"], "P": j["P"],
            "lines": [len(j["files"][f][0]) for f in range(j["N"])], "how": "simulated network"}]
    if j["small"]:
        for f in range(j["N"]):
            lines, b = j["files"][f]
            if len(b) < 200:
                evs.append({"op": "file", "f": f + j["base"], "bytes": list(b), "lines": [list(x) for x in lines]})
    pre = "http://localhost:8090/" if j["testing"] else "https://api.pwnedpasswords.com/range/"
    post = "?mode=ntlm" if j["ntlm"] else ""
    texts, wfail, followed = [], False, 0

    def flush():
        evs.extend(j["L"].events(texts))
        texts.clear()
    for e in ans.split("\x1e"):
        p = e.split("|")
        if len(evs) > 3000 and p[0] not in ("r", "t", "x", "hang", "crash"):
            continue            # an endless story
        if p[0] == "l":
            texts.append(bytes.fromhex(p[1]))
            continue
        flush()
        if p[0] == "a":
            u = e[2:]
            mid = u[len(pre):len(pre) + 5]
            ok = u == pre + mid + post and len(mid) == 5 and all(c in HEX for c in mid)
            evs.append({"op": "ask", "f": int(mid, 16) if ok else -1, "url": u})
        elif p[0] == "g":
            evs.append({"op": "ans", "f": int(p[1]), "good": p[2] == "1"})
        elif p[0] == "x":
            wfail = True
        elif p[0] == "r":
            followed = int(p[2]) == int(p[3])
            evs.append({"op": "end", "rc": int(p[1]), "term": True, "wfail": wfail})
        elif p[0] in ("hang", "crash"):
            evs.append({"op": "end", "rc": -1, "term": False, "wfail": wfail, "ans": e})
        elif p[0] == "t":
            evs.append({"op": "end", "rc": -1, "term": False, "wfail": wfail, "ans": "unknown exception"})
    if evs[-1]["op"] != "end":
        evs.append({"op": "end", "rc": -1, "term": False, "wfail": wfail, "ans": "died"})
    return evs, followed


# ---------------------------------------------------------------- the real program
TYPES = {"sha1": (20, []), "ntlm": (16, ["--ntlm"]), "sha1t64": (8, ["--sha1t64"]),
         "text": (20, ["--txt-out"]), "textntlm": (16, ["--txt-out", "--ntlm"])}


def e2e_job(r, big=False, both=False):
    typ = r.choice(list(TYPES))
    hs = 16 if "ntlm" in typ else 20
    N = r.choice([1, 2, 3, 16, 40, 90]) if not big else r.choice([300, 700, 1500])
    P = r.choice([1, 2, 3, 7, 20, 300]) if not big else r.choice([5, 40, 300])
    files = {}
    for f in range(N):
        n = r.choice([0, 1, 2, 5, 5, 30]) if not big else r.choice([0, 1, 3, 8])
        if r.random() < .03:
            n = r.choice([1000, 3000])
        files[f] = mkfile(r, n, hs, None if r.random() < .3 else "crlf-open")
    mode = r.choice(["none", "few", "many", "hard", "hard"]) if not big else r.choice(["none", "few", "hard"])
    plan = {}

    def bad(f):
        k = r.choice(["code", "code", "code", "short", "short", "reset", "shortreset", "empty", "garbage"])
        if k == "code":
            k = f"code:{r.choice(CODES)}"
        b = badbody(r, files[f][1], "", hs)
        return (k, b if b or k != "short" else b"x")
    for f in range(N):
        if mode == "few" and r.random() < .1 or mode == "many" and r.random() < .5:
            for a in range(r.choice([1, 1, 2, 5])):
                plan[f, a + 1] = bad(f)
    if both:         # the requests give up, and what has been received cannot be written
        mode = "hard"
        files[0] = mkfile(r, r.choice([3, 50, 3000]), hs)
    if mode == "hard":
        for f in r.sample(range(N), r.choice([1, 1, min(N, 3)])) if not both else [N - 1]:
            for a in range(6):
                plan[f, a + 1] = bad(f)
            plan[f, 0] = bad(f)
            if r.random() < .3:     # the same each time
                for a in range(6):
                    plan[f, a + 1] = plan[f, 0]
    wfail = both or r.random() < .1
    return dict(typ=typ, N=N, P=P, files=files, plan=plan, wfail=wfail, seed=r.randrange(2 ** 30),
                latency=r.choice([0, .003, .02]) if not big else 0,
                debug=r.random() < .1, how=r.choice(["ok", "ok", "chunked", "eof"]), keep=r.random() < .3)


def stall_job(r, times):
    """the server falls silent in the middle of some answers, some times or always"""
    j = e2e_job(r)
    N = r.choice([1, 2, 8, 40])
    hs = 16 if "ntlm" in j["typ"] else 20
    j.update(N=N, P=r.choice([1, 3, 20, 300]), plan={}, wfail=False, files={f: mkfile(r, r.choice([0, 1, 5, 30]), hs) for f in range(N)})
    for f in r.sample(range(N), min(N, r.choice([1, 1, 2, 20]) if j["P"] == 300 else 1)):
        for a in range(times):
            j["plan"][f, a + 1] = (r.choice(["stall", "stallbody", "stallbody", "drip"]), j["files"][f][1] or b"x")
    return j


def pipe_job(r, gone):
    """the output is a pipe, whose reader waits until everything has been sent; then it goes away ("gone"), or
    reads ("read"); or it goes away as soon as some files were sent ("early")"""
    j = e2e_job(r)
    size, n = TYPES[j["typ"]][0], r.choice([60, 300, 900])
    j.update(N=n, P=r.choice([1, 3, 20, 300]), plan={}, wfail=False, latency=0, how="ok", keep=True, pipe=gone,
             files={f: mkfile(r, r.choice([1, 1, 2]) if f else 30000, 16 if "ntlm" in j["typ"] else 20) for f in range(n)})
    if gone == "early":
        j.update(N=3000, P=r.choice([1, 2, 3]), latency=.004,
                 files={f: j["files"].get(f) or mkfile(r, 1, 16 if "ntlm" in j["typ"] else 20) for f in range(3000)})
    return j


def e2e_run(bins, j):
    size, opts = TYPES[j["typ"]]
    binary = "text" not in j["typ"]
    rr = random.Random(j["seed"])
    evs = [{"op": "start", "S": 0, "N": j["N"], "P": j["P"],
            "lines": [len(j["files"][f][0]) for f in range(j["N"])], "how": "hibp-download " + j["typ"]}]

    def log(x):
        if len(evs) < 20000:
            evs.append({"op": "ask", "f": x[1]} if x[0] == "ask" else {"op": "ans", "f": x[1], "good": x[2]})

    def plan(f, a):
        if (f, a) in j["plan"]:
            return j["plan"][f, a]
        if (f, 0) in j["plan"]:
            return j["plan"][f, 0]
        return (j["how"], j["files"][f][1]) if f in j["files"] else ("code:404", b"")
    if e2e_run.hangs >= 3:
        return []
    d = newdir("dl")
    srv = Server(plan, log, j["seed"], j["latency"], "ntlm" in j["typ"],
                 keepalive=j["keep"] and not j["plan"])
    total = sum(len(x[0]) for x in j["files"].values()) * (size + 4 if binary else 2 * size + 2)
    fsize = None
    if j["wfail"] and total > 0:
        fsize = rr.choice([0, total - 1, total // 2])
    cmd = [f"{bins}/hibp-download", d + "/out", "--limit", str(j["N"]), "--parallel-max", str(j["P"]),
           "--testing"] + opts + (["--debug"] if j["debug"] else rr.choice([[], ["--no-progress"]]))
    gone, read = j.get("pipe"), []
    if gone is not None:
        os.mkfifo(d + "/out")

        def reader():
            with open(d + "/out", "rb") as fi:
                t0, n, t1 = time.time(), 0, 0
                while len(evs) <= 2 * j["N"] and time.time() - t0 < 20:
                    time.sleep(.02)
                    if gone == "early" and len(evs) > 60:
                        time.sleep(.2)
                        evs.append({"op": "gone"})
                        break
                    if len(evs) != n:
                        n, t1 = len(evs), time.time()
                    elif n > 1 and time.time() - t1 > 1:
                        break           # they do not go on
                while gone == "read" and (k := fi.read(1 << 20)):
                    read.append(k)
        th = threading.Thread(target=reader, daemon=True)
        th.start()
        cmd.append("--force")
    x = run(cmd, env=srv.env(), timeout=150 if any(k[0] in ("stall", "stallbody", "drip") for k in j["plan"].values()) else 60, fsize=fsize, xfsz_kill=False, sigpipe=gone is None)
    srv.close()
    e2e_run.hangs += x.hang
    if gone is not None:
        if th.is_alive():               # it may wait for the program to open the pipe
            os.close(os.open(d + "/out", os.O_RDWR | os.O_NONBLOCK))
            th.join(5)
        data = b"".join(read)
    else:
        data = slurp(d + "/out") if os.path.exists(d + "/out") else b""
    if binary:
        idx = {}
        for f, (lines, _) in j["files"].items():
            for k, ln in enumerate(lines):
                t = b"%05X" % f + ln
                h, c = t.split(b":")
                idx[bytes.fromhex(h.decode())[:size], int(c)] = t
        texts = [idx.get(z, b"?" + z[0].hex().encode()) for z in R.unpack(data, size)]
        if len(data) % (size + 4):
            texts.append(b"a torn record")
    else:
        texts = data.split(b"\n")
        if texts[-1] == b"":
            texts.pop()
        else:
            texts[-1] = b"without end: " + texts[-1]
    if fsize is not None and texts and texts[-1].startswith((b"a torn", b"without end")):
        texts.pop()             # the write which failed
    L = Lines()
    for f, (lines, _) in j["files"].items():
        L.add(f, lines)
    evs = [e for e in evs]      # the server has stopped
    evs += L.events(texts)
    evs.append({"op": "end", "rc": x.rc, "term": not x.hang and x.rc >= 0, "wfail": fsize is not None or gone in ("gone", "early"),
                "err": x.err.decode("latin-1")[-300:] if not j["debug"] else ""})
    rmdir(d)
    return evs


e2e_run.hangs = 0


def judge(c, prop, runs, what):
    """runs: lists of events; several traces in parallel"""
    runs = sorted(runs, key=len)
    n = min(4, len(runs))
    parts = [runs[i::n] for i in range(n)]

    def one(p):
        evs = [e for x in p for e in x]

        def describe(i):
            k = i
            while evs[k]["op"] != "start":
                k -= 1
            lo = max(k + 1, i - 25)
            return json.dumps([evs[k]] + [e for e in evs[lo:i + 1] if e["op"] != "file"])[:2500]
        c.validate("DownloadTrace", "DownloadTrace", evs, what, describe, env={"PROP": prop}, count=len(p))
    pmap(one, parts, n)


def run_prop(c, prop):
    bins = build("hibp_download", optional=("dlsim",))
    have_sim = not build.missing
    c.model("Download", "DownloadThorough" if THOROUGH else "Download", ACTS)
    if prop == "P04":
        c.model("Download", "DownloadLive", ACTS)
        if tlc("Download", "DownloadUnlocked", workers=2).ok:
            raise CheckError("the model does not notice a lost notification")
    r = rng("download", prop)
    runs = []
    if have_sim:
        scen = [(g, 3, 2) for g in c.generate("Download", "DownloadAll")]
        if not THOROUGH:
            scen = r.sample(scen, min(len(scen), 900))
        scen += [(g, 2, 2) for g in c.generate("Download", "DownloadAllFail")]
        big = c.generate("Download", "DownloadGen", simulate=3000 if not THOROUGH else 20000, depth=300)
        fail = [g for g in big if any(s[0] == "x" for s in g)]
        rest = [g for g in big if not any(s[0] == "x" for s in g)]
        k = 350 if not THOROUGH else 4000
        scen += [(g, 5, 3) for g in r.sample(rest, min(k, len(rest))) + r.sample(fail, min(k // 2, len(fail)))]
        hard = c.generate("Download", "DownloadHard", simulate=600 if not THOROUGH else 6000, depth=300)
        hard = [g for g in hard if max([sum(s[0] == "a" and s[1] == f and not s[2] for s in g) for f in range(3)]) == 6]
        scen += [(g, 3, 2) for g in r.sample(hard, min(k // 2, len(hard)))]
        mid = c.generate("Download", "DownloadMid")       # the requests give up while a file is being written
        scen += [(g, 3, 2) for g in (mid if THOROUGH else r.sample(mid, 250))]
        mid = c.generate("Download", "DownloadMidFail")   # ... which may fail, too
        scen += [(g, 3, 3) for g in r.sample(mid, 4000 if THOROUGH else 150)]
        held = c.generate("Download", "DownloadHeld", simulate=25 if not THOROUGH else 400, depth=2500)
        scen += [(g, 40, 8) for g in r.sample(held, min(len(held), 60 if not THOROUGH else 2000))]             # everything arrives while the first file is being written
        jobs = [sim_job(r, *s) for s in scen] + [sim_job(r) for _ in range(250 if not THOROUGH else 4000)]
        r.shuffle(jobs)
        if prop == "P01":           # those without failures first: not much is run if the program hangs
            jobs.sort(key=lambda j: j[1]["faults"])
        ans = drive(f"{bins}/dlsim", [j[0] for j in jobs], timeout=900)
        res = [sim_events(j[1], a) for j, a in zip(jobs, ans) if a != "skipped"]
        c.notes["schedules_played"] = len(jobs)
        c.notes["schedules_followed_to_the_end"] = sum(bool(f) for _, f in res)
        c.log(f"{len(jobs)} schedules played, {c.notes['schedules_followed_to_the_end']} followed to the end")
        runs += [e for e, _ in res]
        c.sample(runs[0])
    else:
        c.notes["dlsim"] = "could not be built from this tree; only the real program was run"
        c.log("dlsim could not be built, running the real program only")
    jobs = [e2e_job(r) for _ in range(90 if not THOROUGH else 1500)] + \
           [e2e_job(r, True) for _ in range(4 if not THOROUGH else 60)] + \
           [e2e_job(r, both=True) for _ in range(8 if not THOROUGH else 60)] + \
           [dict(e2e_job(r), P=0) for _ in range(3)] + \
           [pipe_job(r, k) for k in ["gone", "read", "early"] * (2 if not THOROUGH else 20)]
    jobs.sort(key=lambda j: -j["N"])
    if prop in ("P03", "P04"):
        jobs = [stall_job(r, k) for k in ([6, 6, 1, 1, 1, 2] if not THOROUGH else [1, 2, 3, 4, 5, 6] * 10)] + jobs
    e = pmap(lambda j: e2e_run(bins, j), jobs)
    c.log(f"{len(jobs)} runs of hibp-download")
    c.sample(e[-1])
    runs += [x for x in e if x]
    c.evals = len(runs)
    judge(c, prop, runs, "download")


def p01(c):
    run_prop(c, "P01")


def p02(c):
    run_prop(c, "P02")


def p03(c):
    run_prop(c, "P03")


def p04(c):
    run_prop(c, "P04")


def p05(c):
    run_prop(c, "P05")
