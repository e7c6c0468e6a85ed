"""P17 output which cannot be written, P18 existing files, P21 torn or missing databases"""
import fcntl, json, os, re, threading, time
from core import *
from dlserver import Server
from c_tools import desc
from c_download import mkfile, suffixes, body
from httpc import HibpServer, converse
import recs as R

OPT = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}


# ------------------------------------------------------------------------------------------ P17
def agree(a, b):
    """length of the common beginning"""
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return n
    lo, hi = 0, n
    while lo < hi:
        m = (lo + hi + 1) // 2
        if a[:m] == b[:m]:
            lo = m
        else:
            hi = m - 1
    return lo


class Out:
    """one program whose output is to fail: prepare(d) -> (cmd, stdin, env, close); `to` file or stdout"""

    def __init__(self, name, to, outname, want, prepare, multi=False):
        self.name, self.to, self.outname, self.want, self.prepare = name, to, outname, want, prepare
        self.multi = multi      # several files are written, the calls do not add up to the output


def run_out(shim, o, fault, path=None):
    """fault: (kind, number of the call, bytes)"""
    kind, n, k = fault
    d = newdir("wr")
    cmd, stdin, env, done = o.prepare(d)
    out = os.path.join(d, o.outname)
    e = dict(env or {})
    log = os.path.join(d, "calls")
    fsize, kill, stdout, logged = None, False, None, False
    keep = []
    if kind in ("none", "errno", "once", "short", "shortonce", "eintr", "open", "rename"):
        e.update(LD_PRELOAD=shim, VF_LOG=log, VF_PATH="!1" if o.to == "stdout" else path or d + "/" + o.outname,
                 VF_OP={"open": "open", "rename": "rename"}.get(kind, "write"), VF_N=str(n),
                 VF_ACT={"errno": "28", "once": "5", "short": "short", "shortonce": "short", "eintr": "4",
                         "open": "28", "rename": "28", "none": "0"}[kind], VF_BYTES=str(k))
        if kind in ("once", "shortonce", "eintr"):
            e["VF_ONCE"] = "1"
        logged = kind not in ("open", "rename") and not o.multi
    elif kind in ("limit", "limitkill"):
        fsize, kill = k, kind == "limitkill"
    if kind == "devfull":
        if o.to == "file":
            os.symlink("/dev/full", out)
            cmd = cmd + ["--force"]
        else:
            stdout = open("/dev/full", "wb")
            keep.append(stdout)
    elif kind in ("pipe", "epipe"):
        rd, wr = os.pipe()
        os.close(rd)
        stdout = os.fdopen(wr, "wb")
        keep.append(stdout)
        if kind == "epipe":
            cmd = ["env", "--ignore-signal=PIPE"] + cmd
    elif kind == "nonblock":       # a slow reader, and writes which fail while it is behind
        rd, wr = os.pipe()
        fcntl.fcntl(wr, 1031, 4096)
        os.set_blocking(wr, False)
        stdout = os.fdopen(wr, "wb", buffering=0)
        keep.append(stdout)

        def slow():
            with open(out, "wb") as f:
                time.sleep(k / 1e3)
                while True:
                    b = os.read(rd, 4096)
                    if not b:
                        break
                    f.write(b)
            os.close(rd)
        reader = threading.Thread(target=slow)
        reader.start()
    elif kind == "closed":
        cmd = ["sh", "-c", 'exec "$@" >&-', "sh"] + cmd
    elif o.to == "stdout":
        stdout = open(out, "wb")
        keep.append(stdout)
    x = run(cmd, cwd=d, env=e, stdin=stdin, stdout=stdout, fsize=fsize, xfsz_kill=kill, timeout=60)
    for f in keep:
        f.close()
    if kind == "nonblock":
        reader.join()
    if done:
        done()
    data = slurp(out) if os.path.isfile(out) else b""
    evs = [{"op": "start", "what": o.name, "to": o.to, "fault": kind, "at": n, "bytes": k, "total": len(o.want or b"")}]
    calls = []
    if os.path.exists(log):
        calls = [list(map(int, ln.split())) for ln in open(log)]
    if not o.multi:
        if o.to == "stdout" and not calls:
            logged = False          # written by the C library itself
        evs += [{"op": "w", "req": a, "res": b} for a, b in calls[:400]]
    evs.append({"op": "end", "rc": -99 if x.hang else x.rc, "len": len(data), "agree": agree(data, o.want or b""),
                "logged": logged and len(calls) <= 400, "err": x.err.decode("latin-1")[-120:]})
    rmdir(d)
    return evs, len(calls), data


def outputs(bins, r, scen):
    """programs to run: sizes from the scenarios of the specification (in half buffers), and some more"""
    sizes = sorted({s["items"] for s in scen})
    jobs = []
    tools = ["t2b", "b2t", "topn", "sort", "diff", "dl", "dltext", "drvsort"]
    num = [max(0, 500 * k + x) for k in sizes for x in (-1, 0, 1)] + [1, 2, 170, 341, 400, 5000]
    todo = [(t, n) for t in tools for n in num]
    if not THOROUGH:
        todo = r.sample(todo, 70)
    todo += [(t, n) for t in tools for n in (1, 300)]      # everything fits into the buffers
    if THOROUGH:
        todo += [(t, r.choice([10000, 20001, 60000])) for t in ("dl", "dltext", "t2b", "b2t")]
    else:
        todo += [("dl", 10050)]
    for i, (t, n) in enumerate(todo):
        typ = r.choice(["sha1", "ntlm"] if t not in ("topn", "dl") else ["sha1", "ntlm", "sha1t64"])
        size = R.SIZES[typ]
        hs = [r.randbytes(size) for _ in range(n)]
        rc = [(h, r.choice(R.COUNTS)) for h in hs]
        o = OPT[typ]
        if t == "t2b":
            txt = "".join(R.text(*x) + "\n" for x in rc).encode()
            to, sin = r.choice(["file", "stdout"]), r.random() < .4

            def prep(d, txt=txt, to=to, sin=sin, o=o):
                if not sin:
                    open(d + "/in", "wb").write(txt)
                return ([f"{bins}/hibp-convert", "--txt-to-bin"] + o + (["--stdin"] if sin else ["-i", d + "/in"]) +
                        (["-o", d + "/out"] if to == "file" else ["--stdout"]), txt if sin else None, None, None)
            jobs.append(Out(f"convert t2b {typ} {n}", to, "out", R.pack(rc), prep))
        elif t == "b2t":
            to = r.choice(["file", "stdout"])

            def prep(d, rc=rc, to=to, o=o):
                R.write(d + "/in", rc)
                return ([f"{bins}/hibp-convert", "--bin-to-txt", "-i", d + "/in"] + o +
                        (["-o", d + "/out"] if to == "file" else ["--stdout"]), None, None, None)
            jobs.append(Out(f"convert b2t {typ} {n}", to, "out",
                            "".join(R.text(*x) + "\n" for x in rc).encode(), prep))
        elif t == "topn":
            to = r.choice(["file", "stdout"])
            more = [(r.randbytes(size), -2) for _ in range(r.choice([1, 5, 100]))]

            def prep(d, db=rc + more, to=to, o=o, n=n):
                R.write(d + "/in", db)
                return ([f"{bins}/hibp-topn", d + "/in", "-N", str(n)] + o +
                        (["-o", d + "/out"] if to == "file" else ["--stdout"]), None, None, None)
            jobs.append(Out(f"topn {typ} {n}", to, "out", R.pack(sorted(rc)), prep))
        elif t in ("sort", "drvsort"):
            mode = r.choice(["hash", "count"])
            want = R.pack(sorted(rc, key=lambda x: (-x[1], x[0])) if mode == "count" else sorted(rc))
            if t == "sort":
                def prep(d, rc=rc, mode=mode, o=o):
                    R.write(d + "/in", rc)
                    return ([f"{bins}/hibp-sort", "-i", d + "/in"] + o +
                            (["--sort-by-count"] if mode == "count" else []), None, None, None)
            else:
                ch = max(r.choice([1, 7, 500, 1000, n // 2 + 1, n // 3 + 1]), n // 20)

                def prep(d, rc=rc, mode=mode, typ=typ, size=size, ch=ch):
                    R.write(d + "/in", rc)
                    cmd = f"{typ}\t{mode}\t{ch * (size + 4)}\t{d}/in\t170"
                    # the driver answers "ok" if disksort() returned
                    return (["sh", "-c", f'printf "%s\\n" "$1" | {bins}/drv_sort | grep -q "^ok"', "sh", cmd],
                            None, None, None)
            jobs.append(Out(f"{t} {mode} {typ} {n}", "file", "in.sorted", want, prep, multi=True))
        elif t == "diff":
            new = sorted(rc)
            old = [] if r.random() < .5 else [(h, x ^ 1) for h, x in new]

            def prep(d, old=old, new=new, o=o):
                R.write(d + "/old", old)
                R.write(d + "/new", new)
                return ([f"{bins}/hibp-diff", d + "/old", d + "/new"] + o, None, None, None)
            jobs.append(Out(f"diff {typ} {n}", "stdout", "out", None, prep))
        else:
            hsz = 16 if typ == "ntlm" else 20
            nf = r.choice([1, 3, 10])
            files, lines = [], []
            for f in range(nf):
                k = n // nf + (f < n % nf)
                ls = [f"{s}:{r.choice(R.COUNTS)}".encode() for s in suffixes(r, k, hsz)]
                files.append(body(r, ls, r.choice(["crlf", "lf-open", "crlf-open"])))
                lines += [b"%05X" % f + ln for ln in ls]
            if t == "dl":
                want = b"".join(bytes.fromhex(ln.split(b":")[0].decode())[:size] +
                                int(ln.split(b":")[1]).to_bytes(4, "little", signed=True) for ln in lines)
            else:
                want = b"".join(ln + b"\n" for ln in lines)

            def prep(d, files=files, typ=typ, o=o, t=t):
                srv = Server(lambda f, a: ("ok", files[f]) if f < len(files) else ("code:404", b""),
                             lambda x: None, 1, 0, typ == "ntlm")
                cmd = [f"{bins}/hibp-download", d + "/out", "--testing", "--no-progress", "--limit", str(len(files)),
                       "--parallel-max", "3"] + o + (["--txt-out"] if t == "dltext" else [])
                return cmd, None, srv.env(), srv.close
            jobs.append(Out(f"download {t} {typ} {n}", "file", "out", want, prep))
    return jobs


def p17(c):
    bins = build("hibp_convert", "hibp_topn", "hibp_sort", "hibp_diff", "hibp_download", "drv_sort", "fault")
    shim = f"{bins}/libfault.so"
    acts = ["Make", "Full", "Last", "WriteOK", "WriteFails", "Written", "Flush", "Check", "Unwind", "Exit"]
    c.model("Writer", "WriterThorough" if THOROUGH else "Writer", acts)
    for v in ("none", "early"):
        if tlc("Writer", "Writer_" + v).violated != "SuccessIsComplete":
            raise CheckError(f"the model does not notice a writer of style {v}")
    scen = c.generate("Writer", "WriterGen")
    r = rng("writer")
    base = outputs(bins, r, scen)

    def plain(o):
        evs, calls, data = run_out(shim, o, ("none", 0, 0))
        if o.want is None:
            o.want = data
            evs[0]["total"] = len(data)
            evs[-1]["agree"] = len(data)
        return evs, calls
    first = pmap(plain, base)
    jobs = []
    kinds = sorted({s["kind"] for s in scen})
    for o, (evs, calls) in zip(base, first):
        if evs[-1]["rc"] != 0 or not o.want:
            continue
        n, total = max(calls, 1), len(o.want)
        at = sorted({1, 2, n - 1, n} | {r.randrange(1, n + 1) for _ in range(2)}) if n > 4 else range(1, n + 1)
        at = [k for k in at if 1 <= k <= n]
        for kind in kinds:
            if kind == "limit":
                for k in {0, total - 1, r.randrange(total), r.choice([x for x in (8191, 8192, 24000, 1) if x < total] or [0])}:
                    jobs.append((o, (r.choice(["limit", "limit", "limitkill"]), 0, k), None))
            elif (calls or o.to == "file") and not (o.multi and o.name.startswith("drvsort")):
                for k in at:
                    jobs.append((o, (kind, k, r.choice([1, 7, 24, 100, max(1, total - 1)])), None))
        if o.multi:      # the chunk files, and the end of it
            for k in (1, 2, 3, 5):
                for kind in ("errno", "once", "short"):
                    jobs.append((o, (kind, k, r.choice([1, 7, 24])), ".partial."))
                    jobs.append((o, (kind, k, r.choice([1, 7, 24])), ".sorted"))
            jobs += [(o, ("open", 1, 0), ".partial."), (o, ("rename", 1, 0), ".sorted")]
            if o.name.startswith("drvsort"):
                jobs.append((o, ("open", 1, 0), ".sorted"))
        else:
            if "download" not in o.name or o.to == "file":
                jobs.append((o, ("devfull", 0, 0), None))
            if o.to == "stdout":
                jobs += [(o, (k, 0, 0), None) for k in ("pipe", "epipe", "closed")]
                jobs += [(o, ("nonblock", 0, k), None) for k in (5, 30)]
            else:
                jobs.append((o, ("open", 1, 0), None))
    jobs = [j for j in jobs if not (j[1][0] == "devfull" and "sort" in j[0].name)]
    r.shuffle(jobs)
    hung = []

    def one(j):
        if len(hung) > 3:
            return None
        evs = run_out(shim, *j)[0]
        if evs[-1]["rc"] == -99:
            hung.append(1)
        return evs
    runs = [e for e, _ in first] + [e for e in pmap(one, jobs) if e]
    c.evals = len(runs)
    fails = [e for e in runs if e[-1]["rc"] != 0]
    c.notes["runs"] = len(runs)
    c.notes["runs_which_failed"] = len(fails)
    c.notes["faults"] = {k: sum(e[0]["fault"] == k for e in runs) for k in sorted({e[0]["fault"] for e in runs})}
    c.log(f"{len(runs)} runs, {len(fails)} of them failed")
    c.sample(fails[0])
    parts = [runs[i::4] for i in range(4)]

    def judge(p):
        evs = [e for x in p for e in x]

        def describe(i):
            k = i
            while evs[k]["op"] != "start":
                k -= 1
            return json.dumps(evs[k:k + 12] + ([evs[i]] if i > k + 11 else []))[:1500]
        c.validate("WriterTrace", "WriterTrace", evs, "tools whose output fails", describe, count=len(p))
    pmap(judge, [p for p in parts if p], 4)


# ------------------------------------------------------------------------------------------ P18
LINKS = ("same", "hard", "sym")


def content(r, k, what):
    """bytes of an input file of this state"""
    if k["tool"] == "convert" and k["mode"] != "b2t":
        size = 16 if k["ntlm"] else 20
        ls = [R.text(r.randbytes(size), r.choice(R.COUNTS)) for _ in range(5)]
        if what == "malformed":
            ls[r.randrange(5)] = r.choice(["", "xyz", ls[0][1:20]])
        return "".join(x + "\n" for x in ls).encode() if what != "empty" else b""
    size = 16 if k["ntlm"] else 8 if k["t64"] else 20
    if what == "empty":
        return b""
    data = R.pack([(h, r.choice(R.COUNTS)) for h in R.hashes(r, 5, size)])
    return data[:-r.randrange(1, size + 4)] if what == "torn" else data


def snap(d):
    """what is there, and what is in it"""
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if os.path.islink(p):
            out[n] = "link " + os.readlink(p)
        elif os.path.isdir(p):
            out[n] = "dir " + " ".join(os.listdir(p))
        else:
            out[n] = slurp(p)
    return out


def command(bins, srvs, salt, k):
    r = rng("cli", salt)
    d = newdir("cl")
    inp, out = d + "/in", d + "/out"
    stdin = None
    with open(d + "/bystander", "w") as f:
        f.write("keep")
    if k["tool"] != "download":
        if k["src"] in ("stdin",):
            stdin = content(r, k, k["in"] if k["in"] in ("good", "empty", "malformed") else "good")
            open(inp, "wb").write(stdin)
        elif k["in"] == "dir":
            os.mkdir(inp)
        elif k["in"] != "missing":
            open(inp, "wb").write(content(r, k, k["in"]))
    o = k["out"]
    typ = "ntlm" if k["ntlm"] else "sha1t64" if k["t64"] else "sha1"
    old = b"".join(r.randbytes(24) for _ in range(3)) + b"old"
    if k["tool"] == "download" and o in ("exists", "link"):
        files = srvs["files"][typ]
        size = R.SIZES[typ]
        rec = [(bytes.fromhex("%05X" % f + ln.split(":")[0])[:size], int(ln.split(":")[1]))
               for f in range(3) for ln in files[f]]
        old = R.pack(rec[:6])     # all of file 0, some of file 1
    tgt = out
    if o == "exists":
        open(out, "wb").write(old)
    elif o == "empty":
        open(out, "wb").close()
    elif o == "same":
        tgt = inp if r.random() < .5 else d + "/./in"
    elif o == "hard":
        os.link(inp, out)
    elif o == "link":
        open(d + "/real", "wb").write(old)
        os.symlink("real", out)
    elif o == "sym":
        os.symlink(r.choice(["in", inp]), out)
    elif o == "dangling":
        os.symlink("nowhere", out)
    elif o == "dir":
        os.mkdir(out)
        open(out + "/x", "w").close()
    elif o == "noparent":
        tgt = d + "/no/out"
    named = [tgt] if k["dst"] in ("file", "both") else []
    env = {}
    if k["tool"] == "convert":
        cmd = {"t2b": ["--txt-to-bin"], "b2t": ["--bin-to-txt"], "both": ["--txt-to-bin", "--bin-to-txt"],
               "none": []}[k["mode"]]
        cmd += {"file": ["-i", inp], "stdin": ["--stdin"], "both": ["-i", inp, "--stdin"], "none": []}[k["src"]]
        cmd += (["-o", tgt] if named else []) + (["--stdout"] if k["dst"] in ("stdout", "both") else [])
        cmd += {"fine": r.choice([[], [], ["-l", "3"], ["--limit", "0"]]), "unknown": ["--frobnicate"],
                "badnum": ["-l", "abc"]}[k["opt"]]
        cmd += ["--force"] if k["force"] else []
        exe = "hibp-convert"
    elif k["tool"] == "topn":
        cmd = [inp] + (["-o", tgt] if named else []) + (["--stdout"] if k["dst"] in ("stdout", "both") else [])
        n = {"less": r.choice([0, 1, 4]), "equal": 5, "more": r.choice([6, 50, 2 ** 40])}[k["num"]]
        if k["in"] == "empty":
            n = 0 if k["num"] != "more" else 6
        cmd += {"fine": ["-N", str(n)], "unknown": ["--frob", "-N", str(n)], "badnum": ["-N", "abc"]}[k["opt"]]
        if k["num"] == "more" and k["opt"] == "fine" and r.random() < .3:
            cmd = cmd[:-2]       # the default is 50 million
        cmd += ["--force"] if k["force"] else []
        exe = "hibp-topn"
    else:
        cmd = [tgt, "--testing", "--no-progress"] + (["--force"] if k["force"] else [])
        cmd += (["--resume"] if k["resume"] else []) + (["--txt-out"] if k["txt"] else [])
        cmd += {"fine": ["--limit", "3"], "unknown": ["--limit", "3", "--frob"], "badnum": ["--limit", "x"]}[k["opt"]]
        env = srvs["ntlm" if k["ntlm"] else "sha1"].env()
        exe = "hibp-download"
    cmd += (["--ntlm"] if k["ntlm"] else []) + (["--sha1t64"] if k["t64"] else [])
    before = snap(d)
    x = run([f"{bins}/{exe}"] + cmd, cwd=d, env=env, stdin=stdin, timeout=60)
    after = snap(d)

    def same(*names):
        return all(before.get(n) == after.get(n) for n in names if n in before)
    ev = dict(k, rc=-99 if x.hang else x.rc, inSame=same("in"), outSame=same("out", "real") if o not in ("same",)
              else same("in"), others=same("bystander"), err=x.err.decode("latin-1")[-160:],
              cmd=" ".join([exe] + cmd).replace(d, "D"))
    rmdir(d)
    return ev


def readers(bins, r, shim):
    """the tools which only read databases: nothing of their input changes"""
    jobs = []
    for i in range(90 if not THOROUGH else 900):
        tool = ["sort", "diff", "dupes", "search", "sort", "topn"][i % 6]
        jobs.append((tool, i))

    def one(j):
        tool, i = j
        q = rng("readers", i)
        typ = q.choice(["sha1", "ntlm"])
        size = R.SIZES[typ]
        d = newdir("rd")
        big = tool == "sort" and i in (0, 4, 6, 10)
        n = 45000 if big and typ == "sha1" else 54000 if big else q.choice([0, 1, 5, 300])
        recs = [(q.randbytes(size), q.choice(R.COUNTS)) for _ in range(n)]
        if tool != "sort":
            recs.sort()
        R.write(d + "/in", recs)
        R.write(d + "/in2", recs[::2])
        open(d + "/bystander", "w").write("keep")
        out = "none"
        o = OPT[typ]
        if tool == "sort":
            out = q.choice(["absent", "exists", "hard", "sym", "sympart"]) if not big else \
                ["hard", "sym", "exists", "sympart"][(0, 4, 6, 10).index(i)]
            if out == "exists":
                R.write(d + "/in.sorted", recs[:3])
            elif out == "hard":
                os.link(d + "/in", d + "/in.sorted")
            elif out == "sym":
                os.symlink("in", d + "/in.sorted")
            elif out == "sympart":
                os.symlink("in", d + "/in.partial.0000")
            cmd = ["hibp-sort", "-i", d + "/in", "--max-memory", "1"] + (["--sort-by-count"] if q.random() < .5 else [])
        elif tool == "diff":
            cmd = ["hibp-diff"] + q.choice([[d + "/in2", d + "/in"], [d + "/in", d + "/in2"], [d + "/in", d + "/in"]])
        elif tool == "dupes":
            cmd = ["hibp-dupes", d + "/in"]
        elif tool == "topn":
            cmd = ["hibp-topn", d + "/in", "-o", d + "/out", "-N", str(q.choice([0, 1, n // 2]))]
        else:
            cmd = ["hibp-search", d + "/in", q.randbytes(size).hex().upper(), "--hash"] + \
                (["--toc", "--toc-bits", "15"] if q.random() < .5 else [])
        before = snap(d)
        env = {}
        if q.random() < .2 and not big:     # also when something fails
            env = {"LD_PRELOAD": shim, "VF_OP": q.choice(["write", "read", "rename", "open"]), "VF_PATH": d,
                   "VF_N": str(q.choice([1, 2, 3])), "VF_ACT": "5"}
        x = run([f"{bins}/{cmd[0]}"] + cmd[1:] + o, cwd=d, env=env, timeout=90)
        after = snap(d)
        ev = {"tool": tool, "out": out, "rc": -99 if x.hang else x.rc, "n": n, "fault": env.get("VF_OP", ""),
              "inSame": all(before[k] == after.get(k) for k in ("in", "in2")),
              "others": after.get("bystander") == "keep".encode(), "cmd": " ".join(cmd + o).replace(d, "D"),
              "err": x.err.decode("latin-1")[-160:]}
        rmdir(d)
        return ev
    return pmap(one, jobs)


def server_keeps(bins, r):
    evs = []
    for toc in (False, True):
        d = newdir("sv")
        before, args = {}, []
        for typ in ("sha1", "ntlm", "sha1t64"):
            # all in the first entry of the table of contents
            before[typ] = R.pack([(bytes(2) + h, 5) for h in R.hashes(r, 50, R.SIZES[typ] - 2, "random")])
            open(f"{d}/{typ}", "wb").write(before[typ])
            args += [f"--{typ}-db", f"{d}/{typ}"]
        s = HibpServer(f"{bins}/hibp-server", args + (["--toc", "--toc-bits", "15"] if toc else []), cwd=d)
        if not s.alive():
            raise CheckError(f"hibp-server did not start: {s.err[-300:]}")
        converse(s.port, [("GET", p) for p in ("/check/plain/abc", "/check/sha1/" + "0" * 40, "/check/x")], False)
        converse(s.port, [("GET", "/check/ntlm/zz")], False)
        s.close()
        evs.append({"tool": "server", "out": "none", "rc": 0, "n": 50, "fault": "",
                    "inSame": all(slurp(f"{d}/{t}") == b for t, b in before.items()),
                    "others": True, "cmd": "hibp-server", "err": ""})
        rmdir(d)
    return evs


PHASES = ["Parse", "Contra", "Input", "Output", "Open", "Work"]


def p18(c):
    bins = build("hibp_convert", "hibp_topn", "hibp_sort", "hibp_diff", "hibp_dupes", "hibp_search", "hibp_download",
                 "fault", optional=("hibp_server",))
    have_server = not build.missing
    c.model("Cli", "Cli", PHASES)
    if tlc("Cli", "CliOpenFirst").violated is None:
        raise CheckError("the model does not notice outputs which are opened too early")
    scen = c.generate("Cli", "CliGen")
    r = rng("cli")
    srvs = {"files": {}}
    bodies = {}
    for typ in R.SIZES:
        srvs["files"][typ] = [[f"{s}:{r.choice(R.COUNTS)}" for s in suffixes(r, 4, 16 if typ == "ntlm" else 20)]
                              for _ in range(3)]
        bodies[typ] = ["\r\n".join(ls).encode() for ls in srvs["files"][typ]]
    srvs["files"]["sha1t64"] = srvs["files"]["sha1"]
    for typ in ("sha1", "ntlm"):
        srvs[typ] = Server(lambda f, a, b=bodies[typ]: ("ok", b[f]) if f < 3 else ("code:404", b""),
                           lambda x: None, 1, 0, typ == "ntlm")
    dl = [s for s in scen if s["tool"] == "download"]
    rest = [s for s in scen if s["tool"] != "download"]
    if not THOROUGH:
        # all of one flag setting each, and a sample of the rest
        dl = r.sample(dl, min(len(dl), 260))
        rest = r.sample(rest, min(len(rest), 1700))
    jobs = list(enumerate(dl + rest))
    evs = pmap(lambda j: command(bins, srvs, j[0], j[1]), jobs)
    for typ in ("sha1", "ntlm"):
        srvs[typ].close()
    c.evals = len(evs)
    c.notes["commands"] = {t: sum(e["tool"] == t for e in evs) for t in ("convert", "topn", "download")}
    c.notes["succeeded"] = sum(e["rc"] == 0 for e in evs)
    if c.notes["succeeded"] < 50:
        c.log("hardly any command succeeded")
    c.sample(evs[0])
    rev = readers(bins, r, f"{bins}/libfault.so") + (server_keeps(bins, r) if have_server else [])
    c.evals += len(rev)
    c.sample(rev[0])
    c.validate("CliTrace", "CliTrace", evs + rev, "existing files", desc(evs + rev))


# ------------------------------------------------------------------------------------------ P21
ANSWER = re.compile(rb"^(found|not found|[0-9A-Fa-f]{16,}:|[UI]:[0-9A-F]{8}:)", re.M)


def p21(c):
    bins = build("hibp_convert", "hibp_topn", "hibp_sort", "hibp_diff", "hibp_dupes", "hibp_search",
                 optional=("hibp_server",))
    have_server = not build.missing
    c.model("Reader", "Reader", ["Open", "Read", "Finish"])
    for v in ("floor", "eof", "tooBig"):
        if tlc("Reader", "Reader_" + v).violated is None:
            raise CheckError(f"the model does not notice a reader of style {v}")
    scen = c.generate("Reader", "ReaderGen")
    r = rng("torn")
    tools = {"search": ["sha1", "ntlm", "sha1t64"], "searchtoc": ["sha1", "ntlm", "sha1t64"],
             "server": ["sha1", "ntlm", "sha1t64"] if have_server else [], "topn": ["sha1", "ntlm", "sha1t64"],
             "topnstd": ["sha1", "ntlm", "sha1t64"], "sort": ["sha1", "ntlm"], "sortcount": ["sha1", "ntlm"],
             "b2t": ["sha1", "ntlm"], "b2tstd": ["sha1", "ntlm"], "diff": ["sha1", "ntlm"], "dupes": ["sha1", "ntlm"]}
    pairs = [(t, y) for t in tools for y in tools[t]]
    jobs = []
    bufs = {"sha1": [170, 171, 2730, 2731, 1000], "ntlm": [204, 205, 3276, 3277], "sha1t64": [341, 342, 5461, 5462]}
    for t, y in pairs:
        n = R.SIZES[y] + 4
        # the scenarios of the specification; rest 1, 2 of 3 stand for all remainders
        for s in scen:
            rest = 0 if s["rest"] == 0 else r.randrange(1, n)
            if t == "server" and r.random() < .5 and not THOROUGH:
                continue
            jobs.append((t, y, s["exists"], s["whole"], rest))
        if t != "server" or THOROUGH:
            jobs += [(t, y, True, r.choice([0, 1, 3]), x) for x in range(1, n)]
        else:
            jobs += [(t, y, True, r.choice([0, 1, 3]), x) for x in r.sample(range(1, n), 4)]
        for k in bufs[y] if THOROUGH else r.sample(bufs[y], 2):
            jobs += [(t, y, True, k, 0), (t, y, True, k, r.choice([1, 4, n - 4, n - 1, r.randrange(1, n)]))]

    def one(job):
        i, (t, y, exists, whole, rest) = job
        q = rng("torn", i)
        size = R.SIZES[y]
        n = size + 4
        d = newdir("to")
        recs = sorted((q.randbytes(size), q.randrange(1, 1000)) for _ in range(whole))
        data = R.pack(recs) + q.randbytes(rest)
        dbs = [{"exists": exists, "whole": whole, "rest": rest, "rec": n}]
        db = d + "/db"
        if exists:
            open(db, "wb").write(data)
        o = OPT[y]
        hs = (recs[q.randrange(whole)][0] if whole and q.random() < .5 else q.randbytes(size)).hex().upper()
        outs = []
        cmd, kind = [], t
        if t in ("search", "searchtoc"):
            cmd = ["hibp-search", db, hs, "--hash"] + o + (["--toc", "--toc-bits", str(q.choice([15, 16, 20]))] if t == "searchtoc" else [])
        elif t in ("topn", "topnstd"):
            # one less than there would be
            cmd = ["hibp-topn", db, "-N", str(max(0, whole - 1))] + o + (["-o", d + "/out"] if t == "topn" else ["--stdout"])
            outs = ["out"]
            if whole == 0 and rest == 0 and exists:
                rmdir(d)
                return None             # nothing can be left out of nothing (P10)
        elif t in ("sort", "sortcount"):
            cmd = ["hibp-sort", "-i", db] + o + (["--sort-by-count"] if t == "sortcount" else [])
            outs = ["db.sorted"]
        elif t in ("b2t", "b2tstd"):
            cmd = ["hibp-convert", "--bin-to-txt", "-i", db] + o + (["-o", d + "/out"] if t == "b2t" else ["--stdout"])
            outs = ["out"]
        elif t == "dupes":
            cmd = ["hibp-dupes", db] + o
        elif t == "diff":
            # the other database is good, and such that it would work otherwise
            other = d + "/other"
            first = q.random() < .5
            R.write(other, sorted(recs + [(q.randbytes(size), 1)]) if first else recs[:whole // 2])
            dbs.append({"exists": True, "whole": 1, "rest": 0, "rec": n})
            cmd = ["hibp-diff"] + ([db, other] if first else [other, db]) + o
        if t == "server":
            args = [f"--{y}-db", db]
            if q.random() < .5:      # a good one besides
                z = q.choice([a for a in R.SIZES if a != y])
                R.write(d + "/good", [(q.randbytes(R.SIZES[z]), 3)])
                dbs.append({"exists": True, "whole": 1, "rest": 0, "rec": R.SIZES[z] + 4})
                args = (args + [f"--{z}-db", d + "/good"]) if q.random() < .5 else ([f"--{z}-db", d + "/good"] + args)
            if q.random() < .4:
                args += ["--toc", "--toc-bits", "15"]
            s = HibpServer(f"{bins}/hibp-server", args, cwd=d, wait=10)
            up = s.alive()
            answers, rc, msg = 0, 0, True
            if up:
                res = converse(s.port, [("GET", f"/check/{y}/{hs}")], False)[0]
                answers = sum(x["status"] == 200 for x in res)
            else:
                rc, msg = (s.rc if isinstance(s.rc, int) else -99), bool(s.err.strip())
            s.close()
            cmd = ["hibp-server"] + args
        else:
            x = run([f"{bins}/{cmd[0]}"] + cmd[1:], cwd=d, timeout=60)
            rc = -99 if x.hang else x.rc
            msg = bool(x.err.strip())
            answers = len(ANSWER.findall(x.out)) + (len(x.out) // n if t in ("topnstd",) else 0)
            for f in outs:
                if os.path.exists(d + "/" + f):
                    answers += os.path.getsize(d + "/" + f)
        rmdir(d)
        return {"tool": t, "type": y, "dbs": dbs, "rc": rc, "message": msg, "answers": answers,
                "toc": t == "searchtoc" or "--toc" in cmd,      # gaps may be refused (P08)
                "cmd": " ".join(cmd).replace(d, "D")[:300]}
    jobs = list(enumerate(jobs))
    evs = [e for e in pmap(one, jobs) if e]
    # larger than 4 GiB: a sparse file, which is not refused for its size, and read at the right place
    d = newdir("big")
    for y in ["sha1", "ntlm", "sha1t64"]:
        n = R.SIZES[y] + 4
        k = (r.choice([2 ** 31, 2 ** 32, 5 * 2 ** 30]) + r.randrange(10 ** 6)) // n
        for rest in (0, 1, n - 1):
            with open(d + "/db", "wb") as f:
                f.truncate(n * k + rest)
            tail = sorted((bytes([255]) + r.randbytes(R.SIZES[y] - 1), r.randrange(1, 999)) for _ in range(3))
            with open(d + "/db", "r+b") as f:
                f.seek(n * (k - 3))
                f.write(R.pack(tail))
            for h, cnt in tail[:1 if rest else 3]:
                x = run([f"{bins}/hibp-search", d + "/db", h.hex().upper(), "--hash"] + OPT[y], timeout=60)
                evs.append({"tool": "search", "type": y, "dbs": [{"exists": True, "whole": k, "rest": rest, "rec": n}],
                            "rc": -99 if x.hang else x.rc, "message": bool(x.err.strip()),
                            "answers": len(ANSWER.findall(x.out)), "toc": False, "big": True})
            os.remove(d + "/db")
    rmdir(d)
    c.evals = len(evs)
    c.notes["runs"] = {t: sum(e["tool"] == t for e in evs) for t in tools}
    c.notes["refused"] = sum(e["rc"] != 0 for e in evs)
    c.sample(evs[0])
    c.sample(evs[-1])
    c.validate("ReaderTrace", "ReaderTrace", evs, "torn and missing databases", desc(evs))
