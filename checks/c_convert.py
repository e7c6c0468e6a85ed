"""P12 conversions, P22 malformed text"""
import os
from core import *
from driver import drive
from dlserver import Server
import recs as R
from c_sort import match_ids
from c_tools import desc

HMAP = {"sha1": 20, "ntlm": 16}
ALLCOUNTS = R.COUNTS + [-1, -2147483648, -5, 4, 7, 99, 100, 1000000]


def rectext(r, h, cnt, plain=False):
    t = h.hex()
    k = 0 if plain else r.randrange(4)
    if k == 0:
        t = t.upper()
    elif k == 2:
        t = "".join(ch.upper() if r.random() < .5 else ch for ch in t)
    return (t + f":{cnt}").encode()


def badline(r, size):
    h = r.randbytes(size).hex().upper()
    cnt = b":%d" % r.choice(R.COUNTS)
    k = r.randrange(9)
    if k == 0:
        return r.choice([b"", b"\r", b" ", b"\t", b":", b":5", b"\0", b"#", b"0"])
    if k == 1:
        return h[:-1].encode() + cnt           # one digit short
    if k == 2:
        return h[:r.randrange(len(h))].encode() + r.choice([b"", cnt])
    if k == 3:
        return r.choice([b" ", b"\t", b"0x", b"\xef\xbb\xbf", b"'"]) + h.encode() + cnt
    if k == 4:
        return h[1:].encode() + cnt + b"0" * 8
    i = r.choice([0, len(h) - 1, r.randrange(len(h))])
    bad = r.choice([b"/", b":", b"@", b"G", b"`", b"g", b" ", b"\x80", b"\xff", b"\xb0", b"\xc1", b"\0", b"-",
                    b"x", b"\x10", b"\x11", b"q", b"\r", b"O", b"l"])
    return h[:i].encode() + bad + h[i + 1:].encode() + cnt


def unknown(r, h):
    """a line with a hash, but without a (proper) count"""
    t = h.hex()
    return (t.upper() if r.random() < .7 else t).encode() + r.choice(
        [b"", b"", b"", b":", b":x", b":-", b": 5", b":+5", b":99999999999", b":2147483648", b":-2147483649", b":5x", b":0007",
         b":00000000000000000005", b":12 3", b":--1", b"::5", b":9999999999", b":\t1", b":1e3"])


def t2b(bins, j):
    """j: typ, lines, limit, eol, lastnl, stdin, stdout, recs"""
    typ, lines, limit, eol, lastnl, sin, sout, big = j
    size = HMAP[typ]
    d = newdir("cv")
    text = eol.join(lines) + (eol if lastnl and lines else b"")
    with open(d + "/in", "wb") as f:
        f.write(text)
    cmd = [f"{bins}/hibp-convert", "--txt-to-bin"] + (["--ntlm"] if typ == "ntlm" else [])
    cmd += ["--stdin"] if sin else ["-i", d + "/in"]
    cmd += ["--stdout"] if sout else ["-o", d + "/out"]
    if limit is not None:
        cmd += ["-l", str(limit)]
    x = run(cmd, stdin=text if sin else None)
    if sout:
        data = x.out
    else:
        data = slurp(d + "/out") if os.path.exists(d + "/out") else b""
    data = data[:len(text) + 1200]       # more than that is too much in any case
    ev = {"dir": "t2b", "type": typ, "hlen": size, "rc": -99 if x.hang else x.rc,
          "std": [int(sin), int(sout)], "eol": list(eol), "lastnl": lastnl,
          "limit": -1 if limit is None or limit > 10 ** 6 else limit,
          "inputSame": slurp(d + "/in") == text}
    out = R.unpack(data, size)
    if big is None:
        ev["lines"] = [list(ln) for ln in lines]
        ev["whole"] = len(data) % (size + 4) == 0
        ev["out"] = [[list(h), n] for h, n in out]
    else:
        ev["n"], ev["bad"] = len(lines), big[1]
        ev["ids"] = match_ids(big[0], out) + ([] if len(data) % (size + 4) == 0 else [0])
    rmdir(d)
    return ev, data


def b2t(bins, j):
    typ, recs, limit, sout = j
    size = HMAP[typ]
    d = newdir("cv")
    R.write(d + "/in", recs)
    cmd = [f"{bins}/hibp-convert", "--bin-to-txt", "-i", d + "/in"] + (["--ntlm"] if typ == "ntlm" else [])
    cmd += ["--stdout"] if sout else ["-o", d + "/out"]
    if limit is not None:
        cmd += ["-l", str(limit)]
    x = run(cmd)
    if sout:
        data = x.out
    else:
        data = slurp(d + "/out") if os.path.exists(d + "/out") else b""
    data = data[:60 * len(recs) + 1200]
    ev = {"dir": "b2t", "type": typ, "rc": -99 if x.hang else x.rc, "std": [0, int(sout)],
          "limit": -1 if limit is None or limit > 10 ** 6 else limit,
          "inputSame": slurp(d + "/in") == R.pack(recs)}
    if len(recs) <= 12:
        ev["recs"] = [[list(h), n] for h, n in recs]
        ev["out"] = list(data)
    else:
        ev["n"] = len(recs)
        ev["bad"] = 0
        ls = data.decode("latin-1").split("\n")
        tail = ls.pop()
        ev["ids"] = match_ids([R.text(*x) for x in recs], ls) + ([0] if tail else [])
    rmdir(d)
    return ev, data


NBIG = [169, 170, 171, 203, 204, 205, 340, 408, 409, 999, 1000, 1001, 1999, 2000, 2001, 3001, 5000]
acts = ["Flush", "Take", "Malformed", "Finish"]


def design(c):
    c.model("Convert", "Convert", acts)
    if THOROUGH:
        c.model("Convert", "ConvertThorough", acts, timeout=900)
    return c.generate("Convert", "ConvertGen")


def realise(r, s, i, bad=False):
    typ = ["sha1", "ntlm"][i % 2]
    size = HMAP[typ]
    hs = R.hashes(r, 2, size)
    lines = [badline(r, size) if x == 0 else rectext(r, hs[x - 1], r.choice(ALLCOUNTS)) for x in s["lines"]]
    limit = r.choice([None, 2 ** 64 - 1, 10 ** 12]) if s["limit"] == 5 else s["limit"]
    # an empty line at the very end is only there if there is a line end after it
    return [typ, lines, limit, r.choice([b"\n", b"\r\n"]), True if bad else r.random() < .7,
            r.random() < .4, r.random() < .4, None]


def p12(c):
    bins = build("hibp_convert")
    scen = [s for s in design(c) if 0 not in s["lines"]]
    r = rng("convert")
    jobs = [realise(r, s, i) for i, s in enumerate(scen) for _ in range(1 if not THOROUGH else 6)]
    # one record of every count and hash pattern
    for i in range(120 if not THOROUGH else 1500):
        typ = ["sha1", "ntlm"][i % 2]
        hs = R.hashes(r, r.randrange(1, 9), HMAP[typ])
        r.shuffle(hs)
        jobs.append([typ, [rectext(r, h, r.choice(ALLCOUNTS)) for h in hs],
                     r.choice([None, None, 0, 1, len(hs), len(hs) + 1]), r.choice([b"\n", b"\r\n"]),
                     r.random() < .7, r.random() < .4, r.random() < .4, None])
    for i in range(40 if not THOROUGH else 300):
        typ = ["sha1", "ntlm"][i % 2]
        n = NBIG[i % len(NBIG)]
        recs = [(h, r.choice(ALLCOUNTS)) for h in R.hashes(r, n, HMAP[typ])]
        r.shuffle(recs)
        jobs.append([typ, [rectext(r, *x) for x in recs],
                     r.choice([None, None, n - 1, n, n + 1, 1000, min(n, 1001), n // 2, 170, 204]),
                     r.choice([b"\n", b"\r\n"]), r.random() < .7, r.random() < .4, r.random() < .4, (recs, 0)])
    evs = [e for e, _ in pmap(lambda j: t2b(bins, j), jobs)]
    c.sample(evs[len(evs) // 3])
    c.evals += len(evs)
    c.validate("ConvertTrace", "ConvertTrace", evs, "hibp-convert --txt-to-bin", desc(evs))

    jobs = []
    for i in range(300 if not THOROUGH else 3000):
        typ = ["sha1", "ntlm"][i % 2]
        n = r.randrange(0, 9)
        hs = R.hashes(r, max(1, n), HMAP[typ])[:n]
        r.shuffle(hs)
        jobs.append((typ, [(h, r.choice(ALLCOUNTS)) for h in hs],
                     r.choice([None, None, 0, 1, n, n + 1, max(0, n - 1), 2 ** 64 - 1]), r.random() < .5))
    for i in range(40 if not THOROUGH else 300):
        typ = ["sha1", "ntlm"][i % 2]
        n = NBIG[i % len(NBIG)]
        hs = R.hashes(r, n, HMAP[typ])
        jobs.append((typ, [(h, r.choice(ALLCOUNTS)) for h in hs],
                     r.choice([None, None, n - 1, n, n + 1, n // 2, 170, 204, 171, 205]), r.random() < .5))
    res = pmap(lambda j: b2t(bins, j), jobs)
    evs = [e for e, _ in res]
    c.sample(evs[5])
    c.evals += len(evs)
    c.validate("ConvertTrace", "ConvertTrace", evs, "hibp-convert --bin-to-txt", desc(evs))

    # there and back again: the text which was printed is converted, and must give the same records
    back = []
    for (typ, recs, limit, _), (_, data) in zip(jobs, res):
        if limit is None and recs:
            back.append([typ, data.split(b"\n")[:-1], None, b"\n", True, r.random() < .5, r.random() < .5,
                         None if len(recs) <= 12 else (recs, 0)])
            back[-1].append(recs)

    def there(j):
        ev, data = t2b(bins, j[:8])
        if ev["rc"] == 0 and data != R.pack(j[8]):
            ev["rc"] = 98       # not the bytes it came from
        return ev
    evs = pmap(there, back)
    c.evals += len(evs)
    c.validate("ConvertTrace", "ConvertTrace", evs, "hibp-convert binary to text to binary", desc(evs))


def p22(c):
    bins = build("hibp_convert")
    scen = [s for s in design(c) if 0 in s["lines"][:s["limit"]]]
    r = rng("malformed")
    jobs = [realise(r, s, i, True) for i, s in enumerate(scen) for _ in range(2 if not THOROUGH else 10)]
    if not THOROUGH:
        jobs = r.sample(jobs, 700)
    for i in range(60 if not THOROUGH else 600):
        typ = ["sha1", "ntlm"][i % 2]
        n = NBIG[i % len(NBIG)]
        recs = [(h, r.choice(ALLCOUNTS)) for h in R.hashes(r, n, HMAP[typ])]
        lines = [rectext(r, *x) for x in recs]
        p = r.choice([0, n - 1, min(n - 1, 999), min(n - 1, 1000), min(n - 1, 1001), r.randrange(n)])
        lines[p] = badline(r, HMAP[typ])
        jobs.append([typ, lines, r.choice([None, n]), b"\n", True, r.random() < .4, r.random() < .4, (recs, p + 1)])
    for i in range(120 if not THOROUGH else 1200):
        typ = ["sha1", "ntlm"][i % 2]
        hs = R.hashes(r, r.randrange(1, 9), HMAP[typ])
        r.shuffle(hs)
        jobs.append([typ, [rectext(r, h, r.choice(ALLCOUNTS)) if r.random() < .6 else unknown(r, h) for h in hs],
                     r.choice([None, None, len(hs)]), r.choice([b"\n", b"\n", b"\r\n"]),
                     r.random() < .7, r.random() < .4, r.random() < .4, None])
    evs = [e for e, _ in pmap(lambda j: t2b(bins, j), jobs)]
    c.sample(evs[3])
    c.evals += len(evs)
    c.validate("ConvertTrace", "ConvertTrace", evs, "hibp-convert with malformed lines", desc(evs))

    # binary downloads of prefix files with malformed lines
    bins = build("hibp_download")
    jobs = [dl_job(r, s) for s in scen for _ in range(3)]
    jobs = r.sample(jobs, min(len(jobs), 220 if not THOROUGH else 3000))
    jobs += [dl_job(r, None) for _ in range(60 if not THOROUGH else 800)]
    evs = pmap(lambda j: dl_run(bins, j), jobs)
    c.sample(evs[1])
    c.evals += len(evs)
    c.notes["downloads_with_malformed_lines"] = len(evs)
    c.validate("ConvertTrace", "ConvertTrace", evs, "hibp-download of malformed files", desc(evs))


HASH = {"sha1": 20, "ntlm": 16, "sha1t64": 20}


def badsuffix(r, typ):
    """a line of a prefix file which is not the rest of a hash; for sha1t64, where only the first 16 digits
    are used, the fault is among these"""
    L = 2 * (8 if typ == "sha1t64" else HASH[typ]) - 5
    full = 2 * HASH[typ] - 5
    h = "".join(r.choices("0123456789ABCDEF", k=full)).encode()
    cnt = b":%d" % r.choice(R.COUNTS)
    k = r.randrange(7)
    if k == 0:
        return r.choice([b" ", b"\t", b":", b":5", b"0", b"x", b"#", b"<html>", b"error: too many requests"])
    if k == 1:
        return h[:L - 1] + cnt
    if k == 2:
        return h[:r.randrange(1, L)] + r.choice([b"", cnt])
    if k == 3:
        return r.choice([b" ", b"0x", b"\xef\xbb\xbf", b'"']) + h + cnt
    i = r.choice([0, L - 1, r.randrange(L)])
    bad = r.choice([b"/", b":", b"@", b"G", b"`", b"g", b" ", b"\x80", b"\xff", b"\xb0", b"-", b"x", b"\x11", b"\t"])
    return h[:i] + bad + h[i + 1:] + cnt


def dl_job(r, s):
    """lines spread over the files; s: a scenario of Convert, or None for a larger one"""
    typ = r.choice(["sha1", "ntlm", "sha1t64"])
    kinds = s["lines"] if s else [1] * r.choice([30, 999, 1000, 1001, 4000])
    if not s:
        kinds[r.choice([0, len(kinds) - 1, r.randrange(len(kinds))])] = 0
    nf = r.choice([1, 2, 3, 5])
    at = sorted(r.randrange(nf) for _ in kinds)
    files = [[] for _ in range(nf)]
    full = 2 * HASH[typ] - 5
    for f, k in zip(at, kinds):
        files[f].append(badsuffix(r, typ) if k == 0 else
                        "".join(r.choices("0123456789ABCDEF", k=full)).encode() + b":%d" % r.choice(R.COUNTS))
    return typ, files, r.choice([b"\r\n", b"\r\n", b"\n"]), r.choice([1, 2, 5]), r.random() < .5


def dl_run(bins, j):
    typ, files, eol, par, last = j
    size = R.SIZES[typ]
    d = newdir("dm")
    bodies = [eol.join(f) + (eol if last and f else b"") for f in files]
    srv = Server(lambda f, a: ("ok", bodies[f]) if f < len(bodies) else ("code:404", b""), lambda x: None, 1, 0,
                 typ == "ntlm")
    x = run([f"{bins}/hibp-download", d + "/out", "--testing", "--no-progress", "--limit", str(len(files)),
             "--parallel-max", str(par)] + {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}[typ],
            env=srv.env(), timeout=60)
    srv.close()
    data = slurp(d + "/out") if os.path.exists(d + "/out") else b""
    rmdir(d)
    lines = [b"%05X" % f + ln for f, ls in enumerate(files) for ln in ls]
    out = R.unpack(data, size)
    ev = {"dir": "t2b", "dl": True, "type": typ, "hlen": size, "rc": -99 if x.hang else x.rc, "limit": -1,
          "inputSame": True, "whole": len(data) % (size + 4) == 0, "eol": list(eol), "lastnl": last}
    if len(lines) <= 12:
        ev["lines"] = [list(ln) for ln in lines]
        ev["out"] = [[list(h), n] for h, n in out]
    else:
        ok = [all(ch in b"0123456789ABCDEFabcdef" for ch in ln[:2 * size]) and len(ln) >= 2 * size for ln in lines]
        bad = ok.index(False) + 1
        recs = [(bytes.fromhex(ln[:2 * size].decode()), int(ln.rsplit(b":", 1)[1])) for ln in lines[:bad - 1]]
        ids = match_ids(recs, out)
        ev.update(n=len(lines), bad=bad, ids=ids)
    return ev
