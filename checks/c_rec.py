"""P23 order of records, P19 NT hash"""
import itertools
from core import *
from driver import drive
import recs as R
from c_tools import desc


def cpu_flags():
    try:
        for ln in open("/proc/cpuinfo"):
            if ln.startswith("flags"):
                return set(ln.split())
    except OSError:
        pass
    return set()


# ------------------------------------------------------------------------------------------ P23
def p23(c):
    fl = cpu_flags()
    variants = ["drv_arr"] + (["drv_arr_avx2"] if "avx2" in fl else []) + \
               (["drv_arr_avx512"] if {"avx512bw", "avx512f", "avx512vl"} <= fl else [])
    bins = build("drv_rec", optional=variants)
    variants = [v for v in variants if v not in build.missing]
    c.notes["array_variants"] = variants
    c.model("Order", "Order", ["Block", "AllEqual"])
    if THOROUGH:
        c.model("Order", "OrderThorough", ["Block", "AllEqual"], timeout=900)
    scen = c.generate("Order", "OrderGen")
    r = rng("order")

    def pair(s):
        n, k, (x, y), t = s["n"], s["k"], s["v"], s["t"]
        pre = [r.choice([0, 127, 128, 255, r.randrange(256)]) for _ in range(k - 1)]
        if k > n:
            return pre, list(pre)
        rest = n - k
        if t == 0:
            u = [r.randrange(256) for _ in range(rest)]
            v = list(u)
        elif t == 1:
            u = [255 if x < y else 0] * rest
            v = [0 if x < y else 255] * rest
        else:
            u = [r.randrange(256) for _ in range(rest)]
            v = [r.randrange(256) for _ in range(rest)]
        return pre + [x] + u, pre + [y] + v
    pairs = [pair(s) for s in scen]
    if not THOROUGH:
        keep = [i for i, s in enumerate(scen) if s["n"] in (8, 16, 20)] + \
               r.sample(range(len(scen)), min(len(scen), 4500))
        pairs_a = [pairs[i] for i in sorted(set(keep))]
    else:
        pairs_a = pairs
    pairs_a = [p if r.random() < .5 else p[::-1] for p in pairs_a]

    for v in variants:
        cmds = [f"{len(a)}\t{bytes(a).hex()}\t{bytes(b).hex()}" for a, b in pairs_a]
        if v != "drv_arr" and not THOROUGH:
            cmds = cmds[::2]
        evs = []
        for (a, b), ans in zip(pairs_a[::2] if len(cmds) < len(pairs_a) else pairs_a,
                               drive(f"{bins}/{v}", cmds)):
            f = ans.split("\t")
            ok = f[0] == "ok"
            evs.append({"ok": ok, "a": a, "b": b, "three": int(f[1]) if ok else 9,
                        "int": int(f[2]) if ok else 9, "eq": int(f[3]) if ok else 9})
        c.evals += len(evs)
        c.validate("OrderTrace", "OrderTrace", evs, f"array_compare ({v})", desc(evs))

    # records of the three formats
    cmds, meta = [], []
    for s, (a, b) in zip(scen, pairs):
        typ = {20: "sha1", 16: "ntlm", 8: "sha1t64"}.get(s["n"])
        if typ:
            for ca, cb in r.sample([(0, 0), (1, 2), (2, 1), (-1, 5), (2147483647, 0), (256, 1)], 2):
                cmds.append(f"cmp\t{typ}\t{bytes(a).hex()}\t{ca}\t{bytes(b).hex()}\t{cb}")
                meta.append((typ, a, b, ca, cb))
    for typ, size in R.SIZES.items():
        hs = []
        for _ in range(3 if not THOROUGH else 30):
            hs += R.hashes(r, 12, size)
        hs = r.sample(hs, min(len(hs), 36 if not THOROUGH else 200))
        for a, b in itertools.product(hs, hs):
            ca, cb = r.choice(R.COUNTS), r.choice(R.COUNTS)
            cmds.append(f"cmp\t{typ}\t{a.hex()}\t{ca}\t{b.hex()}\t{cb}")
            meta.append((typ, list(a), list(b), ca, cb))
    evs = []
    for (typ, a, b, ca, cb), ans in zip(meta, drive(f"{bins}/drv_rec", cmds)):
        f = ans.split("\t")
        ok = f[0] == "ok"
        ta, tb = (f[3].split(":")[0], f[4].split(":")[0]) if ok else ("", "")
        evs.append({"ok": ok, "type": typ, "a": a, "b": b, "three": int(f[1]) if ok else 9,
                    "ops": [int(x) for x in f[2]] if ok else [],
                    "text": (ta > tb) - (ta < tb)})
    c.evals += len(evs)
    c.sample(evs[0])
    c.validate("OrderTrace", "OrderTrace", evs, "pawned_pw comparisons", desc(evs))


# ------------------------------------------------------------------------------------------ P19
def cps_bytes(cps):
    return "".join(map(chr, cps)).encode("utf-8")


def p19(c):
    bins = build("drv_ntlm", "hibp_search", optional=["drv_md4"])
    c.model("Md4Buf", "Md4Buf", ["Feed", "Final"])
    r = rng("ntlm")
    edge = [0x20, 0x41, 0x61, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0xd7ff, 0xe000, 0xfeff,
            0xfffd, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1f600, 0xfffff, 0x100000, 0x10ffff, 0]

    def cp():
        k = r.random()
        if k < .4:
            return r.choice(edge)
        if k < .6:
            return r.randrange(0, 128)
        while True:
            x = r.randrange(0, r.choice([0x800, 0x10000, 0x110000]))
            if not 0xd800 <= x <= 0xdfff:
                return x
    pws = [b""] + [cps_bytes([e]) for e in edge] + [cps_bytes([a, b]) for a in edge for b in edge[::3]]
    lens = list(range(1, 70)) + [r.randrange(70, 300) for _ in range(15 if not THOROUGH else 300)]
    for n in lens:            # the padding depends on the length modulo 64 (32 units)
        pws.append(cps_bytes([r.randrange(33, 127) for _ in range(n)]))
        pws.append(cps_bytes([cp() for _ in range(n)]))
    good = len(pws)
    for _ in range(500 if not THOROUGH else 5000):     # damaged
        s = bytearray(cps_bytes([cp() for _ in range(r.randrange(1, 6))]))
        k = r.randrange(5)
        if k == 0:
            s = s[:r.randrange(len(s) + 1)]
        elif k == 1:
            s[r.randrange(len(s))] = r.choice([0x80, 0xbf, 0xc0, 0xc1, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xff])
        elif k == 2:
            s += r.choice([b"\xc0\x80", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf",
                           b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\x80", b"\xfe", b"\xc3", b"\xe2\x82",
                           b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xed\xbf\xbf"])
        elif k == 3:
            del s[r.randrange(len(s))]
        else:
            s.insert(r.randrange(len(s) + 1), r.randrange(128, 256))
        pws.append(bytes(s))
    evs = []
    for pw, a in zip(pws, drive(f"{bins}/drv_ntlm", [p.hex() for p in pws])):
        f = a.split("\t")
        rc = {"ok": 0, "ex": 1}.get(f[0], 99)
        evs.append({"pw": list(pw), "rc": rc, "hash": list(bytes.fromhex(f[1])) if rc == 0 else []})
    c.notes["valid_passwords"] = good
    c.sample(evs[40])
    c.evals = len(evs)
    c.validate("NtlmTrace", "NtlmTrace", evs, "hibp::ntlm", desc(evs))

    # the tool which uses it
    pick = [i for i in range(len(pws)) if pws[i] and 0 not in pws[i] and pws[i][:1] != b"-"
            and evs[i]["rc"] in (0, 1)]
    pick = r.sample(pick, 120 if not THOROUGH else 800)

    def tool(i):
        d = newdir("nt")
        h = bytes(evs[i]["hash"])
        others = R.hashes(r, 3, 16)
        R.write(d + "/db", sorted({(x, 7) for x in others} | ({(h, 4242)} if h else set())))
        x = run([f"{bins}/hibp-search", d + "/db", pws[i], "--ntlm"])
        t = x.out.decode("latin-1")
        m = re.search(r"^found\s*= ([0-9A-F]{32}):(-?\d+)", t, re.M)
        rmdir(d)
        if x.hang or x.rc < 0:
            rc = 99
        else:
            rc = 0 if x.rc == 0 else 1
        return {"pw": list(pws[i]), "rc": rc,
                "hash": list(bytes.fromhex(m[1])) if m and m[2] == "4242" else []}
    tev = pmap(tool, pick)
    c.evals += len(tev)
    c.validate("NtlmTrace", "NtlmTrace", tev, "hibp-search --ntlm", desc(tev))

    # MD4 itself, fed in pieces
    if "drv_md4" not in build.missing:
        scen = c.generate("Md4Buf", "Md4BufGen")
        msgs = []
        for s in scen:
            msgs.append([max(0, 16 * k + r.choice([0, 0, 0, -1, 1, 8, -8])) for k in s])
        msgs += [[n] for n in range(0, 200)]
        if not THOROUGH:
            msgs = r.sample(msgs, 450)
        data = [[r.randbytes(k) for k in m] for m in msgs]
        evs = []
        for d, a in zip(data, drive(f"{bins}/drv_md4", [",".join(p.hex() for p in d) for d in data])):
            f = a.split("\t")
            evs.append({"msg": list(b"".join(d)), "cut": [len(p) for p in d], "rc": 0 if f[0] == "ok" else 99,
                        "hash": list(bytes.fromhex(f[1])) if f[0] == "ok" else []})
        c.evals += len(evs)
        c.validate("NtlmTrace", "NtlmTrace", evs, "MD4 in pieces", desc(evs))
