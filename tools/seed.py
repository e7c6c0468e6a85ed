#!/usr/bin/env python3
"""tools/seed.py [--check] [--also P01,P02] ID... : confirms planted bugs (/verif/seeded/ID) in scratch copies of
/repo: the demonstration passes without and fails with the patch, which builds and passes the stable
tests. With --check, the check of the bug's property (and of those after --also) is run, too.
Each copy is bound over /repo in a namespace of its own, so nothing here touches the real /repo."""
import glob, json, os, queue, shutil, subprocess, sys, threading
args = sys.argv[1:]
CHECK = "--check" in args
NODEMO = "--nodemo" in args
also = []
if "--also" in args:
    i = args.index("--also")
    also = args[i + 1].split(",")
    del args[i:i + 2]
J = 3
if "-j" in args:
    i = args.index("-j")
    J = int(args[i + 1])
    del args[i:i + 2]
ids = [a for a in args if not a.startswith("--")] or sorted(os.path.basename(d) for d in glob.glob("/verif/seeded/*"))
stable = json.load(open("/opt/vp/BASELINE.json"))
stable = stable.get("stable", stable.get("tests", stable)) if isinstance(stable, dict) else stable


def sh(cmd, copy=None, verif=None, **kw):
    if copy:
        v = f"mount --bind {verif} /verif && " if verif else ""
        cmd = ["unshare", "-Urmnpf", "--mount-proc", "bash", "-c", f"{v}mount --bind {copy} /repo && ip link set lo up && cd /repo && {cmd}"]
    else:
        cmd = ["bash", "-c", cmd]
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        class X: returncode = -99; stdout = "timeout"
        return X


def one(id, copy, verif):
    d = "/verif/seeded/" + id
    prop = json.load(open(d + "/meta.json"))["property"]
    demo = f"/tmp/sdemo.{id}"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    res = [id, prop]
    try:
        sh(f"git -C {copy} checkout -q -- . && git -C {copy} clean -fdq")
        if not NODEMO:
            sh("bash /opt/vp/build.sh", copy)
            r = sh(f"bash {demo}/demo.sh", copy, timeout=300)
            res.append("clean:ok" if r.returncode == 0 else f"CLEAN-DEMO-FAILS({r.returncode}: {r.stdout[-300:]})")
        r = sh(f"git -C {copy} apply {d}/patch.diff")
        if r.returncode:
            return res + ["NO-APPLY " + r.stdout]
        if not NODEMO:
            r = sh(f"bash /opt/vp/test.sh {copy}/_build/o.json", copy, timeout=600)
            o = json.load(open(f"{copy}/_build/o.json"))
            s = json.dumps(o)
            last = r.stdout.strip().split("\n")[-1]
            res.append("tests:ok" if "24 passed" in last else "TESTS:" + last)
            r = sh(f"bash {demo}/demo.sh", copy, timeout=300)
            res.append("bug:shown" if r.returncode not in (0, 3) else f"BUG-NOT-SHOWN({r.returncode}: {r.stdout[-300:]})")
            if r.returncode: res.append(r.stdout.strip()[-100:])
        if CHECK:
            for p in [prop] + also:
                r = sh(f"cd /verif && timeout 900 python3 checks/check.py {p}", copy, verif)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                res.append(f"{p}:" + ("caught" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else f"RC{r.returncode} " + r.stdout[-200:]))
    finally:
        sh(f"git -C {copy} checkout -q -- . && git -C {copy} clean -fdq")
        shutil.rmtree(demo, ignore_errors=True)
    return res


q = queue.Queue()
for i in ids:
    q.put(i)
lock = threading.Lock()


def worker(n):
    copy = f"/tmp/seedcopy{n}"
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    verif = f"/tmp/seedverif{n}"           # a snapshot, so that /verif may be edited meanwhile
    shutil.rmtree(verif, ignore_errors=True)
    if CHECK:
        shutil.copytree("/verif", verif, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "out", "build-rel_tmp*"))
    try:
        while True:
            try:
                id = q.get_nowait()
            except queue.Empty:
                return
            r = one(id, copy, verif)
            with lock:
                print(" | ".join(r), flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(verif, ignore_errors=True)

ts = [threading.Thread(target=worker, args=(n,)) for n in range(min(J, len(ids)))]
[t.start() for t in ts]
[t.join() for t in ts]
