"""Shared machinery of the checks: building /repo, running TLC, evidence, verdicts."""
import atexit, fcntl, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
import random, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CACHE = os.path.join(VERIF, ".cache")
TLA = "/opt/veriftools/tla"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 4
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class CheckError(Exception):
    """The check itself could not do its work (exit status 2, never a verdict)."""


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.msg, self.replay = msg, replay


def rng(*salt):
    return random.Random("|".join(map(str, (SEED,) + salt)))


# ---------------------------------------------------------------------------- scratch
_scratch = None


def scratch():
    """a scratch directory, removed at exit"""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif.", dir="/tmp")
        os.chmod(_scratch, 0o755)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid and not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


_dir_no = 0
_dir_lock = threading.Lock()


def newdir(name="d"):
    global _dir_no
    with _dir_lock:
        _dir_no += 1
        n = _dir_no
    d = os.path.join(scratch(), f"{name}{n}")
    os.makedirs(d)
    return d


def rmdir(d):
    if os.path.realpath(d).startswith("/tmp/verif."):
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------- build
def build(*targets, variant="rel", flags="-O2 -DNDEBUG", optional=()):
    """Configure and build the named CMake targets from /repo's working tree; returns the directory
    with the executables. The project's own CMakeLists.txt is used, /verif/build/shim.cmake adds the
    drivers."""
    os.makedirs(CACHE, exist_ok=True)
    tag = re.sub(r"\W", "_", REPO)
    bdir = os.path.join(CACHE, f"build-{variant}{'' if REPO == '/repo' else tag}")
    log = bdir + ".log"
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", CCACHE_DISABLE="1")
    with open(bdir + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)

        def run(cmd):
            with open(log, "ab") as out:
                return subprocess.run(cmd, stdout=out, stderr=out, env=env,
                                      stdin=subprocess.DEVNULL).returncode
        open(log, "w").close()
        conf = ["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
                f"-DCMAKE_CXX_FLAGS_RELEASE={flags}", f"-DCMAKE_C_FLAGS_RELEASE={flags}",
                f"-DCMAKE_PROJECT_hibp_INCLUDE={VERIF}/build/shim.cmake", "-DNOPCH=ON",
                "-DHIBP_TEST=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"]
        if run(conf) != 0:
            shutil.rmtree(bdir, ignore_errors=True)
            if run(conf) != 0:
                raise CheckError("cmake failed:\n" + open(log, errors="replace").read()[-3000:])
        if targets and run(["ninja", "-C", bdir] + list(targets)) != 0:
            raise CheckError("build failed:\n" + open(log, errors="replace").read()[-5000:])
        missing = [t for t in optional if run(["ninja", "-C", bdir, t]) != 0]
    build.missing = missing
    return bdir


# ---------------------------------------------------------------------------- processes
class Res:
    __slots__ = ("rc", "out", "err", "hang", "secs")

    def __init__(self, rc, out, err, hang, secs):
        self.rc, self.out, self.err, self.hang, self.secs = rc, out, err, hang, secs


def run(cmd, cwd=None, env=None, stdin=None, timeout=60, stdout=None, fsize=None, xfsz_kill=False,
        nofile=None, sigpipe=True):
    """run a program of the repository; rc < 0: killed by that signal"""
    def pre():
        if not sigpipe:
            signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if xfsz_kill else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if nofile:
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
    e = dict(os.environ)
    for k in list(e):
        if k.lower().endswith("_proxy"):
            del e[k]
    e.update(env or {})
    t0 = time.time()
    special = fsize is not None or nofile or not sigpipe     # without preexec_fn, processes are started faster
    p = subprocess.Popen(cmd, cwd=cwd, env=e, preexec_fn=pre if special else None,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=stdout if stdout is not None else subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    limits(p.pid, fsize is None)
    if run.hangs >= 5:      # there is something wrong anyway: let there be an answer in time
        timeout = min(timeout, 5)
    out, err, hang = communicate(p, stdin, timeout)
    run.hangs += hang
    return Res(p.returncode, out or b"", err or b"", hang, time.time() - t0)


run.hangs = 0
MOST_OUT = 64 << 20     # no run of a tool prints more than that
MOST_FILE = 1 << 30      # or writes larger files
MOST_AS = 12 << 30       # or needs more memory


def slurp(path):
    """what a tool wrote, if it is not ridiculously much"""
    with open(path, "rb") as f:
        return f.read(1 << 26)


def limits(pid, fsize=True):
    try:
        resource.prlimit(pid, resource.RLIMIT_AS, (MOST_AS, MOST_AS))
        if fsize:
            resource.prlimit(pid, resource.RLIMIT_FSIZE, (MOST_FILE, MOST_FILE))
    except OSError:          # it has ended already
        pass


def communicate(p, stdin, timeout):
    """as Popen.communicate, but a program which prints without end is ended -> (out, err, did not end)"""
    endless = threading.Event()
    got = {}

    def read(k, f):
        parts, n = [], 0
        while True:
            d = f.read1(1 << 20)
            if not d:
                break
            n += len(d)
            if n > MOST_OUT:
                if not endless.is_set():
                    endless.set()
                    kill()
                parts = [b"".join(parts)[:1 << 20]] if len(parts) > 1 else parts
                continue
            parts.append(d)
        got[k] = b"".join(parts)

    def feed():
        try:
            p.stdin.write(stdin)
            p.stdin.close()
        except OSError:
            pass

    def kill():
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    ts = [threading.Thread(target=read, args=(k, f)) for k, f in (("out", p.stdout), ("err", p.stderr)) if f]
    if stdin is not None:
        ts.append(threading.Thread(target=feed, daemon=True))
    for t in ts:
        t.start()
    hang = False
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        hang = True
        kill()
        p.wait()
    for t in ts:
        t.join()
    for f in (p.stdout, p.stderr, p.stdin):
        if f:
            try:
                f.close()
            except OSError:
                pass
    return got.get("out", b""), got.get("err", b""), hang or endless.is_set()


def pmap(fn, items, workers=None):
    items = list(items)
    if not items:
        return []
    with ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------------------- TLC
class TlcRes:
    def __init__(self):
        self.ok = False
        self.violated = None     # name of the invariant/property violated
        self.generated = self.distinct = 0
        self.out = ""
        self.gen = []            # JSON values printed with Emit(x)
        self.reached = None      # highest trace position reached (trace specs)
        self.coverage = {}
        self.trace = ""
        self.secs = 0.0
        self.cmd = ""


_GEN = re.compile(r'^"GEN ')


def tlc(module, cfg, env=None, workers=1, timeout=600, simulate=None, depth=None, coverage=False,
        heap="4g", extra=()):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg. Raises CheckError if TLC itself failed."""
    meta = newdir("tlc")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={min(4, NCPU)}",
           "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={meta}",
           "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
           "-config", os.path.join(SPEC, cfg + ".cfg"), "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-fp", "0", "-seed", str(SEED)]
    if simulate:
        cmd += ["-simulate", f"num={simulate}"]
        if depth:
            cmd += ["-depth", str(depth)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=meta,
                           timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        rmdir(meta)
        raise CheckError(f"TLC timed out after {timeout}s on {module}/{cfg}")
    rmdir(meta)
    r = TlcRes()
    r.secs = time.time() - t0
    r.cmd = f"tlc -config {cfg}.cfg {module}.tla"
    text = p.stdout.decode("utf-8", "replace")
    lines = []
    for ln in text.splitlines():
        if _GEN.match(ln):
            r.gen.append(json.loads(json.loads(ln)[4:]))
        else:
            lines.append(ln)
    r.out = "\n".join(lines)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    if m:
        r.generated, r.distinct = map(int, m[-1])
    m = re.findall(r"The number of states generated: (\d+)", r.out)  # simulation
    if m:
        r.generated = int(m[-1])
    m = re.findall(r'<<"REACHED", (\d+)>>', r.out)
    if m:
        r.reached = int(m[-1])
    for m in re.finditer(r"^<(\w+) line \d+.*?>: (\d+):(\d+)", r.out, re.M):
        a, d, g = m.group(1), int(m.group(2)), int(m.group(3))
        o = r.coverage.get(a, (0, 0))
        r.coverage[a] = (o[0] + d, o[1] + g)
    m = re.search(r"Error: Invariant (\S+) is violated", r.out) or \
        re.search(r"Error: Action property (\S+) is violated", r.out) or \
        re.search(r"Error: (Temporal properties) were violated", r.out) or \
        re.search(r"Error: Property (\S+) is violated", r.out)
    if m:
        r.violated = m.group(1)
        i = r.out.find("Error:")
        r.trace = r.out[i:i + 20000]
    elif "Deadlock reached" in r.out:
        r.violated = "Deadlock"
        i = r.out.find("Error:")
        r.trace = r.out[i:i + 20000]
    elif p.returncode == 0 and "Error:" not in r.out:
        r.ok = True
    elif "POSTCONDITION" in r.out.upper() and "violated" in r.out.lower():
        r.violated = "Postcondition"
    if not r.ok and not r.violated:
        i = max(0, r.out.find("*** Errors"), r.out.find("Fatal errors")) or max(0, r.out.find("Error:"))
        raise CheckError(f"TLC failed ({p.returncode}) on {module}/{cfg}:\n" + r.out[i:i + 3000])
    return r


class Ctx:
    """one run of one check"""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.models = []
        self.notes = {}
        self.assumptions = []
        self.pool = ThreadPoolExecutor(2)
        self.bg = []

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- models
    def model(self, *a, **k):
        """check a design model in the background (building and replaying go on meanwhile)"""
        self.bg.append(self.pool.submit(self._model, *a, **k))

    def join(self):
        for f in self.bg:
            f.result()
        self.bg = []

    def _model(self, module, cfg, expect_actions=(), workers=4, timeout=600, coverage=True, env=None,
               heap="6g"):
        """exhaustively check a design model. A violated design is an error of the machinery (the
        design does not depend on /repo), as is an action which is never taken."""
        r = tlc(module, cfg, workers=workers or NCPU, timeout=timeout, coverage=coverage, env=env,
                heap=heap)
        if not r.ok:
            raise CheckError(f"design model {module}/{cfg} violates {r.violated}:\n{r.trace[:5000]}")
        for a in expect_actions:
            if r.coverage.get(a, (0, 0))[1] == 0:
                raise CheckError(f"vacuous model {module}/{cfg}: action {a} never taken")
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"model": f"{module}/{cfg}", "distinct_states": r.distinct,
                            "states_generated": r.generated, "secs": round(r.secs, 1),
                            "actions": {k: v[1] for k, v in r.coverage.items() if v[1]}})
        self.log(f"model {module}/{cfg}: {r.distinct} distinct / {r.generated} generated, "
                 f"{r.secs:.1f}s")

    def generate(self, module, cfg, env=None, simulate=None, depth=None, timeout=300, limit=None,
                 workers=1):
        """let TLC generate scenarios (values printed with Emit)"""
        r = tlc(module, cfg, env=env, simulate=simulate, depth=depth, timeout=timeout,
                workers=workers)
        if not r.ok:
            raise CheckError(f"generator {module}/{cfg} violates {r.violated}:\n{r.trace[:5000]}")
        self.states += r.distinct
        self.transitions += r.generated
        seen, out = set(), []
        for g in r.gen:
            k = json.dumps(g, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(g)
        if not out:
            raise CheckError(f"generator {module}/{cfg} produced no scenario")
        self.log(f"generated {len(out)} scenarios from {module}/{cfg}, {r.secs:.1f}s")
        self.models.append({"generator": f"{module}/{cfg}", "scenarios": len(out),
                            "states_generated": r.generated, "secs": round(r.secs, 1)})
        return out

    # -- traces
    def validate(self, module, cfg, events, what="", describe=None, env=None, timeout=600, heap="6g",
                 count=None):
        """Check recorded events (a list of dicts) against a trace specification. Each event must be
        consumed and no invariant of cfg be violated. Otherwise: VIOLATION with a replay file."""
        if not events:
            raise CheckError(f"no events recorded for {module}/{cfg}")
        d = newdir("trace")
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as f:
            for e in events:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        ev = dict(env or {}, TRACE=path)
        r = tlc(module, cfg, env=ev, workers=1, timeout=timeout, heap=heap)
        bad = self._rejected(r, len(events))
        if bad is not None:
            r2 = tlc(module, cfg, env=ev, workers=1, timeout=timeout, heap=heap)
            bad2 = self._rejected(r2, len(events))
            if bad2 is None or bad2[0] != bad[0]:
                raise CheckError(f"rejection by {module}/{cfg} was not repeatable: {bad} {bad2}")
            pos, why = bad
            e = events[pos - 1] if 0 < pos <= len(events) else None
            self.violation(f"{what}: {why} at event {pos} of {len(events)}"
                           + (f": {describe(pos - 1)}" if describe and e is not None else ""),
                           {"spec": f"{module}.tla", "cfg": f"{cfg}.cfg", "rejected_event": pos,
                            "reason": why, "event": e, "tlc": r.trace[:4000],
                            "events": events if len(events) < 2000 else
                            events[max(0, pos - 200):pos]})
        self.transitions += r.generated
        self.states += r.distinct
        self.traces += count if count is not None else len(events)
        self.log(f"trace {what}: {len(events)} events accepted by {module}/{cfg}, {r.secs:.1f}s")
        rmdir(d)
        return r

    @staticmethod
    def _rejected(r, n):
        if r.violated and r.violated != "Postcondition":
            ls = re.findall(r"^/\\ l = (\d+)", r.out, re.M) or re.findall(r"\bl = (\d+)", r.trace)
            pos = int(ls[-1]) - 1 if ls else 0
            return pos, f"{r.violated} violated"
        if r.reached is None:
            raise CheckError("trace specification did not report its position:\n" + r.out[-3000:])
        if r.reached != n + 1:
            return r.reached, "no transition of the specification explains the event"
        return None

    def violation(self, msg, data):
        raise Violation(msg, data)

    def sample(self, x, n=3):
        if len(self.samples) < n:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 3000 else s[:3000] + " ...")

    # -- evidence
    def evidence(self, violations):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"], "models": self.models}
        if self.evals:
            cov["evaluations"] = self.evals
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            cov["samples"] = [json.dumps(x)[:1000] for x in cov["samples"][:3]]
            cov["models"] = cov["models"][:20]
            s = json.dumps(ev, indent=1)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            f.write(s + "\n")


def main(prop, fn, level="model_checking"):
    ctx = Ctx(prop, level)
    try:
        try:
            fn(ctx)
        finally:
            ctx.join()
    except Violation as v:
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        path = os.path.join(VERIF, "out", f"{prop}.replay.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": SEED, "tier": TIER, "what": v.msg,
                       "rerun": f"VERIF_SEED={SEED} VERIF_TIER={TIER} python3 checks/check.py {prop}",
                       "data": v.replay}, f, indent=1, default=str)
        ctx.evidence(1)
        print(v.msg[:3000])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    except CheckError as e:
        print(f"ERROR: check {prop} could not be carried out: {e}", file=sys.stderr, flush=True)
        return 2
    ctx.evidence(0)
    ctx.log(f"{prop} held on everything explored")
    return 0
