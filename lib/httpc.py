"""hibp-server as a process, and a small HTTP client which can pipeline and does not normalise anything."""
import re, socket, subprocess, os, signal, time
from core import *


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


_running = set()


def _kill_all():
    for p in list(_running):
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass


atexit.register(_kill_all)


class HibpServer:
    """a running hibp-server; .p is None if it ended by itself (.rc, .err)"""

    def __init__(self, exe, args, env=None, cwd=None, wait=30, files=None):
        for attempt in range(5):
            self.port = free_port()
            e = {k: v for k, v in os.environ.items() if not k.lower().endswith("_proxy")}
            e.update(env or {})
            self.errf = open(os.path.join(newdir("srv"), "err"), "w+b")
            cmd = [exe, "--port", str(self.port)] + args
            if files:        # no more open files than that
                cmd = ["prlimit", f"--nofile={files}:{files}"] + cmd
            self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL,
                                      stdout=self.errf, stderr=self.errf, env=e, cwd=cwd, start_new_session=True)
            _running.add(self.p.pid)
            limits(self.p.pid)
            t = time.time() + wait
            self.rc = None
            while time.time() < t:
                self.rc = self.p.poll()
                if self.rc is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), timeout=5).close()
                    return
                except OSError:
                    time.sleep(0.005)
            self.errf.seek(0)
            self.err = self.errf.read()
            if self.rc is None:
                self.close()
                self.rc = "no answer"
                break
            if b"ddress already in use" not in self.err and b"bind" not in self.err:
                break
        self.p = None

    def alive(self):
        return self.p is not None and self.p.poll() is None

    def close(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()
            _running.discard(self.p.pid)
            self.p = None
            self.errf.close()


COUNT = re.compile(rb"^\s*(-?\d{1,9})\s*$")
BIGCOUNT = re.compile(rb"^\s*(-?\d{1,10})\s*$")
JCOUNT = re.compile(rb'^\s*\{\s*"?count"?\s*:\s*(-?\d{1,10})\s*\}\s*$')


class Conn:
    def __init__(self, port, timeout=30):
        self.buf = b""
        self.reset = False
        self.eof = False
        try:
            self.s = socket.create_connection(("127.0.0.1", port), timeout=timeout)
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        except OSError:
            self.s, self.reset = None, True

    def send(self, data):
        if self.s is None:
            return
        try:
            self.s.sendall(data)
        except OSError:
            self.reset = True

    def _fill(self):
        if self.s is None:
            return False
        try:
            d = self.s.recv(65536)
        except socket.timeout:
            return False
        except OSError:
            self.reset = True
            return False
        if not d:
            self.eof = True
            return False
        self.buf += d
        return True

    def response(self):
        """the next response (status, headers, body), or None"""
        while b"\r\n\r\n" not in self.buf:
            if not self._fill():
                return None
        head, rest = self.buf.split(b"\r\n\r\n", 1)
        lines = head.split(b"\r\n")
        h = {}
        for ln in lines[1:]:
            k, _, v = ln.partition(b":")
            h[k.strip().lower()] = v.strip()
        n = int(h.get(b"content-length", b"0"))
        while len(rest) < n:
            self.buf = head + b"\r\n\r\n" + rest
            if not self._fill():
                return None
            rest = self.buf.split(b"\r\n\r\n", 1)[1]
        self.buf = rest[n:]
        m = re.match(rb"HTTP/1\.\d (\d{3})", lines[0])
        return int(m.group(1)) if m else 0, h, rest[:n]

    def close(self):
        if self.s:
            self.s.close()


def request(method, path):
    if isinstance(path, str):
        path = path.encode("latin-1")
    body = b"Content-Length: 0\r\n" if method in ("POST", "PUT") else b""
    return method.encode() + b" " + path + b" HTTP/1.1\r\nHost: localhost\r\n" + body + b"\r\n"


def resp_event(x, json):
    st, h, body = x
    m = (JCOUNT if json else BIGCOUNT).match(body)
    n = int(m.group(1)) if m else -9
    if not -2 ** 31 <= n < 2 ** 31:
        n = -8
    return {"status": st, "count": n, "len": len(body),
            "close": h.get(b"connection", b"").lower() == b"close"}


def converse(port, reqs, json, timeout=60):
    """Send the requests on one keep-alive connection, one after the other (RESTinio 0.6.19 closes connections
    now and then if a request arrives in pieces or several are waiting, with any handler; see DESIGN.md)
    -> (responses, reset, unsolicited bytes, closed without answer)"""
    c = Conn(port, timeout)
    out = []
    for m, p in reqs:
        c.send(request(m, p))
        x = c.response()
        if x is None:
            break
        out.append(resp_event(x, json))
    rest = c.buf
    c.close()
    return out, c.reset, rest, c.eof or c.reset


def conversation(port, reqs, json, record, timeout=60):
    """converse(); if the connection is lost without an answer, go on with a new one, but fail if the same
    request is lost again. record(requests, result, dropped) gets each part."""
    again = False
    while reqs:
        res = converse(port, reqs, json, timeout)
        n = len(res[0])
        if n == len(reqs) or not res[3] or (again and n == 0) or (n and res[0][-1]["close"]) or res[2]:
            record(reqs, res, False)
            return n
        record(reqs, res, True)
        reqs, again = reqs[n:], True
    return 0
