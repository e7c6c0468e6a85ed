"""A server of prefix files which can be told how to answer each attempt (used as http_proxy)."""
import random, socket, struct, threading, time


class Server:
    """plan(f, attempt) -> (kind, body); log(event) is called in the order of what happens.
    kinds: ok, chunked, eof, code:<n>, short (less than announced), reset, shortreset, empty, garbage,
    stall (nothing), stallbody (a part, then nothing), drip (a byte now and then): until the client goes away"""

    def __init__(self, plan, log, seed=0, latency=0.0, ntlm=False, keepalive=False):
        self.plan, self.log, self.latency, self.ntlm, self.keep = plan, log, latency, ntlm, keepalive
        self.r = random.Random(seed)
        self.lock = threading.Lock()
        self.tries = {}
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(1024)
        self.port = self.s.getsockname()[1]
        self.stop = False
        self.t = threading.Thread(target=self._accept, daemon=True)
        self.t.start()

    def env(self):
        u = f"http://127.0.0.1:{self.port}"
        return {"http_proxy": u, "https_proxy": u, "no_proxy": "", "NO_PROXY": ""}

    def close(self):
        self.stop = True
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()
        self.t.join(5)

    def _accept(self):
        while not self.stop:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self._conn, args=(c,), daemon=True).start()

    def index(self, target):
        """the file which a request target means, None if it means none"""
        for p in ("http://localhost:8090/",):
            if target.startswith(p):
                rest = target[len(p):]
                if self.ntlm:
                    if not rest.endswith("?mode=ntlm"):
                        return None
                    rest = rest[:-10]
                if len(rest) == 5 and all(ch in "0123456789ABCDEF" for ch in rest):
                    return int(rest, 16)
        return None

    def _conn(self, c):
        try:
            c.settimeout(60)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            data = b""
            while True:
                while b"\r\n\r\n" not in data:
                    k = c.recv(4096)
                    if not k:
                        return
                    data += k
                head, data = data.split(b"\r\n\r\n", 1)
                if not self._answer(c, head):
                    return
        except OSError:
            pass
        finally:
            c.close()

    def _answer(self, c, head):
        first = head.split(b"\r\n")[0].decode("latin-1").split(" ")
        f = self.index(first[1]) if len(first) == 3 and first[0] == "GET" else None
        with self.lock:
            if f is None:
                a = 0
            else:
                a = self.tries[f] = self.tries.get(f, 0) + 1
            self.log(("ask", -1 if f is None else f, a))
            kind, body = self.plan(f, a) if f is not None else ("code:400", b"")
            d = self.latency * self.r.random() if self.latency and self.r.random() < .7 else 0
            cut = self.r.randrange(len(body)) if body and kind in ("short", "shortreset", "stallbody", "drip") else 0
        if d:
            time.sleep(d)
        good = kind in ("ok", "chunked", "eof")
        con = b"" if self.keep and good and kind != "eof" else b"Connection: close\r\n"
        if kind == "chunked":
            out, i = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n" + con + b"\r\n", 0
            while i < len(body):
                k = self.r.choice([1, 7, 100, 4000, 20000])
                out += b"%x\r\n" % len(body[i:i + k]) + body[i:i + k] + b"\r\n"
                i += k
            out += b"0\r\n\r\n"
        elif kind == "eof":
            out = b"HTTP/1.0 200 OK\r\n\r\n" + body
        elif kind == "ok":
            out = b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n" % len(body) + con + b"\r\n" + body
        elif kind.startswith("code:"):
            n = int(kind[5:])
            out = b"HTTP/1.1 %d X\r\n" % n + con
            if n in (204, 304):
                out += b"\r\n"
            else:
                if n in (301, 302, 307):
                    out += b"Location: http://localhost:8090/00000\r\n"
                out += b"Content-Length: %d\r\n\r\n" % len(body) + body
        elif kind in ("short", "shortreset", "stallbody", "drip"):
            out = b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n" % (len(body) + 1) + con + b"\r\n" + body[:cut]
        elif kind == "garbage":
            out = b"\x00\xff garbage " + body
        else:
            out = b""
        with self.lock:
            # before the last byte goes out, so that whatever the client does next comes after it
            self.log(("ans", -1 if f is None else f, good))
        try:
            c.sendall(out)
            if kind in ("stall", "stallbody", "drip"):
                c.settimeout(.25)
                while not self.stop:
                    try:
                        if not c.recv(4096):
                            break
                    except TimeoutError:
                        if kind == "drip" and cut < len(body):
                            c.sendall(body[cut:cut + 1])
                            cut += 1
                return False
            if kind in ("reset", "shortreset"):
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                if kind == "shortreset":
                    time.sleep(.002)
                return False
        except OSError:
            return False
        return not con and kind != "eof"
