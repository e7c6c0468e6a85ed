"""Binary records and the mapping between concrete hashes and the ranks used by the specifications."""
import os, struct, bisect
from core import *

SIZES = {"sha1": 20, "ntlm": 16, "sha1t64": 8}


def pack(recs):
    return b"".join(h + struct.pack("<i", c) for h, c in recs)


def unpack(data, size):
    n = size + 4
    out = [(data[i:i + size], struct.unpack("<i", data[i + size:i + n])[0])
           for i in range(0, len(data) - len(data) % n, n)]
    return out


def write(path, recs):
    with open(path, "wb") as f:
        f.write(pack(recs))


def read(path, size):
    with open(path, "rb") as f:
        return unpack(f.read(1 << 26), size)


def text(h, c):
    return f"{h.hex().upper()}:{c}"


def hashes(r, n, size, family=None):
    """n distinct hashes, ascending. The families put the difference between neighbours into
    different bytes, with the high bit set or not, and bytes after it in opposite order."""
    fams = ["random", "prefix", "ends", "bit", "onebyte", "extreme"]
    fam = family or r.choice(fams)
    out = set()
    if fam == "prefix":       # long shared prefix
        k = r.randrange(0, size)
        if n > 256 ** (size - k) // 2:
            k = max(0, size - 3)
        pre = r.randbytes(k)
        while len(out) < n:
            out.add(pre + r.randbytes(size - k))
    elif fam == "ends":       # bytes around the difference are opposed
        k = r.randrange(0, size - 1)
        if n > 200:
            k = min(k, size - 3)
        pre = r.randbytes(k)
        while len(out) < n:
            b = r.choice([0, 1, 127, 128, 129, 254, 255]) if n < 100 else r.randrange(256)
            if n < 100:
                rest = bytes([255 - b]) * (size - k - 1)
                if r.random() < .5:
                    rest = r.randbytes(size - k - 1)
            else:
                rest = r.randbytes(size - k - 1)
            out.add(pre + bytes([b]) + rest)
    elif fam == "bit":        # single bits
        base = r.randbytes(size)
        while len(out) < min(n, size * 8):
            i = r.randrange(size * 8)
            b = bytearray(base)
            b[i // 8] ^= 1 << (i % 8)
            out.add(bytes(b))
    elif fam == "onebyte":
        k = r.randrange(0, size)
        base = r.randbytes(size)
        for v in r.sample(range(256), min(n, 256)):
            out.add(base[:k] + bytes([v]) + base[k + 1:])
    elif fam == "extreme":
        out |= {bytes(size), b"\xff" * size, b"\x7f" + b"\xff" * (size - 1),
                b"\x80" + bytes(size - 1), b"\xff" * (size - 1) + b"\x00", bytes(size - 1) + b"\xff"}
        out = set(r.sample(sorted(out), min(n, len(out))))
    while len(out) < n:
        out.add(r.randbytes(size))
    return sorted(out)


COUNTS = [0, 1, 2, 3, 9, 10, 255, 256, 65535, 65536, 2147483647, 16777216, 123456789]


def embed(r, ranks, size, family=None):
    """an order preserving map from the given abstract ranks to concrete hashes"""
    ranks = sorted(set(ranks))
    return dict(zip(ranks, hashes(r, len(ranks), size, family)))


def embed_counts(r, counts):
    """an order preserving map from abstract counts to concrete ones"""
    counts = sorted(set(counts))
    k = len(counts)
    if r.random() < .5:         # close to each other
        b = min(2 ** 31 - 1 - 2 * k, max(0, 2 ** r.randrange(32) - r.randrange(2 * k)))
        return dict(zip(counts, sorted(r.sample(range(b, b + 2 * k), k))))
    pool = set(COUNTS)
    while len(pool) < k:
        pool.add(r.randrange(0, 2 ** 31))
    return dict(zip(counts, sorted(r.sample(sorted(pool), k))))


def count_source(r, negative=False):
    """a function which draws counts: from all, or from a few which are close to each other or to a power of 2"""
    k = r.randrange(8)
    if k == 0:
        return lambda: r.choice(COUNTS)
    if k in (1, 2):
        m = r.choice([1, 2, 3, 1000, 2 ** 31])
        return lambda: r.randrange(m)
    if k in (3, 4, 5):
        b = 2 ** r.randrange(7, 32)
        w = r.choice([1, 3, 20, 1000])
        return lambda: min(2 ** 31 - 1, max(0, b + r.randrange(-w, w + 1)))
    if k == 6:
        b = r.randrange(2 ** 31 - 40)
        return lambda: b + r.randrange(r.choice([2, 5, 40]))
    return lambda: min(2 ** 31 - 1, int(2 ** (r.random() * 31)))


class Ranker:
    """concrete hashes -> ranks (1..n in unsigned lexicographic order); unknown ones -> 0"""

    def __init__(self, hs):
        self.hs = sorted(set(hs))
        self.idx = {h: i + 1 for i, h in enumerate(self.hs)}

    def __call__(self, h):
        return self.idx.get(h, 0)

    def recs(self, recs):
        return [[self.idx.get(h, 0), c] for h, c in recs]
