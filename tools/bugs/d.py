"""Helpers of the demonstrations: the documented SPOC format, and running what was built."""
import os
import random
import struct
import subprocess
import sys
import tempfile
import shutil
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
SCRATCH = tempfile.mkdtemp(prefix="demo-")


class R:
    """One record."""
    def __init__(self, x=0.0, y=0.0, z=0.0, c=0, p=0, i=0, r=0, g=0, b=0, extra=()):
        self.x, self.y, self.z, self.c, self.p, self.i, self.r, self.g, self.b, self.extra = x, y, z, c, p, i, r, g, b, list(extra)

    def bytes(self):
        return struct.pack("<3d2I4H", self.x, self.y, self.z, self.c, self.p, self.i, self.r, self.g, self.b) + struct.pack("<%dQ" % len(self.extra), *self.extra)

    def __repr__(self):
        return "R(%r)" % (self.__dict__,)


def header(wkt, extra, n, compressed, major=0, minor=1):
    w = wkt if isinstance(wkt, bytes) else wkt.encode()
    return b"SPOC" + bytes([major, minor]) + struct.pack("<H", len(w)) + w + bytes([extra]) + struct.pack("<Q", n) + bytes([compressed])


def plain(recs, wkt=""):
    return header(wkt, len(recs[0].extra) if recs else 0, len(recs), 0) + b"".join(r.bytes() for r in recs)


def packed(recs, wkt=""):
    e = len(recs[0].extra) if recs else 0
    out = header(wkt, e, len(recs), 1)
    cols = [("d", [r.x for r in recs]), ("d", [r.y for r in recs]), ("d", [r.z for r in recs])]
    for k, f in (("c", "I"), ("p", "I"), ("i", "H"), ("r", "H"), ("g", "H"), ("b", "H")):
        cols.append((f, [getattr(r, k) for r in recs]))
    for j in range(e):
        cols.append(("Q", [r.extra[j] for r in recs]))
    for f, v in cols:
        raw = struct.pack("<%d%s" % (len(v), f), *v)
        if not any(raw):
            out += struct.pack("<Q", 0)
        else:
            z = zlib.compress(raw)
            out += struct.pack("<Q", len(z)) + z
    return out


def parse(b):
    """(wkt, compressed, records) of the file at the start of b."""
    assert b[:6] == b"SPOC\x00\x01", "bad start %r" % b[:8]
    n = struct.unpack_from("<H", b, 6)[0]
    wkt = b[8:8 + n]
    o = 8 + n
    e, total, comp = struct.unpack_from("<BQB", b, o)
    o += 10
    recs = []
    if not comp:
        for _ in range(total):
            v = struct.unpack_from("<3d2I4H%dQ" % e, b, o)
            o += 40 + 8 * e
            recs.append(R(*v[:9], extra=v[9:]))
    else:
        cols = []
        for f in "dddIIHHHH" + "Q" * e:
            (m,) = struct.unpack_from("<Q", b, o)
            o += 8
            if m:
                cols.append(struct.unpack("<%d%s" % (total, f), zlib.decompress(b[o:o + m])))
            else:
                cols.append((0,) * total)
            o += m
        for k in range(total):
            v = [c[k] for c in cols]
            recs.append(R(*v[:9], extra=v[9:]))
    assert o == len(b), "%d bytes after the file" % (len(b) - o)
    return wkt, bool(comp), recs


def path(name, data=None):
    p = os.path.join(SCRATCH, name)
    if data is not None:
        with open(p, "wb") as f:
            f.write(data)
    return p


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tool(name, *args, stdin=b"", ok=True, cwd=None):
    r = subprocess.run([os.path.join(REPO, "_build/release", name)] + [str(a) for a in args], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd=cwd or SCRATCH)
    if ok and r.returncode != 0:
        fail("%s %s: exit %d %s" % (name, args, r.returncode, r.stderr[:300]))
    return r


def cpp(src, *flags):
    """Compile and run a small program over the library's headers."""
    s = path("t.cpp", src.encode())
    exe = path("t")
    r = subprocess.run(["g++", "-std=c++20", "-fopenmp", "-w", "-O1", "-I", REPO] + list(flags) + [s, "-o", exe, "-lz"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout)
        # not a verdict about the behaviour
        sys.exit(3)
    r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200, cwd=SCRATCH)
    if r.returncode != 0:
        fail("program: exit %d %s" % (r.returncode, r.stdout[-500:]))
    return r.stdout


def fail(msg):
    print("FAILED: " + msg)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(1)


def expect(cond, msg):
    if not cond:
        fail(msg)


def done():
    shutil.rmtree(SCRATCH, ignore_errors=True)
    print("ok")
    sys.exit(0)
