"""C02: copying without a bmap reproduces the whole image, however the source hands out its bytes."""
import itertools, os, shutil, subprocess
from mc import img as I, vdev
from mc.blk import Blk
from mc.core import Fail, need
from mc.drive import Fwd, open_source, read_file, diff_at

LEVEL = "exploration"
RULE = ("image lengths around block (4 KiB) and I/O batch (1 MiB) boundaries x size stated or not x source kind (seekable, raw, "
        "forward-only, TransRead plain and gzip) x old destination content; every choice of image parts (blocks or whole batches) that hold a single byte value, to files with old content and to block devices; every pattern of k short reads over an alphabet "
        "of answer lengths, and every uniform answer length; a case is non-trivial when the image is not empty")
ASSUMPTIONS = ["destinations are regular files on tmpfs and scratch files shown as block devices", "a read returns at least one byte unless the source is at its end"]
BOUNDS = {"quick": "lengths to 9 MiB and some to 4 GiB; all patterns of 3 short reads over 6 lengths", "thorough": "patterns of 5 short reads over 7 lengths"}
M = 1 << 20


def cases(tier):
    edges = sorted({x for base in (0, 4096, 8192, M, 2 * M, 6 * M, 7 * M, 8 * M, 9 * M)
                    for d in (-4097, -4096, -4095, -513, -1, 0, 1, 512, 4095, 4096, 4097) for x in (base + d,) if x >= 0})
    if tier == "quick":
        edges = [e for e in edges if e < 3 * M or e % M in (0, 1, M - 1)]
    for ln in edges:
        yield dict(t="len", len=ln)
    al = (1, 4095, 4096, 4097, 65536, 0) if tier == "quick" else (1, 511, 4095, 4096, 4097, M - 1, 0)
    # every choice of batches that hold nothing but zeros (or what the destination held before)
    for nb in range(1, 4 if tier == "quick" else 6):
        for tail in (0, 1, 4096, 5000):
            for step in (4096, M):
                for mask in range(1, 1 << (nb + (tail > 0))):
                    yield dict(t="flat", nb=nb, tail=tail, mask=mask, step=step)
    for ln in (300 * M + 1, 2 * 1024 * M + 5000, 4 * 1024 * M - 1, 4 * 1024 * M + 5000):
        for known in (False, True):
            yield dict(t="huge", len=ln, known=known)
    k = 3 if tier == "quick" else 5
    for pat in itertools.product(al, repeat=k):
        if any(pat):
            yield dict(t="short", pat=list(pat), len=M + 4096 * 3 + 77)
    for pat in itertools.product((1, 4097, 0), repeat=k + 1):
        if any(pat):
            yield dict(t="short", pat=list(pat), len=2 * M)
    for u in (1, 7, 511, 512, 1000, 4095, 4096, 4097, 8191, 65536, 131071, M - 4096, M - 1, M, M + 1):
        for ln in (9000, M + 1, 2 * M + 4096) if u > 100 else (9000,):
            yield dict(t="uniform", u=u, len=ln)


class SeekShort(Fwd):
    """a seekable source with short reads"""
    def seek(self, offset, whence=0):
        self._f.seek(offset, whence)
        self._pos = self._f.tell()


def copy(ctx, src, size, want, old, label):
    from bmaptools import BmapCopy
    d = ctx.path("dest")
    with open(d, "wb") as f:
        f.write(b"\xee" * old)
    ctx.ev()
    try:
        with open(d, "r+b") as dest:
            w = BmapCopy.BmapCopy(src, dest, None, size)
            w.copy(False, True)
            got = read_file(d)
            need(got == want, "%s: %s", label, diff_at(got, want))
            need(w.image_size == len(want), "%s: image_size is %s after copying", label, w.image_size)
    except BmapCopy.Error as e:
        raise Fail("%s: refused: %s" % (label, e))
    finally:
        src.close()


def content(n):
    return b"".join(I.pattern(i + 1, M)[:min(M, n - i * M)] for i in range((n + M - 1) // M))


def on_device(ctx, src, size, want, label):
    from bmaptools import BmapCopy
    ctx.ev()
    cap = len(want) + 8192
    bd = Blk(ctx, cap)
    vdev.active(1)
    dest = bd.open()
    try:
        BmapCopy.BmapBdevCopy(src, dest, None, size).copy(True, True)
    except BmapCopy.Error as e:
        raise Fail("%s: refused: %s" % (label, e))
    finally:
        dest.close()
        src.close()
        got = bd.content()
        vdev.reset()
        shutil.rmtree(ctx.path("sys"))
    need(got[:len(want)] == want, "%s: %s", label, diff_at(got, want))
    need(got[len(want):] == bytes([bd.fill]) * 8192, "%s: the device changed behind the end of the image", label)


class Made:
    """An image whose bytes are made when they are read: 1 MiB pieces, each with its number at its start and end."""

    def __init__(self, size):
        self.size, self.pos, self.name = size, 0, "made"
        self.body = I.pattern(77, M - 32)

    def at(self, pos, n):
        n = max(0, min(n, self.size - pos))
        out = []
        while n:
            k, o = divmod(pos, M)
            piece = (b"%016d" % k + self.body + b"%016d" % k)[o:o + n] if o or n < M else b"%016d" % k + self.body + b"%016d" % k
            out.append(piece)
            pos += len(piece)
            n -= len(piece)
        return b"".join(out) if len(out) != 1 else out[0]

    def read(self, n=-1):
        b = self.at(self.pos, n if n >= 0 else self.size)
        self.pos += len(b)
        return b

    def seek(self, off, whence=0):
        self.pos = off + (self.pos if whence == 1 else self.size if whence == 2 else 0)
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        pass


class Judge:
    """A destination which compares what is written instead of keeping it."""

    def __init__(self, path, src, ctx):
        self.f, self.src, self.pos, self.end, self.ctx, self.name, self.mode = open(path, "wb+", buffering=0), src, 0, 0, ctx, path, "wb+"

    def fileno(self):
        return self.f.fileno()

    def seek(self, off, whence=0):
        self.pos = off + (self.pos if whence == 1 else self.end if whence == 2 else 0)
        return self.pos

    def tell(self):
        return self.pos

    def write(self, data):
        want = self.src.at(self.pos, len(data))
        need(bytes(data) == want, "huge image: wrong data written at %d (%d bytes): %s", self.pos, len(data), diff_at(bytes(data), want))
        need(self.pos == self.end, "huge image: written at %d, after the first %d bytes", self.pos, self.end)
        self.pos += len(data)
        self.end = max(self.end, self.pos)
        if self.end % (256 * M) == 0:
            self.ctx.ev(0)
        return len(data)

    def flush(self):
        pass

    def close(self):
        self.f.close()


def run(case, ctx):
    from bmaptools import BmapCopy, TransRead
    if case["t"] == "huge":
        src = Made(case["len"])
        dest = Judge(ctx.path("dest"), src, ctx)
        ctx.ev()
        try:
            w = BmapCopy.BmapCopy(src, dest, None, case["len"] if case["known"] else None)
            w.copy(False, True)
        except BmapCopy.Error as e:
            raise Fail("%d bytes, size known %s: refused: %s" % (case["len"], case["known"], e))
        finally:
            dest.close()
        need(dest.end == case["len"], "%d bytes, size known %s: %d bytes were written", case["len"], case["known"], dest.end)
        need(w.image_size == case["len"], "%d bytes, size known %s: image_size is %s", case["len"], case["known"], w.image_size)
        ctx.outcome("huge")
        return
    if case["t"] == "flat":
        parts = case["nb"] + (1 if case["tail"] else 0)
        for val in (0, 0xEE):
            data = bytearray()
            for i in range(parts):
                n = case["tail"] if i == case["nb"] else case["step"]
                data += bytes([val]) * n if case["mask"] >> i & 1 else I.pattern(i + 1, n)
            want = bytes(data)
            path = ctx.path("image")
            with open(path, "wb") as f:
                f.write(want)
            for size in (None, len(want)):
                for kind in ("raw", "fwd"):
                    label = "length %d, parts of %d bytes, parts %s hold only %#x, source %s stated size %s" % (
                        len(want), case["step"], [i for i in range(parts) if case["mask"] >> i & 1], val, kind, size)
                    copy(ctx, open_source(kind, path), size, want, len(want) + 5000, label)
                    on_device(ctx, open_source(kind, path), size, want, label + " to a device")
        ctx.outcome("flat parts")
        return
    want = content(case["len"])
    path = ctx.path("image")
    with open(path, "wb") as f:
        f.write(want)
    sizes = (None, len(want))
    if case["t"] == "len":
        gz = path + ".gz"
        with open(gz, "wb") as f:
            subprocess.run(["gzip", "-1", "-c", path], stdout=f, check=True)
        for kind in ("file", "raw", "fwd", "trans", "gz"):
            for size in sizes:
                src = TransRead.TransRead(gz) if kind == "gz" else open_source(kind, path)
                copy(ctx, src, size, want, 3000000, "length %d source %s stated size %s" % (len(want), kind, size))
        ctx.outcome("lengths")
    else:
        pat = case["pat"] if case["t"] == "short" else [case["u"]] * (len(want) // case["u"] + 5)
        for cls in (Fwd, SeekShort):
            for size in sizes:
                copy(ctx, cls(path, pat), size, want, 0 if size else len(want) + 9000, "length %d %s answers %s stated size %s" % (len(want), cls.__name__, pat[:8], size))
        ctx.outcome("short reads")
