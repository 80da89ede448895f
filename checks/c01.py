"""C01: copying with a bmap reproduces the image exactly."""
import io, itertools, os
from mc import img as I
from mc.core import Fail, need
from mc.drive import open_source, read_file, diff_at

LEVEL = "exploration"
RULE = ("every mapped/unmapped pattern of n blocks x every cut of its mapped runs into ranges x tail x source kind (also one whose reads are short) x "
        "verify x sync x stated size; plus run lengths around each I/O batch boundary for many block sizes, offsets "
        "around powers of 2 from 2 GiB on, and numbers of ranges; a case is non-trivial when it maps at least one block or has a size > 0")
ASSUMPTIONS = ["destination is a regular file on tmpfs", "image contents are a fixed non-zero pattern that differs in every block"]
BOUNDS = {"quick": "n <= 6 blocks exhaustively; run lengths within 1 block of 1..7 batches; offsets up to 1 EiB; 1 to 70 ranges and around powers of 2 to 2048",
          "thorough": "n <= 9 blocks exhaustively; run lengths within 2 blocks of 1..9 batches"}
KINDS = ("file", "raw", "fwd", "trans", "short700")


def cases(tier):
    nmax = 6 if tier == "quick" else 9
    for bs in (4096, 512):
        for n in range(1, nmax + 1 if bs == 4096 else nmax):
            for bits in I.layouts(n):
                yield dict(t="small", bs=bs, bits=bits, junk=sum(bits) % 2)
    # batch boundaries: one or two runs whose length is near a multiple of the I/O batch (1 MiB)
    reps = (1, 2, 3, 6, 7) if tier == "quick" else range(1, 10)
    offs = (-1, 0, 1) if tier == "quick" else (-2, -1, 0, 1, 2)
    for bs in (512, 4096, 3072, 65536, 262144, 300000, 524288, 1 << 20, (1 << 20) + 4096, 3 << 19, 2 << 20, 3 << 20, 4 << 20):
        b = max(1, (1 << 20) // bs)
        lens = sorted({k * b + o for k in reps for o in offs if k * b + o > 0})
        for ln in lens:
            if ln * bs > 24 << 20:
                continue
            for lead, gap in ((0, 0), (1, 2)) if bs >= 4096 else ((1, 0),):
                yield dict(t="batch", bs=bs, len=ln, lead=lead, gap=gap)
    # far offsets
    for bs in (512, 4096, 65536, 1 << 20):
        for edge in (1 << 31, 1 << 32, 1 << 40, 1 << 44, 1 << 53, 1 << 60):
            for d in (-1, 0, 1):
                yield dict(t="far", bs=bs, edge=edge, d=d)
    # numbers of ranges
    for lo in range(1, 71, 10):
        yield dict(t="many", bs=4096, counts=list(range(lo, lo + 10)))
    for c in (127, 255, 511, 1023, 2047) + ((4095, 9999) if tier != "quick" else ()):
        for d in range(-1, 4):
            yield dict(t="many", bs=512, counts=[c + d])


def check(ctx, im, path, bmap, expect, kind, verify, sync, size, label):
    from bmaptools import BmapCopy
    bpath = ctx.path("x.bmap")
    src = open_source(kind, path)
    dpath = ctx.path("dest")
    ctx.ev()
    try:
        with open(dpath, "wb+") as dest, open(bpath, "rb") as b:
            dest.seek(0 if verify else 77)   # where it happens to stand does not matter
            w = BmapCopy.BmapCopy(src, dest, b, size)
            w.copy(sync, verify)
            need(os.stat(dpath).st_size == im.size, "%s: destination has %d bytes, image %d", label, os.stat(dpath).st_size, im.size)
            if expect is not None:
                got = read_file(dpath)
                need(got == expect, "%s: %s", label, diff_at(got, expect))
            else:
                sparse_equal(dpath, im, label)
    except BmapCopy.Error as e:
        raise Fail("%s: refused: %s" % (label, e))
    finally:
        src.close()
        if os.path.exists(dpath):
            os.unlink(dpath)


def sparse_equal(path, im, label):
    """compare a large sparse file with the expected content"""
    want = {i for a, b in im.ranges for i in range(a, b + 1)}
    with open(path, "rb") as f:
        for i in want:
            f.seek(i * im.bs)
            need(f.read(len(im.block(i))) == im.block(i), "%s: block %d differs", label, i)
        pos = 0
        while True:
            try:
                a = os.lseek(f.fileno(), pos, os.SEEK_DATA)
            except OSError:
                break
            b = os.lseek(f.fileno(), a, os.SEEK_HOLE)
            for i in range(a // im.bs, (b - 1) // im.bs + 1):
                if i not in want:
                    f.seek(i * im.bs)
                    need(not f.read(im.bs).strip(b"\0"), "%s: data in unmapped block %d", label, i)
            pos = b


def run(case, ctx):
    t, bs = case["t"], case["bs"]
    if t == "small":
        bits = tuple(case["bits"])
        n = len(bits)
        for tail in (0, 1, bs - 1):
            size = n * bs - (bs - tail if tail else 0)
            first = True
            for ranges in I.cuts(bits):
                im = I.Image(bs, size, ranges, junk=bool(case["junk"]))
                if first:
                    path, expect = im.write(ctx.path("image")), im.expected()
                    first = False
                open(ctx.path("x.bmap"), "wb").write(I.make_bmap(im))
                for kind in KINDS:
                    for verify, sync in itertools.product((True, False), (True, False)):
                        check(ctx, im, path, None, expect, kind, verify, sync, size if verify else None,
                              "layout %s ranges %s tail %d source %s verify %s sync %s" % (bits, ranges, tail, kind, verify, sync))
        ctx.outcome("mapped" if any(bits) else "nothing mapped")
    elif t == "batch":
        ln, lead, gap = case["len"], case["lead"], case["gap"]
        for tail in (0, 1):
            for second in (0, 1) if gap else (0,):
                ranges = [(lead, lead + ln - 1)] + ([(lead + ln + gap, lead + ln + gap + second)] if gap else [])
                n = ranges[-1][1] + 1 + (1 if lead else 0)
                size = n * bs - (bs - tail if tail else 0)
                im = I.Image(bs, size, ranges)
                path, expect = im.write(ctx.path("image")), im.expected()
                open(ctx.path("x.bmap"), "wb").write(I.make_bmap(im))
                for kind, verify in (("file", True), ("fwd", False), ("short300000", True)) if bs >= 4096 else (("fwd", True), ("short90000", False)):
                    check(ctx, im, path, None, expect, kind, verify, False, None, "bs %d run of %d blocks at %d gap %d tail %d source %s"
                          % (bs, ln, lead, gap, tail, kind))
        ctx.outcome("batch boundary")
    elif t == "many":
        for k in case["counts"]:
            for step, ln in ((2, 1), (1, 1), (3, 2)):
                # ranges with and without holes between them
                im = I.Image(bs, k * step * bs - 7, [(i * step, i * step + ln - 1) for i in range(k)])
                path, expect = im.write(ctx.path("image")), im.expected()
                open(ctx.path("x.bmap"), "wb").write(I.make_bmap(im))
                for kind, verify in (("file", True), ("fwd", True), ("trans", False)):
                    check(ctx, im, path, None, expect, kind, verify, False, None, "%d ranges of %d blocks, %d apart, source %s" % (k, ln, step, kind))
        ctx.outcome("many ranges")
    else:
        e = case["edge"] // bs + case["d"]
        ranges = [(0, 0), (e, e), (e + 3, e + 4)]
        im = I.Image(bs, (e + 6) * bs - 5, ranges)
        path = im.write(ctx.path("image"))
        open(ctx.path("x.bmap"), "wb").write(I.make_bmap(im))
        check(ctx, im, path, None, None, "file", True, True, None, "far bs %d block %d" % (bs, e))
        ctx.outcome("far offset")
