"""C03: only mapped blocks inside the image are ever written to the destination."""
import errno, os, signal
from mc import img as I, vdev, blk
from mc.blk import Blk
from mc.core import Fail, need
from mc.drive import Fwd, read_file, diff_at, run_cli

LEVEL = "fault_enumeration"
RULE = ("every mapped/unmapped pattern x cut into ranges x block size x tail on a virtual block device (capacity around the image "
        "size) and on regular files with previous content; sources with more data than the bmap says, and bmaps with ranges beyond the image; mapped blocks that hold only zeros, ones or what the device held; the source holds junk in the unmapped blocks; every write that reaches "
        "the device is checked against the mapped extents, in successful runs and in runs with one failing read/write/seek/sync or "
        "an interrupt at any position; non-trivial: at least one block is mapped or the device is too small")
ASSUMPTIONS = ["the block device is a scratch file behind the libc interposer: no size changes, ENOSPC past its capacity"]
BOUNDS = {"quick": "n <= 5 blocks exhaustively, run lengths around one to three batches, one fault", "thorough": "n <= 7, two faults for n <= 4"}


def cases(tier):
    nmax = 5 if tier == "quick" else 7
    for bs in (4096, 512):
        for n in range(1, nmax + 1):
            for bits in I.layouts(n):
                yield dict(t="small", bs=bs, bits=bits)
    for bs in (4096, 1 << 18):
        for n in range(1, 5 if tier == "quick" else 6):
            for bits in I.layouts(n):
                if any(bits):
                    yield dict(t="flat", bs=bs, bits=bits)
    for bs, ns in ((4096, (255, 256, 257, 512, 513)), (65536, (15, 16, 17, 33)), (1 << 20, (1, 2, 3)), (3 << 19, (1, 2))):
        for n in ns:
            for gap in (0, 1, 3):
                yield dict(t="batch", bs=bs, n=n, gap=gap)
    for n in range(1, 5 if tier == "quick" else 6):
        for bits in I.layouts(n):
            if any(bits):
                yield dict(t="fault", bs=4096, bits=bits)
    for bs in (262144, 524288):
        for bits in ((1, 1, 1, 1, 1, 0, 1, 1, 1), (0, 1, 1, 0, 1, 1, 1, 1, 0)):
            yield dict(t="fault", bs=bs, bits=bits)
    for bs in (4096, 512, 1 << 18):
        for n in range(1, 4 if tier == "quick" else 6):
            for bits in I.layouts(n):
                yield dict(t="long", bs=bs, bits=bits)
    for nobmap in (0, 1):
        for bs, n in ((4096, 3), (4096, 300), (65536, 40)):
            yield dict(t="cli", bs=bs, n=n, nobmap=nobmap)


def writer(bd, src, dest, bpath, size):
    from bmaptools import BmapCopy
    b = open(bpath, "rb") if bpath else None
    return BmapCopy.BmapBdevCopy(src, dest, b, size)


def attempt(ctx, im, cap, kind, label, faults=(), verify=True, sync=True, nobmap=False, stated=None, partition=False, strict=True):
    """One run on a block device; checks every write. Returns "ok", "refused" or "failed"."""
    from bmaptools import BmapCopy
    ctx.ev()
    bd = Blk(ctx, cap, partition=partition)
    srcdev = vdev.add(ctx.path("image"), vdev.REG)
    vdev.active(1)
    src = Fwd(ctx.path("image")) if kind == "fwd" else open(ctx.path("image"), "rb", buffering=0)
    dest, state = bd.open(), "ok"
    vdev.log_reset()
    for dev, op, nth, act, arg in faults:
        vdev.fault(bd.dev if dev == "dest" else srcdev, op, nth, act, arg)
    try:
        b = None if nobmap else open(ctx.path("x.bmap"), "rb")
        try:
            w = BmapCopy.BmapBdevCopy(src, dest, b, stated)
            state = "failed"
            w.copy(sync, verify)
            state = "ok"
        except BmapCopy.Error as e:
            state = "refused" if state == "ok" else "failed"
            err = e
        except (KeyboardInterrupt, OSError):
            state = "failed"
        if b:
            b.close()
    finally:
        try:
            dest.close()
        except (OSError, KeyboardInterrupt):
            pass
        src.close()
    logged = bd.writes()
    vdev.active(0)
    ext = [(0, im.size)] if nobmap else blk.allowed(im)
    for e in logged:
        need(blk.inside(ext, e.off, e.len) or e.res < 0 and nobmap, "%s: write of %d bytes at %d, mapped extents are %s", label, e.len, e.off, ext)
    if state == "refused":
        need(not logged, "%s: refused, but %d writes were done before", label, len(logged))
    got = bd.content()
    need(len(got) == cap, "%s: the size of the device changed", label)
    last = 0
    for a, b2 in ext + [(cap, cap)]:
        a, b2 = min(a, cap), min(b2, cap)
        if a > last:
            need(got[last:a] == bytes([bd.fill]) * (a - last), "%s: bytes %d..%d outside the mapped blocks changed", label, last, a)
        last = max(last, b2)
    if state == "ok" and not faults and strict:
        want = blk.expected(im, cap, bd.fill)
        need(got == want, "%s: %s", label, diff_at(got, want))
    reset_tree(ctx)
    return state, logged


def reset_tree(ctx):
    import shutil
    vdev.reset()
    shutil.rmtree(ctx.path("sys"), ignore_errors=True)


def mk(ctx, bs, size, ranges, flat=None):
    im = I.Image(bs, size, ranges, junk=True, flat=flat)
    im.write(ctx.path("image"))
    open(ctx.path("x.bmap"), "wb").write(I.make_bmap(im))
    return im


def regular(ctx, im, label, old, refuse=False):
    """regular file with previous content"""
    from bmaptools import BmapCopy
    ctx.ev()
    vdev.reset()
    d = ctx.path("dest")
    with open(d, "wb") as f:
        f.write(b"\xC3" * old)
    dev = vdev.add(d, vdev.REG)
    vdev.active(1)
    vdev.log_reset()
    with open(d, "r+b") as dest, open(ctx.path("image"), "rb") as src, open(ctx.path("x.bmap"), "rb") as b:
        try:
            BmapCopy.BmapCopy(src, dest, b).copy(True, True)
        except BmapCopy.Error as e:
            need(refuse, "%s: refused: %s", label, e)
            vdev.active(0)
            vdev.reset()
            return
    ext = blk.allowed(im)
    for e in vdev.log(dev):
        if e.op == vdev.WRITE:
            need(blk.inside(ext, e.off, e.len), "%s: regular file: write of %d bytes at %d, mapped extents are %s", label, e.len, e.off, ext)
    vdev.active(0)
    got = read_file(d)
    want = bytearray((b"\xC3" * old)[:im.size].ljust(im.size, b"\0"))
    for a, b2 in im.ranges:
        data = im.mapped_bytes(a, b2)
        want[a * im.bs:a * im.bs + len(data)] = data
    need(got == bytes(want), "%s: regular file with previous content: %s", label, diff_at(got, bytes(want)))
    vdev.reset()


def run(case, ctx):
    t, bs = case["t"], case["bs"]
    if t == "small":
        bits = tuple(case["bits"])
        n = len(bits)
        for tail in (0, 1, bs - 1, 512) if bs > 512 else (0, 1, bs - 1):
            size = n * bs - (bs - tail if tail else 0)
            for ci, ranges in enumerate(I.cuts(bits)):
                im = mk(ctx, bs, size, ranges)
                label = "bs %d size %d ranges %s" % (bs, size, ranges)
                caps = (size - 1, size, size + 1, n * bs, n * bs + 3 * bs, size // 2) if ci == 0 else (size + 2 * bs,)
                for cap in sorted(set(caps)):
                    for kind in ("raw", "fwd"):
                        st, lg = attempt(ctx, im, cap, kind, "%s capacity %d source %s" % (label, cap, kind), partition=bool(n & 1))
                        if cap < size:
                            need(st == "refused" and not lg, "%s: capacity %d is too small, but it was not refused before writing (%s)", label, cap, st)
                            ctx.outcome("too small: refused")
                        else:
                            need(st == "ok", "%s: capacity %d: %s", label, cap, st)
                            ctx.outcome("ok")
                if ci == 0:
                    for cap in (size - 1, size, size + bs):
                        im2 = I.Image(bs, size, [(0, n - 1)])
                        im2.write(ctx.path("image"))
                        st, lg = attempt(ctx, im2, cap, "raw", "%s no bmap capacity %d" % (label, cap), nobmap=True, stated=size)
                        need(st == ("refused" if cap < size else "ok") and (cap >= size or not lg), "%s: no bmap, stated size %d, capacity %d: %s with %d writes",
                             label, size, cap, st, len(lg))
                    mk(ctx, bs, size, ranges)
                for old in (0, size // 2, size + 3 * bs):
                    regular(ctx, im, label, old)
    elif t == "flat":
        bits = tuple(case["bits"])
        n = len(bits)
        size = n * bs - bs + 700
        on = [i for i in range(n) if bits[i]]
        for ranges in (I.runs(bits), [(i, i) for i in on]):
            for mask in range(1, 1 << len(on)):
                for val in (0, 255, 0xA5, 0xC3):
                    if val and mask != (1 << len(on)) - 1:
                        continue
                    im = mk(ctx, bs, size, ranges, {b: val for k, b in enumerate(on) if mask >> k & 1})
                    label = "bs %d size %d ranges %s blocks full of %#x: %s" % (bs, size, ranges, val, sorted(im.flat))
                    st, _ = attempt(ctx, im, size + 2 * bs, "fwd", label)
                    need(st == "ok", "%s: %s", label, st)
                    regular(ctx, im, label, size + 3 * bs)
        ctx.outcome("ok")
    elif t == "long":
        # the source has more data than the bmap says, or the bmap lists blocks beyond the image
        bits = tuple(case["bits"])
        n = len(bits)
        for size in sorted({n * bs, n * bs - 1, n * bs - bs // 2, n * bs - bs + 1}):
            im = mk(ctx, bs, size, I.runs(bits))
            data = read_file(ctx.path("image"))
            for extra in (1, n * bs - size, n * bs - size + 1, 3 * bs + 7):
                with open(ctx.path("image"), "wb") as f:
                    f.write(data + b"\xD7" * extra)
                for ver, chk in (("2.0", "all"), ("2.0", "none"), ("1.2", "none"), ("1.0", "none")):
                    for beyond in (0, 1):
                        kw = dict(ranges=im.ranges + [(n, n)], chk="none") if beyond else dict(chk=chk)
                        with open(ctx.path("x.bmap"), "wb") as f:
                            f.write(I.make_bmap(im, ver, **kw))
                        label = "bs %d size %d ranges %s version %s checksums %s, source with %d more bytes%s" % (
                            bs, size, im.ranges, ver, chk, extra, ", bmap with a range beyond the image" if beyond else "")
                        st, _ = attempt(ctx, im, size + 4 * bs, "fwd", label, strict=not beyond)
                        ctx.outcome("longer: " + st)
                        regular(ctx, im, label, size + 3 * bs, refuse=True)
    elif t == "batch":
        n, gap = case["n"], case["gap"]
        for tail in (0, 1, bs - 512):
            for lead in (0, 2):
                ranges = [(lead, lead + n - 1)] + ([(lead + n + gap - 1, lead + n + gap)] if gap else [])
                if gap == 1:
                    ranges = [(lead, lead + n - 1), (lead + n, lead + n)]
                size = (ranges[-1][1] + 1) * bs - (bs - tail if tail else 0)
                im = mk(ctx, bs, size, ranges)
                st, _ = attempt(ctx, im, size + 2 * bs, "fwd", "bs %d ranges %s size %d" % (bs, ranges, size))
                need(st == "ok", "bs %d ranges %s: %s", bs, ranges, st)
                ctx.outcome("ok")
    elif t == "fault":
        bits = tuple(case["bits"])
        n = len(bits)
        size = n * bs - 100
        im = mk(ctx, bs, size, I.runs(bits))
        cap = size + 2 * bs
        st, _ = attempt(ctx, im, cap, "raw", "no fault")
        need(st == "ok", "no fault: %s", st)
        bd = Blk(ctx, cap)
        reset_tree(ctx)
        pts = []
        for k in range(12):
            pts += [("dest", vdev.WRITE, k, vdev.ERR, errno.EIO), ("dest", vdev.WRITE, k, vdev.ERR, errno.ENOSPC), ("dest", vdev.WRITE, k, vdev.SHORT, 700), ("src", vdev.READ, k, vdev.ERR, errno.EIO),
                    ("src", vdev.READ, k, vdev.SHORT, 700), ("dest", vdev.WRITE, k, vdev.SIGNAL, signal.SIGINT),
                    ("dest", vdev.LSEEK, k, vdev.ERR, errno.EIO), ("dest", vdev.FSYNC, k, vdev.ERR, errno.EIO),
                    ("dest", vdev.LSEEK, k, vdev.SIGNAL, signal.SIGINT)]
        for f in pts:
            st, _ = attempt(ctx, im, cap, "raw", "bits %s fault %s" % (bits, f), [f])
            ctx.outcome("fault: " + st)
        if ctx.tier == "thorough" and bs == 4096 and n <= 4:
            for i, f in enumerate(pts):
                for g in pts[i + 1:]:
                    st, _ = attempt(ctx, im, cap, "raw", "bits %s faults %s %s" % (bits, f, g), [f, g])
                    ctx.outcome("two faults: " + st)
    elif t == "cli":
        n, nobmap = case["n"], case["nobmap"]
        size = n * bs - 4096 + 512
        for cap in (size - 512, size, size + 512, size + 3 * bs):
            ctx.ev()
            im = mk(ctx, bs, size, [(0, 0), (n - 2, n - 1)] if not nobmap else [(0, n - 1)])
            bd = Blk(ctx, cap)
            vdev.active(1)
            vdev.log_reset()
            args = ["copy", "--nobmap"] if nobmap else ["copy", "--bmap", ctx.path("x.bmap")]
            r = run_cli(args + [ctx.path("image"), bd.path])
            logged = bd.writes()
            got = bd.content()
            if cap < size:
                need(r.rc == 1 and not logged and got == bytes([bd.fill]) * cap, "copy to a too small device: exit %s, %d writes\n%s", r.rc, len(logged), r.err)
                ctx.outcome("cli refused")
            else:
                need(r.rc == 0 and got == blk.expected(im, cap, bd.fill), "copy to a device of %d bytes: exit %s, %s\n%s", cap, r.rc,
                     diff_at(got, blk.expected(im, cap, bd.fill)), r.err)
                ctx.outcome("cli ok")
            reset_tree(ctx)
