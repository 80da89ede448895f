"""C13: a copy that reported success is durable, and unsynchronised data stays bounded."""
import os, shutil, subprocess
from mc import img as I, vdev, blk
from mc.blk import Blk
from mc.core import Fail, need
from mc.drive import Fwd, read_file, diff_at, run_cli

LEVEL = "fault_enumeration"
RULE = ("layout/size x block size x bmap or not x source x destination (regular file, block device) x how synchronisation is asked for "
        "(copy argument, sync() afterwards, command line): the run's writes, truncations and synchronisations are replayed on a crash "
        "model (what is not synchronised may be lost); every crash point after success with every subset of lost writes must leave "
        "the expected content, and at every crash point of the run the unsynchronised data must be bounded; non-trivial: a crash point "
        "with at least one write before it")
ASSUMPTIONS = ["fsync, fdatasync, syncfs and sync make all data and the size of the file durable; directory entries are not looked at.",
               "'A few MiB' is taken as 8 MiB (or one block, if blocks are larger than that)."]
BOUNDS = {"quick": "all layouts n <= 4, sizes up to 20 MiB (three watermarks)", "thorough": "all layouts n <= 6, sizes up to 40 MiB"}
MIB = 1 << 20


def cases(tier):
    th = tier != "quick"
    for n in range(0, 7 if th else 5):
        for bits in I.layouts(n):
            for dest in ("reg", "blk"):
                for tail in (0, 100):
                    if n:
                        yield dict(bs=4096, n=n, tail=tail, ranges=I.runs(bits), dest=dest)
    for dest in ("reg", "blk"):
        for bs, n in ((MIB, 1), (MIB, 6), (MIB, 7), (MIB, 13), (1 << 16, 100), (1 << 16, 207), (3 * MIB, 3), (3 * MIB + 512, 5), (5 * MIB, 4),
                      (6 * MIB, 3), (6 * MIB + 512, 3), (7 * MIB, 3), (8 * MIB, 3), (10 * MIB, 3)) + (((16 * MIB, 3), (MIB, 40), (1 << 15, 1000)) if th else ()):
            if bs > 6 * MIB and dest == "reg":
                continue
            yield dict(bs=bs, n=n, tail=0, ranges=[(0, n - 1)], dest=dest)
            if n > 3:
                yield dict(bs=bs, n=n, tail=77, ranges=[(0, 0), (2, n // 2), (n // 2 + 1, n - 1)], dest=dest)
        # many single-block ranges
        k = 2000 if dest == "blk" else 400
        yield dict(bs=8192, n=2 * k, tail=0, ranges=[(2 * i, 2 * i) for i in range(k)], dest=dest)


def judge(log, dev, case, label, success, old, final, want, isblk, ctx):
    """Replays the log on the crash model."""
    unsynced, amount, size, dsize = [], 0, len(old), len(old)
    bound = max(8 * MIB, case["bs"])
    crash = 0
    for e in log:
        if e.dev != dev or e.err or e.res < 0:
            continue
        if e.op == vdev.WRITE:
            unsynced.append((e.off, e.res))
            amount += e.res
            size = size if isblk else max(size, e.off + e.res)
            crash += 1
            if isblk:
                need(amount <= bound, "%s: %d bytes written to the block device are not synchronised (bound %d)", label, amount, bound)
        elif e.op == vdev.TRUNC:
            size = 0 if e.flags == 1 else e.off
            unsynced.append((e.off if e.flags != 1 else 0, None))
        elif e.op == vdev.FSYNC:
            unsynced, amount, dsize = [], 0, size
    ctx.count("crash points", crash)
    if not success:
        return
    # crash right after success was reported: any subset of what is not synchronised may be missing
    pending = [u for u in unsynced if u[1] is None or u[1] > 0]
    n = min(len(pending), 8)
    for mask in range(1 << n):
        got = bytearray(final)
        for i in range(n):
            if mask >> i & 1:
                off, ln = pending[i]
                if ln is None:
                    got = got[:dsize] if len(got) > dsize else got + bytes(dsize - len(got))
                else:
                    prev = old[off:off + ln]
                    got[off:off + ln] = prev + bytes(ln - len(prev))
        ctx.count("crash images")
        need(bytes(got) == want, "%s: after reported success a crash that loses %s leaves a wrong destination: %s", label,
             [pending[i] for i in range(n) if mask >> i & 1], diff_at(bytes(got), want))


def run(case, ctx):
    from bmaptools import BmapCopy
    bs, n, isblk = case["bs"], case["n"], case["dest"] == "blk"
    size = n * bs - (bs - case["tail"] if case["tail"] else 0)
    im = I.Image(bs, size, case["ranges"], junk=n < 10)
    ip, bp, dp = ctx.path("image"), ctx.path("x.bmap"), ctx.path("dest")
    im.write(ip)
    open(bp, "wb").write(I.make_bmap(im))
    cap = size + 4096
    big = size > 4 * MIB
    whole = I.Image(bs, size, [(0, n - 1)])

    for mode in ("bmap", "nobmap"):
        for src in ("file", "fwd"):
            for how in ("arg", "sync", "cli", "cli -q", "cli -d", "cli --no-verify", "none"):
                if how.startswith("cli") and src == "fwd" or "-" in how and (n > 2 or mode == "nobmap" and "verify" in how) or big and (how == "none" or src == "fwd" and (how != "arg" or mode == "nobmap")):
                    continue
                vdev.reset()
                shutil.rmtree(ctx.path("sys"), ignore_errors=True)
                ctx.ev()
                if isblk:
                    bd = Blk(ctx, cap, name="dest")
                    dev, old = bd.dev, bytes([bd.fill]) * cap
                else:
                    old = b"\x77" * 5000 if how.startswith("cli") else b""
                    open(dp, "wb").write(old)
                    dev = vdev.add(dp, vdev.REG)
                label = "bs %d size %d ranges %s to %s %s source %s sync %s" % (bs, size, case["ranges"][:6], case["dest"], mode, src, how)
                vdev.log_reset()
                vdev.active(1)
                if how.startswith("cli"):
                    opt = how[4:].split()
                    r = run_cli([o for o in opt if o in ("-q", "-d")] + ["copy"] + [o for o in opt if o not in ("-q", "-d")] + (["--bmap", bp] if mode == "bmap" else ["--nobmap"]) + [ip, dp])
                    need(r.rc == 0, "%s: exit status %s: %s", label, r.rc, r.err[-500:])
                    log = vdev.log()
                else:
                    s = Fwd(ip) if src == "fwd" else open(ip, "rb")
                    b = open(bp, "rb") if mode == "bmap" else None
                    dest = bd.open() if isblk else open(dp, "wb")
                    cls = BmapCopy.BmapBdevCopy if isblk else BmapCopy.BmapCopy
                    try:
                        w = cls(s, dest, b)
                        w.copy(how == "arg", True)
                        if how == "sync":
                            w.sync()
                        log = vdev.log()
                    finally:
                        dest.close()
                        s.close()
                        if b:
                            b.close()
                vdev.active(0)
                final = read_file(dp)
                if mode == "nobmap":
                    content = read_file(ip)
                    want = content + old[len(content):] if isblk else content
                else:
                    want = blk.expected(im, cap, bd.fill) if isblk else im.expected()
                if how != "none":
                    # a wrong result without a crash is somebody else's property; here it would hide the crash
                    need(final == want, "%s: wrong result: %s", label, diff_at(final, want))
                judge(log, dev, case, label, how != "none", old, final, want, isblk, ctx)
                ctx.outcome("%s %s" % (case["dest"], how))
    vdev.reset()


def coverage(tot, outcomes, counts):
    return dict(crash_points=counts.get("crash points"), crash_images=counts.get("crash images"))
