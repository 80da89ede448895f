"""C25: figures shown to users are true."""
import errno, hashlib, os, re, shutil, tempfile
from mc import blk, core, fsim, vdev, img as I
from mc.core import Fail, need
from mc.drive import Fwd, read_file, run_cli

LEVEL = "exploration"
RULE = ("human-readable sizes: every integer up to 4096 and, per unit, every value whose text could change (each 0.05 step of the unit, and its neighbours), integers and floats; times: every 0.05 s "
        "up to 2 h and around every hour up to 100 h; copier attributes: layout x tail x block size x version x destination x size given, before and after copying; generator attributes and comments "
        "in the bmap: layout x tail x block size x method, and sizes around every unit; the figures in the command line's messages: layout x clock step (none, fractions, hours, backwards) x "
        "destination; figures in error messages: device too small, size contradiction, checksum mismatch, wrong count; quiet and debug runs; warnings about regular files in place of devices, and about settings of a device that cannot be read or changed x the error; non-trivial: every evaluation")
ASSUMPTIONS = ["A size is shown with at most one decimal digit of its unit and may be off by half of that digit.",
               "The size of the mapped data may be stated as the sum of whole blocks or without the missing part of the last block."]
BOUNDS = {"quick": "n <= 4 blocks, sizes to 2^70", "thorough": "n <= 7 blocks, 0.01 steps"}
UNITS = {"byte": 0, "bytes": 0, "KiB": 1, "MiB": 2, "GiB": 3, "TiB": 4, "PiB": 5, "EiB": 6, "ZiB": 7, "YiB": 8}
NUM = r"(\d+(?:\.\d+)?) (bytes?|[KMGTPEZY]iB)"
STEPS = (None, 0.0, -5.0, 0.04, 0.5, 1.0, 59.94, 59.96, 60.0, 61.5, 119.97, 3599.94, 3599.97, 3600.0, 3725.25, 7261.0, 86400.0)


def cases(tier):
    q = tier == "quick"
    yield dict(t="bytes")
    for u in range(1, 8):
        for part in range(4):
            yield dict(t="size", u=u, part=part)
    for part in range(8):
        yield dict(t="time", part=part)
    for n in range(1, 5 if q else 8):
        for bits in I.layouts(n):
            yield dict(t="copier", bits=bits)
            for method in ("fiemap", "seek"):
                yield dict(t="creator", bits=bits, method=method)
    for u in range(10, 61, 10):
        for bs in (512, 4096, 65536):
            yield dict(t="big", u=u, bs=bs)
    for bits in ((1,), (0,), (1, 0, 1), (1, 1), (0, 1, 1, 0, 1, 1, 1)):
        for dest in ("file", "blk"):
            for step in STEPS:
                yield dict(t="cli", bits=bits, dest=dest, step=step)
    for bits in I.layouts(3):
        yield dict(t="cli-create", bits=bits)
    for what in ("small", "contradiction", "mismatch", "count"):
        yield dict(t="error", what=what)
    for cmd in ("copy", "nobmap", "blk", "create", "create -o"):
        yield dict(t="modes", cmd=cmd)
    yield dict(t="dev")
    for a in (None, 0, 1, 2):
        for b in (None, 0, 1, 2):
            yield dict(t="settings", sched=a, ratio=b)


def shown_size(text, lo, hi, what):
    """the text is a true description of a size between lo and hi"""
    m = re.fullmatch(NUM, text)
    need(m, "%s: %r is not a size", what, text)
    unit = 1024 ** UNITS[m.group(2)]
    v = float(m.group(1)) * unit
    tol = (0.05 if "." in m.group(1) else 0.5) * unit * (1 + 1e-9) if unit > 1 else 0.999
    need(lo - tol <= v <= hi + tol, "%s: shown as %r, which is %.16g bytes instead of %.16g", what, text, v, lo)
    need(lo != hi or lo != int(lo) or (m.group(2) == "byte") == (m.group(1) == "1" and unit == 1), "%s: shown as %r", what, text)
    need(unit == 1 or float(m.group(1)) >= 0.5, "%s: shown as %r", what, text)
    need(unit >= 1024 ** 6 or float(m.group(1)) <= 1024, "%s: shown as %r", what, text)


def shown_time(text, sec, what):
    m = re.fullmatch(r"(?:(\d+)h )?(?:(\d+)m )?(\d+(?:\.\d+)?)s", text)
    need(m, "%s: %r is not a time", what, text)
    h, mi, s = int(m.group(1) or 0), int(m.group(2) or 0), float(m.group(3))
    need(mi < 60 and s < 60, "%s: shown as %r", what, text)
    need(abs(h * 3600 + mi * 60 + s - sec) <= 0.0501, "%s: %.3f s shown as %r", what, sec, text)


def shown_percent(text, part, whole, what):
    p = part * 100.0 / whole
    need(abs(float(text) - p) <= 0.0501, "%s: %d of %d shown as %s%%", what, part, whole, text)


def mapped_bytes(im):
    return sum(min(im.size, (b + 1) * im.bs) - a * im.bs for a, b in im.ranges)


def run(case, ctx):
    globals()["do_" + case["t"].replace("-", "_")](case, ctx)


def do_bytes(case, ctx):
    from bmaptools.BmapHelpers import human_size
    for n in range(0, 4097):
        ctx.ev()
        t = human_size(n)
        shown_size(t, n, n, "size %d" % n)
        if n < 512:
            need(t == "%d byte%s" % (n, "" if n == 1 else "s"), "size %d shown as %r", n, t)
        for d in (0.25, 0.5, 0.75):
            shown_size(human_size(n + d), n + d, n + d, "size %s" % (n + d))
    ctx.outcome("bytes")


def do_size(case, ctx):
    from bmaptools.BmapHelpers import human_size
    unit = 1024 ** case["u"]
    step = 20 if ctx.tier == "quick" else 100
    lo, hi = case["part"] * 256, case["part"] * 256 + 257
    for k in range(max(lo * step, step // 2), hi * step):
        c = unit * k // step
        ctx.ev()
        for d in (-1, 0, 1):
            shown_size(human_size(c + d), c + d, c + d, "size %d" % (c + d))
        f = float(c)
        shown_size(human_size(f), f, f, "size %r" % f)
        ctx.ev(3)
    ctx.outcome("sizes")


def do_time(case, ctx):
    from bmaptools.BmapHelpers import human_time
    for k in range(case["part"] * 18000, (case["part"] + 1) * 18000 + 5):
        for d in (0, -1e-6, 1e-6, 0.024) + (() if ctx.tier == "quick" else (0.012, -0.012)):
            s = max(0.0, k / 20 + d)
            shown_time(human_time(s), s, "time")
        ctx.ev(4)
        if k % 20 == 0:
            shown_time(human_time(k // 20), k // 20, "time")
    for h in range(case["part"] * 13, case["part"] * 13 + 13):
        for m in range(0, 60):
            for s in (0, 0.04, 0.06, 1, 59.9, 59.94, 59.96, 59.99):
                v = h * 3600 + m * 60 + s
                ctx.ev()
                shown_time(human_time(v), v, "time")
    ctx.outcome("times")


def geometry(o, im, what, version=None):
    """the user-visible attributes of a copier or generator"""
    n = I.blocks_of(im.size, im.bs)
    for name, want in (("image_size", im.size), ("block_size", im.bs), ("blocks_cnt", n), ("mapped_cnt", im.mapped_cnt())):
        need(getattr(o, name) == want, "%s: %s is %s, should be %s", what, name, getattr(o, name), want)
    lo, hi = mapped_bytes(im), im.mapped_cnt() * im.bs
    need(lo <= o.mapped_size <= hi, "%s: mapped_size is %s, should be %d", what, o.mapped_size, lo)
    shown_size(o.image_size_human, im.size, im.size, what + ": image_size_human")
    shown_size(o.mapped_size_human, lo, hi, what + ": mapped_size_human")
    if n:
        need(o.mapped_percent is not None and abs(o.mapped_percent - im.mapped_cnt() * 100.0 / n) < 1e-6, "%s: mapped_percent is %s", what, o.mapped_percent)
    if version is not None:
        need(str(o.bmap_version) == version, "%s: bmap_version is %s", what, o.bmap_version)


def do_copier(case, ctx):
    from bmaptools import BmapCopy
    bits = tuple(case["bits"])
    n = len(bits)
    for bs in (512, 4096, 65536):
        for tail in (0, 1, bs - 1):
            for version in I.VERSIONS + (None,):
                im = I.Image(bs if version else 4096, n * bs - tail, I.runs(bits))
                if not version:
                    im = I.Image(4096, im.size, [(0, I.blocks_of(im.size, 4096) - 1)])
                ip, dp, bp = ctx.path("image"), ctx.path("dest"), ctx.path("b.bmap")
                im.write(ip)
                if version:
                    with open(bp, "wb") as f:
                        f.write(I.make_bmap(im, version))
                for kind in ("file", "blk"):
                    for given in (None, im.size):
                        for fwd in (False, True):
                            what = "copier (block size %d, size %d, ranges %s, version %s, %s, size %s)" % (im.bs, im.size, im.ranges, version, kind, given)
                            ctx.ev()
                            if os.path.exists(ctx.path("sys")):
                                shutil.rmtree(ctx.path("sys"))
                            vdev.reset()
                            if kind == "blk":
                                b = blk.Blk(ctx, im.size + 100)
                                vdev.active(1)
                                dest = b.open()
                            else:
                                dest = open(dp, "wb+")
                            src = Fwd(ip) if fwd else open(ip, "rb")
                            bf = open(bp, "rb") if version else None
                            try:
                                c = (BmapCopy.BmapBdevCopy if kind == "blk" else BmapCopy.BmapCopy)(src, dest, bf, given)
                                if version or given is not None:
                                    geometry(c, im, what + " before copying", version)
                                c.copy()
                                geometry(c, im, what + " after copying", version)
                            finally:
                                for f in (src, dest, bf):
                                    if f:
                                        f.close()
                                vdev.active(0)
    ctx.outcome("copier")


def comments(data, im, what):
    """the figures in the comments of a bmap"""
    text = data.decode()
    m = re.search(r"<!--([^>]*?)-->\s*<ImageSize>", text)
    need(m, "%s: no comment on the image size", what)
    m = re.search(NUM, m.group(1))
    need(m, "%s: no size in the comment on the image size", what)
    shown_size(m.group(0), im.size, im.size, what + ": comment on the image size")
    m = re.search(r"<!--([^>]*?)-->\s*<MappedBlocksCount>", text)
    need(m, "%s: no comment on the mapped blocks", what)
    p = re.search(r"(\d+(?:\.\d+)?)%", m.group(1))
    m = re.search(NUM, m.group(1))
    need(p and m, "%s: no figures in the comment on the mapped blocks", what)
    shown_size(m.group(0), mapped_bytes(im), im.mapped_cnt() * im.bs, what + ": comment on the mapped blocks")
    shown_percent(p.group(1), im.mapped_cnt(), I.blocks_of(im.size, im.bs), what + ": comment on the mapped blocks")


def create(ctx, im, method, sums=True, content=True):
    from bmaptools import BmapCreate
    what = "generator (%s, block size %d, size %d, ranges %s)" % (method, im.bs, im.size, im.ranges[:9])
    vdev.reset()
    exts = [(a * im.bs, (b - a + 1) * im.bs, 0) for a, b in im.ranges]
    sim = fsim.SimFile(ctx, im.size, im.bs, exts, [(a * im.bs, min((b + 1) * im.bs, im.size) - a * im.bs) for a, b in im.ranges], fiemap_errno=95 if method == "seek" else 0)
    if content:
        vdev.active(0)
        im.write(sim.path)
        vdev.active(1)
    ctx.ev()
    try:
        out = ctx.path("out.bmap")
        c = BmapCreate.BmapCreate(sim.path, out)
        c.generate(sums)
        geometry(c, im, what)
        del c
        comments(read_file(out), im, what)
    finally:
        vdev.active(0)


def do_creator(case, ctx):
    bits = tuple(case["bits"])
    for bs in (512, 1024, 4096, 65536):
        for tail in (0, 1, bs // 2, bs - 1):
            create(ctx, I.Image(bs, len(bits) * bs - tail, I.runs(bits)), case["method"])
    ctx.outcome("generator")


def do_big(case, ctx):
    """Sizes around a unit; nothing is copied."""
    from bmaptools import BmapCopy
    bs = case["bs"]
    for mul in (1, 3, 7):
        for d in (-bs - 1, -1, 0, 1, bs, (1 << case["u"]) // 20, (1 << case["u"]) // 2):
            size = mul * (1 << case["u"]) + d
            n = I.blocks_of(size, bs)
            if size <= 0:
                continue
            for miss in (0, 1, n // 3, n // 2):
                ranges = [(0, n - miss - 1)] if n > miss else []
                im = I.Image(bs, size, ranges)
                with open(ctx.path("b.bmap"), "wb") as f:
                    f.write(I.make_bmap(im, chk="none"))
                ctx.ev()
                with open(ctx.path("b.bmap"), "rb") as b, open(ctx.path("dest"), "wb+") as dest, open("/dev/null", "rb") as src:
                    geometry(BmapCopy.BmapCopy(src, dest, b, size), im, "copier (block size %d, size %d, ranges %s)" % (bs, size, ranges), "2.0")
                if case["u"] < 53 and mul == 1:
                    create(ctx, im, "fiemap" if miss & 1 else "seek", sums=False, content=False)
    ctx.outcome("big sizes")


def strip(text):
    return re.sub("\033\\[[0-9]*m", "", text)


def stepping(step):
    """All clocks stand still, except that the given time passes when the destination is synchronised."""
    def setup():
        import time
        now = dict(t=0.0)
        base = {n: getattr(time, n)() for n in ("time", "monotonic", "perf_counter")}
        for n in base:
            setattr(time, n, lambda n=n: base[n] + now["t"])
            setattr(time, n + "_ns", lambda n=n: int((base[n] + now["t"]) * 10 ** 9))
        real = os.fsync

        def fsync(fd):
            now["t"] += step
            return real(fd)
        os.fsync = fsync
    return setup if step is not None else None


def do_cli(case, ctx):
    bits, step = tuple(case["bits"]), case["step"]
    for bs in (4096, 512, 65536):
        for tail in (0, 1, bs - 1):
            for version in ("2.0", "1.2", None):
                im = I.Image(bs, len(bits) * bs - tail, I.runs(bits))
                if not version:
                    im = I.Image(4096, im.size, [(0, I.blocks_of(im.size, 4096) - 1)])
                ip, bp = im.write(ctx.path("image")), ctx.path("b.bmap")
                vdev.reset()
                if os.path.exists(ctx.path("sys")):
                    shutil.rmtree(ctx.path("sys"))
                if os.path.exists(ctx.path("dest")):
                    os.unlink(ctx.path("dest"))
                dest = ctx.path("dest")
                if case["dest"] == "blk":
                    dest = blk.Blk(ctx, im.size + 7).path
                    vdev.active(1)
                if version:
                    with open(bp, "wb") as f:
                        f.write(I.make_bmap(im, version))
                ctx.ev()
                r = run_cli(["copy"] + (["--bmap", bp] if version else ["--nobmap"]) + [ip, dest], setup=stepping(step))
                vdev.active(0)
                what = "copy (block size %d, size %d, ranges %s, version %s, to a %s, taking %s s)" % (im.bs, im.size, im.ranges, version, case["dest"], step)
                need(r.rc == 0, "%s: exit status %s\n%s", what, r.rc, r.err[-900:])
                err = strip(r.err)
                if version:
                    m = re.search(r"(\d+) blocks of size (\d+) \(%s\), mapped (\d+) blocks \(%s or ([\d.]+)%%\)" % (NUM, NUM), err)
                    need(m, "%s: no geometry in the messages\n%s", what, err)
                    g = m.groups()
                    n = I.blocks_of(im.size, im.bs)
                    need(int(g[0]) == n and int(g[1]) == im.bs and int(g[4]) == im.mapped_cnt(), "%s: message: %s", what, m.group(0))
                    shown_size(g[2] + " " + g[3], im.size, im.size, what + ": image size in the message")
                    shown_size(g[5] + " " + g[6], mapped_bytes(im), im.mapped_cnt() * im.bs, what + ": mapped size in the message")
                    shown_percent(g[7], im.mapped_cnt(), n, what + ": percentage in the message")
                    m = re.search(r"version (\d+\.\d+)", err)
                    need(m and m.group(1) == version, "%s: version in the messages\n%s", what, err)
                m = re.search(r"copying time: (.*?s), copying speed %s/sec" % NUM, err)
                need(m, "%s: no time in the messages\n%s", what, err)
                speed = m.group(2) + " " + m.group(3)
                if step is not None and step > 0:
                    shown_time(m.group(1), step, what + ": time")
                    shown_size(speed, max(0, mapped_bytes(im) / step - 1), im.mapped_cnt() * im.bs / step, what + ": speed")
                else:
                    shown_size(speed, 0, 1e99, what + ": speed") if mapped_bytes(im) == 0 else None
    ctx.outcome("messages of copy")


def do_cli_create(case, ctx):
    """The warning about an image without holes is given if and only if it has none."""
    bits = tuple(case["bits"])
    for bs in (4096, 1024):
        for tail in (0, 1, bs - 1):
            for method in ("fiemap", "seek"):
                for opt in ([], ["-o", ctx.path("out")], ["--no-checksum"]):
                    im = I.Image(bs, len(bits) * bs - tail, I.runs(bits))
                    vdev.reset()
                    exts = [(a * bs, (b - a + 1) * bs, 0) for a, b in im.ranges]
                    sim = fsim.SimFile(ctx, im.size, bs, exts, fsim.data_of(bits, bs, im.size), fiemap_errno=95 if method == "seek" else 0)
                    vdev.active(0)
                    im.write(sim.path)
                    vdev.active(1)
                    ctx.ev()
                    r = run_cli(["create"] + opt + [sim.path], env={"TMPDIR": sim.dir})
                    vdev.active(0)
                    what = "create %s (block size %d, size %d, ranges %s, %s)" % (opt, bs, im.size, im.ranges, method)
                    need(r.rc == 0, "%s: exit status %s\n%s", what, r.rc, r.err[-900:])
                    err = strip(r.err)
                    m = re.search(r"all %s are mapped" % NUM, err)
                    need(bool(m) == all(bits), "%s: messages: %s", what, err)
                    if m:
                        shown_size(m.group(1) + " " + m.group(2), im.size, im.size, what + ": size in the warning")
                    comments(read_file(opt[1]) if "-o" in opt else r.out, im, what)
    ctx.outcome("messages of create")


def do_error(case, ctx):
    from bmaptools import BmapCopy, TransRead
    what = case["what"]
    bs = 4096
    for n in (1, 3, 300):
        for tail in (0, 1, 4000):
            im = I.Image(bs, n * bs - tail, [(0, n - 1)] if n < 3 else [(0, n - 3), (n - 1, n - 1)])
            ip, bp, dp = im.write(ctx.path("image")), ctx.path("b.bmap"), ctx.path("dest")
            with open(bp, "wb") as f:
                f.write(I.make_bmap(im))

            def attempt(bmap=True, size=None, cap=None, bdev=False):
                ctx.ev()
                vdev.reset()
                if os.path.exists(ctx.path("sys")):
                    shutil.rmtree(ctx.path("sys"))
                dest = open(dp, "wb+")
                if bdev:
                    dest.close()
                    dest = blk.Blk(ctx, cap).open()
                    vdev.active(1)
                try:
                    with open(ip, "rb") as src, open(bp, "rb") as b:
                        (BmapCopy.BmapBdevCopy if bdev else BmapCopy.BmapCopy)(src, dest, b if bmap else None, size).copy()
                except Exception as e:
                    return str(e)
                finally:
                    vdev.active(0)
                    dest.close()
                raise Fail("no error for %s" % case)
            if what == "small":
                for cap in (0, 1, 511, 512, im.size // 2, im.size - 1):
                    if cap >= im.size:
                        continue
                    for bmap in (True, False):
                        m = re.findall(NUM, attempt(bmap, im.size, cap, True))
                        need(len(m) == 2, "device too small: sizes in the message: %s", m)
                        shown_size(" ".join(m[0]), im.size, im.size, "image size in the message for a small device")
                        shown_size(" ".join(m[1]), cap, cap, "device size in the message for a small device")
            elif what == "contradiction":
                for d in (-1, 1, bs, 10 ** 9):
                    if im.size + d <= 0:
                        continue
                    t = attempt(True, im.size + d)
                    need(str(im.size) in re.findall(r"\d+", t) and str(im.size + d) in re.findall(r"\d+", t), "sizes %d and %d contradict each other; message: %s", im.size, im.size + d, t)
            elif what == "mismatch":
                for r, (a, b) in enumerate(im.ranges):
                    data = bytearray(im.bytes())
                    data[a * bs] ^= 1
                    with open(ip, "wb") as f:
                        f.write(data)
                    t = attempt()
                    good = hashlib.sha256(im.mapped_bytes(a, b)).hexdigest()
                    bad = hashlib.sha256(data[a * bs:(b + 1) * bs]).hexdigest()
                    sums = re.findall(r"[0-9a-f]{64}", t)
                    need(sorted(sums) == sorted([good, bad]), "checksum mismatch of %d-%d: calculated %s, should be %s; message: %s", a, b, bad, good, t)
                    need(re.search(r"calculated '?%s" % bad, t), "checksum mismatch of %d-%d: calculated %s; message: %s", a, b, bad, t)
                    need(re.search(r"\b%d-%d\b" % (a, b), t) or a == b and re.search(r"\b%d\b" % a, t), "checksum mismatch of %d-%d; message: %s", a, b, t)
            elif what == "count" and n == 300:
                for cut in (1, 2, 100, 256, 297):
                    im2 = I.Image(bs, cut * bs, [(0, cut - 1)])
                    im2.write(ip)
                    with open(bp, "wb") as f:
                        f.write(I.make_bmap(im, chk="none"))
                    t = attempt()
                    m = re.search(r"wrote (\d+) blocks .*should have (\d+)", t, flags=re.S)
                    need(m, "source too short; message: %s", t)
                    need(int(m.group(1)) == cut and int(m.group(2)) == im.mapped_cnt(), "source of %d blocks; message: %s", cut, t)
    ctx.outcome("message: " + what)


def do_modes(case, ctx):
    """-q says nothing if all is well; -d and -q do not change what is done."""
    cmd = case["cmd"]
    for bits in I.layouts(3):
        if cmd.startswith("create") and all(bits):
            continue
        bs = 4096
        im = I.Image(bs, 3 * bs - 5, I.runs(bits))
        res = {}
        for mode in ((), ("-q",), ("--quiet",), ("-d",), ("--debug",)):
            ip, bp, dp = im.write(ctx.path("image")), ctx.path("b.bmap"), ctx.path("dest")
            vdev.reset()
            if os.path.exists(ctx.path("sys")):
                shutil.rmtree(ctx.path("sys"))
            open(dp, "wb").close()      # (a warning is given if a new file has to be made)
            ctx.ev()
            if cmd.startswith("create"):
                sim = fsim.SimFile(ctx, im.size, bs, [(a * bs, (b - a + 1) * bs, 0) for a, b in im.ranges], fsim.data_of(bits, bs, im.size))
                vdev.active(0)
                im.write(sim.path)
                vdev.active(1)
                args = ["create", sim.path] + (["-o", dp] if "-o" in cmd else [])
            else:
                with open(bp, "wb") as f:
                    f.write(I.make_bmap(im))
                if cmd == "blk":
                    dp = blk.Blk(ctx, im.size).path
                    vdev.active(1)
                args = ["copy", "--nobmap" if cmd == "nobmap" else "--bmap=" + bp, ip, dp]
            # (a warning is given about regular files under /dev, where the scratch directory may be)
            r = run_cli(list(mode) + [os.path.basename(a) if a == dp else a for a in args], cwd=os.path.dirname(dp))
            vdev.active(0)
            what = "%s %s, ranges %s" % (" ".join(mode), cmd, im.ranges)
            need(r.rc == 0, "%s: exit status %s\n%s", what, r.rc, r.err[-900:])
            if mode and "q" in mode[0]:
                need(not r.err, "%s prints messages:\n%s", what, r.err)
            need(not r.out or cmd == "create", "%s prints on the standard output: %s", what, r.out[:200])
            res[mode] = read_file(dp) if cmd != "create" else r.out
        need(len(set(res.values())) == 1, "%s, ranges %s: the result depends on -q/-d", cmd, im.ranges)
    ctx.outcome("modes: " + cmd)


def do_dev(case, ctx):
    """A regular file under /dev, which is hardly what was wanted, is warned about; nothing else is."""
    root = "/dev/shm"
    if not os.access(root, os.W_OK):
        ctx.outcome("no writable directory under /dev")
        return
    d = tempfile.mkdtemp(prefix="mc.dev.", dir=root)
    other = tempfile.mkdtemp(prefix="mc.dev.", dir="/tmp")
    im = I.Image(4096, 3 * 4096, [(0, 0), (2, 2)])
    ip, bp = im.write(ctx.path("image")), ctx.path("b.bmap")
    with open(bp, "wb") as f:
        f.write(I.make_bmap(im))
    try:
        n = os.path.basename(d)
        places = [(d + "/x", True), ("/dev//shm/" + n + "/x", True), ("/dev/./shm/%s/x" % n, True), ("/tmp/../dev/shm/%s/x" % n, True), ("/dev/shm/../shm/%s/x" % n, True), ("//dev/shm/%s/x" % n, None),
                  (ctx.path("x"), ctx.path("x").startswith("/dev/"))]
        os.mkdir(other + "/dev")
        places += [(other + "/x", False), (other + "/dev/x", False), ("/dev/.." + other + "/x", False), ("/dev/shm/../.." + other + "/dev/x", False)]
        for path, warned in places:
            for exists in (False, True):
                for quiet in (False, True):
                    for bmap in (["--bmap", bp], ["--nobmap"]):
                        real = os.path.realpath(path)
                        if os.path.exists(real):
                            os.unlink(real)
                        if exists:
                            open(real, "wb").close()
                        ctx.ev()
                        r = run_cli(["-q"] * quiet + ["copy"] + bmap + [ip, path])
                        what = "copy to the %s file %s" % ("existing" if exists else "new", path)
                        need(r.rc == 0, "%s: exit status %s\n%s", what, r.rc, r.err[-900:])
                        w = [l for l in strip(r.err).split("\n") if "warning" in l.lower()]
                        need(warned is None or bool(w) == warned, "%s: warnings: %s", what, w)
                        need(not w or path in w[0] or real in w[0], "%s: the warning does not name it: %s", what, w)
                        ctx.outcome("warned" if w else "not warned")
        for node in ("/dev/null", "/dev/zero", "/dev/../dev/./null"):
            for bmap in (["--bmap", bp], ["--nobmap"]):
                ctx.ev()
                r = run_cli(["copy"] + bmap + [ip, node])
                w = [l for l in strip(r.err).split("\n") if "warning" in l.lower() and node in l]
                need(not w, "copy to the device %s: warnings: %s", node, w)
                ctx.outcome("not warned")
        b = blk.Blk(ctx, im.size)
        vdev.active(1)
        r = run_cli(["copy", "--bmap", bp, ip, b.path])
        vdev.active(0)
        need(r.rc == 0 and "warning" not in r.err.lower(), "copy to a device: exit status %s, messages: %s", r.rc, r.err)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(other, ignore_errors=True)


def do_settings(case, ctx):
    """It is said which of the device's settings could not be changed, why, and which scheduler is in use."""
    im = I.Image(4096, 3 * 4096, [(0, 0), (2, 2)])
    ip, bp = im.write(ctx.path("image")), ctx.path("b.bmap")
    with open(bp, "wb") as f:
        f.write(I.make_bmap(im))
    # where: 0 reading, 1 opening for writing, 2 writing
    ops = {0: ((vdev.OPEN, 0),), 1: ((vdev.OPEN, 1),), 2: ((vdev.WRITE, 0), (vdev.WRITE, 1))}
    pairs = ((errno.EACCES, errno.EROFS), (errno.EINVAL, errno.EACCES), (errno.EROFS, errno.EIO))
    for es, er in pairs:
        for name, text, opts in (("mq-deadline", "[mq-deadline] kyber none", "mq-deadline kyber none"), ("kyber", "mq-deadline [kyber] none", "mq-deadline kyber none"), ("bfq", "none [bfq]", "none bfq")):
            if os.path.exists(ctx.path("sys")):
                shutil.rmtree(ctx.path("sys"))
            b = blk.Blk(ctx, im.size, sched=text, opts=opts)
            for dev, how, e in ((b.sched, case["sched"], es), (b.ratio, case["ratio"], er)):
                for op, nth in ops[how] if how is not None else ():
                    vdev.fault(dev, op, nth, vdev.ERR, e)
            vdev.active(1)
            ctx.ev()
            r = run_cli(["copy", "--bmap", bp, ip, b.path])
            vdev.active(0)
            vdev.clear_faults()
            what = "scheduler %s: %s, write buffering: %s" % (text, case["sched"] is not None and errno.errorcode[es], case["ratio"] is not None and errno.errorcode[er])
            need(r.rc == 0, "%s: exit status %s\n%s", what, r.rc, r.err[-900:])
            lines = [l for l in strip(r.err).split("\n") if l.startswith("bmaptool:")]
            s = [l for l in lines if "scheduler" in l]
            m = [l for l in lines if "ratio" in l]
            need(bool(s) == (case["sched"] is not None) and bool(m) == (case["ratio"] is not None), "%s: messages: %s", what, lines)
            if s:
                need(os.strerror(es) in s[0] or errno.errorcode[es] in s[0], "%s: the reason is missing in: %s", what, s[0])
                need(case["sched"] == 0 or name in s[0].replace(b.sched_path, ""), "%s: the scheduler in use is missing in: %s", what, s[0])
            if m:
                need(os.strerror(er) in m[0] or errno.errorcode[er] in m[0], "%s: the reason is missing in: %s", what, m[0])
            ctx.outcome("settings")
