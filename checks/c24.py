"""C24: the standalone writer in contrib agrees with bmaptool copy."""
import contextlib, errno, io, itertools, os, shutil, sys, warnings
from mc import blk, core, vdev, img as I
from mc.core import Fail, need
from mc.drive import read_file, diff_at, run_cli

LEVEL = "exhaustive_bounded"
RULE = ("every layout of n blocks and every cut of it into ranges x block size x tail x format version x spelling of the ranges x header order; unordered, overlapping, repeated and "
        "commented ranges; long runs and offsets beyond 4 GiB; file names; destinations (new, longer, shorter, linked, block device) with mapped blocks of arbitrary or constant content: wherever the copy accepts, the writer must "
        "end with 0 and leave the same content, all synchronised; every single failing read, write or synchronisation must give a non-zero exit status; wrong usage and missing "
        "inputs must give one and leave the directory as it was. Non-trivial: every execution")
ASSUMPTIONS = ["Block numbers are plain decimal digits (Python would also read +1 or 1_0).", "The bmap lies where the writer looks for it: the image's name with the last extension replaced."]
BOUNDS = {"quick": "n <= 4 blocks", "thorough": "n <= 7 blocks"}
SCRIPT = os.path.join(core.REPO, "contrib", "bmap_write.py")
CODE = None


def prepare(tier, base):
    global CODE
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        CODE = compile(read_file(SCRIPT), SCRIPT, "exec")


def script(args, cwd=None):
    """Runs the writer; returns (exit status, output)."""
    old, out, err = sys.argv, io.StringIO(), io.StringIO()
    sys.argv = [SCRIPT] + args
    here = os.getcwd()
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                exec(CODE, {"__name__": "__main__", "__file__": SCRIPT, "__builtins__": __builtins__})
                rc = 0
            except SystemExit as e:
                rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
                if not isinstance(e.code, (int, type(None))):
                    err.write(str(e.code))
            except core.CaseTimeout:
                raise
            except Exception as e:
                rc = 1
                err.write("%s: %s" % (type(e).__name__, e))
    finally:
        sys.argv = old
        os.chdir(here)
    return rc, out.getvalue() + err.getvalue()


def cases(tier):
    th = tier != "quick"
    for bs in (4096, 512, 3000, 1):
        for n in range(1, (8 if th else 5) if bs == 4096 else (6 if th else 4)):
            for bits in I.layouts(n):
                yield dict(t="small", bs=bs, bits=bits)
    for k in range(len(ODD)):
        yield dict(t="odd", k=k)
    for bs in (512, 4096, 65536, 300000, 1 << 20, 3 << 20):
        b = max(1, (1 << 20) // bs)
        for ln in sorted({k * b + o for k in ((1, 2, 3, 7) if th else (1, 3)) for o in (-1, 0, 1) if k * b + o > 0}):
            yield dict(t="long", bs=bs, len=ln)
    for edge in (1 << 31, 1 << 32):
        for bs in (4096, 65536):
            yield dict(t="far", bs=bs, edge=edge)
    for name in NAMES:
        yield dict(t="names", name=name)
    for dest in ("new", "longer", "shorter", "same", "link", "dangling", "blk", "blkexact"):
        for bits in ((1, 0, 1, 1, 0), (0, 0, 0), (1, 1, 1), (0, 1, 0)):
            for tail in (0, 100):
                for flat in (None, 0, 0xA5):
                    for mask in range(1, 1 << sum(bits)) if flat == 0 else (0,) if flat is None else ((1 << sum(bits)) - 1,):
                        yield dict(t="dest", dest=dest, bits=bits, tail=tail, flat=flat, mask=mask)
    for isblk in (0, 1):
        for shape in [(4096, (1, 0, 1), 0), (4096, (1, 1), 5), (1 << 16, (1, 1, 0, 1, 0, 1), 0), (512, (0, 0), 0)]:
            yield dict(t="fault", blk=isblk, shape=shape)
    yield dict(t="usage")


ODD = [
    # (name, ranges as texts, header changes)
    ("unordered", ["4-5", "0-1"]), ("unordered singles", ["5", "3", "0"]), ("overlap", ["0-3", "2-5"]), ("repeated", ["1-2", "1-2"]), ("repeated single", ["1", "1"]),
    ("touching", ["0-1", "2-3"]), ("spaces", ["  0  -  3  ", "\t5\n"]), ("no spaces", ["0-3", "5"]), ("tight left", ["0 -3"]), ("tight right", ["0- 3"]),
    ("leading zeros", ["000-003", "05"]), ("newlines", ["\n0\n-\n3\n"]), ("same ends", ["2-2"]), ("crlf", ["\r\n 0-3 \r\n"]), ("entity", ["&#48;-&#51;"]), ("cdata", ["<![CDATA[0-3]]>"]),
    ("comment in it", ["0-<!-- x -->3"]), ("comment before", ["<!-- 0-1 -->2-3"]), ("comment after", ["2-3<!-- 0-1 -->"]), ("beyond the image", ["0-7"]), ("outside", ["9"]),
    ("reversed", ["3-0"]), ("empty", [""]), ("blank", ["  "]), ("none", []), ("minus", ["-3"]), ("three", ["0-1-2"]), ("comma", ["0,3"]),
    ("hex", ["0x1"]), ("wide digits", ["\uff11-\uff12"]), ("arabic digits", ["\u0661"]), ("fraction", ["1.0"]), ("nbsp", ["\u00a01\u00a0"]), ("pi", ["<?x y?>1"]),
    ("nested", ["<b>1</b>"]), ("last", ["5"]), ("all", ["0-5"]), ("first", ["0"]),
]
NAMES = ["image", "image.raw", "a.b.raw", "im age.x y", ".hidden", ".hidden.raw", "image.", "d.e/image", "d.e/image.raw", "im\u00e4ge.r\u00e4w", "-image.raw", "image..raw", "a.raw.raw",
         "%41.raw", "image.bmap.raw", "$HOME.raw", "*.raw", "image.gz.raw", "..image.raw", "image.tar"]


def image_for(bs, bits, tail):
    n = len(bits)
    size = n * bs - (bs - tail if tail and tail < bs else 0)
    return I.Image(bs, size, I.runs(bits), junk=True)


def both(ctx, ip, bp, what, verify=True, must=None, want=None, cli=False, size=None):
    """Copies with bmaptool and with the writer into new files and compares. must: does the copy have to succeed?"""
    from bmaptools import BmapCopy
    d1, d2 = ctx.path("dest1"), ctx.path("dest2")
    for d in (d1, d2):
        if os.path.lexists(d):
            os.unlink(d)
    ctx.ev()
    if cli:
        r = run_cli(["copy", "--bmap", bp, "--no-sig-verify"] + ([] if verify else ["--no-verify"]) + ["--", ip, d1])
        ok, why = r.rc == 0, r.err[-400:]
    else:
        try:
            with open(ip, "rb") as s, open(d1, "wb") as d, open(bp, "rb") as b:
                BmapCopy.BmapCopy(s, d, b, os.stat(ip).st_size or None).copy(False, verify)
            ok, why = True, ""
        except Exception as e:
            ok, why = False, str(e)
    if must is not None and ok != must:
        raise core.HarnessError("%s: bmaptool's answer is %s: %s" % (what, ok, why))
    if not ok:
        ctx.outcome("bmaptool refuses")
        return
    rc, out = script([ip, d2])
    need(rc == 0, "%s: bmaptool copies it, the writer fails with %s: %s", what, rc, out)
    if size:
        need(os.path.getsize(d1) == os.path.getsize(d2), "%s: sizes differ: bmaptool %d, the writer %d", what, os.path.getsize(d1), os.path.getsize(d2))
        return
    a, b = read_file(d1), read_file(d2)
    need(a == b, "%s: bmaptool and the writer give different destinations: %s", what, diff_at(a, b))
    if want is not None:
        need(a == want, "%s: both destinations are wrong: %s", what, diff_at(a, want))
    ctx.outcome("same")


def run(case, ctx):
    globals()["do_" + case["t"]](case, ctx)


def do_small(case, ctx):
    bs, bits = case["bs"], tuple(case["bits"])
    ip, bp = ctx.path("image.raw"), ctx.path("image.bmap")
    for tail in sorted({0, 1 % bs, bs - 1}):
        first = True
        k = 0
        for ranges in I.cuts(bits):
            im = image_for(bs, bits, tail)
            im.ranges = ranges
            if first:
                im.write(ip)
                want = im.expected()
                first = False
            for ver, spell in itertools.product(I.VERSIONS, range(5)):
                order = None if k % 3 else [k % 5, (k // 5) % 5, (k // 3) % 5]
                k += 1
                with open(bp, "wb") as f:
                    f.write(I.make_bmap(im, ver, spell=spell, order=order, comment="<!-- <Range> 0-1 </Range> -->\n" if k % 2 else ""))
                what = "block size %d layout %s ranges %s tail %d version %s spelling %d" % (bs, bits, ranges, tail, ver, spell)
                both(ctx, ip, bp, what, want=want, cli=k == 7, must=True if im.size else None)


def do_odd(case, ctx):
    name, texts = ODD[case["k"]]
    ip, bp = ctx.path("image.raw"), ctx.path("image.bmap")
    for tail, ver in itertools.product((0, 100), ("1.0", "1.2", "2.0")):
        im = image_for(4096, (1,) * 6, tail)
        im.write(ip)
        for mapped in range(0, 9):
            raw = I.make_bmap(im, ver, chk="none", ranges=[], mapped=mapped, selfsum=False).decode()
            raw = raw.replace("    </BlockMap>", "".join("<Range>%s</Range>\n" % t for t in texts) + "    </BlockMap>").encode("utf-8")
            if ver == "2.0":
                raw = I.seal(raw, "sha256", "0" * 64, "BmapFileChecksum")
            with open(bp, "wb") as f:
                f.write(raw)
            both(ctx, ip, bp, "%s: ranges %s tail %d version %s mapped count %d" % (name, texts, tail, ver, mapped))
            both(ctx, ip, bp, "%s: ranges %s tail %d version %s mapped count %d" % (name, texts, tail, ver, mapped), verify=False, cli=mapped == 4)


def do_long(case, ctx):
    bs, ln = case["bs"], case["len"]
    if ln * bs > 24 << 20:
        return
    ip, bp = ctx.path("image.raw"), ctx.path("image.bmap")
    for lead, tail in ((0, 0), (1, 1)):
        ranges = [(lead, lead + ln - 1), (lead + ln + 1, lead + ln + 1)]
        im = I.Image(bs, (lead + ln + 2) * bs - (bs - tail if tail else 0), ranges)
        im.write(ip)
        with open(bp, "wb") as f:
            f.write(I.make_bmap(im))
        both(ctx, ip, bp, "block size %d, %d blocks at %d, tail %d" % (bs, ln, lead, tail), must=True, want=im.expected())


def do_far(case, ctx):
    bs, edge = case["bs"], case["edge"]
    ip, bp = ctx.path("image.raw"), ctx.path("image.bmap")
    e = edge // bs
    for ranges in ([(0, 0), (e - 1, e)], [(e, e), (e + 3, e + 3)], [(0, 1)]):
        im = I.Image(bs, (e + 5) * bs + 7, ranges)
        im.write(ip)
        with open(bp, "wb") as f:
            f.write(I.make_bmap(im))
        what = "block size %d, ranges %s" % (bs, ranges)
        both(ctx, ip, bp, what, must=True, size=True)
        from checks import c01
        c01.sparse_equal(ctx.path("dest1"), im, what + " (bmaptool)")
        c01.sparse_equal(ctx.path("dest2"), im, what + " (writer)")
        ctx.outcome("same")


def do_names(case, ctx):
    name = case["name"]
    root = ctx.path("root")
    ip = os.path.join(root, name)
    os.makedirs(os.path.dirname(ip), exist_ok=True)
    im = image_for(4096, (1, 0, 1, 1, 0), 100)
    other = I.make_bmap(image_for(4096, (1, 1, 1, 1, 1), 100))
    im.write(ip)
    bp = os.path.splitext(ip)[0] + ".bmap"
    with open(bp, "wb") as f:
        f.write(I.make_bmap(im))
    for d in ("bmap", "other.bmap", ".bmap", ip + ".bmap" if ip + ".bmap" != bp else "x.bmap", os.path.join(root, os.path.basename(name).split(".")[0] + ".bmap")):
        d = os.path.join(root, d)
        if d != bp and not os.path.exists(d):
            with open(d, "wb") as f:
                f.write(other)
    both(ctx, ip, bp, "image name %s" % name, must=True, want=im.expected(), cli=True)
    ctx.ev()
    if not name.startswith("-"):
        rc, out = script([name, "out put"], cwd=root)
        need(rc == 0 and read_file(os.path.join(root, "out put")) == im.expected(), "image name %s, relative: %s %s", name, rc, out)
    os.unlink(bp)
    os.path.exists(os.path.join(root, "out put")) and os.unlink(os.path.join(root, "out put"))
    refused(ctx, root, [ip, os.path.join(root, "out put")], "image %s without its bmap" % name)


def refused(ctx, root, args, what):
    """The writer must fail and leave the directory as it is."""
    def state():
        return {os.path.join(d, f): (os.path.islink(os.path.join(d, f)) or not os.path.isfile(os.path.join(d, f)) or read_file(os.path.join(d, f))) for d, s, fs in os.walk(root) for f in fs + s}
    before = state()
    ctx.ev()
    rc, out = script(args, cwd=root)
    need(rc != 0, "%s: exit status 0", what)
    need(out.strip(), "%s: no message", what)
    after = state()
    need(after == before, "%s: changed %s", what, sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k)))
    ctx.outcome("refused")


def do_dest(case, ctx):
    im = image_for(4096, tuple(case["bits"]), case["tail"])
    on = [i for i, b in enumerate(case["bits"]) if b]
    im.flat = {b: case["flat"] for k, b in enumerate(on) if case["mask"] >> k & 1}
    ip, bp = ctx.path("image.raw"), ctx.path("image.bmap")
    im.write(ip)
    with open(bp, "wb") as f:
        f.write(I.make_bmap(im))
    res = []
    for who in ("bmaptool", "writer"):
        for f in ("dest", "real"):
            if os.path.lexists(ctx.path(f)):
                os.unlink(ctx.path(f))
        shutil.rmtree(ctx.path("sys"), ignore_errors=True)
        dest, kind = ctx.path("dest"), case["dest"]
        vdev.reset()
        dev = None
        if kind.startswith("blk"):
            b = blk.Blk(ctx, im.size + (0 if kind == "blkexact" else 9000), name="dest")
            dev = b.dev
        elif kind in ("link", "dangling"):
            os.symlink("real", dest)
            if kind == "link":
                open(ctx.path("real"), "wb").write(b"\xa5" * 50000)
        elif kind != "new":
            open(dest, "wb").write(b"\xa5" * (im.size + {"longer": 5000, "shorter": -3000, "same": 0}[kind]))
        if dev is None:
            dev = vdev.add(ctx.path("real") if kind == "link" else dest, vdev.REG) if kind not in ("dangling", "new") else None
        vdev.log_reset()
        vdev.active(1)
        ctx.ev()
        try:
            if who == "bmaptool":
                r = run_cli(["copy", ip, dest])
                rc, out = r.rc, r.err
            else:
                rc, out = script([ip, dest])
            log = vdev.log()
        finally:
            vdev.active(0)
        if who == "bmaptool" and rc != 0:
            raise core.HarnessError("bmaptool fails: %s" % out)
        need(rc == 0, "%s, destination %s, layout %s: the writer fails with %s: %s", who, kind, case["bits"], rc, out)
        res.append(read_file(dest))
        if dev is not None:
            ops = [e.op for e in log if e.dev == dev and not e.err and (e.op == vdev.FSYNC or e.op == vdev.WRITE and e.res > 0)]
            need(not any(case["bits"]) or ops and ops[-1] == vdev.FSYNC, "%s, destination %s, layout %s: data written after the last synchronisation", who, kind, case["bits"])
    vdev.reset()
    need(res[0] == res[1], "destination %s, layout %s: bmaptool and the writer differ: %s", kind, case["bits"], diff_at(*res))
    if not kind.startswith("blk"):
        need(res[1] == im.expected(), "destination %s, layout %s: both are wrong: %s", kind, case["bits"], diff_at(res[1], im.expected()))
    ctx.outcome("same")


def do_fault(case, ctx):
    bs, bits, tail = case["shape"]
    im = image_for(bs, tuple(bits), tail)
    ip, bp, dest = ctx.path("image.raw"), ctx.path("image.bmap"), ctx.path("dest")
    im.write(ip)
    with open(bp, "wb") as f:
        f.write(I.make_bmap(im))

    def go(fault):
        vdev.reset()
        shutil.rmtree(ctx.path("sys"), ignore_errors=True)
        if case["blk"]:
            d = blk.Blk(ctx, im.size + 9000, name="dest").dev
        else:
            open(dest, "wb").close()
            d = vdev.add(dest, vdev.REG)
        devs = dict(d=d, s=vdev.add(ip, vdev.REG), b=vdev.add(bp, vdev.REG))
        if fault:
            vdev.fault(devs[fault[0]], *fault[1:])
        vdev.log_reset()
        vdev.active(1)
        ctx.ev()
        try:
            rc, out = script([ip, dest])
            log = vdev.log()
        finally:
            vdev.active(0)
        return rc, out, {k: [e for e in log if e.dev == v] for k, v in devs.items()}
    rc, out, log = go(None)
    want = read_file(dest)
    need(rc == 0, "block size %d layout %s: fails with %s: %s", bs, bits, rc, out)
    for who, op, errs in (("d", vdev.WRITE, (errno.EIO, errno.ENOSPC)), ("d", vdev.FSYNC, (errno.EIO, errno.ENOSPC)), ("s", vdev.READ, (errno.EIO,)), ("b", vdev.READ, (errno.EIO,))):
        total = sum(e.op == op for e in log[who])
        for n in range(1, total + 1):
            for e in errs:
                what = "block size %d layout %s, %s %d of the %s fails with %s" % (bs, bits, vdev.OPNAME[op], n, dict(d="destination", s="image", b="bmap")[who], errno.errorcode[e])
                rc, out, l = go((who, op, n - 1, vdev.ERR, e))
                if not any(x.err for x in l[who]):
                    raise core.HarnessError("fault not reached: " + what)
                need(rc != 0, "%s: exit status 0", what)
                ctx.outcome("reported")
            if op == vdev.WRITE:
                for part in (1, 100):
                    rc, out, l = go((who, op, n - 1, vdev.SHORT, part))
                    need(rc != 0 or read_file(dest) == want, "block size %d layout %s, write %d is cut to %d bytes: exit status 0, but wrong content", bs, bits, n, part)
                    ctx.outcome("short write")
    vdev.reset()


def do_usage(case, ctx):
    root = ctx.path("root")
    os.mkdir(root)
    im = image_for(4096, (1, 0, 1), 0)
    im.write(root + "/image.raw")
    with open(root + "/image.bmap", "wb") as f:
        f.write(I.make_bmap(im))
    with open(root + "/dest", "wb") as f:
        f.write(b"existing")
    os.mkdir(root + "/dir")
    os.mkdir(root + "/dir2.raw")
    shutil.copy(root + "/image.bmap", root + "/dir2.bmap")
    im.write(root + "/nobmap.raw")
    im.write(root + "/dirbmap.raw")
    os.mkdir(root + "/dirbmap.bmap")
    os.symlink("nothing", root + "/dangling.raw")
    shutil.copy(root + "/image.bmap", root + "/dangling.bmap")
    im.write(root + "/dang2.raw")
    os.symlink("nothing", root + "/dang2.bmap")
    words = ["image.raw", "dest", "new"]
    for n in (0, 1, 3, 4):
        for args in itertools.product(words, repeat=n):
            refused(ctx, root, list(args), "%d arguments %s" % (n, args))
    for img in ("missing.raw", "missing", "", "dir", "dir2.raw", "nobmap.raw", "dirbmap.raw", "dangling.raw", "dang2.raw", "image.raw/x", "dir/image.raw", "-", "image.bmap/"):
        for dest in ("dest", "new"):
            refused(ctx, root, [img, dest], "image %r to %s" % (img, dest))
    for dest in ("dir", "nodir/x", ""):
        refused(ctx, root, ["image.raw", dest], "destination %r" % dest)
    # a bmap that cannot be parsed
    good = read_file(root + "/image.bmap")
    for k, bad in enumerate((b"", b"garbage", good[:-20], good.replace(b"BlockSize", b"BlockSise"), good.replace(b"4096", b"many"))):
        with open(root + "/bad.bmap", "wb") as f:
            f.write(bad)
        im.write(root + "/bad.raw")
        refused(ctx, root, ["bad.raw", "new"], "broken bmap %d" % k)
        refused(ctx, root, ["bad.raw", "dest"], "broken bmap %d" % k)
