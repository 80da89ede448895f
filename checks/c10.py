"""C10: the hole-detection method is chosen safely for every system answer."""
import itertools, os
from mc import img as I, vdev, fsim
from mc.core import Fail, need, from_repo
from mc.drive import run_cli, read_file

LEVEL = "exploration"
RULE = ("the full product of the answers of FIEMAP, SEEK_HOLE, FIGETBSZ, temporary-file creation and truncation, fsync, the file-system type and the ZFS "
        "parameter, for Filemap.filemap() and BmapCreate, with different layouts behind the two methods so that the map shows which one was used; "
        "every single failing FIEMAP, lseek, flush or fsync call later on; each outcome is compared with a decision table; non-trivial: all")
ASSUMPTIONS = ["the file-system type is found out by running df"]
BOUNDS = {"quick": "full product; 1 later failure", "thorough": "full product with more errno values; 2 later failures"}
BUDGET = {"quick": 500, "thorough": 820}
MAPBITS, SEEKBITS = (1, 0, 1, 1), (0, 1, 1, 0)
FS = ("ext4", "btrfs", "", "zfs:1\n", "zfs:0\n", "zfs:none", "zfs:junk\n", "zfs:", "zfs:2\n", "ZFS:0\n")
NAMES = ("/dev/x", "rpool/my data", "//host/a b c", "zfs", "10", "pool/ext4 5 6")     # what df shows as the file system's name
MOUNTS = ("/", "/mnt/my disk", "/a zfs 1 2 3 4% /b")
TMPS = (None, 13, 30, "trunc")


def cases(tier):
    q = tier == "quick"
    fie = (0, 95, 25, 5, 22) if q else (0, 95, 25, 5, 22, 1, 12, 14, 16, 28, 38, 75)
    seek = (0, 1, 2, 105) if q else (0, 1, 2, 105, 101, 175, 138)
    for f, s in itertools.product(fie, seek):
        for fs in FS:
            yield dict(t="table", fie=f, seek=s, fs=fs)
    for name in NAMES:
        for mount in MOUNTS:
            for nums in ("1000 10 990 1%", "- - - -", "0 0 0 -", "123456789012   5     123456789007     100%"):
                yield dict(t="names", name=name, mount=mount, nums=nums)
    for fs in FS:
        yield dict(t="cli", fs=fs)
    for method in ("fiemap", "seek"):
        for e in (5, 22, 12, 95, 25):
            yield dict(t="later", method=method, err=e, two=not q)
        yield dict(t="flush", method=method)
        yield dict(t="relative", method=method)


def worker_init(ctx):
    d = os.path.join(ctx.base, "bin")
    os.makedirs(d, exist_ok=True)
    ctx.df = os.path.join(d, "df.out")
    with open(os.path.join(d, "df"), "w") as f:
        f.write("#!/bin/sh\ncase \"$*\" in *--output=fstype*) exec cat %s.type;; esac\nexec cat %s\n" % (ctx.df, ctx.df))
    os.chmod(os.path.join(d, "df"), 0o755)
    os.environ["PATH"] = d + ":" + os.environ["PATH"]


def set_fs(ctx, fs, name="/dev/x", mount="/", nums="1000 10 990  1%"):
    typ, _, param = fs.partition(":")
    with open(ctx.df, "w") as f:
        if typ:
            f.write("Filesystem     Type  1K-blocks     Used Available Use%% Mounted on\n%-14s %-4s %s %s\n" % (name, typ, nums, mount))
    with open(ctx.df + ".type", "w") as f:
        f.write("Type\n%s\n" % typ if typ else "")
    zfs = ctx.path("zfs/parameters")
    os.makedirs(zfs, exist_ok=True)
    p = os.path.join(zfs, "zfs_dmu_offset_next_sync")
    if os.path.exists(p):
        os.unlink(p)
    if typ.lower() == "zfs" and param != "none":
        open(p, "w").write(param)
    return typ in ("ext4", "btrfs") or param in ("1\n",)


def build(ctx, fie, seek, bsz, tmp, sync, bs=4096, tail=9):
    n = len(MAPBITS)
    size = n * bs - tail
    fb = {"ok": (bs, 0), "err": (bs, 25), "zero": (0, 0)}[bsz]
    exts = [(a * bs, (b - a + 1) * bs, 0) for a, b in I.runs(MAPBITS)]
    sim = fsim.SimFile(ctx, size, fb[0], exts, fsim.data_of(SEEKBITS, bs, size), fiemap_errno=fie, figetbsz_errno=fb[1], seek_mode=seek)
    vdev.redirect("/sys/module/zfs/", ctx.path("zfs") + "/")
    if tmp == "trunc":
        for k in range(4):
            vdev.fault(sim.probe, vdev.TRUNC, k, vdev.ERR, 27)
    elif tmp:
        for k in range(12):
            vdev.fault(sim.probe, vdev.OPEN, k, vdev.ERR, tmp)
    if sync:
        for k in range(4):
            vdev.fault(sim.dev, vdev.FSYNC, k, vdev.ERR, 5)
    return sim


def attempt(sim, api, by_path, ctx):
    """Returns the mapped blocks found, or the exception."""
    from bmaptools import Filemap, BmapCreate
    f = None
    image = sim.path
    if not by_path:
        f = image = open(sim.path, "rb")
    vdev.log_reset()
    res = None
    try:
        if api == "filemap":
            fm = Filemap.filemap(image)
            res = bits_of(fsim.take(fm.get_mapped_ranges(0, fm.blocks_cnt), fm.blocks_cnt, "mapped"), fm.blocks_cnt), fm.block_size
            un = bits_of(fsim.take(fm.get_unmapped_ranges(0, fm.blocks_cnt), fm.blocks_cnt, "unmapped"), fm.blocks_cnt)
            need(un == tuple(1 - b for b in res[0]), "mapped and unmapped ranges contradict each other")
            del fm
        else:
            out = open(ctx.path("out.bmap"), "w+")
            c = BmapCreate.BmapCreate(image, out)
            c.generate()
            out.seek(0)
            p = I.parse_bmap(out.read().encode())
            res = bits_of([r[:2] for r in p["ranges"]], int(p["BlocksCount"])), int(p["BlockSize"])
            del c
            out.close()
        return res, None
    except Fail:
        raise
    except Exception as e:
        if not from_repo(e):
            raise
        e.__traceback__ = None
        return None, e
    finally:
        if f:
            f.close()


def bits_of(ranges, n):
    bits = [0] * n
    for a, b in ranges:
        for i in range(a, b + 1):
            bits[i] = 1
    return tuple(bits)


def check_log(sim, label):
    synced = False
    for e in vdev.log(sim.dev):
        if e.op == vdev.FSYNC and not e.err:
            synced = True
        if e.op == vdev.WRITE:
            synced = False
        if e.op == vdev.IOCTL and e.off == fsim.FIEMAP:
            need(synced or e.flags & 1, "%s: mapped without synchronising the image first", label)
        if e.op == vdev.LSEEK and e.len in (3, 4):
            need(synced, "%s: SEEK_HOLE used without synchronising the image first", label)


def cli(case, ctx):
    """the create command: refused with a readable message, or a correct bmap"""
    compat = set_fs(ctx, case["fs"])
    vdev.redirect("/sys/module/zfs/", ctx.path("zfs") + "/")
    vdev.active(1)
    im = I.Image(4096, 5 * 4096 - 9, [(0, 1), (3, 3)])
    im.write(ctx.path("image"))
    for args in (["-o", ctx.path("out")], []):
        ctx.ev()
        r = run_cli(["create", ctx.path("image")] + args)
        what = "create, file system %r" % case["fs"]
        need((r.rc == 0) == compat, "%s: exit status %s\n%s", what, r.rc, r.err[-900:])
        if compat:
            b = I.parse_bmap(read_file(ctx.path("out")) if args else r.out)
            need(set(i for x in b["ranges"] for i in range(x[0], x[1] + 1)) >= {0, 1, 3}, "%s: the bmap misses data", what)
        else:
            need(r.rc == 1 and not r.crashed and "ERROR" in r.err, "%s: exit status %s without a readable error:\n%s", what, r.rc, r.err[-1500:])
        ctx.outcome("cli compatible" if compat else "cli refused")


def run(case, ctx):
    t = case["t"]
    if t == "table":
        compat = set_fs(ctx, case["fs"])
        k = 0
        for bsz in ("ok", "err", "zero"):
            for tmp in TMPS:
                for sync in (0, 1):
                    for api in ("filemap", "create"):
                        k += 1
                        table(case, ctx, compat, bsz, tmp, sync, api, k)
    elif t == "names":
        for fs in ("ext4", "zfs:1\n", "zfs:0\n", "zfs:none"):
            compat = set_fs(ctx, fs, case["name"], case["mount"], case["nums"])
            for fie in (0, 95):
                for api in ("filemap", "create"):
                    table(dict(case, fie=fie, seek=0, fs=fs), ctx, compat, "ok", None, 0, api, 0)
    elif t == "later":
        later(case, ctx)
    elif t == "flush":
        flush(case, ctx)
    elif t == "cli":
        cli(case, ctx)
    else:
        set_fs(ctx, "ext4")
        for api in ("filemap", "create"):
            sim = build(ctx, 95 if case["method"] == "seek" else 0, 0, "ok", None, 0)
            cwd = os.getcwd()
            os.chdir(sim.dir)
            try:
                vdev.probe("", -1)
                sim.path = "image"
                ctx.ev()
                res, err = attempt(sim, api, True, ctx)
            finally:
                os.chdir(cwd)
            # the probe lies on the real file system here
            if case["method"] == "fiemap":
                need(err is None and res[0] == MAPBITS, "relative path: %s %s", res, err)
            else:
                need(err is not None or res[0] == SEEKBITS, "relative path: %s", res)
            need(sorted(os.listdir(sim.dir)) == ["image"], "files left behind: %s", os.listdir(sim.dir))
        ctx.outcome("relative path")


def table(case, ctx, compat, bsz, tmp, sync, api, k):
    ctx.ev()
    fie, seek = case["fie"], case["seek"]
    sim = build(ctx, fie, seek, bsz, tmp, sync)
    label = "%s(): FIEMAP %s, SEEK_HOLE %s, FIGETBSZ %s, temporary file %s, fsync %s, file system %r" % (
        api, fie or "works", {0: "works", 1: "EINVAL", 2: "stub"}.get(seek, "error"), bsz, tmp or "works", "fails" if sync else "works", case["fs"])
    want = None
    if not sync and compat:
        if fie == 0:
            want = MAPBITS
        elif fie in (95, 25) and not tmp and seek == 0:
            want = SEEKBITS
    before = sorted(os.listdir(sim.dir))
    res, err = attempt(sim, api, k & 1, ctx)
    if want:
        need(err is None, "%s: refused with %s: %s", label, type(err).__name__, err)
        need(res == (want, 4096), "%s: blocks %s of size %s, should be %s", label, res[0], res[1], want)
        ctx.outcome("FIEMAP" if want is MAPBITS else "SEEK_HOLE")
    else:
        need(err is not None, "%s: no error, blocks %s", label, res)
        ctx.outcome("error " + type(err).__name__)
    check_log(sim, label)
    need(sorted(os.listdir(sim.dir)) == before, "%s: files left behind: %s", label, os.listdir(sim.dir))


def later(case, ctx):
    """Every later FIEMAP or lseek call that fails unexpectedly must end in an error."""
    set_fs(ctx, "ext4")
    m = case["method"]
    for api in ("filemap", "create"):
        sim = build(ctx, 95 if m == "seek" else 0, 0, "ok", None, 0)
        res, err = attempt(sim, api, False, ctx)
        need(err is None, "%s: %s", m, err)
        points = {}
        cnt = {}
        for e in vdev.log(sim.dev):
            cnt[e.op] = cnt.get(e.op, -1) + 1
            if e.op == vdev.IOCTL and e.off == fsim.FIEMAP and not e.err:
                points[(e.op, cnt[e.op])] = "FIEMAP query"
            if e.op == vdev.LSEEK and e.len in (3, 4):
                points[(e.op, cnt[e.op])] = "lseek"
            if e.op == vdev.FSYNC:
                points[(e.op, cnt[e.op])] = "fsync"
        combos = [(p,) for p in points] + (list(itertools.combinations(points, 2)) if case["two"] else [])
        for combo in combos:
            if any(p[0] == vdev.IOCTL for p in combo) and case["err"] in (95, 25) and (vdev.IOCTL, min(p[1] for p in points if p[0] == vdev.IOCTL)) in combo:
                continue     # the first answer decides on the method: in the table
            ctx.ev()
            sim = build(ctx, 95 if m == "seek" else 0, 0, "ok", None, 0)
            for op, nth in combo:
                vdev.fault(sim.dev, op, nth, vdev.ERR, case["err"])
            before = sorted(os.listdir(sim.dir))
            res, err = attempt(sim, api, False, ctx)
            need(err is not None, "%s(), %s: errno %d from %s ignored, blocks %s", api, m, case["err"],
                 ["%s (call %d)" % (points[p], p[1]) for p in combo], res)
            need(sorted(os.listdir(sim.dir)) == before, "files left behind: %s", os.listdir(sim.dir))
            ctx.outcome("later error")


def flush(case, ctx):
    """Data still buffered in the image's file object count."""
    from bmaptools import Filemap
    set_fs(ctx, "ext4")
    for fail in (0, 28, 5):
        ctx.ev()
        sim = build(ctx, 95 if case["method"] == "seek" else 0, 0, "ok", None, 0)
        f = open(sim.path, "r+b")
        f.write(b"data not flushed yet")
        vdev.log_reset()
        if fail:
            for k in range(4):
                vdev.fault(sim.dev, vdev.WRITE, k, vdev.ERR, fail)
        try:
            try:
                fm = Filemap.filemap(f)
                list(fm.get_mapped_ranges(0, fm.blocks_cnt))
                err = None
            except Exception as e:
                if not from_repo(e):
                    raise
                err = e
            log = vdev.log(sim.dev)
            if fail:
                need(err is not None, "the failing flush of the image was ignored")
            else:
                need(err is None, "error %s", err)
                need(any(e.op == vdev.WRITE and e.res == 20 for e in log), "the image was mapped without flushing its file object")
                check_log(sim, "file object with unflushed data")
        finally:
            vdev.active(0)
            vdev.clear_faults()
            f.close()
        ctx.outcome("flush")
