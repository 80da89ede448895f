"""C08: a generated bmap describes its image exactly."""
import hashlib, os, tempfile, shutil
from xml.etree import ElementTree
from mc import img as I, vdev, fsim
from mc.core import Fail, need
from mc.drive import read_file, diff_at

LEVEL = "exploration"
RULE = ("every hole layout of n blocks x partial last block x block size x hole-detection method x (checksums on/off, checksum type, image and bmap "
        "by path or as file object, file position, previous output) cycled so that all pairs occur; layouts whose data begin and end inside blocks; range lengths around the 1 MiB checksum chunk; "
        "sizes around every change of unit in the human-readable comments; images up to 8 PiB; every generated file is read by an independent "
        "parser, regenerated, and used for a copy; non-trivial: all")
ASSUMPTIONS = ["the kernel's answers about holes are right: nothing but zeroes is read from them"]
BOUNDS = {"quick": "n <= 7", "thorough": "n <= 11"}
BUDGET = {"quick": 500, "thorough": 820}
TYPES = ("sha256", "sha1", "sha512", "md5", "sha224", "sha384", "SHA256", "sha3_256", "blake2b")
OUTS = ("new path", "existing path", "longer existing path", "file", "tmpfile", "reused file")


def cases(tier):
    q = tier == "quick"
    k = 0
    for n in range(1, 8 if q else 12):
        for bits in I.layouts(n):
            for method in ("fiemap", "seek"):
                yield dict(t="layout", bits=bits, method=method, k=k)
                k += 1
    for n in range(1, 4 if q else 5):
        for bits in I.layouts(2 * n):
            for method in ("fiemap", "seek"):
                yield dict(t="sub", bits=bits, method=method)
    for typ in TYPES:
        for method in ("fiemap", "seek"):
            yield dict(t="type", typ=typ, method=method)
    for ln in (1, 2, 255, 256, 257, 511, 512, 513, 600) + (() if q else (254, 768, 1023, 1024, 1025)):
        for tail in (0, 1, 4095):
            yield dict(t="chunk", n=ln, bs=4096, tail=tail)
    for bs, ln, tail in ((1 << 20, 3, 5), (2 << 20, 2, 7), (512, 2047, 1), (512, 2048, 0), (512, 2049, 511), (65536, 17, 65000), (1 << 18, 5, 0)):
        yield dict(t="chunk", n=ln, bs=bs, tail=tail)
    for i in range(len(list(units()))):
        yield dict(t="units", i=i)
    for exp in (31, 32, 33, 40, 44, 53):
        for method in ("fiemap", "seek"):
            yield dict(t="far", exp=exp, method=method)
    for bits in I.layouts(3 if q else 5):
        yield dict(t="real", bits=bits)


def units():
    """(size, block size, unmapped blocks) where the comment on the mapped size gets longer or shorter than that on the image size"""
    for u in (10, 20, 30, 40, 50):
        for bs in (512, 4096, 65536):
            for miss in (0, 1, 2):
                for d in (0, 1, -1):
                    size = (1 << u) + d
                    if I.blocks_of(size, bs) > miss:
                        yield size, bs, miss
    for size in (1, 2, 9, 10, 99, 100, 511, 512, 513, 1023, 1024, 9999, 10000):
        for bs in (512, 4096, 65536, 1 << 17, 1 << 19, 1 << 20):
            yield size, bs, 0
    for size, bs, miss in ((1023 * 1024, 512, 1), (10 << 20, 4096, 3), (100 << 20, 4096, 1), (1000 << 20, 4096, 1), (999 << 30, 65536, 17)):
        yield size, bs, miss


def stat_of(p):
    st = os.stat(p)
    return st.st_size, st.st_mtime_ns, st.st_ino, st.st_mode


def generate(ctx, image, out, typ, checksums, k):
    """Runs BmapCreate; how image and output are given depends on k. Returns the bmap and the creator's counters."""
    from bmaptools import BmapCreate
    style = OUTS[k % len(OUTS)]
    bp = out
    keep = None
    if os.path.exists(bp):
        os.unlink(bp)
    if style == "existing path":
        open(bp, "w").write("previous content\n")
    if style in ("longer existing path", "reused file"):
        open(bp, "w").write("previous content\n" * 3000)
    if style.endswith("path"):
        target = bp
    elif style == "tmpfile":
        target = keep = tempfile.TemporaryFile("w+", dir=ctx.dir)
    else:
        target = keep = open(bp, "w+")
    f = None
    pos = (0, 1, 77, 5000)[k // 2 % 4]
    if k % 4 < 2:
        f = open(image, "rb")
        f.seek(pos)
    try:
        c = BmapCreate.BmapCreate(f if f else image, target, typ) if typ else BmapCreate.BmapCreate(f if f else image, target)
        c.generate(checksums) if not checksums or k & 1 else c.generate()
        if f:
            need(f.tell() == pos, "file position of the image was %d, is %d", pos, f.tell())
        nums = (c.image_size, c.block_size, c.blocks_cnt, c.mapped_cnt)
        if keep is None:
            data = read_file(bp)     # complete before the object goes away
        else:
            keep.seek(0)
            data = keep.read().encode()
        del c
        if keep is None:
            need(read_file(bp) == data, "the output file changes when the generator goes away")
        return data, nums
    finally:
        if f:
            f.close()
        if keep:
            keep.close()


def range_sum(image, typ, bs, size, first, last):
    h = hashlib.new(typ)
    with open(image, "rb") as f:
        f.seek(first * bs)
        left = min((last + 1) * bs, size) - first * bs
        while left > 0:
            b = f.read(min(left, 1 << 22))
            if not b:
                break
            left -= len(b)
            h.update(b)
    return h.hexdigest()


def verify(label, data, nums, image, size, bs, ranges, typ, checksums):
    typ = (typ or "sha256").lower()
    try:
        ElementTree.fromstring(data)
    except ElementTree.ParseError as e:
        raise Fail("%s: not well-formed XML: %s" % (label, e))
    p = I.parse_bmap(data)
    blocks = I.blocks_of(size, bs)
    mapped = sum(b - a + 1 for a, b in ranges)
    need(p["version"] == "2.0", "%s: version %s", label, p["version"])
    need([(a, b) for a, b, _ in p["ranges"]] == ranges, "%s: ranges %s, should be %s", label, [r[:2] for r in p["ranges"]][:40], ranges[:40])
    for tag, want in (("ImageSize", size), ("BlockSize", bs), ("BlocksCount", blocks), ("MappedBlocksCount", mapped)):
        need(p[tag] == str(want), "%s: %s is %s, should be %d", label, tag, p[tag], want)
    need(p["ChecksumType"] == typ, "%s: checksum type %s, should be %s", label, p["ChecksumType"], typ)
    need(I.selfsum_ok(data, p), "%s: the checksum of the bmap file is wrong", label)
    for a, b, attr in p["ranges"]:
        want = 'chksum="%s"' % range_sum(image, typ, bs, size, a, b) if checksums else ""
        need(attr == want, "%s: range %d-%d has attributes %s, should be %s", label, a, b, attr, want)
    need(nums == (size, bs, blocks, mapped), "%s: the generator's attributes are %s", label, nums)


def use(ctx, data, image, size, typ):
    """the copying code accepts it and reproduces the image"""
    from bmaptools import BmapCopy
    bp, dp = ctx.path("use.bmap"), ctx.path("dest")
    with open(bp, "wb") as f:
        f.write(data)
    with open(image, "rb") as src, open(dp, "wb+") as dest, open(bp, "rb") as b:
        BmapCopy.BmapCopy(src, dest, b, size).copy(False, True)
    got, want = read_file(dp), read_file(image)
    need(got == want, "a copy with the generated bmap differs from the image: %s", diff_at(got, want))


def explore(ctx, label, bs, size, ranges, method, k, typ=None, checksums=True, copy=True, content=True, exts=None, pieces=None):
    vdev.reset()
    if exts is None:
        exts = [(a * bs, (b - a + 1) * bs, 0) for a, b in ranges]
    sim = fsim.SimFile(ctx, size, bs, exts, pieces or [(a * bs, min((b + 1) * bs, size) - a * bs) for a, b in ranges],
                       fiemap_errno=95 if method == "seek" else 0, clip=k % 3)
    vdev.active(0)
    if content and pieces is None:
        I.Image(bs, size, ranges).write(sim.path)
    elif content:
        d = I.Image(bs, size, [(0, I.blocks_of(size, bs) - 1)]).bytes()
        with open(sim.path, "r+b") as f:
            for a, l in pieces:
                f.seek(a)
                f.write(d[a:a + l])
    before, data0 = stat_of(sim.path), read_file(sim.path) if size < 1 << 24 else None
    vdev.active(1)
    out = ctx.path("out.bmap")
    label = "%s (%s, block size %d, size %d, ranges %s, output: %s)" % (label, method, bs, size, ranges[:20], OUTS[k % len(OUTS)])
    try:
        data, nums = generate(ctx, sim.path, out, typ, checksums, k)
        ctx.ev()
        verify(label, data, nums, sim.path, size, bs, ranges, typ, checksums)
        again, _ = generate(ctx, sim.path, ctx.path("again.bmap"), typ, checksums, k + 1)
        need(again == data, "%s: generating again gives another file: %s", label, diff_at(again, data))
    finally:
        vdev.active(0)
    need(stat_of(sim.path) == before and (data0 is None or read_file(sim.path) == data0), "%s: the image was changed", label)
    if copy:
        use(ctx, data, sim.path, size, typ)


def run(case, ctx):
    t = case["t"]
    if t == "layout":
        bits, k = tuple(case["bits"]), case["k"]
        n = len(bits)
        for j, tail in enumerate((0, 1, 0.5, -1)):
            k += 1
            bs = (4096, 512, 1024, 65536)[(k + k // 4) % 4]
            tl = {0: 0, 1: 1, 0.5: bs // 2, -1: bs - 1}[tail]
            explore(ctx, "layout %s" % (bits,), bs, n * bs - tl, I.runs(bits), case["method"], k, None, (k // 2 + j) % 3 != 0)
        if case["method"] == "fiemap":
            # fragmented files, and extents after the end of the file
            for i, cut in enumerate(I.cuts(bits)):
                if len(cut) == len(I.runs(bits)) or i % 3:
                    continue
                bs = 4096
                exts = [(a * bs, (b - a + 1) * bs, 0) for a, b in cut] + [((n + 1) * bs, bs, 0)] * (i % 2)
                explore(ctx, "layout %s in extents %s" % (bits, cut), bs, n * bs - 3, I.runs(bits), "fiemap", k + i, exts=exts)
        ctx.outcome("layout")
    elif t == "sub":
        # data and holes which begin or end in the middle of a block
        bits = case["bits"]
        k = sum(b << i for i, b in enumerate(bits))
        for j in range(2):
            k += 1
            bs = (4096, 65536, 1 << 20)[k % 3]
            cut = (bs // 2, 1, bs - 1)[(k // 3 + j) % 3]
            pos = [i // 2 * bs + i % 2 * cut for i in range(len(bits) + 1)]
            size = pos[-1] - (0, (bs - cut) // 2)[j]
            pieces = [(pos[a], min(pos[b + 1], size) - pos[a]) for a, b in I.runs(bits)]
            seen = [bits[2 * i] | bits[2 * i + 1] for i in range(len(bits) // 2)]
            explore(ctx, "unaligned data %s" % pieces, bs, size, I.runs(seen), case["method"], k, exts=[(a, l, 0) for a, l in pieces], pieces=pieces)
        ctx.outcome("unaligned")
    elif t == "type":
        for k in range(6):
            for bits in ((1,), (0, 1, 1, 0, 1), (1, 0, 1)):
                for checksums in (True, False):
                    explore(ctx, "checksum type " + case["typ"], 512, len(bits) * 512 - k, I.runs(bits), case["method"], k, case["typ"], checksums)
        ctx.outcome("checksum type")
    elif t == "chunk":
        n, bs, tail = case["n"], case["bs"], case["tail"]
        for k, (ranges, nb) in enumerate((([(0, n - 1)], n), ([(1, n)], n + 1), ([(0, n - 1)], n + 2), ([(0, 0), (2, n + 1)], n + 2))):
            explore(ctx, "range of %d blocks" % n, bs, nb * bs - tail, ranges, ("fiemap", "seek")[k & 1], k + n)
        ctx.outcome("chunk boundary")
    elif t == "units":
        size, bs, miss = list(units())[case["i"]]
        nb = I.blocks_of(size, bs)
        big = nb * bs > 1 << 22
        ranges = [(0, nb - miss - 1)] if nb > miss else []
        for k in range(2):
            explore(ctx, "size %d" % size, bs, size, ranges, ("fiemap", "seek")[k], k + case["i"], "md5" if k else None, not big, copy=not big, content=not big)
        ctx.outcome("size unit")
    elif t == "far":
        bs = 4096
        base = (1 << case["exp"]) // bs
        for k, bits in enumerate(I.layouts(4)):
            ranges = ([(0, 1)] if k & 1 else []) + [(base - 2 + a, base - 2 + b) for a, b in I.runs(bits)]
            size = (base + 2) * bs - 9
            explore(ctx, "offset 2^%d" % case["exp"], bs, size, ranges, case["method"], k, copy=False, content=case["exp"] < 43, checksums=case["exp"] < 43)
        ctx.outcome("far offsets")
    else:
        real(case, ctx)


def real(case, ctx):
    """On the real file systems, with nothing simulated."""
    bits = tuple(case["bits"])
    n, bs = len(bits), 4096
    vdev.reset()
    for root in ("/tmp", "/dev/shm"):
        if not os.path.isdir(root) or not os.access(root, os.W_OK):
            continue
        d = tempfile.mkdtemp(prefix="mc.real.", dir=root)
        try:
            for k, tail in enumerate((0, 5)):
                size = n * bs - tail
                p = os.path.join(d, "image")
                im = I.Image(bs, size, I.runs(bits))
                im.write(p)
                fd = os.open(p, os.O_RDONLY)
                os.fsync(fd)
                data, pos = [], 0
                while isinstance(pos, int):
                    a = fsim.raw_seek(fd, pos, 3)
                    if not isinstance(a, int):
                        break
                    pos = fsim.raw_seek(fd, a, 4)
                    data.append((a, pos - a))
                os.close(fd)
                if data != fsim.data_of(bits, bs, size) or os.statvfs(p).f_bsize != bs or not all_hole_ok(d):
                    ctx.outcome("real %s: no usable hole support" % root)
                    continue
                before = stat_of(p)
                out, nums = generate(ctx, p, os.path.join(d, "out.bmap"), None, True, sum(bits) + k)
                verify("on %s, layout %s" % (root, bits), out, nums, p, size, bs, I.runs(bits), None, True)
                need(stat_of(p) == before and read_file(p) == im.bytes(), "on %s: the image was changed", root)
                use(ctx, out, p, size, None)
                ctx.outcome("real " + root)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def all_hole_ok(d):
    p = os.path.join(d, "probe")
    with open(p, "wb+") as f:
        f.truncate(4096)
        return fsim.raw_seek(f.fileno(), 0, 4) == 0
