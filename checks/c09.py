"""C09: hole maps are exact for every layout, query window and method."""
import itertools, os, tempfile, shutil
from mc import img as I, vdev, fsim
from mc.core import Fail, need, HarnessError

LEVEL = "exploration"
RULE = ("every layout of n blocks x every cut of its mapped runs into extents (incl. extents beyond the end of the file) x partial last block x "
        "how extents are clipped to the query x block size, on a simulated kernel; on each, every window is queried for mapped and unmapped "
        "ranges and every block singly, also with the queries interleaved; the same for extents and data which begin and end inside blocks (every layout of halves, and of first byte, middle and last byte, of n blocks); files of more extents than one answer holds, with every small layout "
        "at the answer boundary; all layouts of a few blocks on the real file systems. Each execution is one window of one file; non-trivial: all")
ASSUMPTIONS = ["the kernel returns as many extents as fit the buffer it is given"]
BOUNDS = {"quick": "n <= 5 (FIEMAP, all cuts), n <= 7 (SEEK_HOLE); real file systems n <= 3; unaligned n <= 3", "thorough": "n <= 7 (FIEMAP), n <= 10 (SEEK_HOLE); real n <= 6; unaligned n <= 4"}
BUDGET = {"quick": 500, "thorough": 820}


def cases(tier):
    q = tier == "quick"
    for n in range(1, 6 if q else 8):
        for bits in I.layouts(n):
            yield dict(t="fiemap", bits=bits)
    for n in range(1, 8 if q else 11):
        for bits in I.layouts(n):
            yield dict(t="seek", bits=bits)
    for n in range(1, 4 if q else 7):
        for bits in I.layouts(n):
            yield dict(t="real", bits=bits)
    for split in ("half", "edge"):
        for n in range(1, 4 if q else 5):
            for bits in I.layouts(n * SPLITS[split]):
                yield dict(t="sub", split=split, bits=bits)
    for style in (0, 1, 2, 3):
        for bits in I.layouts(4 if q else 5):
            yield dict(t="many", style=style, bits=bits)
    for where in (2 ** 31, 2 ** 32, 2 ** 40):
        for method in ("fiemap", "seek"):
            yield dict(t="far", at=where, method=method)


SPLITS = {"half": 2, "edge": 3}


def sub(case, ctx):
    """Data and holes which do not begin and end at block boundaries: a block with any data in it is mapped."""
    from bmaptools import Filemap
    bits = tuple(case["bits"])
    per = SPLITS[case["split"]]
    n = len(bits) // per
    k = sum(b << i for i, b in enumerate(bits))
    bs = (4096, 512, 65536, 1 << 20)[k % 4]
    cut = [0, bs // 2] if case["split"] == "half" else [0, 1, bs - 1]
    pos = [b * bs + c for b in range(n) for c in cut] + [n * bs]
    runs = [(pos[a], pos[b + 1]) for a, b in I.runs(bits)]
    blocks = tuple(int(any(bits[b * per:(b + 1) * per])) for b in range(n))
    # a last block which is complete, ends in the middle of its last piece, or with the piece before
    for j, end in enumerate((n * bs, (pos[-2] + n * bs + 1) // 2, pos[-2])):
        data = [(a, min(b, end) - a) for a, b in runs if a < end]
        seen = tuple(int(any(a < (i + 1) * bs and a + l > i * bs for a, l in data)) for i in range(n))
        one = [(pos[i], pos[i + 1] - pos[i], 0) for i, b in enumerate(bits) if b and pos[i] < end]
        for clip in (0, 1, 2):
            exts = [(a, l, 0) for a, l in data] if clip == 1 or k & 1 else one
            sim = fsim.SimFile(ctx, end, bs, exts, data, clip=clip)
            fm, f = opened(Filemap.FilemapFiemap, sim, k & 1)
            check_map(ctx, fm, seen, "FIEMAP, block size %d, extents %s, size %d, clip %d" % (bs, exts, end, clip))
            del fm
            if f:
                f.close()
        sim = fsim.SimFile(ctx, end, bs, [], data, fiemap_errno=95)
        fm, f = opened(Filemap.FilemapSeek, sim, k & 1)
        check_map(ctx, fm, seen, "SEEK_HOLE, block size %d, data %s, size %d" % (bs, data, end))
        del fm
        if f:
            f.close()
    ctx.outcome("unaligned")


def opened(cls, sim, by_path):
    if by_path:
        return cls(sim.path), None
    f = open(sim.path, "rb")
    return cls(f), f


def clip_ranges(rs, start, count):
    return [(max(a, start), min(b, start + count - 1)) for a, b in rs if a < start + count and b >= start]


def check_map(ctx, fm, bits, label, windows=None, interleave=True):
    """All queries of one object."""
    n = len(bits)
    mapped = I.runs(bits)
    holes = I.runs([1 - b for b in bits])
    need(fm.blocks_cnt == n, "%s: %d blocks reported", label, fm.blocks_cnt)
    if windows is None:
        windows = [(s, c) for s in range(n) for c in range(1, n - s + 1)]
    for s, c in windows:
        ctx.ev()
        wm, wh = clip_ranges(mapped, s, c), clip_ranges(holes, s, c)
        gm = fsim.take(fm.get_mapped_ranges(s, c), n, label)
        need(gm == wm, "%s: mapped ranges of window (%d, %d): %s, should be %s", label, s, c, gm[:30], wm[:30])
        gh = fsim.take(fm.get_unmapped_ranges(s, c), n, label)
        need(gh == wh, "%s: unmapped ranges of window (%d, %d): %s, should be %s", label, s, c, gh[:30], wh[:30])
    if n < 64:
        for b in range(n):
            need(bool(fm.block_is_mapped(b)) == bool(bits[b]), "%s: block_is_mapped(%d) is wrong", label, b)
            need(bool(fm.block_is_unmapped(b)) == (not bits[b]), "%s: block_is_unmapped(%d) is wrong", label, b)
        if interleave:
            got = {0: [], 1: []}
            its = [fm.get_mapped_ranges(0, n), fm.get_unmapped_ranges(0, n)]
            live = [0, 1]
            b = 0
            while live:
                for k in list(live):
                    try:
                        got[k].append(tuple(next(its[k])))
                        need(len(got[k]) < n + 5, "%s: endless ranges: %s", label, got[k][:5])
                    except StopIteration:
                        live.remove(k)
                    fm.block_is_mapped(b % n)
                    b += 1
                    fsim.take(fm.get_mapped_ranges(b % n, n - b % n), n, label)
            need(got[0] == mapped and got[1] == holes, "%s: interleaved queries give mapped %s, unmapped %s", label, got[0], got[1])


def extent_variants(bits, bs):
    """Every list of extents with this layout: cuts of the runs, last extent longer than the file, extents after the end."""
    n = len(bits)
    for ranges in I.cuts(bits):
        base = [(a * bs, (b - a + 1) * bs, 0) for a, b in ranges]
        yield base, "cut %s" % ranges
        yield base + [((n + 1) * bs, 2 * bs, 0)], "cut %s and an extent after the end" % ranges
        if bits[-1]:
            o, l, f = base[-1]
            yield base[:-1] + [(o, l + 2 * bs, f)], "cut %s, last extent longer" % ranges
            yield base + [(n * bs, bs, 0)], "cut %s, continued after the end" % ranges


def run(case, ctx):
    from bmaptools import Filemap
    t = case["t"]
    if t == "fiemap":
        bits = tuple(case["bits"])
        n = len(bits)
        k = 0
        for exts0, label in extent_variants(bits, 1):
            for clip in (0, 1, 2):
                k += 1
                bs = (4096, 512, 65536)[k % 3]
                exts = [(o * bs, l * bs, f) for o, l, f in exts0]
                size = n * bs - (0, bs - 1, 7)[(k // 3 + k) % 3]
                sim = fsim.SimFile(ctx, size, bs, exts, fsim.data_of(bits, bs, size), clip=clip)
                fm, f = opened(Filemap.FilemapFiemap, sim, k & 1)
                check_map(ctx, fm, bits, "FIEMAP, layout %s, %s, clip %d, size %d, block size %d" % (bits, label, clip, size, bs))
                del fm
                if f:
                    f.close()
        ctx.outcome("fiemap")
    elif t == "seek":
        bits = tuple(case["bits"])
        n = len(bits)
        for k, (bs, tail) in enumerate(((4096, 0), (4096, 4095), (512, 100), (65536, 1))):
            size = n * bs - tail
            sim = fsim.SimFile(ctx, size, bs, [], fsim.data_of(bits, bs, size), fiemap_errno=95)
            fm, f = opened(Filemap.FilemapSeek, sim, k & 1)
            check_map(ctx, fm, bits, "SEEK_HOLE, layout %s, size %d, block size %d" % (bits, size, bs))
            del fm
            if f:
                f.close()
        ctx.outcome("seek")
    elif t == "sub":
        sub(case, ctx)
    elif t == "many":
        many(case, ctx)
    elif t == "far":
        bs, at = 4096, case["at"]
        base = at // bs - 2
        for bits in I.layouts(4):
            n = base + 4
            size = n * bs - 11
            rs = [(base + a, base + b) for a, b in I.runs(bits)]
            exts = [(a * bs, (b - a + 1) * bs, 0) for a, b in rs]
            sim = fsim.SimFile(ctx, size, bs, exts, [(o, min(l, size - o)) for o, l, _ in exts])
            cls = Filemap.FilemapFiemap if case["method"] == "fiemap" else Filemap.FilemapSeek
            fm, f = opened(cls, sim, True)
            holes = []
            pos = 0
            for a, b in rs:
                if a > pos:
                    holes.append((pos, a - 1))
                pos = b + 1
            if pos < n:
                holes.append((pos, n - 1))
            for s, c in [(0, n), (base, 4), (base - 1, 4), (base + 1, 3), (base + 3, 1), (1, n - 2), (base - 3, 2)]:
                ctx.ev()
                gm, gh = fsim.take(fm.get_mapped_ranges(s, c), n, case["method"]), fsim.take(fm.get_unmapped_ranges(s, c), n, case["method"])
                need(gm == clip_ranges(rs, s, c) and gh == clip_ranges(holes, s, c),
                     "%s, offset %d, layout %s, window (%d, %d): %s and %s", case["method"], at, bits, s, c, gm, gh)
            for b in range(4):
                need(bool(fm.block_is_mapped(base + b)) == bool(bits[b]), "%s, offset %d: block_is_mapped(%d)", case["method"], at, base + b)
        ctx.outcome("far offsets")
    else:
        real(case, ctx)


def many(case, ctx):
    """A small layout placed so that it straddles the end of the first and second answer."""
    from bmaptools import Filemap
    bs = 4096
    small = tuple(case["bits"])
    sim = fsim.SimFile(ctx, bs, bs, [(0, bs, 0)], [(0, bs)])
    fm = Filemap.FilemapFiemap(sim.path)
    list(fm.get_mapped_ranges(0, 1))
    caps = [e.len for e in vdev.log(sim.dev) if e.op == vdev.IOCTL and e.off == fsim.FIEMAP and e.len]
    del fm
    cap = max(caps) if caps else 4680
    if cap > 20000:
        ctx.outcome("answers too large")
        return
    for extra in range(-3, 3):
        k = cap + extra  # extents before the small layout
        if case["style"] == 0:      # single blocks with holes between
            pre = [(2 * i, 2 * i) for i in range(k)]
            nb = 2 * k
        elif case["style"] == 1:    # one mapped run in single-block extents
            pre = [(i, i) for i in range(k)]
            nb = k
        else:                       # pairs: hole every third block
            pre = [(i + i // 2, i + i // 2) for i in range(k)]
            nb = k + k // 2 + 1
        if case["style"] == 2 and extra % 2:
            continue
        if case["style"] == 3:
            # every other block in two extents, which do not fill it
            pre = [(i // 2 * 2, i // 2 * 2) for i in range(k)]
            nb = k // 2 * 2 + 2
        bits = bytearray(nb)
        for a, b in pre:
            bits[a] = 1
        bits = tuple(bits) + small
        n = len(bits)
        exts = [(a * bs + (i & 1) * 2000, 1500, 0) if case["style"] == 3 else (a * bs, bs, 0) for i, (a, _) in enumerate(pre)]
        exts += [((nb + i) * bs, bs, 0) for i, b in enumerate(small) if b]
        size = n * bs - 5
        sim = fsim.SimFile(ctx, size, bs, exts, [])
        fm = Filemap.FilemapFiemap(sim.path)
        wins = [(0, n), (0, nb), (1, n - 1), (nb - 3, n - nb + 3)]
        check_map(ctx, fm, bits, "FIEMAP, %d extents, style %d, end %s" % (len(exts), case["style"], small), wins)
        del fm
    ctx.outcome("several answers")


def raw_supported(path, kind):
    fd = os.open(path, os.O_RDONLY)
    try:
        if kind == "fiemap":
            return isinstance(fsim.raw_fiemap(fd, 0, 4096), list)
        return True
    finally:
        os.close(fd)


def real(case, ctx):
    """The same queries on the real file systems; their raw answers must also be those of the simulation."""
    from bmaptools import Filemap
    bits = tuple(case["bits"])
    n, bs = len(bits), 4096
    for root in ("/tmp", "/dev/shm", "/var/tmp"):
        if not os.path.isdir(root) or not os.access(root, os.W_OK):
            continue
        d = tempfile.mkdtemp(prefix="mc.real.", dir=root)
        try:
            for tail in (0, 3):
                size = n * bs - tail
                p = os.path.join(d, "image")
                with open(p, "wb") as f:
                    for a, b in I.runs(bits):
                        f.seek(a * bs)
                        f.write(b"x" * (min((b + 1) * bs, size) - a * bs))
                    f.truncate(size)
                    f.flush()
                    os.fsync(f.fileno())
                fd = os.open(p, os.O_RDONLY)
                if os.fstat(fd).st_blksize != bs or os.statvfs(p).f_bsize != bs:
                    os.close(fd)
                    ctx.outcome("block size of %s differs" % root)
                    continue
                # is the file laid out as intended, according to the kernel itself?
                exts = fsim.raw_fiemap(fd, 0, size + bs)
                data = []
                pos = 0
                while isinstance(pos, int):
                    a = fsim.raw_seek(fd, pos, 3)
                    if not isinstance(a, int):
                        break
                    pos = fsim.raw_seek(fd, a, 4)
                    data.append((a, pos - a))
                want = fsim.data_of(bits, bs, size)
                probe = os.open(os.path.join(d, "p"), os.O_RDWR | os.O_CREAT)
                os.ftruncate(probe, bs)
                stub = fsim.raw_seek(probe, 0, 4) != 0
                os.close(probe)
                ok_seek = data == want and not stub
                ok_map = isinstance(exts, list) and [b for b in range(n) if any(o <= b * bs < o + l for o, l, _ in exts)] == \
                    [b for b in range(n) if bits[b]] and all(o % bs == 0 and l % bs == 0 for o, l, _ in exts)
                queries = [(s * bs, c * bs) for s in range(n) for c in range(1, n - s + 1)]
                rmap = [fsim.raw_fiemap(fd, s, c) for s, c in queries] if ok_map else []
                offs = sorted({o for b in range(n + 1) for o in (b * bs, b * bs + 5)})
                rseek = [(o, w, fsim.raw_seek(fd, o, w)) for o in offs for w in (3, 4)] if ok_seek else []
                os.close(fd)
                for cls, ok in ((Filemap.FilemapFiemap, ok_map), (Filemap.FilemapSeek, ok_seek)):
                    if ok:
                        fm = cls(p)
                        check_map(ctx, fm, bits, "%s on %s, layout %s, size %d" % (cls.__name__, root, bits, size))
                        del fm
                # conformance of the simulation
                if ok_map or ok_seek:
                    same = None
                    for clip in (0, 1, 2):
                        sim = fsim.SimFile(ctx, size, bs, [(o, l, 0) for o, l, _ in exts] if ok_map else [], want, clip=clip)
                        fd = os.open(sim.path, os.O_RDONLY)
                        if ok_map and [strip(x) for x in rmap] == [strip(fsim.raw_fiemap(fd, s, c)) for s, c in queries]:
                            same = clip
                        if ok_seek:
                            for o, w, r in rseek:
                                g = fsim.raw_seek(fd, o, w)
                                if g != r:
                                    raise HarnessError("the simulated lseek(%d, %d) gives %s, the kernel %s (%s, %s)" % (o, w, g, r, root, bits))
                            ctx.count("lseek answers compared with the kernel", len(rseek))
                        os.close(fd)
                        vdev.reset()
                    if ok_map:
                        if same is None:
                            raise HarnessError("the simulated FIEMAP differs from the kernel's (%s, layout %s): %s" % (root, bits, rmap))
                        ctx.count("FIEMAP answers compared with the kernel", len(rmap))
                    ctx.outcome("real " + root)
                else:
                    ctx.outcome("real %s: no usable hole support" % root)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def strip(x):
    return [(o, l) for o, l, _ in x]


def coverage(tot, outcomes, counts):
    return dict(traces_validated_against_impl=sum(counts.values()))
