"""C04: any corruption of checksummed image data is detected."""
import hashlib, itertools, os
from mc import img as I
from mc.core import Fail, need
from mc.drive import open_source, read_file, diff_at, run_cli

LEVEL = "exploration"
RULE = ("every layout x cut into ranges x set of ranges that carry a checksum x format version x checksum type, each with every "
        "corruption of one block (first, middle, last byte, bit flips and lost block), every pair of corrupted blocks, every exchange "
        "of two blocks, and the clean image; every evaluation copies the real image with the real bmap; non-trivial: something is mapped")
ASSUMPTIONS = ["digest collisions do not occur for the enumerated corruptions"]
BOUNDS = {"quick": "n <= 4 blocks, multi-batch ranges of up to 20 MiB", "thorough": "n <= 6 blocks"}
NEW = sorted(x for x in hashlib.algorithms_guaranteed if not x.startswith("shake"))


def cases(tier):
    nmax = 4 if tier == "quick" else 6
    for n in range(1, nmax + 1):
        for bits in I.layouts(n):
            if any(bits):
                yield dict(t="small", bits=bits)
    for cs in NEW:
        for ver in ("1.4", "2.0"):
            yield dict(t="types", cs=cs, ver=ver)
    for ver in I.VERSIONS:
        yield dict(t="types", cs="sha256", ver=ver)
    # ranges of several batches: 1 MiB batches are 4, 2 and 1 blocks
    for bs, n in ((262144, 9), (262144, 4), (524288, 5), (1 << 20, 3), (1 << 20, 8), (3 << 19, 3), (4096, 600)):
        for two in (0, 1):
            yield dict(t="multi", bs=bs, n=n, two=two)
    for ver in ("1.1", "1.2", "1.3", "1.4", "2.0"):
        yield dict(t="cli", ver=ver)


def attempt(ctx, kind, verify, bmap, data, size=None):
    """returns (error or None, destination)"""
    from bmaptools import BmapCopy
    ip, bp, dp = ctx.path("image"), ctx.path("x.bmap"), ctx.path("dest")
    with open(ip, "wb") as f:
        f.write(data)
    if bmap is not None:
        with open(bp, "wb") as f:
            f.write(bmap)
    ctx.ev()
    src = open_source(kind, ip)
    try:
        with open(dp, "wb+") as dest, open(bp, "rb") as b:
            try:
                BmapCopy.BmapCopy(src, dest, b, size).copy(False, verify)
            except BmapCopy.Error as e:
                return e, None
        return None, read_file(dp)
    finally:
        src.close()


def result_of(im, data):
    """what copying `data` with the block map of im must give"""
    out = bytearray(im.size)
    for a, b in im.ranges:
        out[a * im.bs:(b + 1) * im.bs] = data[a * im.bs:min((b + 1) * im.bs, im.size)]
    return bytes(out)


def damages(im, n, pairs=True):
    """(label, blocks touched, data)"""
    base = im.bytes()
    bs = im.bs
    yield "clean", (), base

    def cor(blocks, how):
        d = bytearray(base)
        for b in blocks:
            a, e = b * bs, min((b + 1) * bs, im.size)
            if how == "first":
                d[a] ^= 1
            elif how == "mid":
                d[(a + e) // 2] ^= 0x80
            elif how == "last":
                d[e - 1] ^= 0x10
            elif how == "zero":
                d[a:e] = bytes(e - a)
            elif how == "same":  # the same change in each block, so that sums could cancel
                d[a] ^= 0xff
        return bytes(d)
    for b in range(n):
        for how in ("first", "mid", "last", "zero"):
            yield "%s byte of block %d" % (how, b), (b,), cor((b,), how)
    if pairs:
        for b, c in itertools.combinations(range(n), 2):
            yield "blocks %d and %d" % (b, c), (b, c), cor((b, c), "same")
            if (c + 1) * bs <= im.size:
                d = bytearray(base)
                d[b * bs:(b + 1) * bs], d[c * bs:(c + 1) * bs] = base[c * bs:(c + 1) * bs], base[b * bs:(b + 1) * bs]
                yield "blocks %d and %d exchanged" % (b, c), (b, c), bytes(d)


def judge(ctx, im, covered, kind, bmap, label, dam, verify=True):
    dlabel, touched, data = dam
    err, got = attempt(ctx, kind, verify, bmap, data)
    bad = verify and bool(set(touched) & covered)
    if bad:
        need(err is not None, "%s: %s: copying reported success", label, dlabel)
        ctx.outcome("detected")
    else:
        need(err is None, "%s: %s (verify %s): refused: %s", label, dlabel, verify, err)
        want = result_of(im, data)
        need(got == want, "%s: %s: %s", label, dlabel, diff_at(got, want))
        ctx.outcome("not covered" if touched else "clean")


def covered_blocks(ranges, chk):
    return {i for k, (a, b) in enumerate(ranges) if chk == "all" or k in chk for i in range(a, b + 1)}


def run(case, ctx):
    t = case["t"]
    if t == "small":
        bits = tuple(case["bits"])
        n = len(bits)
        for ci, ranges in enumerate(I.cuts(bits)):
            for tail in (0, 100):
                im = I.Image(512, n * 512 - (512 - tail if tail else 0), ranges, junk=True)
                dams = list(damages(im, n, pairs=tail == 0))
                subsets = [set(s) for k in range(len(ranges) + 1) for s in itertools.combinations(range(len(ranges)), k)]
                for sub in subsets:
                    full = len(sub) == len(ranges)
                    for ver in (("1.1", "1.2", "1.3", "2.0") if full else ("1.2", "2.0") if tail else ("2.0",)):
                        bmap = I.make_bmap(im, ver, chk=sub)
                        cov = covered_blocks(ranges, sub)
                        label = "layout %s ranges %s tail %d version %s checksums on ranges %s" % (bits, ranges, tail, ver, sorted(sub))
                        for dam in dams:
                            judge(ctx, im, cov, "file" if ci & 1 else "fwd", bmap, label, dam)
                            if full and ver in ("1.1", "2.0"):
                                judge(ctx, im, cov, "file", bmap, label, dam, verify=False)
    elif t == "types":
        ver = case["ver"]
        for ranges in ([(0, 2)], [(0, 0), (2, 3)], [(1, 1), (2, 2), (4, 4)]):
            im = I.Image(1024, 5 * 1024 - 17, ranges, junk=True)
            bmap = I.make_bmap(im, ver, cs=case["cs"])
            cov = covered_blocks(ranges, "all") if ver != "1.0" else set()
            for dam in damages(im, 5):
                for verify in (True, False):
                    judge(ctx, im, cov, "file", bmap, "version %s %s ranges %s" % (ver, case["cs"], ranges), dam, verify)
        # checksums that belong to another range
        if ver != "1.0":
            im = I.Image(1024, 5 * 1024, [(0, 0), (2, 3)], junk=True)
            new = ver in ("1.4", "2.0")
            sums = [hashlib.new(case["cs"] if new else "sha1", im.mapped_bytes(a, b)).hexdigest() for a, b in im.ranges]
            for cm in ({0: sums[1], 1: sums[0]}, {0: sums[0], 1: sums[0]}, {0: "0" * len(sums[0])}, {0: sums[0][:-1]}, {1: sums[1][:8]}, {1: sums[1][1:]}, {0: sums[0] + "0"}, {0: sums[0][0]}, {0: "-"}, {1: sums[1][:-1] + ("0" if sums[1][-1] != "0" else "1")}):
                err, _ = attempt(ctx, "file", True, I.make_bmap(im, ver, cs=case["cs"], chkmap=cm), im.bytes())
                need(err is not None, "version %s %s: checksum of a different range was accepted", ver, case["cs"])
                ctx.outcome("detected")
    elif t == "multi":
        bs, n = case["bs"], case["n"]
        ranges = [(1, n)] + ([(n + 2, n + 2 + n)] if case["two"] else [])
        im = I.Image(bs, (ranges[-1][1] + 1) * bs - 333, ranges, junk=False)
        base = im.bytes()
        bmap = I.make_bmap(im)
        label = "block size %d ranges %s" % (bs, ranges)
        cov = covered_blocks(ranges, "all")
        step = max(1, n // 8)
        for b in sorted({x for a, e in ranges for x in list(range(a, e + 1, step)) + [e]} | {0, n + 1}):
            if b * bs >= im.size:
                continue
            for pos in (b * bs, min((b + 1) * bs, im.size) - 1):
                d = bytearray(base)
                d[pos] ^= 0x40
                judge(ctx, im, cov, "fwd" if b & 1 else "file", bmap, label, ("byte %d of block %d" % (pos - b * bs, b), (b,), bytes(d)))
        judge(ctx, im, cov, "file", bmap, label, ("clean", (), base))
        if n > 1:
            d = bytearray(base)
            d[bs:2 * bs], d[n * bs - bs:n * bs] = base[n * bs - bs:n * bs], base[bs:2 * bs]
            judge(ctx, im, cov, "file", bmap, label, ("first block and a later one exchanged", (1, n - 1) if n > 2 else (), bytes(d)))
    else:
        im = I.Image(4096, 5 * 4096, [(0, 1), (3, 4)], junk=True)
        for dam in damages(im, 5, pairs=False):
            for extra in ((), ("--no-verify",)):
                ctx.ev()
                open(ctx.path("image"), "wb").write(dam[2])
                open(ctx.path("x.bmap"), "wb").write(I.make_bmap(im, case["ver"]))
                r = run_cli(["copy", *extra, "--bmap", ctx.path("x.bmap"), ctx.path("image"), ctx.path("dest")])
                bad = not extra and set(dam[1]) & covered_blocks(im.ranges, "all")
                need(r.rc == (1 if bad else 0), "version %s %s %s: exit status %s\n%s", case["ver"], dam[0], extra, r.rc, r.err[-500:])
                if bad:
                    ctx.outcome("cli: detected")
                else:
                    got, want = read_file(ctx.path("dest")), result_of(im, dam[2])
                    need(got == want, "%s %s: %s", dam[0], extra, diff_at(got, want))
                    ctx.outcome("cli: copied")
