"""C05: an image that does not match its bmap (or its stated size) is never reported as copied."""
import itertools, os, re, subprocess
from mc import img as I
from mc.core import Fail, need
from mc.drive import open_source, read_file, diff_at, run_cli

LEVEL = "exploration"
RULE = ("every layout x every truncation of the source at block granularity (byte granularity around every block edge) x source kind x "
        "verification x format version, every wrong MappedBlocksCount/BlocksCount/ImageSize and every wrong stated size within +-2 "
        "blocks, with and without bmap; multi-batch images cut at every block; every list of up to two (thorough: three) ranges out of all right, reversed, overlapping, too large and malformed ones for images of up to 3 blocks, with right and wrong mapped counts; non-trivial: something is mapped")
ASSUMPTIONS = []
BOUNDS = {"quick": "n <= 5 blocks; multi-batch images of up to 9 batches", "thorough": "n <= 7 blocks"}


def cases(tier):
    for n in range(1, 6 if tier == "quick" else 8):
        for bits in I.layouts(n):
            if any(bits):
                yield dict(t="cut", bits=bits)
                yield dict(t="counts", bits=bits)
    for bs, n in ((1 << 20, 9), (524288, 5), (262144, 9), (3 << 19, 4), (4096, 520)):
        yield dict(t="multi", bs=bs, n=n)
    for n in (0, 1, 3, 256, 257, 512, 700):
        yield dict(t="nobmap", n=n)
    for n in range(1, 4):
        for a in range(len(texts(n))):
            yield dict(t="maps", n=n, a=a, depth=2 if tier == "quick" else 3)
    for n, depth in ((2, 4), (3, 4)) if tier == "quick" else ((2, 5), (3, 4), (4, 4)):
        for a in range(len(texts(n, True))):
            yield dict(t="maps", n=n, a=a, depth=depth, proper=1)
    for k in ("plain", "gz", "gzcut", "mapped", "blocks", "size"):
        yield dict(t="cli", k=k)


def texts(n, proper=False):
    """Spellings of ranges, good and bad, for an image of n blocks."""
    if proper:
        return ["%d" % a for a in range(n + 1)] + ["%d-%d" % (a, b) for b in range(n + 1) for a in range(b)]
    res = ["%d" % a for a in range(n + 2)] + ["%d-%d" % (a, b) for a in range(n + 2) for b in range(n + 2)]
    return res + ["", "-", "0-", "-0", "0-0-0", "0 0", "0,0", "a", "0x0", "0.0", "1e0", "0-b", "0;0", "%d" % 2 ** 40, "0-%d" % 2 ** 64]


def meaning(text):
    if not re.fullmatch(r"\d+(-\d+)?", text):
        return None
    x = [int(v) for v in text.split("-")]
    return (x[0], x[-1]) if x[0] <= x[-1] else None


def maps(case, ctx):
    """Block maps which do and do not fit the other things that the bmap states."""
    n, bs = case["n"], 512
    al = texts(n, "proper" in case)
    first = al[case["a"]]
    lists = [[first]] + [[first] + list(r) for d in range(1, case["depth"]) for r in itertools.product(al, repeat=d)]
    im = I.Image(bs, n * bs - 9, [])
    full = I.Image(bs, 2 * n * bs, [(0, 2 * n - 1)]).bytes()
    for k, l in enumerate(lists):
        rs = [meaning(x) for x in l]
        count = sum(b - a + 1 for a, b in rs) if None not in rs else len(l)
        for mapped in sorted({min(count, 1 << 70), n}):
            good = None not in rs and mapped == count and all(b < n for _, b in rs) and len({i for a, b in rs for i in range(a, b + 1)}) == count
            xml = I.make_bmap(im, ("1.2", "1.0")[k & 1], mapped=mapped)
            body = "".join("        <Range> %s </Range>\n" % x for x in l)
            xml = xml.replace(b"    </BlockMap>", body.encode() + b"    </BlockMap>")
            for data, kind in ((full[:im.size], "file"), (full, "fwd")) if k % 2 else ((full[:im.size], "fwd"), (full, "file")):
                err, got = attempt(ctx, kind, bool(k & 2), xml, data)
                label = "image of %d blocks, bmap with ranges %s and %d mapped blocks, source %s of %d bytes" % (n, l, mapped, kind, len(data))
                if not good:
                    need(err is not None, "%s: reported success", label)
                    ctx.outcome("detected")
                elif err is None:
                    want = bytearray(im.size)
                    for a, b in rs:
                        want[a * bs:(b + 1) * bs] = full[a * bs:min((b + 1) * bs, im.size)]
                    need(got == bytes(want), "%s: %s", label, diff_at(got, bytes(want)))
                    ctx.outcome("complete")
                else:
                    need(rs != sorted(rs), "%s: refused: %s", label, err)
                    ctx.outcome("unsorted")


def attempt(ctx, kind, verify, bmap, data, size=None):
    from bmaptools import BmapCopy
    ip, bp, dp = ctx.path("image"), ctx.path("x.bmap"), ctx.path("dest")
    with open(ip, "wb") as f:
        f.write(data)
    if bmap is not None:
        with open(bp, "wb") as f:
            f.write(bmap)
    ctx.ev()
    src = open_source(kind, ip)
    b = open(bp, "rb") if bmap is not None else None
    try:
        with open(dp, "wb+") as dest:
            try:
                BmapCopy.BmapCopy(src, dest, b, size).copy(False, verify)
            except Exception as e:  # how readable the error is belongs to C07 and C15
                return e, None
            return None, read_file(dp)
    finally:
        src.close()
        if b:
            b.close()


def run(case, ctx):
    t = case["t"]
    if t == "cut":
        bits = tuple(case["bits"])
        n, bs = len(bits), 512
        last = max(i for i in range(n) if bits[i])
        for tail in (0, 77):
            size = n * bs - (bs - tail if tail else 0)
            for ranges in list(I.cuts(bits))[:4]:
                im = I.Image(bs, size, ranges, junk=True)
                data = im.bytes()
                need_bytes = min((last + 1) * bs, size)
                for ver in ("1.0", "1.2", "1.3", "2.0"):
                    for chk in ("all", "none") if ver != "1.0" else ("none",):
                        bmap = I.make_bmap(im, ver, chk=chk)
                        for verify in (True, False):
                            for kind in ("file", "fwd"):
                                edge = {0, size}
                                for b in range(n):
                                    edge |= {b * bs, b * bs + 1, b * bs + bs - 1}
                                for cut in sorted(e for e in edge if e <= size):
                                    err, got = attempt(ctx, kind, verify, bmap, data[:cut])
                                    label = "layout %s ranges %s size %d version %s checksums %s verify %s source %s cut to %d bytes" % (
                                        bits, ranges, size, ver, chk, verify, kind, cut)
                                    if cut >= need_bytes:
                                        if cut == size:
                                            need(err is None, "%s: complete image refused: %s", label, err)
                                        ctx.outcome("complete")
                                    else:
                                        need(err is not None, "%s: reported success", label)
                                        ctx.outcome("detected")
    elif t == "counts":
        bits = tuple(case["bits"])
        n, bs = len(bits), 512
        size = n * bs - 30
        im = I.Image(bs, size, I.runs(bits), junk=True)
        data = im.bytes()
        m = im.mapped_cnt()
        for ver in ("1.0", "1.2", "1.3", "2.0"):
            for verify in (True, False):
                for kind in ("file", "fwd"):
                    for d in (-2, -1, 1, 2):
                        for what, kw in (("mapped count", dict(mapped=m + d)), ("block count", dict(blocks=n + d)),
                                         ("image size", dict(size=size + d * bs, blocks=n)), ("image size", dict(size=size + d * bs))):
                            if any(v < 0 for v in kw.values()):
                                continue
                            cut_short = kw.get("size", size) < size and "blocks" not in kw
                            if kw.get("size", size) <= 0:
                                continue
                            stated = size if "size" in kw else None
                            err, _ = attempt(ctx, kind, verify, I.make_bmap(im, ver, **kw), data, stated)
                            need(err is not None, "layout %s version %s verify %s: wrong %s %s accepted", bits, ver, verify, what, kw)
                            ctx.outcome("detected")
                    for ds in (-bs, -1, 1, bs, 5 * bs):
                        if size + ds <= 0:
                            continue
                        err, _ = attempt(ctx, kind, verify, I.make_bmap(im, ver), data, size + ds)
                        need(err is not None, "layout %s version %s: stated size %d accepted for a bmap of %d bytes", bits, ver, size + ds, size)
                        ctx.outcome("detected")
                    err, _ = attempt(ctx, kind, verify, I.make_bmap(im, ver), data, size)
                    need(err is None, "layout %s version %s: matching image refused: %s", bits, ver, err)
                    ctx.outcome("complete")
    elif t == "maps":
        maps(case, ctx)
    elif t == "multi":
        bs, n = case["bs"], case["n"]
        im = I.Image(bs, n * bs, [(0, n // 2 - 1), (n // 2, n - 1)] if n > 3 else [(0, n - 1)])
        data = im.bytes()
        for chk in ("all", "none"):
            bmap = I.make_bmap(im, chk=chk)
            b = max(1, (1 << 20) // bs)
            cutsat = range(n) if n < 50 else sorted({0, 1, b - 1, b, b + 1, n // 2, 2 * b - 1, 2 * b, 2 * b + 1, n - 2, n - 1})
            for cut in cutsat:
                for kind in ("file", "fwd"):
                    for verify in (True, False):
                        err, _ = attempt(ctx, kind, verify, bmap, data[:cut * bs])
                        need(err is not None, "block size %d, %d blocks, checksums %s, verify %s: source of %d blocks reported as copied", bs, n, chk, verify, cut)
                        ctx.outcome("detected")
            err, _ = attempt(ctx, "fwd", True, bmap, data)
            need(err is None, "complete image refused: %s", err)
    elif t == "nobmap":
        n, bs = case["n"], 4096
        data = I.Image(bs, n * bs, [(0, n - 1)] if n else []).bytes()
        if n:
            for short in (1, 100, 4095):
                for kind in ("file", "fwd", "raw"):
                    err, _ = attempt(ctx, kind, True, None, data[:-short], n * bs)
                    need(err is not None, "no bmap: %d bytes reported as a complete copy of %d bytes", n * bs - short, n * bs)
                    ctx.outcome("detected")
        for d in (1, 2, 255, 256, 257, 600):
            for kind in ("file", "fwd", "raw"):
                for verify in (True, False):
                    err, _ = attempt(ctx, kind, verify, None, data, (n + d) * bs)
                    need(err is not None, "no bmap: %d blocks reported as a complete copy of %d blocks", n, n + d)
                    err, _ = attempt(ctx, kind, verify, None, data, (n + d) * bs - 4095)
                    need(err is not None, "no bmap: %d blocks reported as a complete copy of %d blocks", n, n + d)
                    ctx.outcome("detected")
    else:
        k = case["k"]
        im = I.Image(4096, 6 * 4096, [(0, 1), (4, 5)])
        data = im.bytes()
        kw, ip = {}, ctx.path("image")
        if k == "mapped":
            kw = dict(mapped=3)
        elif k == "blocks":
            kw = dict(blocks=7)
        elif k == "size":
            kw = dict(size=7 * 4096)
        for ver in ("1.2", "2.0"):
            for nv in ((), ("--no-verify",)):
                for cut in ((1, 4096, 3 * 4096, 5 * 4096) if k in ("plain", "gzcut") else (None,)):
                    ctx.ev()
                    with open(ip, "wb") as f:
                        f.write(data if cut is None else data[:cut])
                    src = ip
                    if k.startswith("gz"):
                        src = ip + ".gz"
                        with open(src, "wb") as f:
                            subprocess.run(["gzip", "-c", ip], stdout=f, check=True)
                    open(ctx.path("x.bmap"), "wb").write(I.make_bmap(im, ver, **kw))
                    r = run_cli(["copy", *nv, "--bmap", ctx.path("x.bmap"), src, ctx.path("dest")])
                    if k == "gz":
                        need(r.rc == 0 and read_file(ctx.path("dest")) == im.expected(), "complete compressed image: exit %s\n%s", r.rc, r.err)
                        ctx.outcome("cli complete")
                    else:
                        need(r.rc == 1, "%s cut %s version %s %s: exit %s\n%s", k, cut, ver, nv, r.rc, r.err[-600:])
                        ctx.outcome("cli detected")
