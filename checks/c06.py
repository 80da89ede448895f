"""C06: a corrupted bmap file is never acted upon."""
import os, re
from mc import img as I, vdev
from mc.core import Fail, need
from mc.drive import read_file, run_cli, diff_at

LEVEL = "exploration"
RULE = ("bmap files of formats 1.3, 1.4 and 2.0 (with checksums of several types): every single-byte substitution from an alphabet "
        "of replacement bytes at every offset, every deletion, duplication and insertion of a byte, every truncation, every lost, "
        "repeated or exchanged line, every exchange of two adjacent bytes, other values of the checksum itself; each edited file drives the real copy (API, and a subset "
        "through the command line); must be refused, unless the version was altered (then accepted only if the destination equals the one of the unaltered bmap); non-trivial: every edit")
ASSUMPTIONS = ["digest collisions do not occur for the enumerated edits"]
BOUNDS = {"quick": "11 replacement bytes per offset, 6 inserted bytes", "thorough": "all 255 replacement bytes, 40 inserted bytes"}
SUBST = [b"0", b"1", b"7", b"9", b" ", b"-", b"<", b">", b"a", b"\x00", b"\xff"]
INS = [b"0", b"1", b" ", b"\n", b"-", b"<"]
PART = 40


def images():
    im1 = I.Image(512, 9 * 512 - 100, [(0, 1), (3, 3), (5, 8)], junk=True)
    im2 = I.Image(512, 12 * 512, [(1, 10)], junk=True)
    return [im1, im2]


def files():
    ims = images()
    for v, cs in (("1.3", "sha1"), ("1.4", "sha256"), ("2.0", "sha256"), ("2.0", "md5")):
        for k, im in enumerate(ims):
            for chk in ("all", "none"):
                if (k or chk == "none") and cs == "md5":
                    continue
                yield dict(v=v, cs=cs, im=k, chk=chk)


def make(f):
    im = images()[f["im"]]
    return im, I.make_bmap(im, f["v"], cs=f["cs"], chk=f["chk"], comment="<!-- the block map -->\n")


def cases(tier):
    for f in files():
        im, data = make(f)
        yield dict(f, kind="intact")
        for kind in ("subst", "delete", "dup", "insert", "trunc", "swap"):
            for part in range(0, len(data), PART):
                yield dict(f, kind=kind, at=part)
        yield dict(f, kind="lines")
        yield dict(f, kind="fields")
    for v in ("1.3", "2.0"):
        yield dict(v=v, cs="sha256", im=0, chk="all", kind="cli")


def edits(kind, at, data, tier):
    full = tier == "thorough"
    rng = range(at, min(at + PART, len(data)))
    if kind == "subst":
        for i in rng:
            for c in ([bytes([x]) for x in range(256)] if full else SUBST + [bytes([data[i] ^ 1]), bytes([data[i] ^ 0x20]), bytes([data[i] ^ 0x80])]):
                if data[i:i + 1] != c:
                    yield "byte %d %r -> %r" % (i, data[i:i + 1], c), data[:i] + c + data[i + 1:]
    elif kind == "delete":
        for i in rng:
            for n in (1, 2, 5):
                yield "%d bytes at %d deleted" % (n, i), data[:i] + data[i + n:]
    elif kind == "dup":
        for i in rng:
            yield "byte %d doubled" % i, data[:i + 1] + data[i:]
    elif kind == "insert":
        for i in rng:
            for c in ([bytes([x]) for x in range(32, 72)] if full else INS):
                yield "%r inserted at %d" % (c, i), data[:i] + c + data[i:]
    elif kind == "trunc":
        for i in rng:
            yield "cut to %d bytes" % i, data[:i]
            yield "filled with zeros from %d" % i, data[:i] + b"\0" * (len(data) - i)
    elif kind == "swap":
        for i in rng:
            if i + 1 < len(data) and data[i] != data[i + 1]:
                yield "bytes %d and %d exchanged" % (i, i + 1), data[:i] + data[i + 1:i + 2] + data[i:i + 1] + data[i + 2:]
    elif kind == "fields":
        yield from fields(data)
    elif kind == "lines":
        ls = data.splitlines(True)
        for i in range(len(ls)):
            yield "line %d lost" % i, b"".join(ls[:i] + ls[i + 1:])
            yield "line %d repeated" % i, b"".join(ls[:i + 1] + ls[i:])
            for j in range(i + 1, len(ls)):
                yield "lines %d and %d exchanged" % (i, j), b"".join(ls[:i] + [ls[j]] + ls[i + 1:j] + [ls[i]] + ls[j + 1:])
                if full or j - i < 4:
                    yield "lines %d to %d lost" % (i, j), b"".join(ls[:i] + ls[j + 1:])


def version(data):
    m = re.search(rb"<bmap[^>]*version=[\"']([^\"']*)", data)
    return m.group(1).decode("latin-1") if m else None


def fields(data):
    """Alterations of the checksum itself."""
    m = re.search(rb"<(BmapFileSHA1|BmapFileChecksum)>\s*([0-9a-f]+)\s*</", data)
    a, b = m.span(2)
    old = m.group(2)
    for label, new in (("zeros", b"0" * len(old)), ("blanks", b" " * len(old)), ("nothing", b""), ("f", b"f" * len(old)), ("first half", old[:len(old) // 2]),
                       ("all but the last", old[:-1]), ("one more digit", old + b"0"), ("reversed", old[::-1]), ("letters", b"x" * len(old)), ("a sign", b"+" + old),
                       ("first half kept", old[:len(old) // 2] + b"0" * (len(old) - len(old) // 2)), ("second half kept", b"0" * (len(old) // 2) + old[len(old) // 2:])):
        yield "checksum replaced by " + label, data[:a] + new + data[b:]
        # and the rest altered as well
        c = data.replace(b"</Range>", b" </Range>", 1)
        if c.index(b" </Range>") > b:
            yield "ranges altered and checksum replaced by " + label, c[:a] + new + c[b:]
    yield "no checksum", data[:m.start()] + data[data.index(b">", m.end()) + 1:]
    # an interrupted generator leaves these fields empty
    for tag in (b"MappedBlocksCount", b"BlocksCount", b"BlockSize", b"ImageSize"):
        yield "%s blank, no checksum yet" % tag.decode(), re.sub(rb"(<%s>)[^<]*" % tag, rb"\1      ", data[:a] + b"0" * len(old) + data[b:])


def attempt(ctx, bmap, size, verify):
    """returns (refusal or None, destination content, were there writes)"""
    from bmaptools import BmapCopy
    ctx.ev()
    ip, bp, dp = ctx.path("image"), ctx.path("x.bmap"), ctx.path("dest")
    with open(bp, "wb") as f:
        f.write(bmap)
    with open(ip, "rb") as src, open(dp, "wb+") as dest, open(bp, "rb") as b:
        try:
            w = BmapCopy.BmapCopy(src, dest, b, size)
        except Exception as e:
            wrote = os.fstat(dest.fileno()).st_size or os.fstat(dest.fileno()).st_blocks
            return e, None, wrote
        try:
            w.copy(False, verify)
        except Exception as e:
            dest.flush()
            data = read_file(dp)
            return e, None, len(data.strip(b"\0"))
    return None, read_file(dp), 1


def run(case, ctx):
    im, data = make(case)
    with open(ctx.path("image"), "wb") as f:
        f.write(im.bytes())
    want = im.expected()
    kind = case["kind"]
    if kind == "intact":
        for verify in (True, False):
            for size in (None, im.size):
                err, got, _ = attempt(ctx, data, size, verify)
                need(err is None and got == want, "%s: intact bmap refused: %s", case, err)
        ctx.outcome("intact accepted")
        return
    if kind == "cli":
        for what in ("subst", "trunc", "delete"):
            for at in range(0, len(data), 23):
                for label, bad in list(edits(what, at, data, "quick"))[:1]:
                    ctx.ev()
                    open(ctx.path("x.bmap"), "wb").write(bad)
                    r = run_cli(["copy", "--no-verify", "--bmap", ctx.path("x.bmap"), ctx.path("image"), ctx.path("dest")])
                    if r.rc == 0:
                        got = read_file(ctx.path("dest"))
                        need(got == want, "command line, %s: altered bmap accepted, %s", label, diff_at(got, want))
                        ctx.outcome("cli harmless")
                    else:
                        got = read_file(ctx.path("dest")) if os.path.exists(ctx.path("dest")) else b""
                        need(r.rc == 1, "command line, %s: exit status %s", label, r.rc)
                        need(not got.strip(b"\0"), "command line, %s: data was written before the bmap was refused", label)
                        ctx.outcome("cli refused")
        return
    for label, bad in edits(kind, case.get("at", 0), data, ctx.tier):
        if bad == data:
            continue
        for verify, size in ((True, im.size), (False, None)):
            err, got, wrote = attempt(ctx, bad, size, verify)
            if err is not None:
                need(not wrote, "%s %s: refused only after data was written (%s)", case, label, err)
                ctx.outcome("refused")
            else:
                need(got == want, "format %s: %s: the altered bmap was accepted: %s", case["v"], label, diff_at(got, want))
                # with another version the file may be in a format without a checksum
                need(version(bad) != case["v"] or bad.lower() == data.lower(), "format %s: %s: the altered bmap was accepted", case["v"], label)
                ctx.outcome("harmless")
