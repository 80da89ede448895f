"""C07: all supported bmap formats mean the same; newer ones and broken XML are refused cleanly."""
import itertools, os
from xml.parsers import expat
from mc import img as I
from mc.core import Fail, need
from mc.drive import read_file, run_cli, diff_at

LEVEL = "exploration"
RULE = ("every format version (and 2.x minors) x layout x spelling of the ranges x order of the elements x bmap file object (text/binary) "
        "must give the same destination; every higher major version and every truncation/character edit that makes the XML not "
        "well-formed (judged by expat) must be refused with BmapCopy.Error and an untouched destination, and by the command line with "
        "exit status 1 and a message; non-trivial: all")
ASSUMPTIONS = ["files in encodings other than UTF-8 are not enumerated"]
BOUNDS = {"quick": "n <= 4 blocks, all element orders", "thorough": "n <= 6 blocks"}
MINOR2 = ("2.1", "2.3", "2.9", "2.10")
NEWER = ("3.0", "3.1", "3.7", "4.0", "5.2", "9.9", "10.0", "12.4", "100.0")


def cases(tier):
    for n in range(1, 5 if tier == "quick" else 7):
        for bits in I.layouts(n):
            yield dict(t="versions", bits=bits)
    for ver in I.VERSIONS + MINOR2:
        for perm in range(12):
            yield dict(t="order", ver=ver, perm=perm)
    for ver in NEWER:
        yield dict(t="newer", ver=ver)
    for ver in ("1.0", "1.3", "2.0"):
        for part in range(0, 900, 60):
            yield dict(t="broken", ver=ver, at=part)
    yield dict(t="garbage")
    for k in range(8):
        yield dict(t="cli", k=k)


def attempt(ctx, bmap, im, verify=True, mode="rb"):
    from bmaptools import BmapCopy
    ctx.ev()
    ip, bp, dp = ctx.path("image"), ctx.path("x.bmap"), ctx.path("dest")
    if not os.path.exists(ip):
        im.write(ip)
    with open(bp, "wb") as f:
        f.write(bmap)
    with open(ip, "rb") as src, open(dp, "wb+") as dest, open(bp, mode) as b:
        try:
            BmapCopy.BmapCopy(src, dest, b).copy(False, verify)
        except BmapCopy.Error as e:
            dest.flush()
            return e, read_file(dp)
    return None, read_file(dp)


def well_formed(data):
    p = expat.ParserCreate()
    try:
        p.Parse(data, True)
        return True
    except (expat.ExpatError, ValueError, LookupError):
        return False


def refused(ctx, bmap, im, label, mode):
    from bmaptools import BmapCopy
    try:
        err, got = attempt(ctx, bmap, im, True, mode)
    except Exception as e:
        raise Fail("%s: %s instead of the module's own error: %s" % (label, type(e).__name__, e))
    need(err is not None, "%s was accepted", label)
    need(str(err).strip(), "%s: empty message", label)
    need(not got, "%s: refused after writing", label)
    ctx.outcome("refused")


BROKEN = [b"", b" ", b"\n", b"junk", b"<", b"<bmap", b"<bmap>", b"<bmap></bmap", b"<a></b>", b"\x00\x01\x02", b"\xff\xfe",
          b"<bmap version='2.0'><Range></bmap>", b"<?xml version='1.0'?>", b"<bmap version=2.0></bmap>", b"<bmap>&foo;</bmap>",
          b"<bmap></bmap><bmap></bmap>", b"</bmap>", b"<bmap version='1.0' version='1.0'/>", b"<bmap>\xc3\x28</bmap>", b"x" * 5000,
          b"<bmap>\n\n\n\n\n\n\n\n\n\n<x>\n</bmap>\n", b"<!-- ", b"<bmap><![CDATA[</bmap>"]


def run(case, ctx):
    t = case["t"]
    if t == "versions":
        bits = tuple(case["bits"])
        n, bs = len(bits), 512
        ref = {}
        for tail in (0, 5):
            for ranges in list(I.cuts(bits))[:8]:
                im = I.Image(bs, n * bs - (bs - tail if tail else 0), ranges, junk=True)
                want = im.expected()
                im.write(ctx.path("image"))
                for ver in I.VERSIONS + MINOR2:
                    for spell in range(5):
                        for verify, chk, mode in ((True, "all", "rb"), (False, "none", "r"), (True, "none", "rb")):
                            label = "version %s ranges %s spelling %d verify %s" % (ver, ranges, spell, verify)
                            err, got = attempt(ctx, I.make_bmap(im, ver, spell=spell, chk=chk), im, verify, mode)
                            need(err is None, "%s: refused: %s", label, err)
                            need(got == want, "%s: %s", label, diff_at(got, want))
        ctx.outcome("same in all versions")
    elif t == "order":
        im = I.Image(512, 8 * 512 - 9, [(0, 1), (3, 3), (4, 4), (7, 7)], junk=True)
        want = im.expected()
        for i, p in enumerate(itertools.permutations(range(7))):
            if i % 12 != case["perm"] or (i // 12) % 3:
                continue
            err, got = attempt(ctx, I.make_bmap(im, case["ver"], order=p), im)
            need(err is None and got == want, "version %s, order of elements %s: %s", case["ver"], p, err or diff_at(got, want))
        ctx.outcome("any order")
    elif t == "newer":
        im = I.Image(512, 4 * 512, [(0, 1), (3, 3)])
        for mode in ("rb", "r"):
            for selfsum in (True, False):
                refused(ctx, I.make_bmap(im, case["ver"], selfsum=selfsum), im, "format version %s" % case["ver"], mode)
            refused(ctx, b"<?xml version='1.0'?>\n<bmap version='%s'><Other/></bmap>" % case["ver"].encode(), im, "format version %s" % case["ver"], mode)
    elif t == "broken":
        im = I.Image(512, 9 * 512 - 100, [(0, 1), (3, 3), (5, 8)])
        data = I.make_bmap(im, case["ver"], comment="<!-- block\nmap -->\n")
        for i in range(case["at"], min(case["at"] + 60, len(data))):
            cand = [("cut to %d bytes" % i, data[:i]), ("byte %d lost" % i, data[:i] + data[i + 1:])]
            cand += [("%r at %d" % (c, i), data[:i] + c + data[i + 1:]) for c in (b"<", b"&", b"\x01", b"\x80", b"\0")]
            cand += [("%r inserted at %d" % (c, i), data[:i] + c + data[i:]) for c in (b"<", b"</x>", b"]]>", b"&")]
            for label, bad in cand:
                if not well_formed(bad):
                    refused(ctx, bad, im, "broken XML (version %s, %s)" % (case["ver"], label), "rb" if b"\x80" in bad or i & 1 else "r")
    elif t == "garbage":
        im = I.Image(512, 4 * 512, [(0, 1), (3, 3)])
        for bad in BROKEN:
            assert not well_formed(bad)
            refused(ctx, bad, im, "broken XML %r" % bad[:60], "rb")
    elif t == "cli":
        im = I.Image(512, 9 * 512 - 100, [(0, 1), (3, 3), (5, 8)])
        data = I.make_bmap(im)
        todo = [("broken XML %r" % b[:50], b) for b in BROKEN] + [("version " + v, I.make_bmap(im, v)) for v in NEWER]
        todo += [("cut to %d bytes" % i, data[:i]) for i in range(0, len(data), 37)]
        for i, (label, bad) in enumerate(todo):
            if i % 8 != case["k"]:
                continue
            ctx.ev()
            im.write(ctx.path("image"))
            open(ctx.path("x.bmap"), "wb").write(bad)
            r = run_cli(["copy", "--bmap", ctx.path("x.bmap"), ctx.path("image"), ctx.path("dest")])
            need(r.rc == 1, "command line, %s: exit status %s\n%s", label, r.rc, r.err[-500:])
            need(not read_file(ctx.path("dest")), "command line, %s: data was written", label)
            need("ERROR" in r.err and not r.crashed, "command line, %s: no readable error:\n%s", label, r.err[-900:])
            ctx.outcome("cli refused")
