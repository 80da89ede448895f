"""C29: only mapped data is read, it is read and written once, and memory does not grow with the image."""
import os, shutil, subprocess, sys
from mc import core, fsim, img as I, net, vdev
from mc.blk import Blk
from mc.core import Fail, need
from mc.drive import read_file, diff_at, run_cli

LEVEL = "exhaustive_bounded"
RULE = ("every layout up to a bound of blocks much larger than any buffer, with every way of cutting the mapped runs into ranges, times partial last block, kind of "
        "access (file object, unbuffered file object, command line, file:// URL), checksum verification, destination (new file, file with other content, "
        "block device), and the generator with and without checksums over both ways of finding holes; the log of all reads and writes of the image and the destination is "
        "judged. Sizes up to half a GiB x kinds of source in fresh processes whose peak memory is compared with that of a small image. Non-trivial: every execution")
ASSUMPTIONS = ["Up to 128 KiB of read-ahead at each range are taken for buffering.", "96 MiB above what a small image needs is taken for 'bounded' (the block size is small).",
               "Sources that cannot seek have to be read completely; this is judged by memory only."]
BOUNDS = {"quick": "n <= 5 blocks of 1 MiB, 400 single-block ranges; memory: 16 to 400 MiB", "thorough": "n <= 8; memory: 16 to 700 MiB"}
MIB = 1 << 20
SLACK = 128 << 10
PEAK = 96 << 10  # KiB


def cases(tier):
    th = tier != "quick"
    for n in range(1, 9 if th else 6):
        for bits in I.layouts(n):
            for tail in (0, 4096 + 100):
                yield dict(t="copy", n=n, bits=list(bits), tail=tail)
                yield dict(t="create", n=n, bits=list(bits), tail=tail)
    for bs, gap, k in ((4096, 256, 400), (4096, 100, 50), (512, 4096, 60), (65536, 16, 200)):
        for unit in (1, 3):
            yield dict(t="sparse", bs=bs, gap=gap, k=k, unit=unit)
    for n in (16, 400) if not th else (16, 400, 700):
        for what in MEM:
            yield dict(t="memory", what=what, mib=n)


def worker_init(ctx):
    d = net.install_ssh(os.path.join(ctx.base, "bin"))
    os.environ["PATH"] = d + ":" + os.environ["PATH"]


def read_bill(log, dev, wanted, size, label, none=False):
    """wanted: [(first byte, end)] ascending, disjoint, not adjacent. Judges the reads of one file."""
    total = 0
    reads = [(e.off, e.off + e.res) for e in log if e.dev == dev and e.op == vdev.READ and e.res > 0]
    total = sum(b - a for a, b in reads)
    mapped = sum(b - a for a, b in wanted)
    need(len(wanted) < 2 or all(a[1] < b[0] for a, b in zip(wanted, wanted[1:])), "harness: bad ranges")
    if none:
        need(total <= SLACK, "%s: %d bytes of image data were read, although none are needed", label, total)
        return
    # holes around the wanted pieces
    pos, holes = 0, []
    for a, b in wanted + [(size, size)]:
        if pos < a:
            holes.append((pos, a))
        pos = b
    for a, b in holes:
        inside = sum(max(0, min(b, y) - max(a, x)) for x, y in reads)
        need(inside <= SLACK, "%s: %d bytes of the unmapped area %d-%d were read", label, inside, a, b)
    need(total <= mapped + SLACK * (len(wanted) + 1), "%s: %d bytes were read for %d mapped bytes in %d areas", label, total, mapped, len(wanted))


def write_bill(log, dev, wanted, label):
    """Every wanted byte is written exactly once, and nothing else."""
    ws = sorted((e.off, e.off + e.res) for e in log if e.dev == dev and e.op == vdev.WRITE and e.res > 0)
    pos = -1
    merged = []
    for a, b in ws:
        need(a >= pos, "%s: bytes %d-%d of the destination were written twice", label, a, min(b, pos))
        if merged and merged[-1][1] == a:
            merged[-1][1] = b
        else:
            merged.append([a, b])
        pos = b
    need([tuple(x) for x in merged] == wanted, "%s: the areas written are %s instead of %s", label, merged[:8], wanted[:8])


def areas(ranges, bs, size):
    res = []
    for a, b in ranges:
        x, y = a * bs, min((b + 1) * bs, size)
        if res and res[-1][1] == x:
            res[-1] = (res[-1][0], y)
        else:
            res.append((x, y))
    return res


def stored(path, wanted, label):
    """The destination occupies no space for what was not written."""
    pos, fd = 0, os.open(path, os.O_RDONLY)
    try:
        size = os.fstat(fd).st_size
        extra = 0
        for a, b in wanted + [(size, size)]:
            p = pos
            while p < a:
                try:
                    d = os.lseek(fd, p, os.SEEK_DATA)
                except OSError:
                    break
                if d >= a:
                    break
                h = os.lseek(fd, d, os.SEEK_HOLE)
                extra += min(h, a) - d
                p = h
            pos = b
    finally:
        os.close(fd)
    need(extra <= SLACK * (len(wanted) + 1), "%s: %d unmapped bytes of the destination are not holes", label, extra)


def copies(case, ctx, im, cut, ways, label):
    from bmaptools import BmapCopy
    bs, size = im.bs, im.size
    ip, bp, dp = ctx.path("image"), ctx.path("image.bmap"), ctx.path("dest")
    with open(bp, "wb") as f:
        f.write(I.make_bmap(im, ranges=cut))
    wanted = areas(im.ranges, bs, size)
    for how, verify, dest in ways:
        vdev.reset()
        ctx.ev()
        lb = "%s cut %s %s verify %s to %s" % (label, cut[:6], how, verify, dest)
        isblk = dest == "blk"
        if isblk:
            shutil.rmtree(ctx.path("sys"), ignore_errors=True)
            bd = Blk(ctx, size + 8192, name="dest")
            ddev = bd.dev
        else:
            if os.path.exists(dp):
                os.unlink(dp)
            if dest == "old" or how in ("api", "raw"):
                with open(dp, "wb") as f:
                    f.write(b"\x77" * 70000 if dest == "old" else b"")
                ddev = vdev.add(dp, vdev.REG)
            else:
                ddev = None
        idev = vdev.add(ip, vdev.REG)
        vdev.log_reset()
        vdev.active(1)
        if how in ("api", "raw"):
            s = open(ip, "rb", buffering=0 if how == "raw" else -1)
            b = open(bp, "rb")
            d = bd.open() if isblk else open(dp, "wb")
            try:
                cls = BmapCopy.BmapBdevCopy if isblk else BmapCopy.BmapCopy
                cls(s, d, b).copy(False, verify)
            finally:
                s.close()
                b.close()
                d.close()
        else:
            arg = {"cli": ip, "url": "file://" + ip, "found": ip}[how]
            r = run_cli(["copy"] + ([] if verify else ["--no-verify"]) + ([] if how == "found" else ["--bmap", bp]) + [arg, dp])
            need(r.rc == 0, "%s: exit status %s: %s", lb, r.rc, r.err[-500:])
        log = vdev.log()
        vdev.active(0)
        if any(e.op == vdev.READ for e in log):
            ctx.count("reads", sum(1 for e in log if e.op == vdev.READ))
        if wanted:
            need(any(e.dev == idev and e.op == vdev.READ and e.res > 0 for e in log), "harness: %s: no reads seen", lb)
        read_bill(log, idev, wanted, size, lb)
        if ddev is not None:
            write_bill(log, ddev, wanted, lb)
        if not isblk:
            got = read_file(dp)
            want = im.expected()
            need(got == want, "%s: wrong result: %s", lb, diff_at(got, want))
            stored(dp, wanted, lb)
        ctx.outcome("copied by " + how)
    vdev.reset()


def run_copy(case, ctx):
    bs, n = MIB, case["n"]
    size = n * bs - (bs - case["tail"] if case["tail"] else 0)
    ranges = I.runs(case["bits"])
    im = I.Image(bs, size, ranges)
    im.write(ctx.path("image"))
    label = "copy %d bytes ranges %s" % (size, ranges)
    cuts = list(I.cuts(case["bits"]))
    first = [(how, v, "new") for how in ("api", "cli") for v in (True, False)] + [("raw", True, "new"), ("url", True, "new"), ("found", True, "old"),
                                                                                ("api", True, "blk"), ("cli", False, "blk")]
    copies(case, ctx, im, cuts[0], first, label)
    for cut in cuts[1:]:
        copies(case, ctx, im, cut, [("api", True, "new"), ("api", False, "blk")], label)


def run_sparse(case, ctx):
    """small ranges in a wide desert"""
    bs, gap, k, unit = case["bs"], case["gap"], case["k"], case["unit"]
    ranges = [(i * gap, i * gap + unit - 1) for i in range(k)]
    im = I.Image(bs, k * gap * bs, ranges)
    im.write(ctx.path("image"))
    # the read-ahead allowed at a range must be less than a hole
    ways = [("api", True, "new"), ("api", False, "new"), ("cli", True, "new"), ("raw", True, "new"), ("url", False, "new")]
    copies(case, ctx, im, ranges, ways, "sparse image %s" % case)
    creations(ctx, im, "sparse image %s" % case)


def creations(ctx, im, label):
    from bmaptools import BmapCreate
    bs, size = im.bs, im.size
    ip = ctx.path("image")
    for finder in ("seek", "fiemap"):
        for how in ("api", "cli"):
            for sums in (True, False):
                vdev.reset()
                ctx.ev()
                lb = "%s: create (%s, %s) %s checksums" % (label, finder, how, "with" if sums else "without")
                unit = 4096
                if finder == "fiemap":
                    blocks = [0] * I.blocks_of(size, unit)
                    for a, b in im.ranges:
                        for i in range(a * bs // unit, min(((b + 1) * bs + unit - 1) // unit, len(blocks))):
                            blocks[i] = 1
                    runs = I.runs(blocks)
                    f = fsim.SimFile(ctx, size, unit, exts=[(a * unit, (b - a + 1) * unit, 1 if (a, b) == runs[-1] else 0) for a, b in runs],
                                     data=[(a * unit, min((b + 1) * unit, size) - a * unit) for a, b in runs])
                    path, dev = f.path, f.dev
                    im.write(path)
                else:
                    path = ip
                    im.write(path)
                    dev = vdev.add(path, vdev.REG)
                    vdev.active(1)
                vdev.log_reset()
                bp = ctx.path("out.bmap")
                if how == "api":
                    with open(bp, "w+") as out:
                        BmapCreate.BmapCreate(path, out, "sha256").generate(sums)
                else:
                    r = run_cli(["create", "-o", bp] + ([] if sums else ["--no-checksum"]) + [path])
                    need(r.rc == 0, "%s: exit status %s: %s", lb, r.rc, r.err[-500:])
                log = vdev.log()
                vdev.active(0)
                p = I.parse_bmap(read_file(bp))
                ubs = int(p["BlockSize"])
                wanted = areas([(a, b) for a, b, _ in p["ranges"]], ubs, size)
                if bs % 4096 == 0:
                    # (what is mapped is other properties' business; here it must not hide anything)
                    need(sum(b - a for a, b in wanted) <= sum(b - a for a, b in areas(im.ranges, bs, size)) + ubs, "%s: more is mapped than is there: %s",
                         lb, wanted[:5])
                if sums and wanted:
                    need(any(e.dev == dev and e.op == vdev.READ and e.res > 0 for e in log), "harness: %s: no reads seen", lb)
                read_bill(log, dev, wanted, size, lb, none=not sums)
                need(not any(e.dev == dev and e.op in (vdev.WRITE, vdev.TRUNC) for e in log), "%s: the image was written to", lb)
                ctx.outcome("created")
    vdev.reset()


def run_create(case, ctx):
    bs, n = MIB, case["n"]
    size = n * bs - (bs - case["tail"] if case["tail"] else 0)
    creations(ctx, I.Image(bs, size, I.runs(case["bits"])), "%d bytes ranges %s" % (size, I.runs(case["bits"])))


# memory
MEM = ["plain", "nobmap", "gz", "zst", "zip", "tar.gz", "stdin", "http", "httpgz", "ssh", "hole gz", "hole http", "hole ssh", "hole zip", "hole stdin",
       "create", "create nosum", "writer"]
PROG = """
import sys
try:
    from bmaptools import CLI
    sys.argv = ["bmaptool"] + sys.argv[2:]
    rc = CLI.main()
except SystemExit as e:
    rc = e.code
finally:
    open(sys.argv0, "w").write([l for l in open("/proc/self/status") if l.startswith("VmHWM")][0].split()[1])
sys.exit(rc)
"""

def peak(ctx, args, stdin, label, writer=False):
    """Runs a command in a fresh interpreter; returns its peak memory in KiB."""
    out = ctx.path("peak")
    prog = PROG
    if writer:
        prog = PROG.replace("    from bmaptools import CLI\n", "    import runpy\n").replace("    rc = CLI.main()\n", "    rc = 0\n    runpy.run_path(%r, run_name='__main__')\n" % (
            os.path.join(core.REPO, "contrib/bmap_write.py")))
    prog = "import sys\nsys.argv0 = sys.argv[1]\n" + prog
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache")
    env.pop("LD_PRELOAD", None)
    with open(stdin or "/dev/null", "rb") as si:
        r = subprocess.run([sys.executable, "-c", prog, out] + args, stdin=si, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=ctx.dir)
    need(r.returncode == 0, "%s: exit status %s: %s", label, r.returncode, r.stderr[-600:].decode("utf-8", "replace"))
    return int(read_file(out))


def memory_run(ctx, what, mib):
    """One run on an image of that size; returns the peak."""
    hole = what.startswith("hole ")
    kind = what.split()[-1] if hole else what
    bs = 4096
    size = mib * MIB
    last = size // bs - 1
    ranges = [(0, 0), (last, last)] if hole else [(0, last)]
    ip, bp, dp = ctx.path("image"), ctx.path("x.bmap"), ctx.path("dest")
    piece = I.pattern(1, 4096) * 256
    with open(ip, "wb") as f:
        if hole:
            f.write(piece[:bs])
            f.seek(last * bs)
            f.write(piece[:bs])
        else:
            for _ in range(mib):
                f.write(piece)
    head = ("<?xml version=\"1.0\" ?>\n<bmap version=\"1.0\"><ImageSize>%d</ImageSize><BlockSize>%d</BlockSize><BlocksCount>%d</BlocksCount><MappedBlocksCount>%d"
            "</MappedBlocksCount><BlockMap>%s</BlockMap></bmap>" % (size, bs, last + 1, sum(b - a + 1 for a, b in ranges), "".join("<Range>%d-%d</Range>" % r for r in ranges)))
    with open(bp, "w") as f:
        f.write(head)
    label = "memory: %s of %d MiB" % (what, mib)
    for x in (dp, dp + "2"):
        if os.path.exists(x):
            os.unlink(x)
    srv = None
    src, args, stdin = ip, ["--bmap", bp], None
    try:
        if kind in ("gz", "zst", "zip", "tar.gz", "httpgz"):
            ext = kind.replace("http", "")
            src = ctx.path("packed." + ext)
            cmd = {"gz": "gzip -1 -n -c image", "zst": "zstd -q -c image", "zip": "zip -1 -q -X - image", "tar.gz": "tar -c image | gzip -1 -n -c"}[ext]
            subprocess.run(cmd + " > " + os.path.basename(src), shell=True, check=True, cwd=ctx.dir)
        if kind in ("http", "httpgz"):
            srv = FileServer(src)
            src = srv.url
        elif kind == "ssh":
            src = "ssh://host" + ip
        elif kind == "stdin":
            src, stdin = "-", ip
        elif kind == "nobmap":
            args = ["--nobmap"]
        if kind.startswith("create"):
            p = peak(ctx, ["create", "-o", ctx.path("o.bmap")] + (["--no-checksum"] if kind.endswith("nosum") else []) + [ip], None, label)
        elif kind == "writer":
            subprocess.run("ln image w.img; cp x.bmap w.bmap", shell=True, check=True, cwd=ctx.dir)
            p = peak(ctx, [ctx.path("w.img"), dp], None, label, writer=True)
        else:
            p = peak(ctx, ["copy"] + args + [src, dp], stdin, label)
        if not kind.startswith("create"):
            need(os.path.getsize(dp) == size, "%s: the result has %d bytes", label, os.path.getsize(dp))
        return p
    finally:
        if srv:
            srv.close()
        for x in os.listdir(ctx.dir):
            if x not in ("peak",):
                os.unlink(ctx.path(x))


class FileServer:
    """Serves one file over HTTP, whatever its size."""

    def __init__(self, path):
        import http.server, threading
        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                if self.path != "/" + os.path.basename(path):
                    self.send_error(404)
                    return
                self.send_response(200)
                self.send_header("Content-Length", str(os.path.getsize(path)))
                self.end_headers()
                try:
                    with open(path, "rb") as f:
                        while True:
                            b = f.read(1 << 20)
                            if not b:
                                break
                            self.wfile.write(b)
                except OSError:
                    pass

            def log_message(self, *a):
                pass
        self.s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.s.daemon_threads = True
        self.url = "http://127.0.0.1:%d/%s" % (self.s.server_port, os.path.basename(path))
        threading.Thread(target=self.s.serve_forever, daemon=True).start()

    def close(self):
        self.s.shutdown()
        self.s.server_close()


def run_memory(case, ctx):
    what = case["what"]
    ctx.ev(2, 1)
    small = memory_run(ctx, what, 2)
    ctx.ev(0)
    big = memory_run(ctx, what, case["mib"])
    ctx.ev(0)
    if case["mib"] >= 200:
        ctx.count("growth KiB", max(0, big - small))
    need(big - small <= PEAK, "memory: %s: an image of %d MiB needs %d KiB more than one of 2 MiB", what, case["mib"], big - small)
    ctx.outcome("bounded memory")


def run(case, ctx):
    {"copy": run_copy, "create": run_create, "sparse": run_sparse, "memory": run_memory}[case["t"]](case, ctx)


def coverage(tot, outcomes, counts):
    return dict(reads_judged=counts.get("reads"))
