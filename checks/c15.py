"""C15: the exit status of the copy and create commands tells the truth."""
import errno, io, itertools, os, re, shutil, signal, sys, threading, time
from mc import blk, core, formats, net, vdev, img as I
from mc.core import Fail, need
from mc.drive import read_file, diff_at, run_cli

LEVEL = "exhaustive_bounded"
RULE = ("copy: image form x bmap state x destination, image form x bmap state x options, bmap state x options x destination, each in full; clocks that stand still, step back or jump; "
        "with and without a terminal; create: image x options x output; usage errors. Oracle: a decision table written from the documentation says whether the command must succeed "
        "and what the destination then holds; in the other cases it must end with a non-zero status and a readable error; refused option combinations must leave the "
        "destination untouched; SIGINT before and after every operation on image, bmap and destination; every amount of memory (in steps) and every power of two as the block size. Non-trivial: every execution")
ASSUMPTIONS = ["A refused copy may truncate an existing destination, except where options exclude each other.", "Runs as root: permissions are simulated by failing open calls."]
BOUNDS = {"quick": "three two- and three-way products of the dimensions", "thorough": "the full product"}
BS = 4096
IM = I.Image(BS, 12 * BS - 100, [(0, 2), (5, 5), (8, 11)], junk=True)
OTHER = I.Image(BS, 12 * BS - 100, [(0, 3), (6, 6)], junk=False)
DATA = IM.bytes()
IMAGES = ["plain", "gz", "tar.xz", "http", "http.gz", "file", "stdin", "link", "missing", "dir", "dangling", "empty", "emptygz", "cutgz", "damagedgz", "nogz", "short", "long", "flipped",
          "http404", "httpcut", "badurl", "badscheme"]
BMAPS = ["given", "found", "url", "none", "nobmap", "nobmap+found", "v1.0", "v1.3", "selfsum", "broken", "emptyfile", "nosums", "foreign", "foreignlast", "smaller", "version", "cstype",
         "zeroblocks", "zerobs", "missing", "dir", "image", "html", "noblockmap", "mapped+1", "mapped-1"]
OPTS = [list(o) for k in range(4) for o in itertools.combinations(["--no-verify", "--no-sig-verify", "-q", "-d", "--psplash-pipe", "--bmap-sig"], k) if not ("-q" in o and "-d" in o and k > 2)]
OPTS2 = [o for o in OPTS if len(o) < 2] + [["--no-verify", "-q"], ["--no-sig-verify", "-d"], ["--bmap-sig", "--no-sig-verify"], ["-q", "-d"]]
UNREADABLE = ("missing", "dir", "dangling", "badurl", "badscheme", "http404")
EXCL = [["--nobmap", "--bmap"], ["--bmap-sig", "--no-sig-verify"], ["--nobmap", "--bmap", "--bmap-sig", "--no-sig-verify"]]
DESTS = ["new", "longer", "shorter", "link", "dangling", "blk", "blkexact", "blkpart", "blksmall", "busy", "dir", "nodir", "noperm", "rofs", "null", "full", "fifo", "noname", "devfd", "slash"]


def cases(tier):
    th = tier != "quick"
    for image in IMAGES:
        for bm in BMAPS:
            yield dict(t="copy", image=image, bmap=bm, th=th)
    for bm in BMAPS:
        for dest in DESTS:
            yield dict(t="dests", bmap=bm, dest=dest)
    for image in ("plain", "gz", "stdin", "empty", "missing", "long", "http"):
        for dest in DESTS if th or image == "plain" else ("new", "longer", "blk"):
            yield dict(t="excl", image=image, dest=dest)
    for image in ("plain", "gz", "emptygz"):
        for bm in ("given", "nobmap"):
            for dest in ("new", "blk"):
                yield dict(t="clock", image=image, bmap=bm, dest=dest)
    for image in ("plain", "gz", "http", "flipped", "stdin"):
        for bm in ("given", "nobmap", "selfsum"):
            for dest in ("new", "blk"):
                yield dict(t="tty", image=image, bmap=bm, dest=dest)
    for image in CREATE:
        yield dict(t="create", image=image)
    yield dict(t="usage")
    yield dict(t="closed")
    for image in ("plain", "gz"):
        for bm in ("given", "nobmap"):
            for dest in ("old", "blk"):
                for k in range(4):
                    yield dict(t="fault", image=image, bmap=bm, dest=dest, part=k)
                yield dict(t="intr", image=image, bmap=bm, dest=dest)
    for k in range(4):
        yield dict(t="cfault", part=k)
    for what in ("copy", "nobmap", "gz", "create"):
        for k in range(4):
            yield dict(t="memory", what=what, part=k)
    yield dict(t="huge")


# ---- the world

def flipped():
    d = bytearray(DATA)
    d[5 * BS + 17] ^= 1
    return bytes(d)


def make_image(ctx, kind):
    """Returns (argument, standard input, content or None, is the size known, does the name allow discovery, server)."""
    p = ctx.path("image")
    data, srv, known = DATA, None, True
    if kind in ("short", "long", "flipped", "empty"):
        data = {"short": DATA[:8 * BS], "long": DATA + b"more", "flipped": flipped(), "empty": b""}[kind]
    if kind in ("plain", "short", "long", "flipped", "empty", "file"):
        open(p, "wb").write(data)
        return ("file://" + p if kind == "file" else p), None, data, kind != "file", True, None
    if kind == "stdin":
        open(p, "wb").write(data)
        return "-", p, data, True, False, None
    if kind == "link":
        open(ctx.path("real"), "wb").write(data)
        os.symlink("real", p)
        return p, None, data, True, True, None
    if kind in ("gz", "emptygz", "cutgz", "damagedgz", "tar.xz", "nogz"):
        ext = "tar.xz" if kind == "tar.xz" else "gz"
        raw = made(ctx, ext, b"" if kind == "emptygz" else data)
        if kind == "cutgz":
            raw, data = raw[:len(raw) // 2], None
        elif kind == "damagedgz":
            raw, data = raw[:-6] + bytes([raw[-6] ^ 0x55]) + raw[-5:], None
        elif kind == "nogz":
            raw, data = DATA, None
        p += "." + ext
        open(p, "wb").write(raw)
        return p, None, (b"" if kind == "emptygz" else data), False, True, None
    if kind == "missing":
        return p, None, None, True, True, None
    if kind == "dir":
        os.mkdir(p)
        return p, None, None, True, True, None
    if kind == "dangling":
        os.symlink("nothing", p)
        return p, None, None, True, True, None
    if kind == "badurl":
        return "http://[::1/image", None, None, True, False, None
    if kind == "badscheme":
        return "gopher://localhost/image", None, None, True, False, None
    files = ctx.files = {}
    if kind != "http404":
        files["/image.gz" if kind == "http.gz" else "/image"] = made(ctx, "gz", data) if kind == "http.gz" else data

    def answer(r):
        if r.path not in files:
            return net.response(b"not found", status="404 Not Found")
        full = net.response(files[r.path])
        return full[:-len(DATA) // 3] if kind == "httpcut" and r.path == "/image" else full
    srv = net.Server(answer)
    return srv.url("/image.gz" if kind == "http.gz" else "/image"), None, (data if kind in ("http", "http.gz") else None), False, True, srv


_made = {}


def made(ctx, ext, data):
    key = ext, len(data)
    if key not in _made:
        _made[key] = formats.make(ext, data, ctx.dir)
    return _made[key]


def make_bmap(kind):
    """the content of the bmap file"""
    good = I.make_bmap(IM)
    if kind in ("v1.0", "v1.3"):
        return I.make_bmap(IM, kind[1:])
    if kind == "selfsum":
        return good.replace(b"\n", b"\n ", 1)
    if kind == "broken":
        return good[:-30]
    if kind == "emptyfile":
        return b""
    if kind == "nosums":
        return I.make_bmap(IM, chk="none")
    if kind == "foreign":
        return I.make_bmap(OTHER)
    if kind == "foreignlast":
        return I.make_bmap(I.Image(BS, 20 * BS, [(0, 2), (18, 19)]))
    if kind == "smaller":
        return I.make_bmap(I.Image(BS, 7 * BS, [(0, 2), (5, 5)]))
    if kind == "version":
        return I.make_bmap(IM, "3.0")
    if kind == "cstype":
        return good.replace(b"sha256", b"sha257")
    if kind == "zeroblocks":
        return I.make_bmap(I.Image(BS, 0, []), selfsum=True)
    if kind == "zerobs":
        return I.make_bmap(IM, "1.2", chk="none").replace(b"<BlockSize> 4096", b"<BlockSize> 0")
    if kind == "html":
        return b"<html><body>Not the page you are looking for</body></html>\n"
    if kind == "noblockmap":
        return re.sub(rb"<BlockMap>.*</BlockMap>", b"", I.make_bmap(IM, "1.2"), flags=re.S)
    if kind == "mapped+1":
        return I.make_bmap(IM, mapped=IM.mapped_cnt() + 1)
    if kind == "mapped-1":
        return I.make_bmap(IM, mapped=IM.mapped_cnt() - 1)
    return good


def bmap_args(ctx, kind, image, srv):
    """Puts the bmap in place and returns the arguments."""
    bp = ctx.path("given.bmap")
    if kind in ("none", "nobmap"):
        return ["--nobmap"] if kind == "nobmap" else []
    if kind in ("found", "nobmap+found"):
        if srv:
            ctx.files["/image.bmap"] = make_bmap(kind)
        open(ctx.path("image.bmap"), "wb").write(make_bmap(kind))
        return ["--nobmap"] if kind == "nobmap+found" else []
    if kind == "missing":
        return ["--bmap", bp]
    if kind == "image":
        return ["--bmap", image]
    if kind == "dir":
        os.makedirs(bp, exist_ok=True)
        return ["--bmap", bp]
    open(bp, "wb").write(make_bmap(kind))
    return ["--bmap", "file://" + bp if kind == "url" else bp]


def oracle(kind, data, known, discover, opts, image):
    """What a writable destination must hold after the copy: (bytes per block or None for whole content) or None: refuse; "any": not decided."""
    if data is None:
        return "any" if kind in ("smaller", "foreign") and image in ("damagedgz", "cutgz", "httpcut") and "--bmap-sig" not in opts else None  # the needed part may be fine
    if "--bmap-sig" in opts:
        return None  # the signature file does not exist
    verify = "--no-verify" not in opts
    if kind in ("nobmap", "nobmap+found"):
        return data, None
    if kind in ("none", "selfsum", "broken", "emptyfile", "version", "cstype", "zeroblocks", "zerobs", "missing", "dir", "image", "html", "noblockmap", "mapped+1", "mapped-1"):
        return None
    if kind == "found" and not discover:
        return None
    if image in ("short", "long") or kind in ("smaller", "foreignlast"):
        if known or kind == "foreignlast" or image == "short":
            return None
        return "any"
    if data == b"":
        return None
    if kind == "foreign":
        return None if verify else (data, OTHER.ranges)
    if data != DATA and verify and kind not in ("nosums", "v1.0"):
        return None
    return data, IM.ranges


def content(want, old, cap):
    """The expected content of a destination: old and cap for a block device, None for a file."""
    data, ranges = want
    out = bytearray(old[:cap] if cap else bytes(len(data)))
    for a, b in ranges if ranges is not None else [(0, (len(data) + BS - 1) // BS - 1)]:
        piece = data[a * BS:(b + 1) * BS]
        out[a * BS:a * BS + len(piece)] = piece
    return bytes(out)


class Dest:
    """A destination in a certain state."""

    def __init__(self, ctx, kind):
        self.ctx, self.kind = ctx, kind
        self.cap, self.dev, self.setup = None, None, None
        self.path = ctx.path("dest")
        self.usable = True
        vdev.reset()
        for n in ("dest", "real dest"):
            p = ctx.path(n)
            if os.path.islink(p) or os.path.isfile(p) or os.path.exists(p) and not os.path.isdir(p):
                os.unlink(p)
            elif os.path.isdir(p):
                os.rmdir(p)
        shutil.rmtree(ctx.path("sys"), ignore_errors=True)
        fill = b"\xa5"
        if kind in ("blk", "blkexact", "blkpart", "blksmall", "busy"):
            self.cap = len(DATA) + {"blk": 9000, "blkpart": 9000, "busy": 9000, "blkexact": 0, "blksmall": -BS - 500}[kind]
            self.blk = blk.Blk(ctx, self.cap, name="dest", busy=int(kind == "busy"), partition=kind == "blkpart")
            self.usable = kind in ("blk", "blkexact", "blkpart")
        elif kind in ("longer", "shorter", "noperm", "rofs"):
            open(self.path, "wb").write(fill * (len(DATA) + (5000 if kind == "longer" else -9000)))
            if kind in ("noperm", "rofs"):
                vdev.fault(vdev.add(self.path, vdev.REG), vdev.OPEN, 0, vdev.ERR, errno.EACCES if kind == "noperm" else errno.EROFS)
                self.usable = False
                self.dev = True
        elif kind in ("link", "dangling"):
            os.symlink("real dest", self.path)
            if kind == "link":
                open(ctx.path("real dest"), "wb").write(fill * 70000)
        elif kind == "dir":
            os.mkdir(self.path)
            self.usable = False
        elif kind in ("nodir", "slash", "noname"):
            self.path = {"nodir": ctx.path("no/dest"), "slash": ctx.path("dest/"), "noname": ""}[kind]
            self.usable = False
        elif kind in ("null", "full"):
            self.path = "/dev/" + kind
            self.usable = False
        elif kind == "fifo":
            os.mkfifo(self.path)
            self.usable = False
        elif kind == "devfd":
            # standard output is an ordinary file
            self.path = "/dev/fd/9"
            open(ctx.path("real dest"), "wb").write(fill * 70000)

            def setup():
                fd = os.open(ctx.path("real dest"), os.O_RDWR)
                os.dup2(fd, 9)
            self.setup = setup

    def state(self):
        st = {}
        for n in ("dest", "real dest", "no"):
            p = self.ctx.path(n)
            if os.path.lexists(p):
                st[n] = (os.lstat(p).st_mode, os.lstat(p).st_size, os.readlink(p) if os.path.islink(p) else "", read_file(p) if os.path.isfile(p) else "")
        return st

    def read(self):
        p = self.ctx.path("real dest") if self.kind in ("link", "dangling", "devfd") else self.path
        return read_file(p)


def copy(ctx, image, stdin, args, dest, what, want, after=None, tty=False, setup=None, untouched=False):
    """want as from oracle()."""
    before = dest.state()
    ctx.ev()

    def start():
        if dest.setup:
            dest.setup()
        if tty:
            os.dup2(slave, 1)
            os.dup2(slave, 2)
        if setup:
            setup()
    out = []
    if tty:
        master, slave = os.openpty()

        def drain():
            try:
                while True:
                    b = os.read(master, 65536)
                    if not b:
                        break
                    out.append(b)
            except OSError:
                pass
        th = threading.Thread(target=drain)
        th.start()
    if dest.cap or dest.dev:
        vdev.active(1)
    try:
        r = run_cli(["copy"] + args + ["--", image, dest.path], stdin=stdin, setup=start if dest.setup or tty or setup else None, cwd=ctx.dir)
    finally:
        vdev.active(0)
        if tty:
            os.close(slave)
            th.join(5)
            os.close(master)
    if tty:
        r.err = b"".join(out).decode("utf-8", "replace")
        r.crashed = "Traceback (most recent call last)" in r.err and "An error occurred, here is the traceback" not in r.err
    need(r.rc != "hang", "%s: hangs", what)
    need(not r.crashed, "%s: crash, exit status %s\n%s", what, r.rc, r.err[-1800:])
    if want == "any":
        ctx.outcome("undecided")
        return r
    if want is not None and dest.usable:
        need(r.rc == 0, "%s: exit status %s\n%s", what, r.rc, r.err[-1200:])
        old = next(iter(before.values()))[3] if dest.cap else None
        exp, got = content(want, old, dest.cap), dest.read()
        need(got == exp, "%s: exit status 0, but the destination is wrong: %s", what, diff_at(got, exp))
        need("ERROR" not in r.err, "%s: exit status 0, but an error message:\n%s", what, r.err[-800:])
        ctx.outcome("copied")
    else:
        need(r.rc != 0, "%s: exit status 0\n%s", what, r.err[-800:])
        need(re.search(r"ERROR.*?: *\S|error: \S", r.err), "%s: exit status %s, but no readable error:\n%s", what, r.rc, r.err[-800:])
        if untouched:
            need(dest.state() == before, "%s: refused, but the destination was touched", what)
        ctx.outcome("refused")
    return r


def optargs(ctx, opts):
    args, top = [], []
    for o in opts:
        if o in ("-q", "-d"):
            top.append(o)
        elif o == "--psplash-pipe":
            args += [o, ctx.path("no pipe")]
        elif o == "--bmap-sig":
            args += [o, ctx.path("no signature")]
        else:
            args.append(o)
    return top, args


def run(case, ctx):
    ctx.files = {}
    globals()["do_" + case["t"]](case, ctx)


def attempt(ctx, imgkind, bm, opts, destkind, world, **kw):
    image, stdin, data, known, discover, srv = world
    args = bmap_args(ctx, bm, image, srv)
    top, more = optargs(ctx, opts)
    dest = Dest(ctx, destkind)
    if destkind == "fifo":
        kw["want"] = None
    want = oracle(bm, data, known, discover, opts, imgkind)
    if "-q" in opts and "-d" in opts or "--bmap-sig" in opts and "--no-sig-verify" in opts:
        want, kw["untouched"] = None, "-q" not in opts or "-d" not in opts or True
    if want not in (None, "any") and destkind == "blksmall" and bm not in ("nobmap", "nobmap+found") and len(want[0]) <= dest.cap:
        want = "any"
    if want is not None and destkind == "null":
        want = "any"  # there is nothing to look at
    if want not in (None, "any") and destkind in ("blksmall", "full", "null") and len(want[0]) == 0:
        want = "any"  # nothing has to be written
    kw.pop("want", None)
    what = "image %s, bmap %s, options %s, destination %s" % (imgkind, bm, opts, destkind)
    from bmaptools import CLI  # noqa
    return copy_top(ctx, top, image, stdin, args + more, dest, what, want, **kw)


def copy_top(ctx, top, image, stdin, args, dest, what, want, **kw):
    if top:
        kw2 = dict(kw)
        inner = kw2.get("setup")

        def setup():
            import sys
            sys.argv[1:1] = top
            if inner:
                inner()
        kw2["setup"] = setup
        return copy(ctx, image, stdin, args, dest, what, want, **kw2)
    return copy(ctx, image, stdin, args, dest, what, want, **kw)


def do_copy(case, ctx):
    imgkind, bm = case["image"], case["bmap"]
    world = make_image(ctx, imgkind)
    try:
        for dest in DESTS if case["th"] else ("new", "blk"):
            for opts in OPTS if case["th"] or dest == "new" and imgkind == "plain" else OPTS2 if dest == "new" and bm in ("given", "nobmap") else \
                    ([], ["--no-verify"]) if dest == "new" and imgkind not in UNREADABLE else ([],):
                attempt(ctx, imgkind, bm, opts, dest, world)
    finally:
        if world[5]:
            world[5].close()


def do_dests(case, ctx):
    world = make_image(ctx, "plain")
    for opts in ([], ["--no-verify"], ["-q"], ["-d", "--no-sig-verify"]):
        attempt(ctx, "plain", case["bmap"], opts, case["dest"], world)


def do_excl(case, ctx):
    world = make_image(ctx, case["image"])
    image, stdin, data, known, discover, srv = world
    bp, sp = ctx.path("x.bmap"), ctx.path("x.sig")
    try:
        for present in (True, False):
            if present:
                open(bp, "wb").write(I.make_bmap(IM))
                open(sp, "wb").write(b"sig")
            else:
                os.unlink(bp)
                os.unlink(sp)
            for combo in EXCL:
                args = []
                for o in combo:
                    args += [o, bp] if o == "--bmap" else [o, sp] if o == "--bmap-sig" else [o]
                for extra in ([], ["--no-verify"]):
                    d = Dest(ctx, case["dest"])
                    copy(ctx, image, stdin, args + extra, d, "image %s, options %s, destination %s" % (case["image"], args + extra, case["dest"]), None, untouched=True)
            for top in (["-q", "-d"], ["--quiet", "--debug"]):
                d = Dest(ctx, case["dest"])
                copy_top(ctx, top, image, stdin, ["--nobmap"], d, "image %s, options %s, destination %s" % (case["image"], top, case["dest"]), None, untouched=True)
    finally:
        if srv:
            srv.close()


def do_clock(case, ctx):
    """The wall clock may stand still, be set back or jump during the copy."""
    world = make_image(ctx, case["image"])
    for name, steps in (("stands still", [0.0]), ("goes back", [-1.0]), ("goes back far", [-1e9]), ("jumps", [1e9]), ("crawls", [1e-9]), ("goes back a little", [-1e-6]), ("jitters", [1.0, -1.0]),
                        ("back and on", [0.0, 0.0, -5.0, 5.0]), ("underflows", [-1e-300])):
        def setup():
            import time
            k = [1.7e9, 0]

            def fake():
                k[0] += steps[k[1] % len(steps)]
                k[1] += 1
                return k[0]
            time.time = fake
        image, stdin, data, known, discover, srv = world
        for opts in ([], ["-q"], ["-d"]):
            args = bmap_args(ctx, case["bmap"], image, srv)
            top, more = optargs(ctx, opts)
            want = oracle(case["bmap"], data, known, discover, opts, case["image"])
            copy_top(ctx, top, image, stdin, args, Dest(ctx, case["dest"]), "image %s, bmap %s, options %s, destination %s, the clock %s" % (case["image"], case["bmap"], opts, case["dest"], name),
                     want, setup=setup)


def do_tty(case, ctx):
    world = make_image(ctx, case["image"])
    try:
        for opts in ([], ["-q"], ["-d"], ["--no-verify"]):
            attempt(ctx, case["image"], case["bmap"], opts, case["dest"], world, tty=True)
    finally:
        if world[5]:
            world[5].close()


CREATE = ["sparse", "hole", "full", "tiny", "tail", "empty", "missing", "dir", "dangling", "link", "badname"]


def do_create(case, ctx):
    kind, p = case["image"], ctx.path("image")
    im = {"sparse": I.Image(BS, 60 * BS, [(0, 3), (20, 20), (50, 59)]), "hole": I.Image(BS, 60 * BS, []), "full": I.Image(BS, 20 * BS, [(0, 19)]), "tiny": I.Image(BS, 1, [(0, 0)]),
          "tail": I.Image(BS, 60 * BS - 77, [(5, 59)]), "link": I.Image(BS, 8 * BS, [(2, 3)])}.get(kind)
    if im:
        im.write(ctx.path("real") if kind == "link" else p)
        if kind == "link":
            os.symlink("real", p)
    elif kind == "empty":
        open(p, "wb").close()
    elif kind == "dir":
        os.mkdir(p)
    elif kind == "dangling":
        os.symlink("nothing", p)
    elif kind == "badname":
        p = ""
    for opts in ([], ["--no-checksum"]):
        for top in ([], ["-q"], ["-d"], ["-q", "-d"]):
            texts = {}
            for out in ("stdout", "new", "old", "link", "dir", "nodir", "outfull", "stdoutfull", "stdoutfile", "noperm", "closedpipe"):
                dest = ctx.path("out")
                for f in ("out", "outreal"):
                    if os.path.islink(ctx.path(f)) or os.path.isfile(ctx.path(f)):
                        os.unlink(ctx.path(f))
                    elif os.path.isdir(ctx.path(f)):
                        os.rmdir(ctx.path(f))
                vdev.reset()
                args, setup, stdout = [], None, None
                if out in ("old", "noperm"):
                    open(dest, "wb").write(b"x" * 100000)
                elif out == "link":
                    open(ctx.path("outreal"), "wb").write(b"x" * 10000)
                    os.symlink("outreal", dest)
                elif out == "dir":
                    os.mkdir(dest)
                elif out == "nodir":
                    dest = ctx.path("no/out")
                elif out == "outfull":
                    dest = "/dev/full"
                elif out == "stdoutfull":
                    stdout = "/dev/full"
                elif out == "stdoutfile":
                    open(ctx.path("outreal"), "wb").close()
                    stdout = ctx.path("outreal")
                elif out == "closedpipe":
                    def setup():
                        r, w = os.pipe()
                        os.close(r)
                        os.dup2(w, 1)
                if not out.startswith("stdout") and out != "closedpipe":
                    args = ["-o", dest]
                if out == "noperm":
                    vdev.fault(vdev.add(dest, vdev.REG), vdev.OPEN, 0, vdev.ERR, errno.EACCES)
                    vdev.active(1)
                what = "create of a %s image, options %s %s, output %s" % (kind, top, opts, out)
                ctx.ev()
                try:
                    r = run_cli(top + ["create"] + opts + args + [p], stdout=stdout, setup=setup, cwd=ctx.dir)
                finally:
                    vdev.active(0)
                need(r.rc != "hang", "%s: hangs", what)
                ok = im is not None and out in ("stdout", "new", "old", "link", "stdoutfile") and len(top) < 2
                if not ok:
                    need(r.rc != 0, "%s: exit status 0", what)
                    if True:
                        need(re.search(r"ERROR.*?: *\S", r.err) and not r.crashed, "%s: no readable error\n%s", what, r.err[-1200:])
                    if len(top) == 2 and out == "old":
                        need(read_file(dest) == b"x" * 100000, "%s: refused, but the output file was touched", what)
                    ctx.outcome("refused")
                    continue
                need(r.rc == 0 and not r.crashed, "%s: exit status %s\n%s", what, r.rc, r.err[-1200:])
                text = r.out if out == "stdout" else read_file(ctx.path("outreal") if out in ("link", "stdoutfile") else dest)
                judge_bmap(text, im, opts, what)
                texts[out] = text
                ctx.outcome("created")
            need(len(set(texts.values())) <= 1, "create of a %s image, options %s %s: the outputs differ: %s", kind, top, opts, {k: len(v) for k, v in texts.items()})


def judge_bmap(text, im, opts, what):
    """Is it a complete bmap of the image?"""
    import hashlib
    try:
        b = I.parse_bmap(text)
    except Exception as e:
        raise Fail("%s: exit status 0, but not a complete bmap (%s): %r" % (what, e, text[-200:]))
    bs = int(b["BlockSize"] or 0)
    need(bs > 0 and int(b["ImageSize"]) == im.size and int(b["BlocksCount"]) == (im.size + bs - 1) // bs, "%s: wrong geometry %s", what, b)
    need(I.selfsum_ok(text, b), "%s: the bmap's own checksum is wrong", what)
    need(int(b["MappedBlocksCount"]) == sum(l - f + 1 for f, l, _ in b["ranges"]), "%s: wrong count of mapped blocks", what)
    need(text.rstrip().endswith(b"</bmap>"), "%s: incomplete bmap", what)
    data = im.bytes()
    covered = bytearray(len(data))
    for f, l, attr in b["ranges"]:
        piece = data[f * bs:(l + 1) * bs]
        covered[f * bs:f * bs + len(piece)] = piece
        if opts:
            need(not attr, "%s: a checksum in spite of the option", what)
        else:
            need(attr == 'chksum="%s"' % hashlib.sha256(piece).hexdigest(), "%s: wrong range checksum %s", what, attr)
    need(bytes(covered) == data, "%s: data outside of the mapped ranges", what)


def readable(r, what):
    need(r.rc not in (0, "hang"), "%s: exit status %s\n%s", what, r.rc, r.err[-800:])
    need(re.search(r"ERROR.*?: *\S", r.err) and not r.crashed, "%s: no readable error\n%s", what, r.err[-1500:])


def do_intr(case, ctx):
    """SIGINT (or SIGTERM) before or after every single operation: exit status 0 only for a complete copy."""
    do_fault(dict(case, part=None), ctx)


def do_fault(case, ctx):
    """Every single I/O failure of a copy ends in a readable error."""
    image, stdin, data, known, discover, srv = make_image(ctx, case["image"])
    args = bmap_args(ctx, case["bmap"], image, srv)

    def go(fault):
        d = Dest(ctx, "blk" if case["dest"] == "blk" else "new")
        if not d.cap:
            open(d.path, "wb").write(b"old")
        devs = dict(d=d.blk.dev if d.cap else vdev.add(d.path, vdev.REG), s=vdev.add(image, vdev.REG))
        if args[:1] == ["--bmap"]:
            devs["b"] = vdev.add(args[1], vdev.REG)
        if fault:
            vdev.fault(devs[fault[0]], *fault[1:])
        vdev.log_reset()
        vdev.active(1)
        ctx.ev()
        try:
            r = run_cli(["copy"] + args + [image, d.path])
            log = vdev.log()
        finally:
            vdev.active(0)
        return r, {k: [e for e in log if e.dev == v] for k, v in devs.items()}
    r, log = go(None)
    need(r.rc == 0, "the copy fails: %s", r.err[-800:])
    good = read_file(ctx.path("dest"))
    n = 0
    for who in log if case["part"] is None else ():
        for op in (vdev.OPEN, vdev.READ, vdev.WRITE, vdev.LSEEK, vdev.FSYNC, vdev.TRUNC, vdev.IOCTL, vdev.CLOSE):
            for k in range(sum(e.op == op for e in log[who])):
                for act in (vdev.SIGNAL_BEFORE, vdev.SIGNAL):
                    r, l = go((who, op, k, act, signal.SIGINT))
                    what = "image %s, bmap %s, destination %s: interrupted %s %s %d of the %s" % (
                        case["image"], case["bmap"], case["dest"], "before" if act == vdev.SIGNAL_BEFORE else "after", vdev.OPNAME[op], k + 1, dict(d="destination", s="image", b="bmap")[who])
                    need(r.rc != "hang", "%s: hangs", what)
                    if r.rc == 0:
                        got = read_file(ctx.path("dest"))
                        need(got == good, "%s: exit status 0, but the destination is wrong: %s", what, diff_at(got, good))
                        ctx.outcome("interrupted, completed")
                    else:
                        ctx.outcome("interrupted")
    for who in log if case["part"] is not None else ():
        for op in (vdev.OPEN, vdev.READ, vdev.WRITE, vdev.FSYNC, vdev.TRUNC):
            for k in range(sum(e.op == op for e in log[who])):
                for e in (errno.EIO, errno.ENOSPC) if who == "d" and op == vdev.WRITE else (errno.EIO,):
                    n += 1
                    if n % 4 != case["part"]:
                        continue
                    what = "image %s, bmap %s, destination %s: %s %d of the %s fails with %s" % (
                        case["image"], case["bmap"], case["dest"], vdev.OPNAME[op], k + 1, dict(d="destination", s="image", b="bmap")[who], errno.errorcode[e])
                    r, l = go((who, op, k, vdev.ERR, e))
                    if not any(x.err == e for x in l[who]):
                        ctx.outcome("fault not reached")
                        continue
                    if who == "d" and op == vdev.TRUNC and case["dest"] == "blk":
                        continue
                    readable(r, what)
                    ctx.outcome("reported")
    vdev.reset()


def do_cfault(case, ctx):
    """Every single I/O failure of a bmap creation ends in a readable error or in the right bmap."""
    im = I.Image(BS, 600 * BS, [(i, i) for i in range(0, 598, 3)])
    p, out = im.write(ctx.path("image")), ctx.path("out")

    def go(fault):
        vdev.reset()
        open(out, "wb").write(b"old")
        devs = dict(d=vdev.add(out, vdev.REG), s=vdev.add(p, vdev.REG))
        if fault:
            vdev.fault(devs[fault[0]], *fault[1:])
        vdev.log_reset()
        vdev.active(1)
        ctx.ev()
        try:
            r = run_cli(["create", p, "-o", out])
            log = vdev.log()
        finally:
            vdev.active(0)
        return r, {k: [e for e in log if e.dev == v] for k, v in devs.items()}
    r, log = go(None)
    need(r.rc == 0, "the creation fails: %s", r.err[-800:])
    n = 0
    for who in log:
        for op in (vdev.OPEN, vdev.READ, vdev.WRITE, vdev.LSEEK, vdev.FSYNC, vdev.TRUNC, vdev.IOCTL):
            total = sum(e.op == op for e in log[who])
            for k in range(total) if total < 40 or ctx.tier != "quick" else list(range(15)) + list(range(15, total - 10, total // 15)) + list(range(total - 10, total)):
                n += 1
                if n % 4 != case["part"]:
                    continue
                what = "create: %s %d of the %s fails with EIO" % (vdev.OPNAME[op], k + 1, dict(d="output", s="image")[who])
                r, l = go((who, op, k, vdev.ERR, errno.EIO))
                if not any(x.err == errno.EIO for x in l[who]):
                    ctx.outcome("fault not reached")
                elif r.rc == 0:
                    judge_bmap(read_file(out), im, [], what)
                    ctx.outcome("created all the same")
                else:
                    readable(r, what)
                    ctx.outcome("reported")
    vdev.reset()


def do_memory(case, ctx):
    """Every amount of memory: exit status 0 only if the work is done."""
    import resource
    im = I.Image(BS, 1300 * BS - 5, [(0, 299), (400, 1299)], junk=True)
    p, d = im.write(ctx.path("image")), ctx.path("out")
    want = im.expected()
    if case["what"] == "gz":
        p += ".gz"
        open(p, "wb").write(formats.make("gz", im.bytes(), ctx.dir))
    elif case["what"] == "nobmap":
        want = im.bytes()
    elif case["what"] == "create":
        want = None
        im = I.Image(BS, 1400 * BS, [(0, 900), (1000, 1399)])
        im.write(p)
    open(ctx.path("image.bmap"), "wb").write(I.make_bmap(im))
    step = 512 if ctx.tier == "quick" else 64
    args = ["create", "-o", d, p] if case["what"] == "create" else ["copy"] + ["--nobmap"] * (case["what"] == "nobmap") + [p, d]
    for more in range(16 * 1024 + case["part"] * step, 80 * 1024, 4 * step):
        if os.path.exists(d):
            os.unlink(d)
        ctx.ev()
        r = spawn(args, more * 1024)
        what = "%s with %d KiB of memory" % (case["what"], more)
        if r.rc:
            # Python itself may crash or hang without memory
            ctx.outcome("hang" if r.rc == "hang" else "out of memory" if "ut of memory" in r.err or "MemoryError" in r.err else "failed")
            continue
        if want is None:
            judge_bmap(read_file(d), im, [], what)
        else:
            need(read_file(d) == want, "%s: exit status 0, but the destination is wrong: %s", what, diff_at(read_file(d), want))
        ctx.outcome("enough memory")


class spawn:
    """A process of its own, with so much address space."""

    def __init__(self, args, size):
        import resource, subprocess
        p = subprocess.Popen([sys.executable, "-m", "bmaptools"] + args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True,
                             env=dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1", LD_PRELOAD=""),
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (size, size)))
        try:
            self.err, self.rc = p.communicate(timeout=15)[1].decode("utf-8", "replace"), p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            self.err, self.rc = "", "hang"


def do_huge(case, ctx):
    """Blocks which do not fit in the memory, or in any number the system knows."""
    data = OTHER.bytes()
    p, d = ctx.path("image"), ctx.path("out")
    open(p, "wb").write(data)
    for k in list(range(20, 70)) + [100, 400]:
        for ranges in ("0", ""):
            for args in ([], ["--no-verify"]):
                bs = 1 << k
                open(ctx.path("image.bmap"), "wb").write(I.make_bmap(I.Image(4096, len(data), [(0, 0)] if ranges else []), "1.2", chk="none", blocks=1)
                                                         .replace(b"<BlockSize> 4096 ", b"<BlockSize> %d " % bs))
                ctx.ev()
                r = run_cli(["copy"] + args + [p, d], stdout="/dev/null")
                what = "blocks of %d bytes" % bs
                need(r.rc != "hang", "%s: hangs", what)
                if r.rc == 0:
                    got = read_file(d)
                    need(got == (data if ranges else bytes(len(data))), "%s: exit status 0, but the destination is wrong: %s", what, diff_at(got, data))
                    ctx.outcome("copied")
                else:
                    ctx.outcome("refused")


def do_usage(case, ctx):
    root = ctx.dir
    open(ctx.path("image"), "wb").write(DATA)
    open(ctx.path("image.bmap"), "wb").write(I.make_bmap(IM))
    bad = [[], ["-q"], ["frobnicate"], ["copy"], ["copy", "image"], ["copy", "image", "dest", "more"], ["copy", "--frob", "image", "dest"], ["copy", "image", "dest", "--bmap"],
           ["copy", "--bmap", "image", "dest"], ["copy", "--bmap-sig", "--nobmap", "image", "dest"], ["copy", "image", "dest", "--psplash-pipe"], ["create"], ["create", "image", "dest"],
           ["create", "image", "-o"], ["create", "image", "-o", "dest", "--frob"], ["create", "--bmap", "dest", "image"], ["copy", "image", "dest", "-o", "x"], ["-x", "copy", "image", "dest"],
           ["--quiet=1", "copy", "image", "dest"], ["copy", "--nobmap=1", "image", "dest"], ["create", "image", "--no-checksum=1", "-o", "dest"], ["copy", "image", "dest", "--no-checksum"],
           ["create", "image", "-o", "dest", "--no-verify"], ["copy", "--debug", "image", "dest"], ["verify", "image", "dest"]]
    for dest in (None, b"old content"):
        for args in bad:
            if dest is not None:
                open(ctx.path("dest"), "wb").write(dest)
            elif os.path.exists(ctx.path("dest")):
                os.unlink(ctx.path("dest"))
            before = {n: read_file(ctx.path(n)) for n in os.listdir(root) if os.path.isfile(ctx.path(n))}
            ctx.ev()
            r = run_cli(args, cwd=root)
            need(r.rc not in (0, "hang") and not r.crashed, "arguments %s: exit status %s\n%s", args, r.rc, r.err[-1200:])
            need(re.search(r"error: \S", r.err) or re.search(r"ERROR.*?: *\S", r.err), "arguments %s: no readable error\n%s", args, r.err[-800:])
            after = {n: read_file(ctx.path(n)) for n in os.listdir(root) if os.path.isfile(ctx.path(n))}
            need(after == before, "arguments %s: refused, but files changed", args)
            ctx.outcome("refused")
    for args in (["--version"], ["--help"], ["copy", "--help"], ["create", "--help"], ["-q", "--version"]):
        ctx.ev()
        r = run_cli(args, cwd=root)
        need(r.rc == 0 and r.out.strip(), "arguments %s: exit status %s, output %r", args, r.rc, r.out[:200])
        ctx.outcome("information")
    # spellings of a good call
    for args in (["copy", "image", "dest"], ["-q", "copy", "image", "dest"], ["copy", "--bmap=image.bmap", "image", "dest"], ["copy", "image", "--bmap", "image.bmap", "dest"],
                 ["copy", "image", "dest", "--no-verify"], ["--debug", "copy", "image", "./dest"], ["copy", "--", "image", "dest"]):
        if os.path.exists(ctx.path("dest")):
            os.unlink(ctx.path("dest"))
        ctx.ev()
        r = run_cli(args, cwd=root)
        need(r.rc == 0 and read_file(ctx.path("dest")) == IM.expected(), "arguments %s: exit status %s\n%s", args, r.rc, r.err[-1200:])
        ctx.outcome("copied")


def do_closed(case, ctx):
    """Standard streams that are closed or cannot be written."""
    open(ctx.path("image"), "wb").write(DATA)
    open(ctx.path("image.bmap"), "wb").write(I.make_bmap(IM))

    def close(which):
        def setup():
            import sys
            for fd in which:
                os.close(fd)
                setattr(sys, ("stdin", "stdout", "stderr")[fd], None)
        return setup

    def full():
        fd = os.open("/dev/full", os.O_WRONLY)
        os.dup2(fd, 2)
    for name, setup in (("stdin closed", close([0])), ("stdout closed", close([1])), ("stdin and stdout closed", close([0, 1])), ("stderr full", full)):
        for image in ("image", "-"):
            for args in ([], ["-q"], ["-d"]):
                if os.path.exists(ctx.path("dest")):
                    os.unlink(ctx.path("dest"))
                ctx.ev()
                what = "copy of %s %s with %s" % (image, args, name)
                r = run_cli(args + ["copy", "--bmap", "image.bmap", image, "dest"], cwd=ctx.dir, setup=setup, stdin=ctx.path("image"))
                if image == "-" and "stdin" in name:
                    need(r.rc not in (0, "hang"), "%s: exit status %s", what, r.rc)
                    need(not r.crashed and "ERROR" in r.err, "%s: no readable error\n%s", what, r.err[-1200:])
                    ctx.outcome("refused")
                else:
                    need(r.rc == 0, "%s: exit status %s\n%s", what, r.rc, r.err[-1200:])
                    need(read_file(ctx.path("dest")) == IM.expected(), "%s: exit status 0, but wrong content", what)
                    ctx.outcome("copied")
        for args in ([], ["-o", "out"]):
            ctx.ev()
            what = "create %s with %s" % (args, name)
            r = run_cli(["create", "image"] + args, cwd=ctx.dir, setup=setup)
            if args or "stdout" not in name:
                need(r.rc == 0, "%s: exit status %s\n%s", what, r.rc, r.err[-1200:])
                ctx.outcome("created")
            else:
                need(r.rc not in (0, "hang"), "%s: exit status %s", what, r.rc)
                need("ERROR" in r.err and not r.crashed, "%s: no readable error\n%s", what, r.err[-1200:])
                ctx.outcome("refused")
    # standard input in non-blocking mode, the data come with a delay
    def slow(first):
        def setup():
            r, w = os.pipe()
            os.write(w, DATA[:first])
            if os.fork() == 0:
                time.sleep(0.7)
                try:
                    v = memoryview(DATA)[first:]
                    while v:
                        v = v[os.write(w, v[:4096]):]
                except OSError:
                    pass
                os._exit(0)
            os.close(w)
            os.set_blocking(r, False)
            os.dup2(r, 0)
            os.close(r)
            sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, closefd=False)))
        return setup
    for first in (0, 1, 4096, 5000):
        for args in (["--bmap", "image.bmap"], ["--nobmap"], ["--bmap", "image.bmap", "--no-verify"]):
            if os.path.exists(ctx.path("dest")):
                os.unlink(ctx.path("dest"))
            ctx.ev()
            what = "copy %s of an image from the standard input in non-blocking mode, where the data come with a delay" % args
            r = run_cli(["copy"] + args + ["-", "dest"], cwd=ctx.dir, setup=slow(first))
            need(r.rc != "hang" and not r.crashed, "%s: exit status %s\n%s", what, r.rc, r.err[-1200:])
            if r.rc == 0:
                need(read_file(ctx.path("dest")) == (IM.expected() if "--bmap" in args else DATA), "%s: exit status 0, but wrong content", what)
                ctx.outcome("copied")
            else:
                readable(r, what)
                ctx.outcome("refused")
