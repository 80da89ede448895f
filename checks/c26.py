"""C26: objects used side by side do not influence each other or their process."""
import base64, hashlib, io, itertools, locale, logging, os, resource, shutil, signal, socket, sys, tempfile, threading, urllib.request
from mc import blk, core, formats, fsim, net, vdev, img as I
from mc.core import Fail, HarnessError, need
from mc.drive import read_file

LEVEL = "exploration"
RULE = ("scripts of operations on copiers (good, failing, without bmap, to block devices, from compressed sources), readers (local, compressed, HTTP with and without credentials, ssh, broken), "
        "hole maps of both methods, and generators x every pair x every merge of their steps up to a number of switches; every pair where the first is a copier or generator x the second one runs "
        "inside each of its reads, writes, seeks and progress reports; for every script the settings of the process before and after; the image on the standard input x other files read with ssh, which takes part of the standard input if it can; oracle: what each script observes alone; non-trivial: all")
ASSUMPTIONS = ["Both scripts may read the same image and bmap files, but have their own objects and their own results.", "ssh is a stand-in that runs the remote command locally."]
BOUNDS = {"quick": "3 switches between scripts of up to 7 steps (2 for objects of different modules)", "thorough": "5 switches"}
DATA = b"".join(I.pattern(i, 4096) for i in range(60))
CREDS = {"a": "Aladdin:open", "b": "other:secret"}

SCRIPTS = ("copy", "copy12", "copy-nobmap", "copy-sum", "copy-short", "copy-bad", "copy-gz", "blk", "blk-sum", "fiemap", "seekhole", "create", "create-seek", "create-md5", "read", "read-gz", "read-tar",
           "read-xz", "read-cut", "read-missing", "http", "http-gz", "http-auth", "http-denied", "ssh")
OUTER = ("copy", "copy12", "copy-nobmap", "copy-sum", "copy-short", "blk", "blk-sum", "create", "create-seek")


def cases(tier):
    for a in SCRIPTS:
        yield dict(t="process", a=a)
    for src in ("file", "pipe"):
        for eat in (1, 4096, 100000):
            yield dict(t="stdin", src=src, eat=eat)
    for a, b in itertools.combinations_with_replacement(SCRIPTS, 2):
        yield dict(t="merge", a=a, b=b)
    for a in OUTER:
        for b in SCRIPTS:
            yield dict(t="nested", a=a, b=b)


def worker_init(ctx):
    d = net.install_ssh(os.path.join(ctx.base, "bin"))
    os.environ["PATH"] = d + ":" + os.environ["PATH"]
    os.environ["HOME"] = ctx.base
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 2)
    os.close(fd)
    threading.excepthook = lambda a: None


_made = {}


def made(ctx, ext):
    if ext not in _made:
        _made[ext] = formats.make(ext, DATA, ctx.dir)
    return _made[ext]


class World:
    """One execution: shared input files, a server, and virtual devices; and a place of its own for each script."""

    def __init__(self, ctx):
        self.ctx = ctx
        vdev.reset()
        shutil.rmtree(ctx.path("sys"), ignore_errors=True)
        self.root = ctx.path("w")
        shutil.rmtree(self.root, ignore_errors=True)
        os.mkdir(self.root)
        self.used = 0

    def path(self, name):
        return os.path.join(self.root, name)

    def shared(self, name, data):
        p = self.path(name)
        if not os.path.exists(p):
            with open(p, "wb") as f:
                f.write(data)
        return p


def handler(ctx):
    def handle(r):
        p = r.path.split("/")
        auth = r.headers.get("authorization", "")
        if p[1] == "auth":
            if auth != "Basic " + base64.b64encode(CREDS[p[2]].encode()).decode():
                return net.response(b"no", status="401 Unauthorized", headers=['WWW-Authenticate: Basic realm="x"'])
            return net.response(DATA)
        if auth:
            return net.response(b"unexpected credentials", status="400 Bad Request")
        return net.response(made(ctx, "gz") if p[-1].endswith(".gz") else DATA)
    return handle


_srv = {}


def server(ctx):
    if "s" not in _srv:
        made(ctx, "gz")
        _srv["s"] = net.Server(handler(ctx))
    return _srv["s"]


class Hook:
    """Calls something at the n-th operation on any of the files."""

    def __init__(self, nth=None, inner=None):
        self.nth, self.inner, self.n, self.busy = nth, inner, 0, False

    def __call__(self):
        if self.inner is None:
            self.n += 1
            return
        if self.busy:
            return
        if self.n == self.nth:
            self.busy = True
            try:
                self.inner()
            finally:
                self.busy = False
        self.n += 1


def hooked(base, hook):
    class File(base):
        def read(self, *a):
            hook()
            return super().read(*a)

        def write(self, *a):
            hook()
            return super().write(*a)

        def seek(self, *a):
            hook()
            return super().seek(*a)
    return File


class Text:
    """A progress indicator's file."""

    def __init__(self, hook):
        self.hook, self.text = hook, ""

    def write(self, s):
        self.hook()
        self.text += s

    def flush(self):
        pass

    def isatty(self):
        return False


def attempt(f, *a):
    try:
        r = f(*a)
        return r if isinstance(r, (int, str, bytes, tuple, list, type(None))) else "ok"
    except Exception as e:
        return "%s.%s: %s" % (type(e).__module__, type(e).__name__, e)


def digest(b):
    return len(b), hashlib.md5(b).hexdigest()


def script(kind, w, who, hook):
    """A generator: does one step and gives what was observed, and so on. The files which are needed are made before the first step."""
    family = kind.split("-")[0]
    return globals()["s_" + {"copy12": "copy", "blk": "copy", "seekhole": "fiemap", "http": "read", "ssh": "read"}.get(family, family)](kind, w, who, hook)


def s_copy(kind, w, who, hook):
    from bmaptools import BmapCopy, TransRead
    bs = 512 if kind == "copy12" else 4096
    n = 700 if bs == 4096 else 2100
    bits = [i % 7 not in (2, 3) and not 300 < i < 400 for i in range(n)]
    im = I.Image(bs, n * bs - 9, I.runs(bits))
    good = im.bytes()
    data = good
    if kind.endswith("-sum"):
        data = bytearray(good)
        data[600 * bs] ^= 1
    if kind == "copy-short":
        data = good[:500 * bs]
    name = "image%d%s" % (bs, "" if data is good else kind)
    ip = w.shared(name, data)
    if kind == "copy-gz":
        if "copy-gz" not in _made:
            _made["copy-gz"] = formats.compress("gzip", bytes(data))
        ip = w.shared("image.gz", _made["copy-gz"])
    bmap = I.make_bmap(im, "1.2" if kind == "copy12" else "2.0")
    if kind == "copy-bad":
        bmap = bmap.replace(b"ImageSize> 2", b"ImageSize> 3")
    bp = w.shared("bmap%d%s" % (bs, kind == "copy-bad"), bmap)
    dp = w.path("dest." + who)
    dev = None
    if kind.startswith("blk"):
        dev = blk.Blk(w.ctx, im.size + 4096, name="w/dev." + who, number=w.used)
        w.used += 1
    opener = TransRead.TransRead if kind == "copy-gz" else lambda p: hooked(io.BufferedReader, hook)(io.FileIO(p, "rb"))
    yield None
    src = opener(ip)
    bf = hooked(io.BufferedReader, hook)(io.FileIO(bp, "rb"))
    if dev:
        fd = os.open(dev.path, os.O_WRONLY | os.O_EXCL)
        dest = hooked(io.BufferedWriter, hook)(FdIO(fd, dev.path))
    else:
        dest = hooked(io.BufferedRandom, hook)(io.FileIO(dp, "wb+"))
    try:
        made_ = []

        def construct():
            c = (BmapCopy.BmapBdevCopy if dev else BmapCopy.BmapCopy)(src, dest, None if kind == "copy-nobmap" else bf, im.size if kind != "copy-nobmap" else None)
            made_.append(c)
            return attrs(c)
        yield attempt(construct)
        if not made_:
            return
        c = made_[0]
        text = Text(hook)
        yield attempt(c.set_progress_indicator, text, who + " %d%%"), attrs(c)
        r = attempt(c.copy, False, True)
        # how often progress is printed may depend on time, but not what is printed in the end
        yield r, attrs(c), text.text.strip().split("\r")[-1][-40:], set(text.text) <= set(" \r\n%0123456789" + who + "\x1b[?25lh\x1b[K")
        yield attempt(c.sync), digest(read_file(dev.path if dev else dp)), settings(dev)
    finally:
        for f in (src, dest, bf):
            f.close()


class FdIO(io.FileIO):
    def __init__(self, fd, name):
        super().__init__(fd, "wb")
        self._n = name

    @property
    def name(self):
        return self._n

    @name.setter
    def name(self, v):
        pass


def settings(dev):
    return [read_file(p) for p in (dev.sched_path, dev.ratio_path)] if dev else None


def attrs(c):
    return [getattr(c, n, None) for n in ("image_size", "image_size_human", "block_size", "blocks_cnt", "mapped_cnt", "mapped_size", "mapped_size_human", "mapped_percent", "bmap_version")]


def simfile(w, who, bits, bs, method, tail=5):
    p = w.path("sim." + who)
    os.mkdir(p)
    p = os.path.join(p, "image")
    size = len(bits) * bs - tail
    im = I.Image(bs, size, I.runs(bits))
    im.write(p)
    d = vdev.add(p, vdev.REG)
    probe = vdev.add(os.path.join(os.path.dirname(p), ".probe"), vdev.PROBE)
    ferr = 0 if method == "fiemap" else 95
    vdev.sim(d, bs, size, ferr, 0, 0, 7, 0)
    vdev.layout(d, [(a * bs, (b - a + 1) * bs, 0) for a, b in I.runs(bits)], fsim.data_of(bits, bs, size))
    vdev.sim(probe, bs, 0, ferr, 0, 0, 0, 0)
    vdev.layout(probe, [], [])
    vdev.probe(os.path.dirname(p), probe)
    return p, im


def s_fiemap(kind, w, who, hook):
    from bmaptools import Filemap
    cls = "FilemapFiemap" if kind == "fiemap" else "FilemapSeek"
    bits = [i % 3 != 0 and i % 11 != 5 for i in range(60)] if who == "a" else [i % 4 == 0 or 20 < i < 30 for i in range(70)]
    p, im = simfile(w, who, bits, 4096 if who == "a" else 1024, "fiemap" if kind == "fiemap" else "seek")
    yield None
    with open(p, "rb") as f:
        fm = getattr(Filemap, cls)(f)
        yield fm.image_size, fm.block_size, fm.blocks_cnt
        g = fm.get_mapped_ranges(0, fm.blocks_cnt)
        yield [tuple(x) for x in itertools.islice(g, 3)]
        u = fm.get_unmapped_ranges(2, fm.blocks_cnt - 3)
        yield [tuple(x) for x in itertools.islice(u, 2)]
        yield fm.block_is_mapped(1), fm.block_is_mapped(25), fm.block_is_unmapped(59)
        yield [tuple(x) for x in g]
        yield [tuple(x) for x in u]


def s_create(kind, w, who, hook):
    from bmaptools import BmapCreate
    bits = [i % 5 != 0 and i % 7 != 5 for i in range(400)] if who == "a" else [i % 4 == 0 or 120 < i < 130 for i in range(300)]
    p, im = simfile(w, who, bits, 4096 if who == "a" else 1024, "seek" if kind == "create-seek" else "fiemap")
    bp = w.path("out." + who)
    yield None
    src = hooked(io.BufferedReader, hook)(io.FileIO(p, "rb"))
    out = hooked(io.TextIOWrapper, hook)(io.BufferedRandom(io.FileIO(bp, "wb+")))
    try:
        c = BmapCreate.BmapCreate(src, out, "md5" if kind == "create-md5" else "sha256")
        yield attrs(c)
        r = attempt(c.generate)
        yield r, attrs(c)
        out.flush()
        yield digest(read_file(bp))
        del c
        yield digest(read_file(bp))
    finally:
        src.close()
        out.close()


def s_read(kind, w, who, hook):
    from bmaptools import TransRead
    srv = server(w.ctx)
    url = {"http": lambda: srv.url("/" + who), "http-gz": lambda: srv.url("/%s.gz" % who), "http-auth": lambda: srv.url("/auth/" + who).replace("//", "//%s@" % CREDS[who]),
           "http-denied": lambda: srv.url("/auth/" + who), "ssh": lambda: "ssh://host" + w.shared("data", DATA), "read": lambda: w.shared("data", DATA),
           "read-gz": lambda: w.shared("data.gz", made(w.ctx, "gz")), "read-tar": lambda: w.shared("data.tar.gz", made(w.ctx, "tar.gz")), "read-xz": lambda: w.shared("data.xz", made(w.ctx, "xz")),
           "read-cut": lambda: w.shared("cut.gz", made(w.ctx, "gz")[:100000]), "read-missing": lambda: w.path("missing.gz")}[kind]()
    yield None
    f = []
    yield attempt(lambda: f.append(TransRead.TransRead(url)))
    if not f:
        return
    f = f[0]
    yield f.is_url, f.compression_type, f.name, f.size
    yield digest(f.read(1000)), f.tell()
    f.seek(70000)
    yield digest(f.read(5000)), f.tell()
    if kind == "read-cut":
        # what arrives before the error depends on the pipe
        def drain():
            while f.read(65536):
                pass
        yield attempt(drain)
    else:
        yield digest(f.read())
    yield attempt(f.close)


def drive(g):
    """the next observation, or None at the end"""
    try:
        return (next(g),)
    except StopIteration:
        return None


def alone(kind, w, who, hook=None):
    g = script(kind, w, who, hook or Hook())
    next(g)
    vdev.active(1)
    try:
        return list(g)
    finally:
        vdev.active(0)
        g.close()


def trace(kind, ctx, who):
    ctx.ev(distinct=0)
    return alone(kind, World(ctx), who)


def same(got, want, kind, what):
    if got != want:
        k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        raise Fail("%s: step %d of %s gives %.600r instead of %.600r" % (what, k + 1, kind, got[k:k + 1], want[k:k + 1]))


_base = {}


def baseline(kind, ctx, who):
    if (kind, who) not in _base:
        _base[kind, who] = fresh_baseline(kind, ctx, who)
    return _base[kind, who]


def family(kind):
    return "read" if kind.startswith(("read", "http", "ssh")) else "map" if kind.startswith(("fiemap", "seek", "create")) else "copy"


def fresh_baseline(kind, ctx, who):
    a, b = trace(kind, ctx, who), trace(kind, ctx, who)
    same(b, a, kind, "%s twice, one after the other" % kind)
    return a


def run(case, ctx):
    globals()["do_" + case["t"]](case, ctx)


def merges(n, m, switches):
    """The merges of n and m steps with at most this many changes from one to the other, as strings of a and b."""
    def rec(a, b, last, left):
        if a == n and b == m:
            yield ""
            return
        for c in "ab":
            if (a < n if c == "a" else b < m) and (c == last or last is None or left > 0):
                for rest in rec(a + (c == "a"), b + (c == "b"), c, left - (last is not None and c != last)):
                    yield c + rest
    return rec(0, 0, None, switches)


def do_merge(case, ctx):
    a, b = case["a"], case["b"]
    want = dict(a=baseline(a, ctx, "a"), b=baseline(b, ctx, "b"))
    kinds = dict(a=a, b=b)
    for order in merges(len(want["a"]) + 1, len(want["b"]) + 1, 5 if ctx.tier != "quick" else 3 if family(a) == family(b) else 2):
        ctx.ev()
        w = World(ctx)
        gs = {k: script(kinds[k], w, k, Hook()) for k in "ab"}
        got = dict(a=[], b=[])
        vdev.active(0)
        for k in "ab":
            next(gs[k])
        vdev.active(1)
        try:
            for k in order:
                r = drive(gs[k])
                if r:
                    got[k].append(r[0])
        finally:
            vdev.active(0)
            for g in gs.values():
                g.close()
        for k in "ab":
            same(got[k], want[k], kinds[k], "%s (a) and %s (b) in the order %s" % (a, b, order))
    ctx.outcome("merged")


def do_nested(case, ctx):
    a, b = case["a"], case["b"]
    want = dict(a=baseline(a, ctx, "a"), b=baseline(b, ctx, "b"))
    h = Hook()
    ctx.ev()
    alone(a, World(ctx), "a", h)
    n = h.n
    picks = range(n) if ctx.tier != "quick" and n < 400 else sorted({i for i in list(range(6)) + [n // 4, n // 2, n // 2 + 1, 3 * n // 4] + list(range(n - 4, n)) if 0 <= i < n})
    for k in picks:
        ctx.ev()
        w = World(ctx)
        inner = script(b, w, "b", Hook())
        next(inner)
        got = []

        def body():
            got.extend(inner)
        try:
            r = alone(a, w, "a", Hook(k, body))
        finally:
            vdev.active(0)
            inner.close()
        what = "%s (a), with %s (b) inside its operation %d of %d" % (a, b, k + 1, n)
        need(got, "%s: not reached", what) if k < n - 2 else None
        same(r, want["a"], a, what)
        if got:
            same(got, want["b"], b, what)
            ctx.outcome("nested")
        else:
            ctx.outcome("not reached")


class Opener:
    """The application's own way of opening URLs."""

    def open(self, url, data=None, timeout=None):
        return "the application's opener"


def process_state():
    root = logging.getLogger()
    res = dict(cwd=os.getcwd(), environ=dict(os.environ), signals={s: signal.getsignal(s) for s in signal.valid_signals()}, timeout=socket.getdefaulttimeout(), locale=locale.setlocale(locale.LC_ALL),
               streams=(sys.stdin, sys.stdout, sys.stderr), hooks=(sys.excepthook, sys.unraisablehook, threading.excepthook, sys.displayhook), tempdir=tempfile.tempdir, path=list(sys.path),
               recursion=sys.getrecursionlimit(), limits=[resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE, resource.RLIMIT_CORE)], priority=os.getpriority(os.PRIO_PROCESS, 0),
               group=(os.getpgid(0), os.getsid(0)), urlopen=attempt(urllib.request.urlopen, "http://nonexistent.invalid/"), levels=[logging.getLevelName(i) for i in range(0, 60, 10)],
               log={n: (l.level, list(l.handlers), l.propagate, l.disabled) for n, l in [("", root)] + [x for x in logging.root.manager.loggerDict.items() if isinstance(x[1], logging.Logger) and x[0].startswith("bmaptools")]},
               mask=signal.pthread_sigmask(signal.SIG_BLOCK, []), disable=logging.root.manager.disable, timer=signal.getitimer(signal.ITIMER_VIRTUAL))
    u = os.umask(0o77)
    os.umask(u)
    res["umask"] = u
    return res


def do_process(case, ctx):
    """The settings of the process are the same after every step of the script."""
    kind = case["a"]
    trace(kind, ctx, "a")        # imports what is needed
    urllib.request.install_opener(Opener())
    try:
        w = World(ctx)
        g = script(kind, w, "a", Hook())
        next(g)
        vdev.active(1)
        before = process_state()
        k = 0
        while drive(g):
            k += 1
            ctx.ev()
            after = process_state()
            for n in before:
                need(after[n] == before[n], "step %d of %s changes the process: %s was %.300r, is %.300r", k, kind, n, before[n], after[n])
        vdev.active(0)
        g.close()
    finally:
        vdev.active(0)
        urllib.request.install_opener(None)
    ctx.outcome("process unchanged")


def do_stdin(case, ctx):
    """The image comes from the standard input, and other things from elsewhere."""
    from mc.drive import run_cli
    d = ctx.path("w")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    im = I.Image(4096, 60 * 4096 - 7, [(0, 3), (8, 20), (58, 59)])
    ip, dp = im.write(os.path.join(d, "image")), os.path.join(d, "dest")
    put = lambda n, data: (open(os.path.join(d, n), "wb").write(data), os.path.join(d, n))[1]
    bp = put("b.bmap", I.make_bmap(im))
    gz = put("b.bmap.gz", formats.compress("gzip", I.make_bmap(im)))
    srv = net.Server(lambda r: net.response(I.make_bmap(im)))
    try:
        for args in (["--bmap", "ssh://host" + bp], ["--bmap", "ssh://user@host" + bp, "--no-sig-verify"], ["--bmap", bp], ["--bmap", gz, "--no-sig-verify"], ["--bmap", "ssh://host" + gz, "--no-sig-verify"],
                     ["--bmap", srv.url("/b.bmap"), "--no-sig-verify"], ["--bmap", "ssh://user:pw@host" + bp, "--no-sig-verify"], ["--nobmap"]):
            if os.path.exists(dp):
                os.unlink(dp)
            ctx.ev()
            r = run_cli(["copy"] + args + ["-", dp], stdin=ip if case["src"] == "file" else read_file(ip), env=dict(MC_SSH_EAT=str(case["eat"])))
            what = "%s, image from a %s on the standard input" % (args, case["src"])
            if r.rc != 0 and gz in args[1:2]:
                ctx.outcome("compressed bmap refused")
                continue
            need(r.rc == 0, "%s: exit status %s\n%s", what, r.rc, r.err[-900:])
            need(read_file(dp) == im.bytes(), "%s: the copy differs from the image", what)
            ctx.outcome("image from the standard input")
    finally:
        srv.close()
