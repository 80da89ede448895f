"""C21: progress reports are truthful and harmless."""
import errno, itertools, os, re, select, stat, sys, threading, time
from mc import img as I
from mc.core import Fail, limit, need
from mc.drive import run_cli, read_file, diff_at

LEVEL = "exhaustive_bounded"
RULE = ("console: every layout up to a number of blocks, every count of single-block ranges up to a bound, long ranges in several block sizes, with bmap, with "
        "only a size, without a size; bmaps whose mapped count is wrong; a write failing at every batch; each percentage is compared with "
        "what the destination had been given when it appeared. psplash: every state of the pipe (read, not read, full, reader leaving between open "
        "and write, missing, regular file, directory, symlink loop) when it is configured, times every state at each of the following updates. "
        "Commands: terminal or not for both outputs x options x pipe states; non-trivial: something is written")
ASSUMPTIONS = ["Progress on the console is written as text containing the given format string."]
BOUNDS = {"quick": "layouts of up to 8 blocks, up to 300 ranges, 3 updates of the pipe", "thorough": "layouts of up to 11 blocks, up to 1100 ranges, 4 updates of the pipe"}

FIFO = "RNFB"
STATES = FIFO + "MGDL"


def cases(tier):
    th = tier != "quick"
    for n in range(0, (11 if th else 8) + 1):
        for tail in (0, 1):
            if n:
                yield dict(k="layouts", n=n, tail=tail)
    for lo in range(1, 1100 if th else 300, 25):
        yield dict(k="count", lo=lo, hi=lo + 25)
    for bs in (512, 1000, 4096, 65536, 1 << 20, 2 << 20, 3 << 20):
        for size in (1, 4096, 1 << 20, (1 << 20) + 1, 3 << 20, (7 << 20) + 511, 12 << 20):
            for mode in ("bmap", "size", "nosize"):
                yield dict(k="long", bs=bs, size=size, mode=mode)
    for n in (1, 2, 3, 7, 8):
        for delta in (-n, -2, -1, 1, 2, 100):
            yield dict(k="wrong", n=n, delta=delta)
        for at in range(n):
            yield dict(k="fail", n=n, at=at)
    yield dict(k="slow", mode="nosize")
    yield dict(k="slow", mode="size")
    for s0 in STATES:
        for s1 in STATES:
            for s2 in STATES if th else ("",):
                yield dict(k="pipe", pre=s0 + s1 + s2, ups=4 if th else 3)
    for flags in ([], ["-q"], ["-d"]):
        for t1 in (0, 1):
            for t2 in (0, 1):
                yield dict(k="cli", flags=flags, ttys=[t1, t2])


class Console:
    """The console: remembers the text and how much the destination had at that time."""

    def __init__(self, dest):
        self.dest, self.parts = dest, []

    def write(self, s):
        need(isinstance(s, str), "something that is no text was written to the console: %r", s)
        self.parts.append((s, self.dest.blocks))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return True

    def percentages(self):
        """[(value, blocks written when it was complete)]"""
        text, marks = "", []
        for s, b in self.parts:
            text += s
            marks.append((len(text), b))
        res = []
        for m in re.finditer(r"<([^<>]*)>", text):
            need(re.fullmatch(r"[0-9]+", m.group(1)), "the progress is not a whole number: %r", m.group(1))
            res.append((int(m.group(1)), next(b for n, b in marks if n >= m.end())))
        return res


class Dest:
    def __init__(self, path, bs, hook=None, fail=None):
        self.f, self.name, self.bs, self.hook, self.fail = open(path, "wb+"), path, bs, hook, fail
        self.blocks = self.n = 0

    def fileno(self):
        return self.f.fileno()

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        return self.f.truncate(*a)

    def flush(self):
        self.f.flush()

    def write(self, data):
        if self.hook:
            self.hook(self.n)
        if self.fail == self.n:
            raise OSError(errno.EIO, "injected write error")
        self.n += 1
        r = self.f.write(data)
        self.blocks += (len(data) + self.bs - 1) // self.bs
        return r

    def close(self):
        self.f.close()


def judge(vals, mapped, what):
    last = 0
    for v, blocks in vals:
        need(0 <= v <= 100, "%s: progress of %d%% was reported", what, v)
        need(v >= last, "%s: the progress went from %d%% to %d%%", what, last, v)
        need(v * mapped <= 100 * blocks or not mapped, "%s: %d%% was reported when %d of %d blocks had been written", what, v, blocks, mapped)
        last = v


def copy(ctx, im, mode, what, mapped=None, fail=None, hook=None, pipe=None, console=True, bmap=None):
    """One copy; returns (exception or None, percentages on the console, number of writes)"""
    from bmaptools import BmapCopy
    src, out = ctx.path("img"), ctx.path("out")
    dest = Dest(out, im.bs if mode == "bmap" else 4096, hook, fail)
    files = [dest]
    err = None
    try:
        f = open(src, "rb")
        files.append(f)
        kw = {}
        if mode == "bmap":
            with open(ctx.path("bmap"), "wb") as g:
                g.write(bmap or I.make_bmap(im, mapped=mapped))
            b = open(ctx.path("bmap"), "rb")
            files.append(b)
            kw["bmap"] = b
        elif mode == "size":
            kw["image_size"] = im.size
        w = BmapCopy.BmapCopy(f, dest, **kw)
        con = Console(dest)
        if console:
            w.set_progress_indicator(con, "<%d>")
        if pipe:
            w.set_psplash_pipe(pipe)
        try:
            w.copy()
        except Exception as e:
            err = e
        dest.flush()
    finally:
        for f in files:
            f.close()
    return err, con.percentages(), dest


def total_blocks(im, mode):
    return im.mapped_cnt() if mode == "bmap" else I.blocks_of(im.size, 4096)


def good(ctx, im, mode, what):
    """A copy that must succeed"""
    err, vals, dest = copy(ctx, im, mode, what)
    if err:
        raise Fail("%s: the copy failed: %s" % (what, err))
    want = im.expected() if mode == "bmap" else im.bytes()
    got = read_file(ctx.path("out"))
    need(got == want, "%s: with progress reports the copy is wrong: %s", what, diff_at(got, want))
    total = total_blocks(im, mode)
    judge(vals, total, what)
    if total and mode != "nosize":
        need(vals and vals[-1][0] == 100, "%s: the last progress report of a complete copy is %s", what, vals[-1][0] if vals else "missing")
    ctx.ev()
    ctx.outcome(mode)
    return vals


class Pipe:
    def __init__(self, path):
        self.path, self.r, self.state, self.lines = path, None, None, []
        self.regular = None

    def drain(self):
        if self.r is None:
            return b""
        out = b""
        while True:
            try:
                d = os.read(self.r, 1 << 20)
            except BlockingIOError:
                break
            if not d:
                break
            out += d
        return out

    def leave(self):
        self.armed = False
        d = self.drain()
        if self.state == "F":
            d = d.replace(b"#", b"")
        if d:
            self.lines.append((self.state, d))
        if self.r is not None:
            os.close(self.r)
            self.r = None
        self.state = None

    def set(self, s):
        if s == self.state and s != "B":
            if s == "R":
                d = self.drain()
                if d:
                    self.lines.append(("R", d))
            return
        self.leave()
        try:
            st = os.lstat(self.path)
        except FileNotFoundError:
            st = None
        if s in FIFO:
            if st and not stat.S_ISFIFO(st.st_mode):
                os.rmdir(self.path) if stat.S_ISDIR(st.st_mode) else os.unlink(self.path)
                st = None
            if not st:
                os.mkfifo(self.path)
            if s != "N":
                self.r = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK)
            if s == "F":
                w = os.open(self.path, os.O_WRONLY | os.O_NONBLOCK)
                for n in (65536, 4096, 1):
                    try:
                        while True:
                            os.write(w, b"#" * n)
                    except BlockingIOError:
                        pass
                os.close(w)
        else:
            if st:
                os.rmdir(self.path) if stat.S_ISDIR(st.st_mode) else os.unlink(self.path)
            if s == "G":
                with open(self.path, "w") as f:
                    f.write("a regular file\n")
            elif s == "D":
                os.mkdir(self.path)
            elif s == "L":
                os.symlink(os.path.basename(self.path), self.path)
        self.state = s

    def profile(self, frame, event, arg):
        """State B: the reader leaves as soon as somebody has opened the other end."""
        if event == "c_return" and self.armed and self.r is not None:
            p = select.poll()
            p.register(self.r, select.POLLIN)
            ev = p.poll(0)
            if not any(e & select.POLLHUP for _, e in ev):
                os.close(self.r)
                self.r = None
                self.broke += 1
    armed = False
    broke = 0


def run_pipe(ctx, case):
    from bmaptools import BmapCopy  # noqa
    ups = case["ups"]
    im = I.Image(512, 512 * (2 * ups + 1), [(2 * i, 2 * i) for i in range(ups)])
    im.write(ctx.path("img"))
    bm = I.make_bmap(im)
    want = im.expected()
    pre = case["pre"]
    for rest in itertools.product(STATES, repeat=ups + 1 - len(pre)):
        seq = pre + "".join(rest)
        p = Pipe(ctx.path("pipe"))
        p.set(seq[0])
        if seq[0] == "B":
            arm(p)
        what = "pipe states %s" % seq

        def hook(n):
            p.set(seq[n + 1])
            if seq[n + 1] == "B":
                arm(p)
        hasb = "B" in seq
        if hasb:
            sys.setprofile(p.profile)
        try:
            with limit(8, what):
                err, vals, dest = copy(ctx, im, "bmap", what, hook=hook, pipe=p.path, console=False, bmap=bm)
        finally:
            if hasb:
                sys.setprofile(None)
            p.leave()
        if err:
            raise Fail("%s: the copy failed: %s: %s" % (what, type(err).__name__, err))
        got = read_file(ctx.path("out"))
        need(got == want, "%s: the copy is wrong: %s", what, diff_at(got, want))
        text = b"".join(d for _, d in p.lines)
        lines = text.split(b"\n")
        need(not lines[-1], "%s: incomplete message to psplash: %r", what, text)
        prev = 0
        for ln in lines[:-1]:
            m = re.fullmatch(rb"PROGRESS ([0-9]+)", ln)
            need(m, "%s: bad message to psplash: %r", what, ln)
            v = int(m.group(1))
            need(prev <= v <= 100, "%s: psplash was told %d%% after %d%%", what, v, prev)
            prev = v
        if set(seq) == {"R"}:
            need(prev == 100 and len(lines) > 1, "%s: psplash was told %r", what, text)
            done = 0
            for i, (_, d) in enumerate(p.lines):
                for x in re.findall(rb"[0-9]+", d):
                    need(int(x) * ups <= 100 * (i + 1), "%s: psplash was told %d%% after %d of %d blocks", what, int(x), i + 1, ups)
        if p.broke:
            ctx.count("reader left between open and write", p.broke)
        ctx.outcome("pipe")
        ctx.ev()
        if os.path.isdir(p.path) and not os.path.islink(p.path):
            os.rmdir(p.path)
        elif os.path.lexists(p.path):
            os.unlink(p.path)


def arm(p):
    # a pipe that once had a writer reports a hang-up until a new one comes
    w = os.open(p.path, os.O_WRONLY | os.O_NONBLOCK)
    os.close(w)
    p.armed = True


def run_cli_case(ctx, case):
    ups = 5
    im = I.Image(4096, 4096 * 12 + 5, [(0, 1), (3, 3), (5, 7), (9, 9), (12, 12)])
    im.write(ctx.path("img"))
    with open(ctx.path("img.bmap"), "wb") as f:
        f.write(I.make_bmap(im))
    for st in ("",) + tuple(STATES):
        if st == "B":
            continue
        p = Pipe(ctx.path("pipe"))
        if st:
            p.set(st)
        m, s = os.openpty()
        text = []

        def drain():
            while True:
                try:
                    d = os.read(m, 65536)
                except OSError:
                    return
                if not d:
                    return
                text.append(d)
        th = threading.Thread(target=drain, daemon=True)
        th.start()

        def setup():
            for fd, t in ((1, case["ttys"][0]), (2, case["ttys"][1])):
                if t:
                    os.dup2(s, fd)
        args = case["flags"] + ["copy", ctx.path("img"), ctx.path("out")] + (["--psplash-pipe", p.path] if st else [])
        what = "bmaptool %s, terminals %s, pipe %s" % (" ".join(case["flags"] + ["copy"]), case["ttys"], st or "none")
        try:
            r = run_cli(args, setup=setup, timeout=20)
        finally:
            os.close(s)
            th.join(5)
            os.close(m)
        need(r.rc == 0, "%s: exit status %s: %s", what, r.rc, r.err[-500:])
        got, want = read_file(ctx.path("out")), im.expected()
        need(got == want, "%s: the copy is wrong: %s", what, diff_at(got, want))
        tty = b"".join(text).decode("utf-8", "replace")
        shown = tty + r.out.decode("utf-8", "replace") + r.err
        vals = [int(x) for x in re.findall(r"(-?[0-9]+)(?:\.[0-9]+)?% copied", shown)]
        need(all(0 <= v <= 100 for v in vals) and vals == sorted(vals), "%s: progress on the terminal: %s", what, vals)
        if case["ttys"] == [1, 1] and not case["flags"]:
            need(vals and vals[-1] == 100, "%s: progress on the terminal: %s", what, vals)
        if not case["ttys"][1]:
            need("\r" not in r.err and "% copied" not in r.err, "%s: progress was written to a standard error that is no terminal: %r", what, r.err[:300])
        if "-q" in case["flags"]:
            need(not vals, "%s: progress was shown although the user wanted quiet: %s", what, vals)
        state = p.state
        if st == "G":
            need(read_file(p.path) == b"a regular file\n", "%s: the regular file given as pipe was changed", what)
        p.leave()
        if st == "R":
            told = [int(x) for x in re.findall(rb"PROGRESS ([0-9]+)\n", b"".join(d for _, d in p.lines))]
            need(told and told == sorted(told) and told[-1] == 100, "%s: psplash was told %s", what, told)
        ctx.ev()
        ctx.outcome("cli")
        os.unlink(ctx.path("out"))
        if os.path.isdir(p.path) and not os.path.islink(p.path):
            os.rmdir(p.path)
        elif os.path.lexists(p.path):
            os.unlink(p.path)


def run(case, ctx):
    k = case["k"]
    if k == "pipe":
        return run_pipe(ctx, case)
    if k == "cli":
        return run_cli_case(ctx, case)
    if k == "layouts":
        n = case["n"]
        size = n * 4096 - (n and case["tail"] * 4000)
        for bits in I.layouts(n):
            rs = I.runs(bits)
            im = I.Image(4096, size, rs)
            im.write(ctx.path("img"))
            good(ctx, im, "bmap", "layout %s" % (bits,))
        for mode in ("size", "nosize"):
            good(ctx, im, mode, "%d blocks %s" % (n, mode))
    elif k == "count":
        for n in range(case["lo"], case["hi"]):
            im = I.Image(512, 1024 * n, [(2 * i, 2 * i) for i in range(n)])
            im.write(ctx.path("img"))
            good(ctx, im, "bmap", "%d ranges" % n)
    elif k == "long":
        n = I.blocks_of(case["size"], case["bs"])
        rs = [(0, n - 1)]
        ims = [I.Image(case["bs"], case["size"], rs)]
        if n > 2 and case["mode"] == "bmap":
            ims.append(I.Image(case["bs"], case["size"], [(0, 0), (2, n - 1)]))
            ims.append(I.Image(case["bs"], case["size"], [(0, n - 2), (n - 1, n - 1)]))
        for im in ims:
            im.write(ctx.path("img"))
            good(ctx, im, case["mode"], "%d bytes in blocks of %d, %d ranges, %s" % (case["size"], case["bs"], len(im.ranges), case["mode"]))
    elif k == "wrong":
        n, m = case["n"], case["n"] + case["delta"]
        if m < 0 or m > 2 * n and case["delta"] < 100:
            return
        im = I.Image(4096, 4096 * 2 * n, [(2 * i, 2 * i) for i in range(n)])
        im.write(ctx.path("img"))
        what = "%d blocks mapped, %d declared" % (n, m)
        err, vals, dest = copy(ctx, im, "bmap", what, mapped=m)
        judge(vals, m, what)
        need(err, "%s: reported as copied", what)
        if m > n:
            need(not vals or vals[-1][0] < 100, "%s: 100%% was reported", what)
        ctx.outcome("wrong count")
    elif k == "fail":
        n = case["n"]
        im = I.Image(4096, 4096 * 2 * n, [(2 * i, 2 * i) for i in range(n)])
        im.write(ctx.path("img"))
        what = "write %d of %d fails" % (case["at"], n)
        err, vals, dest = copy(ctx, im, "bmap", what, fail=case["at"])
        need(err, "%s: reported as copied", what)
        judge(vals, n, what)
        need(not vals or vals[-1][0] < 100, "%s: 100%% was reported", what)
        ctx.outcome("failing")
    elif k == "slow":
        im = I.Image(4096, 6 << 20, [(0, 1535)])
        im.write(ctx.path("img"))
        err, vals, dest = copy(ctx, im, case["mode"], "slow", hook=lambda n: time.sleep(0.26))
        need(not err, "slow copy: %s", err)
        judge(vals, 1536, "slow copy %s" % case["mode"])
        need(read_file(ctx.path("out")) == im.bytes(), "slow copy: wrong")
        ctx.outcome("slow")
