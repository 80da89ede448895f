"""C28: objects can be used again, after success and after failure."""
import errno, itertools, os, pickle, shutil, signal, sys
from mc import blk, fsim, sched, vdev, img as I
from mc.core import Fail, HarnessError, need
from mc.drive import Fwd, read_file, diff_at

LEVEL = "exploration"
RULE = ("histories of operations on one copier (with and without bmap, size stated or not, sources that can be sought and that cannot, destination file or block device), one generator (both hole-detection "
        "methods, output by path and as a file) and one hole map: every single failing or interrupted read, seek, write, truncation, synchronisation and ioctl call, a source that is cut or altered for a while, and runs that "
        "succeed, followed by a run without any trouble; all histories of two such events at the first, middle and last position of each kind; the destination is spoilt between the runs; oracle: a run that says it succeeded has done the whole work, and the "
        "last one succeeds (for a copier, which is documented as usable once, the first does, and a later one may be refused); also, under a controlled scheduler, an interrupt at every point of the first run followed by a second run under all schedules up to a number of preemptions; non-trivial: all")
ASSUMPTIONS = ["Nothing but the trouble stated changes between the runs.", "A copier may refuse a later run: its documentation says that it can be used only once."]
BOUNDS = {"quick": "histories of 1 event at every position and 2 events at first/middle/last ones; pipelines of up to 9 batches with 1 preemption", "thorough": "2 events at every position, 3 at first/middle/last ones; 2 preemptions"}
BUDGET = {"quick": 600, "thorough": 840}
BS = 4096


def cases(tier):
    for src in ("file", "raw", "trans", "fwd"):
        for dest in ("file", "blk"):
            for how in ("bmap", "size", "nosize"):
                for lay in ("many", "one", "tiny"):
                    yield dict(t="copy", src=src, dest=dest, how=how, lay=lay)
    for method in ("fiemap", "seek"):
        for out in ("path", "file"):
            for chk in (True, False):
                yield dict(t="create", method=method, out=out, chk=chk)
        yield dict(t="map", method=method)
    for b in (1, 2, 7, 9):
        for f in (None, "read", "write"):
            yield dict(t="sched", b=b, f=f, pb=1 if tier == "quick" else 2)
        yield dict(t="sched", b=b, f="read2", pb=1)


LAYS = {"many": (40, [i % 4 != 2 for i in range(40)], 9), "one": (1100, [1] * 1100, 0), "tiny": (1, [1], 100)}
MAIN = (vdev.WRITE, vdev.TRUNC, vdev.FSYNC, vdev.LSEEK)


class Copier:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        n, bits, tail = LAYS[case["lay"]]
        # for no bmap everything is mapped
        if case["how"] != "bmap":
            bits = [1] * n
        self.im = I.Image(BS, n * BS - tail, I.runs(bits))
        self.ip, self.bp, self.dp = ctx.path("image"), ctx.path("x.bmap"), ctx.path("dest")
        self.data = self.im.bytes()
        with open(self.bp, "wb") as f:
            f.write(I.make_bmap(self.im))
        self.blk = case["dest"] == "blk"
        self.cap = self.im.size + 2 * BS
        self.ext = blk.allowed(self.im)

    def start(self):
        from bmaptools import BmapCopy, TransRead
        vdev.reset()
        with open(self.ip, "wb") as f:
            f.write(self.data)
        shutil.rmtree(self.ctx.path("sys"), ignore_errors=True)
        if self.blk:
            self.bd = blk.Blk(self.ctx, self.cap, name="dest", fill=0)
            self.d = self.bd.dev
        else:
            open(self.dp, "wb").close()
            self.d = vdev.add(self.dp, vdev.REG)
        self.s = vdev.add(self.ip, vdev.REG)
        vdev.active(1)
        k = self.case["src"]
        self.src = Fwd(self.ip) if k == "fwd" else TransRead.TransRead(self.ip) if k == "trans" else open(self.ip, "rb", buffering=0 if k == "raw" else -1)
        self.b = open(self.bp, "rb") if self.case["how"] == "bmap" else None
        self.dest = self.bd.open() if self.blk else open(self.dp, "wb+")
        cls = BmapCopy.BmapBdevCopy if self.blk else BmapCopy.BmapCopy
        self.c = cls(self.src, self.dest, self.b, self.im.size if self.case["how"] == "size" else None)
        vdev.log_reset()

    def stop(self):
        vdev.clear_faults()
        for f in (self.src, self.dest, self.b):
            if f:
                try:
                    f.close()
                except OSError:
                    pass
        vdev.active(0)

    def events(self):
        """Every event, with the number of times each operation happens in a run without trouble."""
        self.start()
        try:
            self.c.copy(True, True)
            log = vdev.log()
        finally:
            self.stop()
        self.check("first run without trouble")
        cnt = {}
        for e in log:
            w = "d" if e.dev == self.d else "s" if e.dev == self.s else None
            if w:
                cnt[w, e.op] = cnt.get((w, e.op), 0) + 1
        res = [("ok",), ("noverify",), ("nosync",)]
        for (w, op), n in sorted(cnt.items()):
            if op not in (vdev.READ, vdev.WRITE, vdev.TRUNC, vdev.FSYNC, vdev.LSEEK):
                continue
            spots = range(n) if n < 8 else sorted({0, 1, n // 2, n - 2, n - 1})
            for k in spots:
                res.append(("fault", w, op, k))
                if w == "d" and op in MAIN:
                    res.append(("intr", w, op, k))
        if self.case["how"] != "nosize":
            res.append(("cut", len(self.data) // 2))
            res.append(("cut", 0))
        if self.case["how"] == "bmap":
            res.append(("bad", 0))
            res.append(("bad", self.im.ranges[-1][0] * BS))
        return res

    def step(self, ev):
        """Returns the exception or None."""
        vdev.clear_faults()
        kind = ev[0]
        if kind in ("fault", "intr"):
            dev = self.d if ev[1] == "d" else self.s
            if kind == "fault":
                vdev.fault(dev, ev[2], ev[3], vdev.ERR, errno.EIO if ev[2] != vdev.WRITE else errno.ENOSPC)
            else:
                vdev.fault(dev, ev[2], ev[3], vdev.SIGNAL, signal.SIGINT)
        elif kind in ("cut", "bad"):
            with open(self.ip, "r+b") as f:
                if kind == "cut":
                    f.truncate(ev[1])
                else:
                    f.seek(ev[1])
                    f.write(b"\0\1\2\3")
        vdev.log_reset()
        try:
            self.c.copy(kind != "nosync", kind != "noverify")
            # an interrupt may be delivered with delay
            for _ in range(3):
                pass
            err = None
        except Exception as e:
            e.__traceback__ = None
            err = e
        except KeyboardInterrupt as e:
            err = RuntimeError("interrupted")
        vdev.clear_faults()
        if kind in ("cut", "bad"):
            with open(self.ip, "r+b") as f:
                f.truncate(len(self.data))
                f.seek(0)
                f.write(self.data)
        return err

    def spoil(self):
        """Other content in the destination, as if the result of the earlier runs had been lost."""
        on = vdev._l.vd_is_active()
        vdev.active(0)
        with open(self.dp, "r+b") as f:
            for a, b in self.ext:
                f.seek(a)
                f.write(b"\xEE" * (b - a))
            if not self.blk:
                f.truncate(self.im.size // 2 + 7)
        vdev.active(1 if on else 0)

    def check(self, label):
        on = vdev._l.vd_is_active()
        vdev.active(0)
        got = read_file(self.dp)
        vdev.active(1 if on else 0)
        if not self.blk:
            need(len(got) == self.im.size, "%s: reported success, but the destination has %d bytes instead of %d", label, len(got), self.im.size)
        for a, b in self.ext:
            need(got[a:b] == self.data[a:b], "%s: reported success, but the destination is wrong: %s", label, diff_at(got[a:b], self.data[a:b]))

    def play(self, hist):
        self.ctx.ev()
        label = "%(src)s to %(dest)s, %(how)s, layout %(lay)s" % self.case
        self.start()
        done = []
        settings = None
        try:
            if self.blk:
                settings = [read_file(p) for p in (self.bd.sched_path, self.bd.ratio_path)]
            for ev in list(hist) + [("ok",)]:
                last = len(done) == len(hist)
                done.append(name(ev))
                what = "%s: runs %s" % (label, ", ".join(done))
                self.spoil()
                err = self.step(ev)
                if err is None:
                    if ev[0] == "cut" or ev[0] == "bad" and ev[0] != "noverify":
                        raise Fail("%s: the last one was reported as success" % what)
                    self.dest.flush()
                    self.check(what)
                elif ev[0] in ("ok", "noverify", "nosync"):
                    need(len(done) > 1, "%s: the last one failed with %s: %s", what, type(err).__name__, err)
                    self.ctx.outcome("refused")
                if self.blk:
                    now = [read_file(p) for p in (self.bd.sched_path, self.bd.ratio_path)]
                    need([x.strip() for x in now] == [x.strip() for x in settings], "%s: settings of the device left at %s", what, now)
            self.ctx.outcome("used again")
        finally:
            self.stop()


def name(ev):
    if ev[0] in ("fault", "intr"):
        return "%s at %s %d of the %s" % ("error" if ev[0] == "fault" else "interrupt", vdev.OPNAME[ev[2]], ev[3], "destination" if ev[1] == "d" else "source")
    return {"ok": "good", "noverify": "without verification", "nosync": "without synchronisation", "cut": "source cut at %s", "bad": "source altered at %s"}[ev[0]].replace("%s", str(ev[-1]))


def ends(evs):
    """The first, a middle and the last event of each kind."""
    groups = {}
    for e in evs:
        groups.setdefault(e[:3] if e[0] in ("fault", "intr") else e, []).append(e)
    res = []
    for g in groups.values():
        res += sorted({id(x): x for x in (g[0], g[len(g) // 2], g[-1])}.values(), key=g.index)
    return res


def run(case, ctx):
    if case["t"] == "sched":
        return in_child(case, ctx)
    o = {"copy": Copier, "create": Creator, "map": Map}[case["t"]](case, ctx)
    evs = o.events()
    for e in evs:
        o.play([e])
    few = ends(evs)
    q = ctx.tier == "quick"
    if not q or case.get("lay") != "one":
        pairs = few if q else evs
        for h in itertools.product(pairs, pairs):
            o.play(h)
        if not q and case.get("lay") != "one":
            for h in itertools.product(few, few, few):
                o.play(h)


class Creator:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        n = 60
        self.bits = [i % 3 != 0 or i > 40 for i in range(n)]
        self.im = I.Image(BS, n * BS - 5, I.runs(self.bits))
        self.data = self.im.bytes()

    def start(self):
        from bmaptools import BmapCreate
        ferr = 0 if self.case["method"] == "fiemap" else 95
        sim = fsim.SimFile(self.ctx, self.im.size, BS, [(a * BS, (b - a + 1) * BS, 0) for a, b in I.runs(self.bits)], fsim.data_of(self.bits, BS, self.im.size), fiemap_errno=ferr)
        with open(sim.path, "r+b") as f:
            f.write(self.data)
        vdev.sim(sim.dev, BS, self.im.size, ferr, 0, 0, 6, 0)
        self.s = sim.dev
        self.op = self.ctx.path("out.bmap")
        open(self.op, "wb").close()
        self.d = vdev.add(self.op, vdev.REG)
        self.src = open(sim.path, "rb")
        self.out = open(self.op, "w+") if self.case["out"] == "file" else self.op
        self.c = BmapCreate.BmapCreate(self.src, self.out)
        vdev.log_reset()

    def stop(self):
        vdev.clear_faults()
        self.c = None
        for f in (self.src, self.out):
            if hasattr(f, "close"):
                try:
                    f.close()
                except OSError:
                    pass
        vdev.active(0)

    def result(self):
        vdev.active(0)
        try:
            if self.case["out"] == "file":
                self.out.flush()
            return read_file(self.op)
        finally:
            vdev.active(1)

    def events(self):
        self.want = {}
        for chk in (True, False):
            self.start()
            try:
                self.c.generate(chk)
                if chk == self.case["chk"]:
                    log = vdev.log()
                self.want[chk] = self.result()
            finally:
                self.stop()
            p = I.parse_bmap(self.want[chk])
            need([r[:2] for r in p["ranges"]] == I.runs(self.bits) and I.selfsum_ok(self.want[chk], p), "%s: a first generate() gives a wrong bmap", self.case)
        res = [("ok",), ("other",)]
        cnt = {}
        for e in log:
            w = "d" if e.dev == self.d else "s" if e.dev == self.s else None
            if w:
                cnt[w, e.op] = cnt.get((w, e.op), 0) + 1
        for (w, op), n in sorted(cnt.items()):
            if op in (vdev.READ, vdev.WRITE, vdev.TRUNC, vdev.FSYNC, vdev.LSEEK, vdev.IOCTL):
                for k in range(n) if n < 8 else sorted({0, 1, 2, n // 2, n - 2, n - 1}):
                    res.append(("fault", w, op, k))
                    res.append(("intr", w, op, k))
        return res

    def play(self, hist):
        self.ctx.ev()
        label = "generate() with %(method)s to a %(out)s" % self.case
        self.start()
        done = []
        try:
            for ev in list(hist) + [("ok",)]:
                done.append(name(ev) if ev[0] != "other" else "with checksums toggled")
                what = "%s: runs %s" % (label, ", ".join(done))
                vdev.clear_faults()
                if ev[0] in ("fault", "intr"):
                    dev = self.d if ev[1] == "d" else self.s
                    if ev[0] == "fault":
                        vdev.fault(dev, ev[2], ev[3], vdev.ERR, errno.EIO)
                    else:
                        vdev.fault(dev, ev[2], ev[3], vdev.SIGNAL, signal.SIGINT)
                vdev.log_reset()
                chk = self.case["chk"] != (ev[0] == "other")
                try:
                    self.c.generate(chk)
                    err = None
                except Exception as e:
                    e.__traceback__ = None
                    err = e
                except KeyboardInterrupt:
                    err = RuntimeError("interrupted")
                vdev.clear_faults()
                if err is None:
                    got = self.result()
                    need(got == self.want[chk], "%s: reported success, but the bmap is wrong: %s", what, diff_at(got, self.want[chk]))
                else:
                    need(ev[0] not in ("ok", "other"), "%s: the last one failed with %s: %s", what, type(err).__name__, err)
            self.ctx.outcome("generated again")
        finally:
            self.stop()


class Map:
    """Queries on one hole map; some are given up in the middle."""

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.n = 40
        self.bits = [i % 3 != 0 and not 20 < i < 26 for i in range(self.n)]

    def start(self):
        from bmaptools import Filemap
        ferr = 0 if self.case["method"] == "fiemap" else 95
        size = self.n * BS - 5
        sim = fsim.SimFile(self.ctx, size, BS, [(a * BS, (b - a + 1) * BS, 0) for a, b in I.runs(self.bits)], fsim.data_of(self.bits, BS, size), fiemap_errno=ferr)
        vdev.sim(sim.dev, BS, size, ferr, 0, 0, 5, 0)
        self.s = sim.dev
        self.src = open(sim.path, "rb")
        self.m = Filemap.filemap(self.src)
        vdev.log_reset()

    def events(self):
        self.start()
        n = {}
        list(self.m.get_mapped_ranges(0, self.n))
        for e in vdev.log(self.s):
            n[e.op] = n.get(e.op, 0) + 1
        self.stop()
        res = [("ok",)] + [("part", q, k) for q in (0, 1) for k in (1, 4)] + [("block", k) for k in (0, 22, 39)]
        for op, c in sorted(n.items()):
            if op in (vdev.IOCTL, vdev.LSEEK, vdev.FSYNC):
                for k in range(c) if c < 10 else (0, 1, c // 2, c - 1):
                    for q in (0, 1):
                        res.append(("fault", q, op, k))
                        res.append(("intr", q, op, k))
        return res

    def stop(self):
        vdev.clear_faults()
        self.m = None
        self.src.close()
        vdev.active(0)

    def play(self, hist):
        self.ctx.ev()
        self.start()
        done = []
        try:
            for ev in list(hist) + [("ok",)]:
                done.append(str(ev))
                what = "hole map by %s: %s" % (self.case["method"], ", ".join(done))
                vdev.log_reset()
                vdev.clear_faults()
                try:
                    if ev[0] == "ok":
                        got = [bits_of(g(0, self.n), self.n) for g in (self.m.get_mapped_ranges, self.m.get_unmapped_ranges)]
                        need(got == [list(map(bool, self.bits)), [not b for b in self.bits]], "%s: the last answer is %s", what, got)
                    elif ev[0] == "block":
                        need(bool(self.m.block_is_mapped(ev[1])) == bool(self.bits[ev[1]]), "%s: wrong answer", what)
                    else:
                        if ev[0] == "fault":
                            vdev.fault(self.s, ev[2], ev[3], vdev.ERR, errno.EIO)
                        elif ev[0] == "intr":
                            vdev.fault(self.s, ev[2], ev[3], vdev.SIGNAL, signal.SIGINT)
                        g = (self.m.get_unmapped_ranges if ev[1] else self.m.get_mapped_ranges)(0, self.n)
                        got = [tuple(x) for x in itertools.islice(g, ev[2] if ev[0] == "part" else self.n)]
                        if ev[0] != "part":
                            need(bits_of(got, self.n) == [bool(b) != bool(ev[1]) for b in self.bits], "%s: wrong answer %s", what, got)
                except Fail:
                    raise
                except Exception as e:
                    need(ev[0] == "fault", "%s: %s: %s", what, type(e).__name__, e)
                    e.__traceback__ = None
                except KeyboardInterrupt:
                    need(ev[0] == "intr", "%s: interrupted", what)
                vdev.clear_faults()
            self.ctx.outcome("queried again")
        finally:
            self.stop()


def bits_of(ranges, n):
    bits = [False] * n
    for a, b in ranges:
        for i in range(a, b + 1):
            bits[i] = True
    return bits


def in_child(case, ctx):
    """The scheduler replaces the thread primitives for good, so run it in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            os.close(r)
            for m in [m for m in sys.modules if m.split(".")[0] == "bmaptools"]:
                del sys.modules[m]
            sched.install()
            before = ctx.evals
            ctx.outcomes.clear()
            ctx.counts.clear()
            msg = None
            try:
                run_sched(case, ctx)
            except Fail as e:
                msg = str(e)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps((msg, ctx.evals - before, dict(ctx.outcomes), dict(ctx.counts))))
            rc = 0
        finally:
            os._exit(rc)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise HarnessError("the exploration of schedules died")
    msg, n, outcomes, counts = pickle.loads(data)
    for _ in range(n):
        ctx.ev()
    for k, v in outcomes.items():
        for _ in range(v):
            ctx.outcome(k)
    for k, v in counts.items():
        ctx.count(k, v)
    if msg:
        raise Fail(msg)


def run_sched(case, ctx):
    from checks import c11
    from bmaptools import BmapCopy
    fault = {None: None, "read": ["read", case["b"] - 1], "write": ["write", case["b"] // 2], "read2": ["read", 0]}[case["f"]]
    bmap, data, size, batch, total = c11.make(dict(kind="ranges", b=case["b"], fault=None))
    bp, dp = ctx.path("x.bmap"), ctx.path("dest")
    with open(bp, "wb") as f:
        f.write(bmap)
    label = "%d batches, fault %s in the first run" % (case["b"], fault)

    def execute(prefix, at=None):
        rec = c11.Rec(batch)
        src, dst = c11.Source(rec, ctx.path("image"), data, fault), c11.Dest(rec, dp, fault)
        b = open(bp, "rb")
        run = sched.Run(prefix, interrupt_at=at)
        ctx.ev()
        seen = []

        def fn():
            c = BmapCopy.BmapCopy(src, dst, b, None)
            try:
                c.copy(False, True)
            except (Exception, KeyboardInterrupt) as e:
                e.__traceback__ = None
                seen.append(e)
            seen.append("second")
            src.fault = dst.fail = None
            os.pwrite(dst.fileno(), b"\xEE" * len(data), 0)
            c.copy(False, True)
        try:
            res, exc = run.execute(fn)
        finally:
            dst.close()
            b.close()
        how = "schedule %s%s" % (list(prefix), "" if at is None else ", interrupt at point %d" % at)
        ctx.count("transitions", run.steps)
        need(run.deadlock is None, "%s: %s: %s", label, how, run.deadlock)
        need(not run.crashed, "%s: %s: a background thread died: %s", label, how, run.crashed)
        if isinstance(exc, KeyboardInterrupt):
            ctx.outcome("interrupted later")
            return run.trace, run.main_points
        if exc is not None:
            ctx.outcome("refused")
            return run.trace, run.main_points
        got = read_file(dp)
        need(got == data, "%s: %s: after the second run the destination differs at %s", label, how, diff_at(got, data))
        ctx.outcome("copied again")
        return run.trace, run.main_points

    n, _ = sched.explore(lambda p: execute(p)[0], case["pb"])
    ctx.count("schedules", n)
    points = execute(())[1]
    for at in range(1, points + 1):
        n, _ = sched.explore(lambda p: execute(p, at)[0], case["pb"])
        ctx.count("schedules", n)


def coverage(tot, outcomes, counts):
    return dict(states=None, transitions=counts.get("transitions"), schedules=counts.get("schedules"))
