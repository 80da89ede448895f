"""C11: the copy pipeline gives one outcome under every thread schedule."""
import errno, os
from mc import img as I, sched
from mc.core import Fail, HarnessError, need
from mc.drive import read_file, diff_at

LEVEL = "exploration"
RULE = ("number of batches x how the batches come about (one range, many ranges, no bmap) x fault (none, failing read, other exception while "
        "reading, early end, wrong checksum, failing write, two faults, interrupt at every point of the main thread) x all schedules: the "
        "code's threads run under a cooperative scheduler which decides at every thread, lock and queue operation and at every source and "
        "destination operation; preemption-bounded depth-first search, unbounded for short pipelines; non-trivial: at least one batch")
ASSUMPTIONS = ["Interleavings are explored at the granularity of synchronisation operations and operations on the source and destination "
               "objects; single queue operations of the standard library are taken to be atomic.",
               "The reader may be at most 16 MiB ahead of the writer."]
BOUNDS = {"quick": "pipelines of 0 to 10 batches with 2 preemptions (1 for big batches and interrupts), all schedules for 1 to 2 batches",
          "thorough": "pipelines of 0 to 16 batches with 3 preemptions, all schedules up to 3 batches, interrupts with 1 preemption"}
BS = 512
AHEAD = 16 << 20


def cases(tier):
    th = tier != "quick"
    pb = 3 if th else 2
    lens = (0, 1, 2, 3, 5, 6, 7, 8, 9, 10) if not th else (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16)
    for b in lens:
        p = pb if b <= 10 else 2
        for verify in (True, False):
            yield dict(kind="ranges", b=b, verify=verify, fault=None, pb=p)
        yield dict(kind="ranges", b=b, verify=True, fault=["sum", b // 2], pb=p)
        if b:
            yield dict(kind="ranges", b=b, verify=True, fault=["sum", 0], pb=p)
            yield dict(kind="ranges", b=b, verify=True, fault=["sum", b - 1], pb=p)
        for i in sorted({0, 1, b // 2, b - 2, b - 1}):
            if not 0 <= i < b:
                continue
            for f in ("read", "other", "eof", "write", "wother"):
                yield dict(kind="ranges", b=b, verify=False, fault=[f, i], pb=p if f in ("read", "write") or th else 1)
            for j in sorted({0, i, b - 1}):
                yield dict(kind="ranges", b=b, verify=False, fault=["both", i, j], pb=1)
    for b in (1, 2, 8, 24) + ((40,) if th else ()):
        for kind in ("one", "size", "nosize"):
            yield dict(kind=kind, b=b, verify=True, fault=None, pb=1)
            if b > 1:
                yield dict(kind=kind, b=b, verify=True, fault=["read", b - 1], pb=1)
                yield dict(kind=kind, b=b, verify=True, fault=["write", 1], pb=1)
                if kind != "nosize":
                    yield dict(kind=kind, b=b, verify=True, fault=["eof", b // 2], pb=1)
        yield dict(kind="one", b=b, verify=True, fault=["sum", 0], pb=1)
    # interrupts
    for b in (0, 1, 3, 7, 8, 9, 10) + ((12, 16) if th else ()):
        for f in (None, ["read", b - 1], ["sum", b // 2]):
            if f is None or b:
                yield dict(kind="ranges", b=b, verify=True, fault=f, intr=True, pb=1 if th else 0)
                if not th and b in (1, 3, 9):
                    yield dict(kind="ranges", b=b, verify=True, fault=f, intr=True, pb=1)
    # every schedule
    k = 5 if th else 3
    for b in (1, 2) + ((3,) if th else ()):
        for f in (None, ["read", b - 1], ["sum", 0], ["write", 0]):
            for bits in range(1 << k):
                yield dict(kind="ranges", b=b, verify=True, fault=f, pb=None, first=[bits >> i & 1 for i in range(k)])


def worker_init(ctx):
    sched.install()


class Source:
    def __init__(self, rec, name, data, fault):
        self.r, self.name, self.data, self.fault, self.pos, self.n = rec, name, data, fault, 0, 0
        self.closed = False

    def _op(self, what):
        sched.point(what)
        if self.r.returned:
            self.r.late.append(what)

    def read(self, size=-1):
        self._op("read")
        if size is None or size < 0:
            size = len(self.data) - self.pos
        f = self.fault
        if f and f[0] in ("read", "other", "eof", "both") and self.pos >= f[1] * self.r.batch:
            if f[0] == "eof":
                return b""
            if f[0] == "other":
                raise ValueError("injected oddity")
            raise OSError(errno.EIO, "injected read error")
        d = self.data[self.pos:self.pos + size]
        self.pos += len(d)
        self.r.read += len(d)
        if self.r.read - self.r.written > self.r.ahead:
            self.r.ahead = self.r.read - self.r.written
        return d

    def seek(self, off, whence=0):
        self._op("seek")
        if whence == 1:
            off += self.pos
        elif whence == 2:
            off += len(self.data)
        self.pos = off
        return off

    def tell(self):
        return self.pos

    def close(self):
        self.closed = True


class Dest:
    def __init__(self, rec, path, fault):
        self.r, self.f, self.name = rec, open(path, "wb+", buffering=0), path
        self.n, self.mode = 0, "wb+"
        self.fail = None
        if fault and fault[0] in ("write", "wother"):
            self.fail = fault[1]
        elif fault and fault[0] == "both":
            self.fail = fault[2]
        self.odd = bool(fault) and fault[0] == "wother"

    def fileno(self):
        return self.f.fileno()

    def seek(self, off, whence=0):
        return self.f.seek(off, whence)

    def tell(self):
        return self.f.tell()

    def write(self, data):
        sched.point("write")
        if self.fail is not None and self.f.tell() >= self.fail * self.r.batch:
            raise ValueError("injected oddity in write") if self.odd else OSError(errno.ENOSPC, "injected write error")
        n = self.f.write(data)
        self.n += 1
        self.r.written += len(data)
        return n

    def flush(self):
        self.f.flush()

    def close(self):
        self.f.close()


class Rec:
    def __init__(self, batch):
        self.batch, self.read, self.written, self.ahead, self.returned, self.late = batch, 0, 0, 0, False, []


def make(case):
    """The bmap (or None), the source's bytes, the size to state and the batch size."""
    b, kind = case["b"], case["kind"]
    f = case["fault"]
    if kind == "ranges":
        # adjacent single-block ranges: every range is a batch of its own
        im = I.Image(BS, b * BS if b else BS, [(i, i) for i in range(b)])
        data = im.bytes()
        bad = data
        if f and f[0] == "sum" and b:
            bad = bytearray(data)
            bad[f[1] * BS + 7] ^= 1
        return I.make_bmap(im), bytes(bad), None, BS, len(data)
    bs = 1 << 18
    im = I.Image(bs, b << 20, [(0, 4 * b - 1)])
    data = im.bytes()
    if kind == "one":
        bad = data
        if f and f[0] == "sum":
            bad = bytearray(data)
            bad[-7] ^= 1
        return I.make_bmap(im), bytes(bad), None, 1 << 20, len(data)
    return None, data, len(data) if kind == "size" else None, 1 << 20, len(data)


def expect(case):
    f, b = case["fault"], case["b"]
    if not f or (f[0] == "sum" and not b):
        return "ok"
    return {"read": "injected read error", "other": "any", "eof": "any", "sum": "any", "write": "injected write error", "wother": "any",
            "both": "injected read error" if f[0] == "both" and f[1] <= f[2] else "injected write error"}[f[0]]


def run(case, ctx):
    from bmaptools import BmapCopy
    bmap, data, size, batch, total = make(case)
    bp, dp = ctx.path("x.bmap"), ctx.path("dest")
    if bmap is not None:
        with open(bp, "wb") as fo:
            fo.write(bmap)
    want = expect(case)
    label = "%s, %d batches, verify %s, fault %s" % (case["kind"], case["b"], case["verify"], case["fault"])
    seen = {}

    def execute(prefix, interrupt_at=None):
        rec = Rec(batch)
        src, dst = Source(rec, ctx.path("image"), data, case["fault"]), Dest(rec, dp, case["fault"])
        b = open(bp, "rb") if bmap is not None else None
        run = sched.Run(prefix, interrupt_at=interrupt_at)
        ctx.ev()

        def fn():
            try:
                BmapCopy.BmapCopy(src, dst, b, size).copy(False, case["verify"])
            finally:
                rec.returned = True
        try:
            res, exc = run.execute(fn)
        finally:
            dst.close()
            if b:
                b.close()
        how = "schedule %s%s" % (list(prefix), "" if interrupt_at is None else ", interrupt at point %d" % interrupt_at)
        ctx.count("transitions", run.steps)
        need(run.deadlock is None, "%s: %s: %s", label, how, run.deadlock)
        need(not run.crashed, "%s: %s: a background thread died: %s", label, how, run.crashed)
        need(rec.ahead <= AHEAD, "%s: %s: the reader was %d bytes ahead of the writer", label, how, rec.ahead)
        if interrupt_at is not None and isinstance(exc, KeyboardInterrupt):
            ctx.outcome("interrupted")
            return run.trace, run.main_points
        need(not rec.late, "%s: %s: the source was still used after copying had returned: %s", label, how, rec.late[:5])
        if interrupt_at is not None:
            # the interrupt came too late, or was turned into another error
            ctx.outcome("interrupt not delivered" if exc is None else "interrupt became an error")
            if exc is None:
                need(run.main_points < interrupt_at, "%s: %s: the interrupt was swallowed", label, how)
            return run.trace, run.main_points
        if want == "ok":
            if exc is not None:
                raise Fail("%s: %s: failed with %s: %s" % (label, how, type(exc).__name__, exc))
            got = read_file(dp)
            exp = data
            need(got == exp, "%s: %s: the destination differs at %s", label, how, diff_at(got, exp))
            ctx.outcome("copied")
        else:
            need(exc is not None, "%s: %s: the failure was not reported", label, how)
            need(isinstance(exc, Exception), "%s: %s: ended by %r", label, how, exc)
            key = "%s: %s" % (type(exc).__name__, exc)
            if want != "any":
                need(want in key, "%s: %s: reported %s instead of the %s", label, how, key, want)
            seen.setdefault(key, how)
            need(len(seen) == 1, "%s: different schedules report different failures: %s", label, seen)
            ctx.outcome("reported")
        return run.trace, run.main_points

    if not case.get("intr"):
        n, _ = sched.explore(lambda p: execute(p)[0], case["pb"], first=case.get("first", ()))
        ctx.count("schedules", n)
        return
    points = execute(())[1]
    for at in range(1, points + 3):
        n, _ = sched.explore(lambda p: execute(p, at)[0], case["pb"])
        ctx.count("schedules", n)


def coverage(tot, outcomes, counts):
    return dict(states=None, transitions=counts.get("transitions"), schedules=counts.get("schedules"))
