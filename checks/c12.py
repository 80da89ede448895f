"""C12: no I/O failure is ever reported as a successful copy."""
import errno, os, shutil, subprocess
from mc import img as I, vdev, blk
from mc.blk import Blk
from mc.core import Fail, HarnessError, need
from mc.drive import Fwd, read_file, diff_at, run_cli

LEVEL = "fault_enumeration"
RULE = ("layout/size x bmap or not x verification x destination (regular file, block device) x API or command line: the fault-free run gives "
        "the number of reads, writes, truncations and synchronisations of source and destination; then one run for every operation and "
        "every failure of it (EIO, ENOSPC; for small layouts each of 20 error codes at the first and last operation of its kind), every continuable disturbance of it (EINTR, short transfer of 0 < n bytes), and pairs of a "
        "disturbance and a failure or of two disturbances; non-trivial: the faulty operation is reached")
ASSUMPTIONS = ["Faults are injected at the libc boundary; destinations are buffered files as the command line opens them.",
               "Errors of close() after a successful synchronisation are not judged."]
BOUNDS = {"quick": "small layouts n <= 3, three-batch and watermark-crossing images; single faults, pairs for the small ones",
          "thorough": "small layouts n <= 4, pairs everywhere"}

SHAPES = [  # block size, blocks, tail, ranges
    (4096, 1, 0, [(0, 0)]), (4096, 1, 100, [(0, 0)]), (4096, 2, 0, [(0, 0)]), (4096, 2, 1, [(1, 1)]), (4096, 3, 0, [(0, 0), (2, 2)]),
    (4096, 3, 5, [(0, 1), (2, 2)]), (4096, 3, 0, [])]
SWEEP = SHAPES[4:6]
MORE = [(4096, 4, 0, [(0, 0), (2, 3)]), (512, 4, 3, [(0, 0), (1, 1), (3, 3)]), (4096, 4, 7, [(1, 1), (3, 3)]), (512, 3, 0, [(0, 2)])]
BIG = [(1 << 20, 3, 100, [(0, 2)]), (1 << 18, 9, 0, [(0, 3), (4, 4), (6, 8)])]
MARK = [(1 << 20, 14, 0, [(0, 5), (6, 13)])]


def cases(tier):
    th = tier != "quick"
    for via in ("api", "cli"):
        for shape in SHAPES + (MORE if th else []) + BIG + MARK:
            big = shape[0] > 4096
            for dest in ("reg", "blk"):
                if shape in MARK and (dest == "reg" or via == "cli" and not th):
                    continue
                for mode in ("bmap", "nobmap", "fwd", "gz"):
                    if mode == "nobmap" and not shape[3] or mode == "fwd" and (big or via == "cli") or mode == "gz" and via == "api":
                        continue
                    for verify in (True, False):
                        if not verify and (mode == "nobmap" or via == "cli" and not th or big and not th):
                            continue
                        yield dict(via=via, shape=shape, dest=dest, mode=mode, verify=verify, pairs=0)
                        if not big and verify and (th or via == "api" and mode != "nobmap"):
                            yield dict(via=via, shape=shape, dest=dest, mode=mode, verify=verify, pairs=1)


class Env:
    def __init__(self, ctx, case):
        bs, n, tail, ranges = case["shape"]
        self.ctx, self.case = ctx, case
        size = n * bs - (bs - tail if tail else 0)
        if case["mode"] in ("nobmap",):
            ranges = [(0, n - 1)]
        self.im = I.Image(bs, size, ranges, junk=case["mode"] != "nobmap")
        self.ip, self.bp, self.dp = ctx.path("image"), ctx.path("x.bmap"), ctx.path("dest")
        self.im.write(self.ip)
        if case["mode"] == "gz":
            subprocess.run(["gzip", "-1", self.ip], check=True)
            self.ip += ".gz"
        self.bmap = case["mode"] != "nobmap"
        if self.bmap:
            open(self.bp, "wb").write(I.make_bmap(self.im))
        self.isblk = case["dest"] == "blk"
        self.cap = size + 2 * bs

    def setup(self):
        vdev.reset()
        shutil.rmtree(self.ctx.path("sys"), ignore_errors=True)
        if self.isblk:
            self.bd = Blk(self.ctx, self.cap, name="dest")
            self.d = self.bd.dev
        else:
            open(self.dp, "wb").close()
            self.d = vdev.add(self.dp, vdev.REG)
        self.s = vdev.add(self.ip, vdev.REG)
        self.b = vdev.add(self.bp, vdev.REG) if self.bmap else None

    def run(self, faults):
        """Returns (error or None, log)."""
        self.setup()
        self.ctx.ev()
        case = self.case
        fl = [({"d": self.d, "s": self.s, "b": self.b}[w], op, n, act, arg) for w, op, n, act, arg in faults]
        if case["via"] == "cli":
            for f in fl:
                vdev.fault(*f)
            vdev.log_reset()
            vdev.active(1)
            args = ["copy"] + (["--bmap", self.bp] if self.bmap else ["--nobmap"]) + ([] if case["verify"] else ["--no-verify"])
            r = run_cli(args + [self.ip, self.dp])
            log = vdev.log()
            vdev.active(0)
            need(r.rc != "hang", "%s: the command hangs", case)
            return (None if r.rc == 0 else "exit status %s: %s" % (r.rc, r.err[-500:])), log
        from bmaptools import BmapCopy
        vdev.active(1)
        src = Fwd(self.ip) if case["mode"] == "fwd" else open(self.ip, "rb")
        b = open(self.bp, "rb") if self.bmap else None
        dest = self.bd.open() if self.isblk else open(self.dp, "wb")
        vdev.log_reset()
        for f in fl:
            vdev.fault(*f)
        err = None
        try:
            try:
                cls = BmapCopy.BmapBdevCopy if self.isblk else BmapCopy.BmapCopy
                cls(src, dest, b, None if self.bmap else self.im.size).copy(True, case["verify"])
            except Exception as e:
                err = "%s: %s" % (type(e).__name__, e)
            log = vdev.log()
        finally:
            vdev.clear_faults()
            for f in (dest, src, b):
                if f:
                    try:
                        f.close()
                    except OSError:
                        pass
            vdev.active(0)
        return err, log

    def check_content(self, label):
        got = read_file(self.dp)
        if self.isblk:
            want = blk.expected(self.im, self.cap, self.bd.fill)
        else:
            want = self.im.expected()
        need(got == want, "%s: reported success, but the destination is wrong: %s", label, diff_at(got, want))


FAIL = {vdev.READ: [errno.EIO], vdev.WRITE: [errno.EIO, errno.ENOSPC], vdev.TRUNC: [errno.EIO, errno.EFBIG], vdev.FSYNC: [errno.EIO, errno.ENOSPC],
        vdev.OPEN: [errno.EACCES], vdev.LSEEK: [errno.EIO]}


ALL = [errno.EPERM, errno.EIO, errno.ENXIO, errno.EBADF, errno.EACCES, errno.EBUSY, errno.ENODEV, errno.EINVAL, errno.EFBIG, errno.ENOSPC,
       errno.ESPIPE, errno.EROFS, errno.EPIPE, errno.EDQUOT, errno.EOPNOTSUPP, errno.ENOSYS, errno.ESTALE, errno.ETIMEDOUT, errno.ENOMEM,
       errno.ENOMEDIUM]


def run(case, ctx):
    env = Env(ctx, case)
    label = "%(via)s %(shape)s to %(dest)s mode %(mode)s verify %(verify)s" % case
    err, log = env.run(())
    need(err is None, "%s: fails without any fault: %s", label, err)
    env.check_content(label)
    counts = {}
    for e in log:
        w = "d" if e.dev == env.d else "s" if e.dev == env.s else "b" if e.dev == env.b else None
        if w and e.op in FAIL and not (e.op == vdev.TRUNC and e.flags == 1):
            counts[w, e.op] = counts.get((w, e.op), 0) + 1
    need(("d", vdev.WRITE) in counts or not case["shape"][3], "%s: no write seen", label)
    hard, soft = [], []
    for (w, op), n in sorted(counts.items()):
        for k in range(n + 1):
            sweep = op != vdev.LSEEK and op != vdev.OPEN and not case["pairs"] and k in (0, n - 1) and \
                (ctx.tier != "quick" or tuple(case["shape"][:3]) in [x[:3] for x in SWEEP])
            for e in ALL if sweep else FAIL[op]:
                hard.append((w, op, k, vdev.ERR, e))
            if op in (vdev.READ, vdev.WRITE, vdev.FSYNC, vdev.TRUNC):
                soft.append((w, op, k, vdev.ERR, errno.EINTR))
            if op in (vdev.READ, vdev.WRITE):
                for m in (1, 100, 4096) if ctx.tier != "quick" or case["via"] == "api" and not case["pairs"] else (100,):
                    soft.append((w, op, k, vdev.SHORT, m))

    def one(faults, must_fail):
        err, log = env.run(faults)
        what = "%s: faults %s" % (label, [("%s %s %d" % ({"d": "destination", "s": "source", "b": "bmap"}[w], vdev.OPNAME[op], k), "short %d" % a if act == vdev.SHORT
                                           else errno.errorcode[a]) for w, op, k, act, a in faults])
        reached = all(any(x.err == f[4] and x.op == f[1] for x in log) for f in faults if f[3] == vdev.ERR and f[4] != errno.EINTR)
        if must_fail and reached:
            need(err is not None, "%s: reported as success", what)
            ctx.outcome("failure reported")
        elif not must_fail:
            need(err is None, "%s: can be continued, but ended with %s", what, err)
            env.check_content(what)
            ctx.outcome("continued")
        elif err is None:
            env.check_content(what)
            ctx.outcome("not reached")
        else:
            ctx.outcome("failed otherwise")

    if not case["pairs"]:
        for f in hard:
            if f[1] == vdev.LSEEK:
                # positioning need not be essential, but success must be real
                err, _ = env.run((f,))
                if err is None:
                    env.check_content("%s: fault %s" % (label, f))
                ctx.outcome("positioning failure: %s" % ("ignored" if err is None else "reported"))
            else:
                one((f,), True)
        for f in soft:
            one((f,), False)
    else:
        for i, f in enumerate(soft):
            for g in hard:
                if ctx.tier == "quick" and g[4] == errno.ENOSPC:
                    continue
                if g[1] != vdev.LSEEK and g[:3] != f[:3]:
                    one((f, g), True)
            for g in soft[i + 1:]:
                if g[:3] != f[:3]:
                    one((f, g), False)
