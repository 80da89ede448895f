"""C14: block-device tuning is always undone."""
import errno, os, shutil, signal
from mc import img as I, vdev, blk
from mc.blk import Blk
from mc.core import Fail, need
from mc.drive import Fwd, read_file, diff_at, run_cli

LEVEL = "fault_enumeration"
RULE = ("initial scheduler setting x initial write-buffering setting x availability x disk or partition x scenario (good copy, checksum mismatch, "
        "source too short, device too small) x API or command line; for each the undisturbed run gives the operations on source, device and "
        "settings, then one run per operation with a failure and one per operation with an interrupt after it (and pairs: failing or "
        "interrupted copy together with a failing restoration of one setting); non-trivial: a setting exists")
ASSUMPTIONS = ["The settings are scratch files behind the libc interposer that behave like the sysfs attributes (selection in brackets, refused "
               "values). A refused write is refused twice (the library "
               "tries again when it closes the file). Errors when closing them are not injected."]
BOUNDS = {"quick": "7 scheduler settings x 5 write-buffering settings; single faults for each, pairs for 4 of them",
          "thorough": "the same with pairs for all"}
ANY = ("none mq-deadline kyber", "none", "mq-deadline kyber")

SCHED = [("none [mq-deadline] kyber", "none mq-deadline kyber"), ("[none] mq-deadline kyber", "none mq-deadline kyber"), ("none mq-deadline [kyber]", "none mq-deadline kyber"),
         ("[mq-deadline] kyber", "mq-deadline kyber"), ("none", "none"), (None, ""), ("[bfq] none", "bfq none")]
RATIO = ["100\n", "1\n", "0", "37\n", None]
TEMP = ("none", "1")


def cases(tier):
    for si, (s, o) in enumerate(SCHED):
        for r in RATIO:
            for part in (False, True):
                for sc in ("good", "sum", "short", "small", "nobmap"):
                    for via in ("api", "cli"):
                        if via == "cli" and (part or sc in ("short", "nobmap")):
                            continue
                        pairs = via == "api" and sc != "small" and (tier != "quick" or (si in (0, 2) and r in ("100\n", "37\n") and not part and sc == "good"))
                        faults = via == "api" or tier != "quick" or (si in (0, 3) and r in ("100\n", "1\n"))
                        yield dict(sched=s, opts=o, ratio=r, part=part, sc=sc, via=via, pairs=pairs, faults=faults)


class Env:
    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        bs = 4096
        self.im = I.Image(bs, 4 * bs, [(0, 1), (3, 3)] if case["sc"] != "nobmap" else [(0, 3)])
        data = bytearray(self.im.bytes())
        if case["sc"] == "sum":
            data[5] ^= 1
        if case["sc"] == "short":
            data = data[:bs]
        self.ip, self.bp = ctx.path("image"), ctx.path("x.bmap")
        open(self.ip, "wb").write(data)
        open(self.bp, "wb").write(I.make_bmap(self.im))
        self.cap = self.im.size - (512 if case["sc"] == "small" else 0)

    def run(self, faults):
        """Returns (result, log, settings before, settings after); result: "ok", "interrupted" or a message"""
        ctx, case = self.ctx, self.case
        ctx.ev()
        vdev.reset()
        shutil.rmtree(ctx.path("sys"), ignore_errors=True)
        self.bd = bd = Blk(ctx, self.cap, partition=case["part"], sched=case["sched"], opts=case["opts"], ratio=case["ratio"])
        src = vdev.add(self.ip, vdev.REG)
        self.names = {bd.dev: "device", src: "source", bd.sched: "scheduler", bd.ratio: "ratio"}
        ids = {v: k for k, v in self.names.items() if k is not None}
        before = bd.settings()
        use = [(ids[w], op, nth, act, arg) for w, op, nth, act, arg in faults]
        # a setting that refuses a value also refuses it when the library tries again while closing the file
        use += [(ids[w], op, nth + 1, act, arg) for w, op, nth, act, arg in faults if w in ("scheduler", "ratio") and op == vdev.WRITE and act == vdev.ERR]
        vdev.active(1)
        nobmap = case["sc"] == "nobmap"
        if case["via"] == "cli":
            vdev.log_reset()
            for f in use:
                vdev.fault(*f)
            r = run_cli(["copy"] + (["--nobmap"] if nobmap else ["--bmap", self.bp]) + [self.ip, bd.path])
            log = vdev.log()
            need(r.rc != "hang", "the command hangs: %s", case)
            res = "ok" if r.rc == 0 else "exit status %s: %s" % (r.rc, r.err[-1500:])
        else:
            from bmaptools import BmapCopy
            s = open(self.ip, "rb", buffering=0)
            b = None if nobmap else open(self.bp, "rb")
            dest = bd.open()
            vdev.log_reset()
            for f in use:
                vdev.fault(*f)
            try:
                try:
                    BmapCopy.BmapBdevCopy(s, dest, b).copy(True, True)
                    res = "ok"
                except KeyboardInterrupt:
                    res = "interrupted"
                except Exception as e:
                    res = "%s: %s" % (type(e).__name__, e)
            except KeyboardInterrupt:
                res = "interrupted"
            log = vdev.log()
            vdev.clear_faults()
            for f in (dest, s, b):
                try:
                    if f:
                        f.close()
                except OSError:
                    pass
        after = bd.settings()
        return res, log, before, after


def run(case, ctx):
    env = Env(ctx, case)
    label = "scheduler %r ratio %r partition %s, %s, %s" % (case["sched"], case["ratio"], case["part"], case["sc"], case["via"])
    res, log, before, after = env.run(())
    names = env.names
    good = case["sc"] in ("good", "nobmap")
    need((res == "ok") == good, "%s: ended with %s", label, res)
    need(before == after, "%s: settings were %s and are now %s", label, before, after)
    if good:
        got = env.bd.content()
        want = blk.expected(env.im, env.cap, env.bd.fill)
        need(got == want, "%s: %s", label, diff_at(got, want))
    for dev, cur, temp in ((env.bd.sched, selected(case["sched"]), "none"), (env.bd.ratio, (case["ratio"] or "").strip(), "1")):
        if dev is not None and cur == temp:
            touched = [e for e in log if e.dev == dev and (e.op == vdev.WRITE or e.op == vdev.OPEN and e.flags & 3 != 0)]
            need(not touched, "%s: the %s setting is already %s, but was opened for writing or written: %s", label, names[dev], temp, touched)
    ctx.outcome("%s %s" % (case["sc"], "ok" if res == "ok" else "failed"))
    counts = {}
    for e in log:
        if e.op in (vdev.OPEN, vdev.READ, vdev.WRITE, vdev.FSYNC, vdev.LSEEK, vdev.CLOSE) and e.dev in names:
            counts[names[e.dev], e.op] = counts.get((names[e.dev], e.op), 0) + 1
    if not case["faults"]:
        return
    fails, ints, setting = [], [], []
    for (w, op), n in sorted(counts.items()):
        for k in range(n + 1):
            ints.append((w, op, k, vdev.SIGNAL, signal.SIGINT))
            if op == vdev.CLOSE or op == vdev.LSEEK and w in ("scheduler", "ratio"):
                continue
            for e in (errno.EACCES, errno.EINVAL) if w in ("scheduler", "ratio") else (errno.EIO,):
                f = (w, op, k, vdev.ERR, e)
                (setting if w in ("scheduler", "ratio") else fails).append(f)
    if case["sc"] == "small" and case["via"] == "api":
        return

    def one(faults):
        res, log, before, after = env.run(faults)
        what = "%s: %s" % (label, [("%s %s #%d %s" % (w, vdev.OPNAME[op], k, "interrupt" if act == vdev.SIGNAL else errno.errorcode[a])) for w, op, k, act, a in faults])
        # a restoration counts as failed if an access failed after the temporary value was written
        for i, w in ((0, "scheduler"), (1, "ratio")):
            changed = failed = False
            for e in log:
                if names.get(e.dev) == w and e.op in (vdev.OPEN, vdev.WRITE):
                    if e.op == vdev.WRITE and not e.err:
                        changed, failed = True, False
                    elif e.err and changed:
                        failed = True
            if before[i] == after[i]:
                continue
            need(failed, "%s: the %s was %r and is now %r (%s)", what, w, before[i], after[i], res)
            need(res != "ok", "%s: the %s could not be restored, but that was not reported", what, w)
            if case["via"] == "cli":
                need(os.path.basename(env.bd.sched_path if w == "scheduler" else env.bd.ratio_path) in res or any(f[3] == vdev.SIGNAL for f in faults), "%s: the message does not name the setting that was not restored: %s", what, res)
            ctx.outcome("not restored, reported")
            return
        hit = [f for f in faults if f[3] == vdev.ERR and any(e.err == f[4] and e.op == f[1] and names.get(e.dev) == f[0] for e in log)]
        if good and not any(f[3] == vdev.SIGNAL for f in faults) and all(f[0] in ("scheduler", "ratio") for f in hit):
            # settings that cannot be read or changed do not matter (what cannot be restored was dealt with above)
            if not (res == "ok" or any(changed_then_failed(log, names, w) for w in ("scheduler", "ratio"))):
                raise Fail("%s: the copy did not succeed: %s" % (what, res))
            ctx.outcome("setting inaccessible")
        else:
            ctx.outcome("restored")

    for f in fails + ints + setting:
        one((f,))
    if case["pairs"]:
        rest = [f for f in setting if f[1] in (vdev.OPEN, vdev.WRITE)]
        for f in fails + ints:
            for g in rest:
                if f[:3] != g[:3]:
                    one((f, g))
        for i, f in enumerate(setting):
            for g in setting[i + 1:]:
                if f[:3] != g[:3]:
                    one((f, g))


def changed_then_failed(log, names, w):
    changed = False
    for e in log:
        if names.get(e.dev) == w and e.op in (vdev.OPEN, vdev.WRITE):
            if e.op == vdev.WRITE and not e.err:
                changed = True
            elif e.err and changed:
                return True
    return False


def selected(s):
    if s is None:
        return None
    if "[" in s:
        return s.split("[")[1].split("]")[0]
    return s.strip()
