"""C27: the commands leave nothing behind but their result, however they end."""
import ctypes, errno, fcntl, os, signal, socket, struct, subprocess, sys, tempfile, termios, threading, time
from mc import blk, core, formats, net, vdev, img as I
from mc.core import Fail, need
from mc.drive import read_file, run_cli
from checks import c19
from checks.c18 import descendants

LEVEL = "exhaustive_bounded"
RULE = ("copy: image form x bmap form (local, URL, clear-signed, discovered, with a signature from a URL) x destination x {no fault, every single operation on image, bmap, destination and "
        "temporary files fails, SIGINT before and after every such operation}; create: image x output x the same; every kind of refusal; sources that stall after nothing or some data x bmap "
        "form x SIGINT to the process or its whole group, once or twice, in a real interpreter. Afterwards: processes, temporary files and directory listings are compared; non-trivial: every execution")
ASSUMPTIONS = ["Helper processes may take 3 s to notice that they are not needed any more.", "An interrupt that hits Python's tempfile module itself, right after it created a file, is not judged.",
               "ssh is a stand-in that runs the remote command locally."]
BOUNDS = {"quick": "one fault or interrupt per run; 10 s to end after an interrupt", "thorough": "both kinds of destination for all image forms; interrupts before every operation"}
IM = c19.IM
DATA = IM.bytes()


def cases(tier):
    th = tier != "quick"
    for image in ("plain", "gz", "tar.gz", "xz", "stdin", "http", "http.gz", "ssh", "ssh.gz", "file"):
        for bm in ("given", "found", "url", "clr", "clrurl", "signed", "sigurl", "nobmap", "wrong") if th or image in ("plain", "gz", "http.gz") else ("found", "url", "clr", "sigurl", "nobmap", "wrong"):
            if bm == "found" and image in ("stdin", "ssh", "ssh.gz"):
                continue
            for dest in ("file", "blk") if image in ("plain", "gz", "http.gz") or th else ("file",):
                for part in range(3 if image in ("plain", "gz", "tar.gz") or th else 1):
                    yield dict(t="copy", image=image, bmap=bm, dest=dest, part=part, parts=3 if image in ("plain", "gz", "tar.gz") or th else 1)
    for out in ("stdout", "file", "both"):
        for chk in (True, False):
            for part in range(4):
                yield dict(t="create", out=out, chk=chk, part=part)
    for image in ("plain", "gz", "http", "http.gz", "ssh"):
        yield dict(t="refused", image=image)
    for src in ("stdin", "fifo", "fifo.gz", "fifo.tar.gz", "fifo.xz", "http", "http.gz", "http.tar.gz", "ssh", "ssh.gz"):
        for bm in ("nobmap", "given", "url", "clr", "sigurl"):
            for cut in (0, 60000, -1):
                for how in ("process", "group", "twice"):
                    if how == "twice" and (cut != 60000 or bm not in ("nobmap", "url")):
                        continue
                    yield dict(t="stall", src=src, bmap=bm, cut=cut, how=how)


def prepare(tier, base):
    c19.prepare(tier, base)


def worker_init(ctx):
    c19.worker_init(ctx)
    d = net.install_ssh(os.path.join(ctx.base, "bin"))
    os.environ["PATH"] = d + ":" + os.environ["PATH"]
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)


_made = {}


def made(ctx, ext):
    if ext not in _made:
        _made[ext] = formats.make(ext, DATA, ctx.dir)
    return _made[ext]


class World:
    """The files in a directory of their own, the temporary directory, and the server."""

    def __init__(self, ctx, image, bm):
        self.ctx = ctx
        self.root, self.tmp = ctx.path("root"), ctx.path("tmp")
        os.mkdir(self.root)
        os.mkdir(self.tmp)
        self.dest = os.path.join(self.root, "dest")
        ext = image.split(".", 1)[1] if "." in image else "" if image in ("plain", "stdin", "http", "ssh", "file") else image
        name = "image" + ("." + ext if ext else "")
        self.local = os.path.join(self.root, name)
        raw = made(ctx, ext) if ext else DATA
        with open(self.local, "wb") as f:
            f.write(raw)
        self.files = {"/" + name: raw}
        self.srv = net.Server(lambda r: net.response(self.files[r.path]) if r.path in self.files else net.response(b"no", status="404 Not Found"))
        self.stdin = None
        kind = image.split(".")[0]
        if image == "stdin":
            self.image, self.stdin = "-", self.local
        elif kind == "http":
            self.image = self.srv.url("/" + name)
        elif kind == "ssh":
            self.image = "ssh://host" + self.local
        else:
            self.image = "file://" + self.local if image == "file" else self.local
        self.kind = kind
        self.bmap(bm)

    def bmap(self, bm):
        bp = os.path.join(self.root, "x.bmap")
        content = c19.fx("alice.clr") if bm in ("clr", "clrurl") else c19.fx("x.bmap")
        if bm == "wrong":
            content = I.make_bmap(IM, "1.2").replace(b'sha1="', b'sha1="0', 2).replace(b'sha1="00', b'sha1="0')
        self.args, self.bp = ["--bmap", bp], bp
        if bm in ("url", "clrurl"):
            self.files["/x.bmap"] = content
            self.args, self.bp = ["--bmap", self.srv.url("/x.bmap")], None
        elif bm == "found":
            self.files["/image.bmap"] = content
            self.args, self.bp = [], os.path.join(self.root, "image.bmap")
        elif bm == "nobmap":
            self.args, self.bp = ["--nobmap"], None
        if self.bp:
            with open(self.bp, "wb") as f:
                f.write(content)
        if bm == "signed":
            with open(bp + ".sig", "wb") as f:
                f.write(c19.fx("alice.sig"))
        elif bm == "sigurl":
            self.files["/x.asc"] = c19.fx("alice.asc")
            self.args += ["--bmap-sig", self.srv.url("/x.asc")]

    def close(self):
        self.srv.close()


def listing(root):
    res = set()
    for d, ds, fs in os.walk(root):
        res.update(os.path.relpath(os.path.join(d, n), root) for n in ds + fs)
    return res


def helpers():
    return {p: v for p, v in descendants().items() if v[1] not in "ZX" and "gpg-agent" not in v[2] and "keyboxd" not in v[2]}


def nothing_left(w, before, allowed, what):
    left = listing(w.tmp)
    need(not left, "%s: temporary files left behind: %s", what, sorted(left))
    new = listing(w.root) - before - set(allowed)
    need(not new, "%s: files left behind: %s", what, sorted(new))
    end = time.monotonic() + 3
    while helpers():
        if time.monotonic() > end:
            alive = helpers()
            for p in alive:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            raise Fail("%s: processes left behind: %s" % (what, sorted(v[2] for v in alive.values())))
        time.sleep(0.002)


def reap():
    try:
        while os.waitpid(-1, os.WNOHANG)[0]:
            pass
    except ChildProcessError:
        pass


def run(case, ctx):
    globals()["do_" + case["t"]](case, ctx)


def in_tmp(w):
    def setup():
        tempfile.tempdir = os.environ["TMPDIR"] = w.tmp
    return setup


def do_copy(case, ctx):
    w = World(ctx, case["image"], case["bmap"])
    try:
        base_what = "image %s, bmap %s, destination %s" % (case["image"], case["bmap"], case["dest"])
        before = None

        def go(fault=None, also=None):
            nonlocal before
            if case["dest"] == "blk":
                if os.path.exists(ctx.path("sys")):
                    import shutil
                    shutil.rmtree(ctx.path("sys"))
                b = blk.Blk(ctx, len(DATA) + 5000, name="root/dest")
                devs = dict(d=b.dev)
            else:
                vdev.reset()
                if os.path.exists(w.dest):
                    os.unlink(w.dest)
                devs = dict(d=vdev.add(w.dest, vdev.REG))
            before = listing(w.root)
            devs["s"] = vdev.add(w.local, vdev.REG)
            if w.bp:
                devs["b"] = vdev.add(w.bp, vdev.REG)
            devs["t"] = vdev.add("/nonexistent/probe", vdev.PROBE)
            vdev.probe(w.tmp, devs["t"])
            for f in (fault, also):
                if f:
                    vdev.fault(devs[f[0]], *f[1:])
            vdev.log_reset()
            vdev.active(1)
            ctx.ev()
            try:
                r = run_cli(["copy"] + w.args + [w.image, w.dest], stdin=w.stdin, setup=in_tmp(w), env={"GNUPGHOME": ctx.home})
                log = vdev.log()
            finally:
                vdev.active(0)
            return r, {k: [e for e in log if e.dev == v] for k, v in devs.items()}
        r, log = go()
        reap()
        need(r.rc == (1 if case["bmap"] == "wrong" else 0), "%s: exit status %s\n%s", base_what, r.rc, r.err[-900:])
        nothing_left(w, before, ["dest"], base_what)
        ctx.outcome("no fault")
        n = 0
        for who in log:
            for op in (vdev.OPEN, vdev.READ, vdev.WRITE, vdev.LSEEK, vdev.FSYNC, vdev.TRUNC, vdev.IOCTL):
                for k in range(sum(e.op == op for e in log[who])):
                    for act in (vdev.ERR, vdev.SIGNAL_BEFORE, vdev.SIGNAL):
                        if act == vdev.SIGNAL_BEFORE and k and ctx.tier == "quick":
                            continue    # much the same as after the operation before
                        n += 1
                        if n % case["parts"] != case["part"] or who == "t" and op == vdev.OPEN and act != vdev.ERR:
                            continue
                        what = "%s: %s %d of the %s %s" % (base_what, vdev.OPNAME[op], k + 1, dict(d="destination", s="image", b="bmap", t="temporary file")[who],
                                                          "fails" if act == vdev.ERR else "is interrupted" if act == vdev.SIGNAL else "is about to be interrupted")
                        r, _ = go((who, op, k, act, errno.EIO if act == vdev.ERR else signal.SIGINT))
                        reap()
                        need(r.rc != "hang", "%s: hangs", what)
                        nothing_left(w, before, ["dest"], what)
                        ctx.outcome("fault" if act == vdev.ERR else "interrupt")
    finally:
        vdev.reset()
        w.close()


def do_create(case, ctx):
    """The bmap is generated on a file system without FIEMAP (tmpfs), where the directory of the image is used for probing."""
    im = I.Image(4096, 200 * 4096, [(i, i) for i in range(0, 198, 11)])
    root, tmp = ctx.path("root"), ctx.path("tmp")
    os.mkdir(root)
    os.mkdir(tmp)

    class w:
        pass
    w.root, w.tmp = root, tmp
    p, out = im.write(os.path.join(root, "image")), os.path.join(root, "out")
    for probed in (tmp, root):
        def go(fault=None):
            vdev.reset()
            if os.path.exists(out):
                os.unlink(out)
            devs = dict(s=vdev.add(p, vdev.REG), d=vdev.add(out, vdev.REG), t=vdev.add("/nonexistent/probe", vdev.PROBE))
            vdev.probe(probed, devs["t"])
            if fault:
                vdev.fault(devs[fault[0]], *fault[1:])
            vdev.log_reset()
            vdev.active(1)
            ctx.ev()
            try:
                r = run_cli(["create", p] + (["-o", out] if case["out"] != "stdout" else []) + ([] if case["chk"] else ["--no-checksum"]), setup=in_tmp(w))
                log = vdev.log()
            finally:
                vdev.active(0)
            return r, {k: [e for e in log if e.dev == v] for k, v in devs.items()}
        r, log = go()
        need(r.rc == 0, "create: exit status %s\n%s", r.rc, r.err[-900:])
        nothing_left(w, {"image"}, ["out"], "create")
        n = 0
        for who in log:
            if probed == root and who != "t":
                continue
            for op in (vdev.OPEN, vdev.READ, vdev.WRITE, vdev.LSEEK, vdev.FSYNC, vdev.TRUNC, vdev.IOCTL):
                total = sum(e.op == op for e in log[who])
                for k in range(total) if total < 60 or ctx.tier != "quick" else list(range(20)) + list(range(20, total - 20, max(1, total // 10))) + list(range(total - 20, total)):
                    for act in (vdev.ERR, vdev.SIGNAL_BEFORE, vdev.SIGNAL):
                        n += 1
                        if n % 4 != case["part"] or who == "t" and op == vdev.OPEN and act != vdev.ERR:
                            continue
                        what = "create (%s): %s %d of the %s %s" % (case["out"], vdev.OPNAME[op], k + 1, dict(d="output", s="image", t="temporary file")[who],
                                                                   "fails" if act == vdev.ERR else "is interrupted" if act == vdev.SIGNAL else "is about to be interrupted")
                        r, _ = go((who, op, k, act, errno.EIO if act == vdev.ERR else signal.SIGINT))
                        need(r.rc != "hang", "%s: hangs", what)
                        nothing_left(w, {"image"}, ["out"], what)
                        ctx.outcome("fault" if act == vdev.ERR else "interrupt")
    vdev.reset()


def do_refused(case, ctx):
    """The command refuses to work."""
    w = World(ctx, case["image"], "given")
    srv = w.srv
    try:
        put = lambda n, d: (open(os.path.join(w.root, n), "wb").write(d), w.files.__setitem__("/" + n, d))
        put("bad.bmap", c19.fx("x.bmap")[:-40])
        put("sum.bmap", c19.fx("x.bmap").replace(b"<bmap", b"<bmap ", 1))
        put("short.bmap", I.make_bmap(I.Image(4096, 100 * 4096, [(0, 99)])))
        put("new.bmap", I.make_bmap(IM, "9.0"))
        put("s.bmap", c19.fx("x.bmap"))
        put("s.bmap.asc", c19.fx("eve.asc"))
        put("c.bmap", c19.fx("eve.clr"))
        put("none.bmap", b"")
        u = lambda n: srv.url("/" + n)
        p = lambda n: os.path.join(w.root, n)
        tries = []
        for f in (u, p):
            for n in ("bad.bmap", "sum.bmap", "short.bmap", "new.bmap", "s.bmap", "c.bmap", "none.bmap", "missing.bmap"):
                tries.append((["--bmap", f(n)], w.image, w.dest))
            tries.append((["--bmap", f("x.bmap"), "--bmap-sig", f("missing")], w.image, w.dest))
            tries.append((["--bmap", f("x.bmap"), "--bmap-sig", f("none.bmap")], w.image, w.dest))
            tries.append((["--bmap", f("x.bmap"), "--bmap-sig", f("s.bmap.asc"), "--no-sig-verify"], w.image, w.dest))
            tries.append((["--bmap", f("x.bmap")], w.image, p("nodir/dest")))
            tries.append((["--bmap", f("x.bmap")], w.image, w.root))
            tries.append((["--bmap", f("x.bmap")], w.image, w.local))
            tries.append((["--bmap", f("x.bmap"), "--nobmap"], w.image, w.dest))
        tries.append(([], w.image, w.dest))
        tries.append((["--nobmap"], w.image + "x", w.dest))
        w.files["/x.bmap"] = c19.fx("x.bmap")
        for args, image, dest in tries:
            before = listing(w.root)
            ctx.ev()
            what = "copy %s of a %s image" % (args, case["image"])
            r = run_cli(["copy"] + args + [image, dest], setup=in_tmp(w), env={"GNUPGHOME": ctx.home})
            reap()
            need(r.rc != "hang", "%s: hangs", what)
            nothing_left(w, before, ["dest"], what)
            ctx.outcome("refused" if r.rc else "copied")
        for args in (["create", p("missing")], ["create", w.root], ["create", w.local, "-o", w.local], ["create", w.local, "-o", p("no/out")], ["create", p("none.bmap")], ["create", w.local, "-o", "/dev/full"]):
            before = listing(w.root)
            ctx.ev()
            r = run_cli(args, setup=in_tmp(w))
            need(r.rc not in (0, "hang"), "%s: exit status %s", args, r.rc)
            nothing_left(w, before, [], "%s" % args)
            ctx.outcome("refused")
    finally:
        w.close()


MAIN = """import sys
sys.path.insert(0, %r)
sys.dont_write_bytecode = True
from bmaptools.CLI import main
sys.argv[0] = 'bmaptool'
sys.exit(main())
"""


def quiet(pid, seconds=15):
    """Waits until all threads of the process and of its children have been sleeping for a while."""
    end, calm = time.monotonic() + seconds, 0
    last = None
    while calm < 6 and time.monotonic() < end:
        state, cpu = [], 0
        pids = [pid]
        for q in pids:
            try:
                for t in os.listdir("/proc/%d/task" % q):
                    with open("/proc/%d/task/%s/stat" % (q, t)) as f:
                        st = f.read().rsplit(")", 1)[1].split()
                    state.append(st[0])
                    cpu += int(st[11]) + int(st[12])
                    with open("/proc/%d/task/%s/children" % (q, t)) as f:
                        pids += [int(x) for x in f.read().split()]
            except OSError:
                pass
        calm = calm + 1 if set(state) <= set("SZ") and cpu == last else 0
        last = cpu
        time.sleep(0.02)


def do_stall(case, ctx):
    src, cut = case["src"], case["cut"]
    kind, _, ext = src.partition(".")
    big = case["bmap"] in ("nobmap",)
    data = DATA if not big else DATA * 20
    raw = formats.make(ext, data, ctx.dir) if ext else data
    w = World(ctx, "plain", case["bmap"])
    os.unlink(w.local)
    n = cut if cut >= 0 else len(raw) - 1
    script = ctx.path("main.py")
    with open(script, "w") as f:
        f.write(MAIN % core.REPO)
    env = dict(os.environ, GNUPGHOME=ctx.home, TMPDIR=w.tmp)
    name = "image" + ("." + ext if ext else "")
    path = os.path.join(w.root, name)
    done, stop = threading.Event(), threading.Event()
    stdin, feeder, srv2 = subprocess.DEVNULL, None, None
    what = "%s which stalls after %d of %d bytes, bmap %s, interrupt to the %s" % (src, n, len(raw), case["bmap"], case["how"])

    def feed(fd):
        try:
            v = memoryview(raw)[:n]
            while v:
                v = v[os.write(fd, v[:65536]):]
            done.set()
            stop.wait(60)
        except OSError:
            pass
        finally:
            done.set()
            os.close(fd)
    try:
        if kind == "stdin":
            stdin, wfd = os.pipe()
            feeder = threading.Thread(target=feed, args=(wfd,), daemon=True)
            image = "-"
        elif kind == "fifo":
            os.mkfifo(path)

            def opened():
                while not stop.is_set():
                    try:
                        fd = os.open(path, os.O_WRONLY | os.O_NONBLOCK)
                        os.set_blocking(fd, True)
                        return feed(fd)
                    except OSError:
                        time.sleep(0.01)
                done.set()
            feeder = threading.Thread(target=opened, daemon=True)
            image = path
        elif kind == "http":
            def answer(r):
                if r.path != "/" + name:
                    return net.response(b"no", status="404 Not Found")
                return [net.response(raw[:n], length=len(raw)), ("hold", stop)]
            srv2 = net.Server(answer)
            image = srv2.url("/" + name)
            done.set()
        else:
            with open(path, "wb") as f:
                f.write(raw)
            env.update(MC_SSH_CUT=str(n), MC_SSH_STALL="1")
            image = "ssh://host" + path
            done.set()
        before = listing(w.root)
        ctx.ev()
        err = tempfile.TemporaryFile()
        p = subprocess.Popen([sys.executable, script, "copy"] + w.args + [image, w.dest], stdin=stdin, stdout=subprocess.DEVNULL, stderr=err, env=env, process_group=0)
        if stdin != subprocess.DEVNULL:
            os.close(stdin)
            stdin = subprocess.DEVNULL
        if feeder:
            feeder.start()
            done.wait(20)
        quiet(p.pid)
        for k in range(2 if case["how"] == "twice" else 1):
            try:
                (os.killpg if case["how"] == "group" else os.kill)(p.pid, signal.SIGINT)
            except OSError:
                pass
            if k == 0 and case["how"] == "twice":
                time.sleep(0.01)
        try:
            rc = p.wait(10)
        except subprocess.TimeoutExpired:
            core.kill_tree([p.pid])
            p.wait()
            raise Fail("%s: does not end within 10 s" % what)
        err.seek(0)
        text = err.read().decode("utf-8", "replace")
        err.close()
        need(rc != 0, "%s: exit status 0", what)
        need(rc > 0 or rc == -signal.SIGINT, "%s: killed by signal %d\n%s", what, -rc, text[-900:])
        need("Fatal Python error" not in text, "%s: crash\n%s", what, text[-900:])
        if case["how"] != "twice":
            need("interrupted" in text or "KeyboardInterrupt" in text or "ERROR" in text, "%s: no message\n%s", what, text[-600:])
        if kind == "ssh" and case["how"] != "group":
            # the stand-in and its "sleep" have to be told
            pass
        nothing_left(w, before, ["dest"], what)
        ctx.outcome("interrupted while waiting")
    finally:
        stop.set()
        if stdin != subprocess.DEVNULL:
            os.close(stdin)
        if feeder and feeder.is_alive():
            feeder.join(5)
        if srv2:
            srv2.close()
        w.close()
