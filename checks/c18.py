"""C18: closing a source at any moment releases everything it used."""
import ctypes, gc, os, select, signal, subprocess, sys, threading, time
from mc import core, formats, net, img as I
from mc.core import Fail, need
from mc.drive import run_cli

LEVEL = "exhaustive_bounded"
RULE = ("transport x extension x content size x how far the remote side gets (complete, stalled after 0, some or nearly all bytes, connection dropped) x every "
        "sequence of reads and seeks up to a depth that does not have to wait for missing data x closing at once or after a pause, once or twice, or dropping the last "
        "reference; every way an open can fail; each in a process of its own, "
        "whose open files, threads, temporary files and descendants are compared before and after; non-trivial: every sequence")
ASSUMPTIONS = ["After closing, a decompressor's helper process may take up to 3 s to notice and end.",
               "ssh is a stand-in that runs the remote command locally."]
BOUNDS = {"quick": "depth 1 for all, 2 for some; contents of 3000 bytes and 6 MiB", "thorough": "depth 2 for all; 13 formats"}
LIMIT = 8

EXTS = ["", "gz", "bz2", "xz", "lzo", "lz4", "zst", "zip", "tar.gz"]


def cases(tier):
    th = tier != "quick"
    exts = [""] + formats.MAIN if th else EXTS
    for ext in exts:
        for t in ("path", "file", "fifo", "http", "ssh"):
            for n in (3000, 6 << 20):
                for stall in (None, "0", "some", "most", "rst"):
                    if stall and t in ("path", "file"):
                        continue
                    if stall == "rst" and t != "http" or t == "fifo" and stall == "most":
                        continue
                    yield dict(t=t, ext=ext, n=n, stall=stall, depth=2 if th or ext in ("", "gz", "tar.gz") and n == 3000 else 1)
    yield dict(t="fail")
    for ext in ("", "gz", "tar.gz", "xz", "zip"):
        yield dict(t="cli", ext=ext)


def worker_init(ctx):
    d = net.install_ssh(os.path.join(ctx.base, "bin"))
    os.environ["PATH"] = d + ":" + os.environ["PATH"]
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 2)
    os.close(fd)


def fds():
    res = {}
    for d in os.listdir("/proc/self/fd"):
        try:
            res[d] = os.readlink("/proc/self/fd/" + d)
        except OSError:
            pass
    return res


def descendants():
    """{pid: (parent, state, command)} of all processes below this one"""
    par = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    a, b = f.read().rsplit(")", 1)
                st = b.split()
                par[int(d)] = (int(st[1]), st[0], a.split("(", 1)[1])
            except OSError:
                pass
    res, todo = {}, [os.getpid()]
    while todo:
        p = todo.pop()
        for q, v in par.items():
            if v[0] == p and q not in res:
                res[q] = v
                todo.append(q)
    return res


def listing():
    import tempfile
    return set(os.listdir(tempfile.gettempdir()))


def measured(body, allowed=()):
    """Runs body() in a forked process, and compares what is there before and after. Returns a message or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        msg = "died"
        try:
            os.setpgid(0, 0)
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            import tempfile
            tempfile.tempdir = os.environ["TMPDIR"] = tempfile.mkdtemp()
            ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
            msg = _child(body)
        except BaseException as e:
            msg = "!" + core.tb_text(e)
        finally:
            os.write(w, (msg or "").encode()[-60000:] + b"\0")
            os._exit(0)
    os.close(w)
    buf = b""
    end = time.monotonic() + LIMIT
    try:
        while not buf.endswith(b"\0"):
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                buf = b"does not return (hangs)\0"
                break
            d = os.read(r, 65536)
            if not d:
                buf += b"\0"
                break
            buf += d
    finally:
        os.close(r)
        core.kill_tree([pid])
        os.waitpid(pid, 0)
    return buf[:-1].decode("utf-8", "replace") or None


def _child(body):
    gc.collect()
    base_fds, base_threads, base_tmp = fds(), set(threading.enumerate()), listing()
    # the processes the code itself starts (not their children, which are adopted when those end)
    direct = []
    real = subprocess.Popen._execute_child

    def spy(self, *a, **k):
        real(self, *a, **k)
        direct.append(self.pid)
    subprocess.Popen._execute_child = spy
    body()
    left = descendants()
    own = [p for p in direct if p in left]
    if own:
        return "a child process is still there right after closing: %s" % [left[p] for p in own]
    gc.collect()
    end = time.monotonic() + 3
    while True:
        problems = []
        alive = {p: v for p, v in descendants().items() if v[1] not in "ZX"}
        if alive:
            problems.append("processes left: %s" % alive)
        th = [t for t in threading.enumerate() if t not in base_threads]
        if th:
            problems.append("threads left: %s" % th)
        f = {k: v for k, v in fds().items() if k not in base_fds or base_fds[k] != v}
        f = {k: v for k, v in f.items() if not v.startswith("/proc/")}
        if f:
            problems.append("open files left: %s" % f)
        t = listing() - base_tmp
        if t:
            problems.append("temporary files left: %s" % sorted(t))
        if not problems:
            return None
        if time.monotonic() > end:
            return "; ".join(problems)
        time.sleep(0.01)


def ops_for(stall):
    if stall is None:
        return ["r1", "r70000", "rest", "s2000"]
    return ["r1", "s2"] if stall in ("some", "most") else []


def run(case, ctx):
    t, ext = case["t"], case["ext"] if "ext" in case else None
    if t == "fail":
        return fail(case, ctx)
    if t == "cli":
        return cli(case, ctx)
    n = case["n"]
    data = I.pattern(3, n)
    raw = formats.make(ext, data, ctx.dir) if ext else data
    stall = case["stall"]
    path = ctx.path("image" + ("." + ext if ext else ""))
    cut = {None: len(raw), "0": 0, "some": 1500 if n < 5000 else 3 << 20, "most": len(raw) - 1, "rst": len(raw) // 2}[stall]
    env, srv, feeder = {}, None, None
    if t != "fifo":
        with open(path, "wb") as f:
            f.write(raw)
    if t == "http":
        acts = [net.response(raw[:cut], length=len(raw))]
        acts += ["rst"] if stall == "rst" else [("sleep", 1000)] if stall else []
        srv = net.ForkServer(acts)
        name = srv.url("/image" + ("." + ext if ext else ""))
    elif t == "file":
        name = "file://" + path
    elif t == "ssh":
        name = "ssh://host" + path
        if stall:
            env = {"MC_SSH_CUT": str(cut), "MC_SSH_STALL": "1"}
    else:
        name = path
        if t == "fifo":
            os.mkfifo(path)
    # data can be read without waiting only if it is not compressed (a decompressor may need everything first)
    ops = ops_for(stall) if not (stall and ext) else []
    if stall == "rst":
        ops = ["rest", "r70000"]
    os.environ.update(env)
    try:
        from checks.c16 import sequences
        from bmaptools import TransRead
        for seq in sequences(None, ops, case["depth"]):
            for pause in (0, 0.05) if stall or n > 3000 else (0,):
                for how in ("close", "twice", "del") if not pause and not seq else ("close",):
                    what = "%s%s of %d bytes, stalled: %s, operations %s, %s%s" % (t, " " + ext if ext else "", n, stall, seq, how, " after a pause" if pause else "")

                    def body():
                        o = TransRead.TransRead(name)
                        for op in seq:
                            try:
                                if op[0] == "s":
                                    o.seek(int(op[1:]), 1)
                                elif op == "rest":
                                    o.read()
                                else:
                                    o.read(int(op[1:]))
                            except TransRead.Error:
                                pass
                        if pause:
                            time.sleep(pause)
                        if how != "del":
                            o.close()
                        if how == "twice":
                            o.close()
                    if t == "fifo":
                        feeder = os.fork()
                        if feeder == 0:
                            try:
                                w = os.open(path, os.O_WRONLY)
                                v = memoryview(raw[:cut])
                                while v:
                                    v = v[os.write(w, v[:65536]):]
                                if stall:
                                    time.sleep(1000)
                            except BaseException:
                                pass
                            os._exit(0)
                    ctx.ev()
                    # without close() only the decompressors of local files are known to be ended at once
                    if how == "del" and (t not in ("path", "fifo") and ext):
                        continue
                    msg = measured(body)
                    if feeder:
                        os.kill(feeder, signal.SIGKILL)
                        os.waitpid(feeder, 0)
                        feeder = None
                    need(msg is None, "%s: %s", what, msg)
                    ctx.outcome("%s %s" % (t, "stalled" if stall else "complete"))
    finally:
        for k in env:
            os.environ.pop(k, None)
        if feeder:
            os.kill(feeder, signal.SIGKILL)
            os.waitpid(feeder, 0)
        if srv:
            srv.close()


def fail(case, ctx):
    """Opening fails."""
    from bmaptools import TransRead
    path = ctx.path("image.gz")
    with open(path, "wb") as f:
        f.write(formats.make("gz", b"abc", ctx.dir))
    d = ctx.path("emptybin")
    os.mkdir(d)
    os.symlink("/usr/bin/sh", d + "/sh")
    tries = [("missing file", ctx.path("missing"), {}), ("no such scheme", "nosuch://x/y", {}), ("directory", ctx.dir, {}),
             ("program missing", path, {"PATH": d}), ("program missing, file URL", "file://" + path, {"PATH": d}),
             ("missing file URL", "file://" + ctx.path("missing"), {}), ("missing ssh", "ssh://host/x", {"PATH": d}),
             ("ssh: file missing", "ssh://host" + ctx.path("missing"), {})]
    for rc in (1, 5, 255):
        tries.append(("ssh exit %d" % rc, "ssh://host" + path, {"MC_SSH_TRUE": str(rc)}))
        tries.append(("ssh test exit %d" % rc, "ssh://host" + path, {"MC_SSH_TEST": str(rc)}))
        tries.append(("sshpass exit %d" % rc, "ssh://u:p@host" + path, {"MC_SSHPASS_RC": str(rc)}))
    srvs = []
    for name, acts in (("404", [net.response(b"no", status="404 Not Found")]), ("401", [net.response(b"", status="401 Unauthorized", headers=['WWW-Authenticate: Basic realm="x"'])]),
                       ("500", [net.response(b"x" * 100000, status="500 Oops")]), ("garbage", [b"garbage\r\n\r\n"]), ("nothing", [b""]), ("reset", ["rst"])):
        s = net.ForkServer(acts)
        srvs.append(s)
        for ext in ("", ".gz"):
            tries.append(("HTTP " + name + ext, s.url("/x" + ext), {}))
    s = net.ForkServer([net.response(open(path, "rb").read())])
    srvs.append(s)
    tries.append(("program missing, HTTP", s.url("/x.gz"), {"PATH": d}))
    try:
        for what, name, env in tries:
            def body():
                try:
                    o = TransRead.TransRead(name)
                except Exception:
                    return
                o.close()
            old = dict(os.environ)
            os.environ.update(env)
            try:
                ctx.ev()
                msg = measured(body)
                need(msg is None, "%s: %s", what, msg)
                ctx.outcome("failed open")
            finally:
                os.environ.clear()
                os.environ.update(old)
    finally:
        for s in srvs:
            s.close()


def cli(case, ctx):
    """The copy command itself: ends and leaves nothing behind, whether it succeeds or fails early."""
    ext = case["ext"]
    im = I.Image(4096, 3 << 20, [(0, (3 << 20) // 4096 - 1)])
    data = im.bytes()
    raw = formats.make(ext, data, ctx.dir) if ext else data
    path = ctx.path("image" + ("." + ext if ext else ""))
    bad = I.Image(4096, 3 << 20, [(0, (3 << 20) // 4096 - 1)], seed=99) if "seed" in I.Image.__init__.__code__.co_varnames else None
    good, wrong = ctx.path("good.bmap"), ctx.path("wrong.bmap")
    open(good, "wb").write(I.make_bmap(im))
    open(wrong, "wb").write(make_wrong(im))
    open(path, "wb").write(raw)
    srv = net.ForkServer([net.response(raw)])
    bm = net.response(open(good, "rb").read())
    bsrv = net.ForkServer(lambda r: [bm] if r.path.endswith(".bmap") else [net.response(status="404 Not Found")])
    script = ctx.path("main.py")
    open(script, "w").write("import sys\nsys.path.insert(0, %r)\nfrom bmaptools.CLI import main\nsys.argv[0] = 'bmaptool'\nsys.exit(main())\n" % core.REPO)
    try:
        for name in (path, "file://" + path, srv.url("/" + os.path.basename(path)), "ssh://host" + path):
            for bm, rc in ((good, 0), (wrong, 1), (None, 0), (bsrv.url("/x.bmap"), 0), (ctx.path("missing.bmap"), 1)):
                what = "copy of %s with %s" % (name, os.path.basename(bm) if bm else "--nobmap")
                out = []

                def body():
                    p = subprocess.run([sys.executable, script, "copy"] + (["--bmap", bm] if bm else ["--nobmap"]) + [name, ctx.path("dest")],
                                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
                    if p.returncode != rc:
                        raise RuntimeError("exit status %d\n%s" % (p.returncode, p.stderr.decode()[-600:]))
                ctx.ev()
                msg = measured(body)
                need(msg is None, "%s: %s", what, msg)
                ctx.outcome("command")
    finally:
        srv.close()
        bsrv.close()


def make_wrong(im):
    """A bmap whose first range checksum is wrong (with a correct checksum of itself)."""
    raw = I.make_bmap(im, "1.2")
    i = raw.index(b'sha1="') + 6
    return raw[:i] + (b"0" if raw[i:i + 1] != b"0" else b"1") + raw[i + 1:]
