"""Drivers: ways of running the code under test."""
import io, os, signal, sys, threading, time
from mc import core, vdev
from mc.core import Fail, need


class Short:
    """An image source whose read() often returns less than it was asked for (like an unbuffered pipe)."""

    def __init__(self, path, most=700):
        self._f = open(path, "rb", buffering=0)
        self.name = path
        self._most = most
        self._k = 0
        self.seek, self.tell, self.close = self._f.seek, self._f.tell, self._f.close

    def read(self, size=-1):
        self._k += 1
        return self._f.read(min(size, 1 + self._k * 7919 % self._most)) if size and size > 0 else self._f.read(size)


class Fwd:
    """An image source that can only be read and sought forward (like a decompressor's output)."""

    def __init__(self, path, sizes=None):
        self._f = open(path, "rb")
        self.name = path
        self._pos = 0
        self._sizes = list(sizes or [])

    def read(self, size=-1):
        if self._sizes and size and size > 0:
            n = self._sizes.pop(0)
            if n:
                size = min(size, n)
        b = self._f.read(size)
        self._pos += len(b)
        return b

    def seek(self, offset, whence=0):
        if whence == 1:
            offset += self._pos
        elif whence != 0:
            raise io.UnsupportedOperation("seek from the end")
        if offset < self._pos:
            raise io.UnsupportedOperation("seek backwards")
        self._f.seek(offset)
        self._pos = offset

    def tell(self):
        return self._pos

    def close(self):
        self._f.close()


def open_source(kind, path):
    if kind == "file":
        return open(path, "rb")
    if kind == "raw":
        return open(path, "rb", buffering=0)
    if kind == "fwd":
        return Fwd(path)
    if kind.startswith("short"):
        return Short(path, int(kind[5:]))
    if kind == "trans":
        from bmaptools import TransRead
        return TransRead.TransRead(path)
    raise core.HarnessError(kind)


class CliResult:
    pass


def run_cli(args, stdin=None, stdout=None, env=None, cwd=None, timeout=40, setup=None, interrupt=None, keep=False, tty=False):
    """Run the command line in a forked child with real file descriptors; the result has rc, out, err (text).
    rc is what the shell would see ("sig N" for a death by signal, "hang" if it had to be killed)."""
    from bmaptools import CLI
    import tempfile
    fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.setpgid(0, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            if isinstance(stdin, (bytes, bytearray)):
                r, w = os.pipe()
                if os.fork() == 0:
                    os.close(r)
                    try:
                        v = memoryview(stdin)
                        while v:
                            v = v[os.write(w, v[:65536]):]
                    except OSError:
                        pass
                    os._exit(0)
                os.close(w)
                os.dup2(r, 0)
                os.close(r)
            elif stdin is None:
                fd = os.open("/dev/null", os.O_RDONLY)
                os.dup2(fd, 0)
                os.close(fd)
            else:
                fd = os.open(stdin, os.O_RDONLY)
                os.dup2(fd, 0)
                os.close(fd)
            if stdout is None:
                os.dup2(fo.fileno(), 1)
            else:
                fd = os.open(stdout, os.O_WRONLY)
                os.dup2(fd, 1)
                os.close(fd)
            os.dup2(fe.fileno(), 2)
            if env is not None:
                os.environ.update({k: v for k, v in env.items() if v is not None})
                for k, v in env.items():
                    if v is None:
                        os.environ.pop(k, None)
            if cwd:
                os.chdir(cwd)
            sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, closefd=False)))
            sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), write_through=False)
            sys.stderr = io.TextIOWrapper(io.BufferedWriter(io.FileIO(2, "w", closefd=False)), line_buffering=True)
            import logging
            lg = logging.getLogger()
            for h in list(lg.handlers):
                lg.removeHandler(h)
            sys.argv = ["bmaptool"] + [str(a) for a in args]
            if setup:
                setup()
            if vdev.available:
                vdev.rebind()
            code = _call_main(CLI)
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            try:
                if sys.stdout is not None:
                    sys.stdout.flush()
            except BaseException:
                code = code or 120
            try:
                sys.stderr.flush()
            except BaseException:
                pass
            os._exit(code)
    res = CliResult()
    end = time.monotonic() + timeout
    delay = 0.0005
    res.rc = None
    try:
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.monotonic() > end:
                os.killpg(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                res.rc = "hang"
                break
            time.sleep(delay)
            delay = min(delay * 1.2, 0.004)
    except BaseException:
        core.kill_tree([pid])
        raise
    if res.rc is None:
        res.rc = os.WEXITSTATUS(st) if os.WIFEXITED(st) else "sig %d" % os.WTERMSIG(st)
    core.kill_tree([pid])
    fo.seek(0)
    fe.seek(0)
    res.out, res.err = fo.read(), fe.read().decode("utf-8", "replace")
    fo.close()
    fe.close()
    res.crashed = "Traceback (most recent call last)" in res.err and "An error occurred, here is the traceback" not in res.err
    return res


def _call_main(CLI):
    """The interpreter's treatment of a script that calls sys.exit(main())."""
    import gc, traceback
    try:
        try:
            rv = CLI.main()
            code = _code(rv)
        except SystemExit as e:
            code = _code(e.code)
    except KeyboardInterrupt:
        traceback.print_exc()
        sys.stderr.flush()
        code = 130
    except BaseException:
        traceback.print_exc()
        code = 1
    # objects that are still alive are destroyed when the interpreter ends
    gc.collect()
    if code == 130:
        # the interpreter's last act
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        os.kill(os.getpid(), signal.SIGINT)
    return code


def _code(v):
    if v is None:
        return 0
    if isinstance(v, int):
        return v & 0xff
    sys.stderr.write(str(v) + "\n")
    return 1


def threads_settle(base, timeout=10):
    """Wait until no thread beyond those in base is alive; returns those left."""
    end = time.monotonic() + timeout
    while True:
        left = [t for t in threading.enumerate() if t not in base and t.is_alive()]
        if not left or time.monotonic() > end:
            return left
        time.sleep(0.001)


def read_file(path):
    with open(path, "rb") as f:
        return f.read()


def diff_at(a, b):
    """first difference of two byte strings, for messages"""
    if a == b:
        return "equal"
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return "lengths %d and %d" % (len(a), len(b))
    lo, hi = 0, n
    while hi - lo > 1:
        m = (lo + hi) // 2
        if a[lo:m] == b[lo:m]:
            lo = m
        else:
            hi = m
    return "first difference at byte %d (lengths %d and %d)" % (lo, len(a), len(b))
