"""Python side of the libc interposer (shim/vdev.c)."""
import ctypes, os

REG, BLK, SCHED, RATIO, PROBE = range(5)
OPEN, CLOSE, READ, WRITE, LSEEK, FSYNC, TRUNC, IOCTL = range(1, 9)
OPNAME = {1: "open", 2: "close", 3: "read", 4: "write", 5: "lseek", 6: "fsync", 7: "trunc", 8: "ioctl"}
ERR, SHORT, SIGNAL, SIGNAL_BEFORE = 1, 2, 3, 4


class _Log(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int), ("dev", ctypes.c_int), ("err", ctypes.c_int), ("flags", ctypes.c_int),
                ("off", ctypes.c_longlong), ("len", ctypes.c_longlong), ("res", ctypes.c_longlong)]


class Ext(ctypes.Structure):
    _fields_ = [("log", ctypes.c_ulonglong), ("len", ctypes.c_ulonglong), ("flags", ctypes.c_uint), ("pad", ctypes.c_uint)]


_l = ctypes.CDLL(None)
available = hasattr(_l, "vd_reset")
if available:
    _l.vd_log.restype = ctypes.POINTER(_Log)
    _l.vd_add.argtypes = [ctypes.c_char_p] + [ctypes.c_int] * 4 + [ctypes.c_char_p]
    _l.vd_sim.argtypes = [ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong] + [ctypes.c_int] * 5
    _l.vd_layout.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p]
    _l.vd_redirect.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
    _l.vd_probe.argtypes = [ctypes.c_char_p, ctypes.c_int]


class Ev:
    """One logged operation."""
    __slots__ = ("op", "dev", "err", "flags", "off", "len", "res")

    def __init__(self, e):
        self.op, self.dev, self.err, self.flags, self.off, self.len, self.res = (
            e.op, e.dev, e.err, e.flags, e.off, e.len, e.res)

    def __repr__(self):
        return "%s(dev%d off=%d len=%d)=%d%s" % (OPNAME.get(self.op, self.op), self.dev, self.off, self.len, self.res,
                                                (" errno %d" % self.err) if self.err else "")


def own_log(): _l.vd_own_log()
def reset(): _l.vd_reset()
def active(on=1): _l.vd_active(1 if on else 0)
def log_reset(): _l.vd_log_reset()
def add(path, kind=REG, maj=0, minor=0, busy=0, opts=None):
    return _l.vd_add(os.fsencode(path), kind, maj, minor, busy, opts.encode() if opts else None)
def track(fd, dev): _l.vd_track_fd(fd, dev)
def fault(dev, op, nth, action, arg): _l.vd_fault(dev, op, nth, action, arg)
def clear_faults(): _l.vd_clear_faults()
def fault_used(i): return _l.vd_fault_used(i)
def redirect(a, b): _l.vd_redirect(os.fsencode(a), os.fsencode(b))
def probe(d, dev): _l.vd_probe(os.fsencode(d), dev)
def sim(dev, bsz, size, fiemap_errno=0, figetbsz_errno=0, seek_mode=0, answer_cap=0, clip=0):
    _l.vd_sim(dev, bsz, size, fiemap_errno, figetbsz_errno, seek_mode, answer_cap, clip)
def layout(dev, exts, data):
    """exts: (offset, length, flags) for FIEMAP, data: (offset, length) for SEEK_DATA/SEEK_HOLE"""
    a = (Ext * max(1, len(exts)))(*[Ext(o, l, f, 0) for o, l, f in exts])
    b = (Ext * max(1, len(data)))(*[Ext(o, l, 0, 0) for o, l in data])
    _l.vd_layout(dev, len(exts), a, len(data), b)
def nlog(): return _l.vd_nlog()
def log(dev=None):
    n, p = _l.vd_nlog(), _l.vd_log()
    return [e for e in (Ev(p[i]) for i in range(n)) if dev is None or e.dev == dev]
def nops(dev, op): return _l.vd_nops(dev, op)
def rebind():
    """after a fork: the configuration now belongs to this process"""
    if _l.vd_is_active():
        _l.vd_active(1)
