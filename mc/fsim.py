"""A simulated file system for the hole-detection code, built on the interposer, and raw queries used to bind it to the
real kernel."""
import errno, fcntl, os, struct
from mc import core, vdev, img as I

FIEMAP, FIGETBSZ = 0xC020660B, 2
SEEK_OK, SEEK_EINVAL, SEEK_STUB = 0, 1, 2


class SimFile:
    """A scratch image of `size` bytes whose layout is simulated."""

    def __init__(self, ctx, size, bs, exts=(), data=(), fiemap_errno=0, figetbsz_errno=0, seek_mode=0, clip=0, name="image",
                 probe=True, subdir="fs"):
        vdev.reset()
        self.dir = ctx.path(subdir)
        os.makedirs(self.dir, exist_ok=True)
        self.path = os.path.join(self.dir, name)
        with open(self.path, "wb") as f:
            f.truncate(size)
        self.size, self.bs = size, bs
        self.dev = vdev.add(self.path, vdev.REG)
        vdev.sim(self.dev, bs, size, fiemap_errno, figetbsz_errno, seek_mode, 0, clip)
        vdev.layout(self.dev, exts, data)
        self.probe = None
        if probe:
            # the file created to probe SEEK_HOLE behaves like every file of this file system: it has no data
            self.probe = vdev.add(os.path.join(self.dir, ".probe"), vdev.PROBE)
            vdev.sim(self.probe, bs, 0, fiemap_errno, figetbsz_errno, seek_mode, 0, clip)
            vdev.layout(self.probe, [], [])
            vdev.probe(self.dir, self.probe)
        vdev.active(1)

    def relayout(self, exts, data, clip, size=None):
        vdev.sim(self.dev, self.bs, self.size, 0, 0, 0, 0, clip)
        vdev.layout(self.dev, exts, data)


def data_of(bits, bs, size):
    """what SEEK_DATA/SEEK_HOLE see"""
    return [(a * bs, min((b + 1) * bs, size) - a * bs) for a, b in I.runs(bits)]


def take(gen, most, what):
    """The list of what a generator of ranges gives; fails if that is more than there are blocks."""
    res = []
    for r in gen:
        res.append(tuple(r))
        if len(res) > most + 5:
            raise core.Fail("%s: endless ranges: %s ..." % (what, res[:5]))
    return res


def raw_fiemap(fd, start, length, cap=200):
    """[(logical, length, flags)] from the kernel (or its simulation), or the errno"""
    buf = bytearray(32 + 56 * cap)
    struct.pack_into("=QQLLLL", buf, 0, start, length, 1, 0, cap, 0)
    try:
        fcntl.ioctl(fd, FIEMAP, buf, True)
    except OSError as e:
        return e.errno
    n = struct.unpack_from("=QQLLLL", buf, 0)[3]
    res = []
    for i in range(n):
        e = struct.unpack_from("=QQQQQLLLL", buf, 32 + 56 * i)
        res.append((e[0], e[2], e[5] & 1))
    return res


def raw_seek(fd, off, whence):
    try:
        return os.lseek(fd, off, whence)
    except OSError as e:
        return "errno %d" % e.errno
