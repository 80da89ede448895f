"""A virtual block device: a scratch file that the interposer shows as a block device, with its sysfs settings."""
import os
from mc import vdev, img as I


class Blk:
    MAJ, MIN = 259, 77

    def __init__(self, ctx, capacity, fill=0xA5, partition=False, sched="none [mq-deadline] kyber", opts="none mq-deadline kyber",
                 ratio="100\n", busy=0, name="blkdev", number=None):
        """sched/ratio: initial content of the settings files (None: absent). number: a further device beside those that exist"""
        if number is None:
            vdev.reset()
        else:
            self.MIN = self.MIN + number
        self.path = ctx.path(name)
        with open(self.path, "wb") as f:
            step = 1 << 20
            chunk = bytes([fill]) * step
            left = capacity
            while left > 0:
                f.write(chunk[:min(left, step)])
                left -= step
        self.cap, self.fill = capacity, fill
        self.dev = vdev.add(self.path, vdev.BLK, self.MAJ, self.MIN, busy)
        root = ctx.path("sys")
        disk = os.path.join(root, "devices", "disk%s" % (number or ""))
        os.makedirs(disk)
        os.makedirs(os.path.join(root, "blk"), exist_ok=number is not None)
        link = os.path.join(root, "blk", "%d:%d" % (self.MAJ, self.MIN))
        if partition:
            os.makedirs(os.path.join(disk, "part1"))
            os.symlink(os.path.join(disk, "part1"), link)
        else:
            os.symlink(disk, link)
        self.sched_path = os.path.join(disk, "queue", "scheduler")
        self.ratio_path = os.path.join(disk, "bdi", "max_ratio")
        os.makedirs(os.path.join(disk, "queue"))
        os.makedirs(os.path.join(disk, "bdi"))
        self.sched = self.ratio = None
        self.sched0, self.ratio0 = sched, ratio
        if sched is not None:
            with open(self.sched_path, "w") as f:
                f.write(sched + "\n")
            self.sched = vdev.add(self.sched_path, vdev.SCHED, opts=opts)
        if ratio is not None:
            with open(self.ratio_path, "w") as f:
                f.write(ratio)
            self.ratio = vdev.add(self.ratio_path, vdev.RATIO)
        # the code uses /sys/dev/block/MAJ:MIN/../queue for partitions: the redirected path resolves the link first
        vdev.redirect("/sys/dev/block/", os.path.join(root, "blk") + "/")

    def open(self):
        return os.fdopen(os.open(self.path, os.O_WRONLY | os.O_EXCL), "wb")

    def writes(self):
        return [e for e in vdev.log(self.dev) if e.op == vdev.WRITE]

    def content(self):
        vdev.active(0)
        with open(self.path, "rb") as f:
            return f.read()

    def settings(self):
        vdev.active(0)
        res = []
        for p, d in ((self.sched_path, self.sched), (self.ratio_path, self.ratio)):
            res.append(open(p).read().strip() if d is not None else None)
        return res


def expected(im, cap, fill):
    out = bytearray(bytes([fill]) * cap)
    for a, b in im.ranges:
        data = im.mapped_bytes(a, b)
        out[a * im.bs:a * im.bs + len(data)] = data
    return bytes(out)


def allowed(im):
    """byte extents that may be written"""
    return [(a * im.bs, min((b + 1) * im.bs, im.size)) for a, b in I.runs(bits_of(im))]


def bits_of(im):
    n = I.blocks_of(im.size, im.bs)
    bits = [0] * n
    for a, b in im.ranges:
        for i in range(a, b + 1):
            bits[i] = 1
    return bits


def inside(ext, off, ln):
    return ln == 0 or any(a <= off and off + ln <= b for a, b in ext)
