"""Reference model: block layouts, image contents, bmap files of every format version, and an independent bmap parser."""
import hashlib, itertools, os, re, functools

VERSIONS = ("1.0", "1.1", "1.2", "1.3", "1.4", "2.0")


@functools.lru_cache(maxsize=4096)
def _pat(seed, n):
    """n non-zero bytes, different for every seed and every 64-byte line"""
    out = bytearray()
    i = 0
    while len(out) < min(n, 8192):
        out += hashlib.sha512(b"%d/%d" % (seed, i)).digest()
        i += 1
    b = bytes(out).replace(b"\0", b"\1")
    if n > len(b):
        # number every 4 KiB piece so that shifted data differ
        piece = b[:4096]
        pieces = []
        for j in range((n + 4095) // 4096):
            pieces.append(b"%015d|" % (j + 1) + piece[16:])
        b = b"".join(pieces)
    return b[:n]


def pattern(seed, n):
    return _pat(seed, n)


def layouts(n):
    """All mapped/unmapped patterns of n blocks."""
    return itertools.product((0, 1), repeat=n)


def runs(bits):
    """maximal mapped runs as (first, last)"""
    res, start = [], None
    for i, b in enumerate(bits):
        if b and start is None:
            start = i
        if not b and start is not None:
            res.append((start, i - 1))
            start = None
    if start is not None:
        res.append((start, len(bits) - 1))
    return res


def cuts(bits):
    """Every way of writing the mapped blocks as ascending disjoint ranges (runs may be cut into adjacent ranges)."""
    per_run = []
    for a, b in runs(bits):
        opts = []
        n = b - a + 1
        for mask in range(1 << (n - 1)):
            rs, s = [], a
            for i in range(n - 1):
                if mask >> i & 1:
                    rs.append((s, a + i))
                    s = a + i + 1
            rs.append((s, b))
            opts.append(rs)
        per_run.append(opts)
    for combo in itertools.product(*per_run):
        yield [r for rs in combo for r in rs]


def blocks_of(size, bs):
    return (size + bs - 1) // bs


class Image:
    """size bytes in blocks of bs bytes; the ranges are mapped. Unmapped bytes are zero, or junk if wanted.
    flat: {block: byte} for blocks which hold a single byte value only."""

    def __init__(self, bs, size, ranges, junk=False, flat=None):
        self.flat = flat or {}
        self.bs, self.size, self.ranges, self.junk = bs, size, [tuple(r) for r in ranges], junk

    def block(self, i):
        n = min(self.bs, self.size - i * self.bs)
        if i in self.flat:
            return bytes([self.flat[i]]) * n
        return pattern(i + 1, self.bs)[:n]

    def mapped_bytes(self, first, last):
        return b"".join(self.block(i) for i in range(first, last + 1))

    def write(self, path):
        with open(path, "wb") as f:
            if self.junk:
                for i in range(blocks_of(self.size, self.bs)):
                    f.write(pattern(-1000 - i, self.bs)[:min(self.bs, self.size - i * self.bs)])
            f.truncate(self.size)
            for a, b in self.ranges:
                for i in range(a, b + 1):
                    f.seek(i * self.bs)
                    f.write(self.block(i))
        return path

    def bytes(self):
        out = bytearray(self.size)
        if self.junk:
            for i in range(blocks_of(self.size, self.bs)):
                p = pattern(-1000 - i, self.bs)[:min(self.bs, self.size - i * self.bs)]
                out[i * self.bs:i * self.bs + len(p)] = p
        for a, b in self.ranges:
            for i in range(a, b + 1):
                p = self.block(i)
                out[i * self.bs:i * self.bs + len(p)] = p
        return bytes(out)

    def expected(self, fill=b"\0"):
        """what a destination that held only `fill` bytes must hold after copying"""
        out = bytearray(fill * self.size)
        for a, b in self.ranges:
            for i in range(a, b + 1):
                p = self.block(i)
                out[i * self.bs:i * self.bs + len(p)] = p
        return bytes(out)

    def mapped_cnt(self):
        return sum(b - a + 1 for a, b in self.ranges)


def make_bmap(img, version="2.0", cs="sha256", chk="all", mapped=None, blocks=None, size=None, spell=0, order=None,
              selfsum=True, comment="", one=None, ranges=None, tail="", chkmap=None):
    """The bmap of an image in any format version. chk: which ranges carry a checksum ("all", "none", or a set of
    indices). spell: spelling of the ranges. order: order of the header elements. Returns bytes."""
    major, minor = [int(x) for x in version.split(".")]
    new = major > 1 or minor >= 4
    cstype = cs if new else "sha1"
    attr = "chksum" if new else "sha1"
    has_range_sums = new or minor >= 1
    has_self = new or minor == 3
    ranges = img.ranges if ranges is None else ranges
    lines = []
    for i, (a, b) in enumerate(ranges):
        s = ""
        if has_range_sums and (chk == "all" or (chk != "none" and i in chk)):
            v = chkmap[i] if chkmap and i in chkmap else hashlib.new(cstype, img.mapped_bytes(a, b)).hexdigest()
            s = ' %s="%s"' % (attr, v)
        txt = range_text(a, b, spell)
        lines.append("        <Range%s>%s</Range>\n" % (s, txt))
    size = img.size if size is None else size
    head = {
        "ImageSize": "    <ImageSize> %d </ImageSize>\n" % size,
        "BlockSize": "    <BlockSize> %d </BlockSize>\n" % img.bs,
        "BlocksCount": "    <BlocksCount> %d </BlocksCount>\n" % (blocks_of(size, img.bs) if blocks is None else blocks),
        "MappedBlocksCount": "    <MappedBlocksCount> %d </MappedBlocksCount>\n"
                             % (sum(b - a + 1 for a, b in ranges) if mapped is None else mapped),
    }
    if new:
        head["ChecksumType"] = "    <ChecksumType> %s </ChecksumType>\n" % cstype
    tag = "BmapFileChecksum" if new else "BmapFileSHA1"
    zeros = ""
    if has_self:
        zeros = "0" * len(hashlib.new(cstype).hexdigest())
        head["sum"] = "    <%s> %s </%s>\n" % (tag, zeros, tag)
    head["BlockMap"] = "    <BlockMap>\n" + "".join(lines) + "    </BlockMap>\n"
    names = list(head)
    if order:
        names = [names[i % len(names)] for i in order] if isinstance(order, (list, tuple)) else names[::-1]
        names = list(dict.fromkeys(names)) + [n for n in head if n not in names]
    xml = '<?xml version="1.0" ?>\n%s<bmap version="%s">\n%s</bmap>\n%s' % (
        comment, version, "".join(head[n] for n in names), tail)
    data = xml.encode()
    if has_self and selfsum:
        data = seal(data, cstype, zeros, tag)
    return data


def seal(data, cstype, zeros, tag):
    h = hashlib.new(cstype, data).hexdigest()
    pos = data.index(b"<%s>" % tag.encode()) + len(tag) + 3
    assert data[pos:pos + len(zeros)] == zeros.encode()
    return data[:pos] + h.encode() + data[pos + len(zeros):]


def range_text(a, b, spell):
    """spell 0: generator's style; others: further spellings a reader must accept"""
    if a == b and spell != 2:
        return {0: " %d ", 1: "%d", 3: "\n%d\n", 4: "  %d\t"}.get(spell, " %d ") % a
    return {0: " %d-%d ", 1: "%d-%d", 2: " %d-%d ", 3: "\n%d - %d\n", 4: " %d\t-  %d "}.get(spell, " %d-%d ") % (a, b)


def parse_bmap(data):
    """Independent parser (regular expressions on the text without comments)."""
    text = re.sub(r"<!--.*?-->", "", data.decode(), flags=re.S)

    def one(tag):
        m = re.findall(r"<%s>\s*(\S+)\s*</%s>" % (tag, tag), text)
        return m[0] if len(m) == 1 else None
    res = {t: one(t) for t in ("ImageSize", "BlockSize", "BlocksCount", "MappedBlocksCount", "ChecksumType",
                               "BmapFileChecksum")}
    m = re.findall(r'<bmap version="([^"]*)">', text)
    res["version"] = m[0] if len(m) == 1 else None
    res["ranges"] = []
    body = re.findall(r"<BlockMap>(.*?)</BlockMap>", text, flags=re.S)
    if len(body) != 1:
        raise ValueError("%d BlockMap elements" % len(body))
    rest = re.sub(r"<Range([^>]*)>\s*(\d+)\s*(?:-\s*(\d+)\s*)?</Range>",
                  lambda m: res["ranges"].append((int(m.group(2)), int(m.group(3) or m.group(2)), m.group(1).strip())) or "",
                  body[0])
    if rest.strip():
        raise ValueError("unexpected text in BlockMap: %r" % rest.strip()[:80])
    return res


def selfsum_ok(data, parsed):
    c = parsed["BmapFileChecksum"]
    if not c or data.count(c.encode()) != 1:
        return False
    return hashlib.new(parsed["ChecksumType"], data.replace(c.encode(), b"0" * len(c))).hexdigest() == c
