"""Compressed forms of an image, and what is documented about them."""
import os, subprocess

# extension -> (how to make it, programs that can decompress it: any one of each group is enough)
GZ, BZ = ("pigz", "gzip"), ("pbzip2", "bzip2")
FORMATS = {
    "gz": ("gzip", [GZ]), "gzip": ("gzip", [GZ]), "bz2": ("bzip2", [BZ]), "xz": ("xz", [("xz",)]), "lzo": ("lzop", [("lzop",)]),
    "lz4": ("lz4", [("lz4",)]), "zst": ("zstd", [("zstd",)]), "zip": ("zip", [("funzip",)]),
    "tar.gz": ("tar gzip", [GZ, ("tar",)]), "tgz": ("tar gzip", [GZ, ("tar",)]),
    "tar.bz2": ("tar bzip2", [BZ, ("tar",)]), "tbz": ("tar bzip2", [BZ, ("tar",)]), "tbz2": ("tar bzip2", [BZ, ("tar",)]), "tb2": ("tar bzip2", [BZ, ("tar",)]),
    "tar.xz": ("tar xz", [("xz",), ("tar",)]), "txz": ("tar xz", [("xz",), ("tar",)]),
    "tar.lzo": ("tar lzop", [("lzop",), ("tar",)]), "tzo": ("tar lzop", [("lzop",), ("tar",)]),
    "tar.lz4": ("tar lz4", [("lz4",), ("tar",)]), "tlz4": ("tar lz4", [("lz4",), ("tar",)]),
    "tar.zst": ("tar zstd", [("zstd",), ("tar",)]), "tzst": ("tar zstd", [("zstd",), ("tar",)]),
}
MAIN = ["gz", "bz2", "xz", "lzo", "lz4", "zst", "zip", "tar.gz", "tar.bz2", "tar.xz", "tar.lzo", "tar.lz4", "tar.zst"]


def compress(prog, data, level=None):
    args = {"gzip": ["gzip", "-n", "-c"], "bzip2": ["bzip2", "-c"], "xz": ["xz", "-c", "-1"], "lzop": ["lzop", "-c"],
            "lz4": ["lz4", "-q", "-c"], "zstd": ["zstd", "-q", "-c"]}[prog]
    return subprocess.run(args, input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout


def make(ext, data, scratch):
    """The bytes of a file with this extension holding data."""
    how = FORMATS[ext][0]
    if how == "zip":
        p = os.path.join(scratch, "zip.member")
        z = os.path.join(scratch, "made.zip")
        with open(p, "wb") as f:
            f.write(data)
        if os.path.exists(z):
            os.unlink(z)
        subprocess.run(["zip", "-q", "-X", "-j", z, p], check=True, stdout=subprocess.DEVNULL)
        res = open(z, "rb").read()
        os.unlink(p)
        os.unlink(z)
        return res
    if how.startswith("tar "):
        p = os.path.join(scratch, "tar.member")
        with open(p, "wb") as f:
            f.write(data)
        t = subprocess.run(["tar", "-c", "-f", "-", "-b", "2", "--format=ustar", "--mtime=@0", "--owner=0", "--group=0", "-C", scratch, "tar.member"],
                           check=True, stdout=subprocess.PIPE).stdout
        os.unlink(p)
        return compress(how[4:], t)
    return compress(how, data)


def references(ext, path):
    """What the alternative decompression programs themselves say: [(exit status, output), ...]."""
    how = FORMATS[ext][0]
    if how == "zip":
        cmds = ["funzip"]
    else:
        tar = how.startswith("tar ")
        progs = {"gzip": GZ, "bzip2": BZ}.get(how[4:] if tar else how, (how[4:] if tar else how,))
        cmds = ["tar -x -O -I" + p if tar else p + " -d -c" for p in progs]
    res = []
    for cmd in cmds:
        with open(path, "rb") as f:
            r = subprocess.run(cmd, shell=True, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        res.append((r.returncode, r.stdout))
    return res


def unnoticed(ext, path, got=None):
    """Does one of the programs end successfully (with this output)? Exit status 2 of gzip, lzop and xz is a warning."""
    return any(rc in ((0, 2) if ext in ("gz", "gzip", "lzo", "xz") else (0,)) and (got is None or out == got) for rc, out in references(ext, path))
