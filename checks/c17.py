"""C17: a damaged or cut-off source is never taken for a complete one."""
import os, subprocess
from mc import formats, net, img as I
from mc.core import Fail, need
from mc.drive import read_file, diff_at, run_cli

LEVEL = "fault_enumeration"
RULE = ("format x content x (every truncation point, every damaged byte for small files; block-structured points for bigger ones) x way of reading; "
        "HTTP downloads (length announced or chunked, plain and compressed) that end at every chunk or are reset; ssh transfers that end early "
        "with every exit status; through TransRead and the copy command (no bmap; bmap with verification). Oracle: an error, or exactly the "
        "original data. Complete inputs (also with trailing garbage for gzip and lzop) must be read without an error; non-trivial: every execution")
ASSUMPTIONS = ["Damage that the decompression program itself, run by the checker on the same file, does not notice (the same wrong output with exit "
               "status 0) is outside the property: e.g. an .lz4 file cut to nothing is a valid empty stream.",
               "HTTP responses without announced length that simply end, and ssh transfers that end early with exit status 0, look complete."]
BOUNDS = {"quick": "contents of 0, 30 and 70000 bytes; every offset for the 30-byte files", "thorough": "additionally 3 MiB contents and every offset of 1200-byte files"}


def content(n):
    if n <= 2000:
        return I.pattern(77, max(n, 1))[:n]
    # incompressible part, then zeros, then text
    return I.pattern(5, n // 2) + bytes(n // 4) + I.pattern(6, n - n // 2 - n // 4)


def cases(tier):
    th = tier != "quick"
    for ext in formats.MAIN:
        for n in (0, 30, 70000) + ((1200, 3 << 20) if th else ()):
            yield dict(t="good", ext=ext, n=n)
            parts = 4 if n in (30, 1200) else 2
            for p in range(parts):
                yield dict(t="cut", ext=ext, n=n, part=p, parts=parts)
                if n:
                    yield dict(t="flip", ext=ext, n=n, part=p, parts=parts)
        yield dict(t="http", ext=ext, n=30)
        yield dict(t="http", ext=ext, n=70000)
        yield dict(t="ssh", ext=ext, n=70000)
        yield dict(t="cli", ext=ext)
    for n in (0, 1, 5000, 70000, 3 << 20):
        yield dict(t="http", ext="", n=n)
        yield dict(t="ssh", ext="", n=n)
    yield dict(t="cli", ext="")
    yield dict(t="bmapurl", ext="")


def worker_init(ctx):
    d = net.install_ssh(os.path.join(ctx.base, "bin"))
    os.environ["PATH"] = d + ":" + os.environ["PATH"]
    # what the decompressors say about damaged input is not interesting
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 2)
    os.close(fd)


READS = [None, 1 << 20, 4096, 7]


def readall(path, how):
    """(data, error)"""
    from bmaptools import TransRead
    t = None
    got = bytearray()
    try:
        try:
            t = TransRead.TransRead(path)
            if how == "seek":
                got += t.read(3)
                t.seek(1 << 40)
                got += t.read()
            elif how is None:
                got += t.read()
            else:
                while True:
                    b = t.read(how)
                    if not b:
                        break
                    got += b
            return bytes(got), None
        except Exception as e:
            return bytes(got), e
    finally:
        if t is not None:
            t.close()


def judge(ctx, path, ext, data, hows, what, must_fail=False):
    for how in hows:
        ctx.ev()
        got, err = readall(path, how)
        if err is not None:
            ctx.outcome("error")
            continue
        if must_fail:
            raise Fail("%s, read %s: no error" % (what, how))
        if got == data or how == "seek" and len(data) < 3:
            ctx.outcome("harmless")
            continue
        if ext and os.path.exists(path):
            if formats.unnoticed(ext, path, None if how == "seek" else got):
                ctx.outcome("unnoticed by the program itself")
                continue
        if how == "seek" and ext in ("zip",) or how == "seek" and what.startswith("damaged"):
            if formats.unnoticed(ext, path):
                ctx.outcome("harmless")
                continue
        raise Fail("%s, read %s: %d bytes without any error instead of %d" % (what, how, len(got), len(data)))


def offsets(n, small, total):
    if n in (30, 1200, 0):
        return range(total)
    s = set()
    for k in (0, 1, 2, 3, 10, 18, 100, 512, 4096, 16384, 32768, 65536, 65537, 131072, 1 << 20):
        for d in (-1, 0, 1):
            s |= {k + d, total - k + d, total // 2 + k + d}
    return sorted(x for x in s if 0 <= x < total)


def run(case, ctx):
    t, ext = case["t"], case["ext"]
    if t == "cli":
        return cli(case, ctx)
    if t == "bmapurl":
        return bmapurl(case, ctx)
    data = content(case["n"])
    raw = formats.make(ext, data, ctx.dir) if ext else data
    path = ctx.path("image" + ("." + ext if ext else ""))
    if t == "good":
        hows = READS + (["seek"] if len(data) >= 3 else [])
        variants = [("", raw)]
        if ext == "lzo":
            variants += [(" with trailing garbage", raw + b"garbage")]
        if ext == "gz":
            variants += [(" with trailing garbage", raw + b"garbage that is not gzip"), (" with trailing zeros", raw + bytes(700))]
        for name, r in variants:
            with open(path, "wb") as f:
                f.write(r)
            for how in hows:
                if how == 7 and len(data) > 100000:
                    continue
                ctx.ev()
                got, err = readall(path, how)
                need(err is None, "%s file of %d bytes%s, read %s: %s", ext, len(data), name, how, err)
                need(got == data if how != "seek" else got == data[:3], "%s file of %d bytes%s, read %s: wrong data", ext, len(data), name, how)
                ctx.outcome("complete")
        if ext == "gz":
            # the same with plain gzip instead of pigz
            old = os.environ["PATH"]
            d = ctx.path("onlygzip")
            os.mkdir(d)
            for p in ("gzip", "sh"):
                os.symlink("/usr/bin/" + p, os.path.join(d, p))
            os.environ["PATH"] = d
            try:
                for name, r in variants:
                    with open(path, "wb") as f:
                        f.write(r)
                    for how in READS[:3]:
                        ctx.ev()
                        got, err = readall(path, how)
                        need(err is None and got == data, "gz file of %d bytes%s with gzip, read %s: %s", len(data), name, how, err or "wrong data")
                        ctx.outcome("complete")
            finally:
                os.environ["PATH"] = old
    elif t in ("cut", "flip"):
        for i, off in enumerate(offsets(case["n"], True, len(raw))):
            if i % case["parts"] != case["part"]:
                continue
            if t == "cut":
                r = raw[:off]
                what = "%s file (content %d bytes) cut to %d of %d bytes" % (ext, len(data), off, len(raw))
            else:
                r = bytearray(raw)
                r[off] ^= 0x15
                what = "damaged %s file (content %d bytes), byte %d of %d" % (ext, len(data), off, len(raw))
            with open(path, "wb") as f:
                f.write(r)
            judge(ctx, path, ext, data, (4096, None, "seek") if t == "cut" and i % 3 == 0 else (4096,), what)
    elif t == "http":
        http(case, ctx, data, raw)
    elif t == "ssh":
        with open(path, "wb") as f:
            f.write(raw)
        cuts = sorted({0, 1, len(raw) // 2, max(len(raw) - 1, 0), len(raw)})
        for rc in (None, 1, 2, 127, 255):
            for cut in [None] + cuts:
                env = {"MC_SSH_CAT": str(rc) if rc is not None else None, "MC_SSH_CUT": str(cut) if cut is not None else None}
                if rc is None and cut is not None and cut < len(raw) and not ext:
                    continue
                set_env(env)
                try:
                    what = "ssh transfer of a %s file of %d bytes, cut at %s, exit status %s" % (ext or "plain", len(raw), cut, rc)
                    if rc is None and (cut is None or cut >= len(raw)):
                        for how in READS[:3]:
                            ctx.ev()
                            got, err = readall("ssh://host" + path, how)
                            need(err is None and got == data, "%s: %s", what, err or "wrong data")
                            ctx.outcome("complete")
                    elif rc is None:
                        # ssh says everything is fine, so only the decompressor can tell
                        p2 = path + ".cut." + ext
                        with open(p2, "wb") as f:
                            f.write(raw[:cut])
                        ctx.ev()
                        got, err = readall("ssh://host" + path, 65536)
                        need(err is not None or got == data or formats.unnoticed(ext, p2, got), "%s: no error", what)
                        os.unlink(p2)
                        ctx.outcome("error" if err else "unnoticed by the program itself")
                    else:
                        judge(ctx, "ssh://host" + path, "", data, READS[:3], what, must_fail=not ext)
                finally:
                    set_env({k: None for k in env})


def set_env(env):
    for k, v in env.items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v


def http(case, ctx, data, raw):
    ext, n = case["ext"], len(raw)
    state = {}
    srv = net.Server(lambda r: state["acts"])
    url = srv.url("/dir/image" + ("." + ext if ext else ""))
    try:
        def go(acts, hows, what, ok, must_fail=False):
            state["acts"] = acts
            if ok:
                for how in hows:
                    ctx.ev()
                    got, err = readall(url, how)
                    need(err is None and got == data, "%s, read %s: %s", what, how, err or "wrong data (%d bytes instead of %d)" % (len(got), len(data)))
                    ctx.outcome("complete")
            else:
                judge(ctx, url, "", data, hows, what, must_fail)

        hows = (None, 4096, 1 << 20)
        kind = "%s file of %d bytes over HTTP" % (ext or "plain", n)
        go(net.response(raw), hows, kind, True)
        go(net.response(raw, length=None), hows, kind + " without length", True)
        go(net.chunked(raw, max(1, n // 3)), hows, kind + " chunked", True)
        cuts = sorted({0, 1, n // 3, n // 2, n - 1, n // 3 + 1} | {65536, 8192}) if n > 200 else range(0, n, 3)
        for cut in cuts:
            if not 0 <= cut < n:
                continue
            # a decompressor may be content with less than everything, then the data must be right
            mf = not ext
            go(net.response(raw[:cut], length=n), hows[:2] if cut % 2 else hows, "%s ending after %d bytes" % (kind, cut), False, mf)
            go([net.response(raw[:cut], length=n), ("sleep", 0.01), "rst"], hows[1:2], "%s reset after %d bytes" % (kind, cut), False, mf)
            whole = net.chunked(raw, max(1, n // 4), end=True)
            head = whole.index(b"\r\n\r\n") + 4
            c = head + cut
            go(whole[:c], hows[1:2], "%s chunked, ending after %d bytes of the body" % (kind, cut), False, mf)
        if n:
            go(net.chunked(raw, max(1, n // 4), end=False), hows[1:2], "%s chunked without the end" % kind, False, not ext)
    finally:
        srv.close()


def cli(case, ctx):
    """The copy command with damaged input."""
    ext = case["ext"]
    im = I.Image(4096, 40 * 4096, [(0, 3), (20, 39)])
    data = im.bytes()
    raw = formats.make(ext, data, ctx.dir) if ext else data
    path = ctx.path("image" + ("." + ext if ext else ""))
    bp, dp = ctx.path("x.bmap"), ctx.path("dest")
    open(bp, "wb").write(I.make_bmap(im))
    state = {}
    srv = net.Server(lambda r: state["acts"])
    n = len(raw)
    try:
        for damage in (None, "cut1", "cuthalf", "cut0", "flip", "fliplast", "http", "httpcut", "httprst", "chunkcut", "ssh", "sshfail"):
            for args in (["--nobmap"], ["--bmap", bp]):
                if not ext and (damage in ("cut1", "cuthalf", "cut0", "flip", "fliplast")):
                    if args[0] == "--nobmap":
                        continue
                r = bytearray(raw)
                src = path
                env = {}
                if damage == "cut1":
                    r = r[:-1] if ext != "zip" else r[:n // 3]
                elif damage in ("cuthalf",):
                    r = r[:n // 2]
                elif damage == "cut0":
                    r = r[:0]
                elif damage == "flip":
                    r[n // 2] ^= 8
                elif damage == "fliplast":
                    r[-1] ^= 8
                elif damage and damage.startswith(("http", "chunk")):
                    src = srv.url("/image" + ("." + ext if ext else ""))
                    state["acts"] = {"http": net.response(raw), "httpcut": net.response(raw[:-9], length=n),
                                     "httprst": [net.response(raw[:n // 2], length=n), ("sleep", 0.01), "rst"],
                                     "chunkcut": net.chunked(raw, 5000)[:n // 2 + 100]}[damage]
                elif damage and damage.startswith("ssh"):
                    src = "ssh://host" + path
                    env = {"MC_SSH_CUT": str(n // 2), "MC_SSH_CAT": "255"} if damage == "sshfail" else {}
                with open(path, "wb") as f:
                    f.write(r)
                ctx.ev()
                what = "copy %s of a %s image, damage: %s" % (args[0], ext or "plain", damage)
                res = run_cli(["copy"] + args + [src, dp], env=env)
                need(res.rc != "hang", "%s: hangs", what)
                got = read_file(dp) if os.path.exists(dp) else b""
                want = im.expected()
                if damage in (None, "http", "ssh"):
                    need(res.rc == 0 and got == want, "%s: exit %s, %s\n%s", what, res.rc, diff_at(got, want), res.err[-800:])
                    ctx.outcome("cli complete")
                elif res.rc == 0:
                    ok = got == want
                    if not ok and ext and src == path:
                        ok = formats.unnoticed(ext, path, got)
                    need(ok, "%s: exit status 0, but the destination is wrong: %s", what, diff_at(got, want))
                    ctx.outcome("cli harmless")
                else:
                    need(not res.crashed, "%s: crashes instead of reporting the problem:\n%s", what, res.err[-1200:])
                    ctx.outcome("cli error")
                if os.path.exists(dp):
                    os.unlink(dp)
    finally:
        srv.close()


def bmapurl(case, ctx):
    """A bmap that is downloaded incompletely."""
    im = I.Image(4096, 40 * 4096, [(0, 3), (20, 39)])
    path, dp = ctx.path("image"), ctx.path("dest")
    im.write(path)
    state = {}
    srv = net.Server(lambda r: state["acts"] if r.path.endswith(".bmap") else net.response(status="404 Not Found"))
    try:
        for ver in I.VERSIONS:
            raw = I.make_bmap(im, ver)
            state["acts"] = net.response(raw)
            ctx.ev()
            res = run_cli(["copy", "--bmap", srv.url("/x.bmap"), path, dp])
            need(res.rc == 0 and read_file(dp) == im.expected(), "bmap from HTTP: exit %s\n%s", res.rc, res.err[-800:])
            for cut in sorted({0, 1, len(raw) // 2, len(raw) - 1}):
                for acts in (net.response(raw[:cut], length=len(raw)), [net.response(raw[:cut], length=len(raw)), ("sleep", 0.01), "rst"]):
                    state["acts"] = acts
                    ctx.ev()
                    res = run_cli(["copy", "--bmap", srv.url("/x.bmap"), path, dp])
                    need(res.rc not in (0, "hang"), "bmap version %s cut to %d bytes while downloading: exit status %s", ver, cut, res.rc)
                    need(not res.crashed, "bmap cut to %d bytes while downloading: crashes\n%s", cut, res.err[-1200:])
                    ctx.outcome("cli error")
    finally:
        srv.close()
