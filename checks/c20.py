"""C20: bmap and signature discovery picks the right file."""
import os, itertools
from mc import core, formats, net, img as I
from mc.core import Fail, need
from mc.drive import read_file, diff_at, run_cli
from checks import c19

LEVEL = "exhaustive_bounded"
RULE = ("image names with 0 to 4 extensions, dots at the ends and in directories x every subset of the candidate bmap files, each telling which one was used, plus decoys, "
        "directories and dangling links in their place x path, file, HTTP and ssh URL x discovery, --bmap, --nobmap; every combination of good and bad .asc and .sig files next "
        "to the bmap, the image and other candidates. Oracle: a discovery model written from the documentation; non-trivial: every execution")
ASSUMPTIONS = ["HTTP servers answer 404 for what they do not have."]
BOUNDS = {"quick": "names with up to 4 extensions", "thorough": "up to 5 extensions, decoys and kinds of candidates combined"}
IM = I.Image(4096, 12 * 4096, [(0, 11)])
NAMES = ["image", "image.raw", "image.raw.v1", "a.b.c.d", "a.b.c.d.e", ".hidden", ".hidden.raw", "image.", "image..raw", "im age.x y", "image.bmap", "image.raw.bmap", "-image.raw",
         "image.raw.gz", "x.tar.gz", "d.e/image", "d.e/image.raw", "..image.raw", "image.BMAP", "imäge.räw", "image%20.raw", "image.raw.bz2"]


def candidates(name):
    """The documented search: the full name, then one extension less each time."""
    d, b = os.path.split(name)
    res = [os.path.join(d, b + ".bmap")]
    while True:
        body = b.lstrip(".")
        if "." not in body:
            return res
        b = b[:b.rindex(".")]
        res.append(os.path.join(d, b + ".bmap"))


def cases(tier):
    names = NAMES + (["a.b.c.d.e.f", "x.y/.a.b.c"] if tier != "quick" else [])
    for name in names:
        for tr in ("path", "rel", "file", "http", "ssh"):
            if tr not in ("path", "rel") and ("%" in name or " " in name or "ä" in name or name.startswith("-")):
                continue
            yield dict(t="bmap", name=name, tr=tr)
        yield dict(t="kinds", name=name)
        yield dict(t="explicit", name=name)
    for tr in ("path", "http"):
        for explicit in (False, True):
            for k in range(4):
                yield dict(t="sig", tr=tr, explicit=explicit, part=k)


def prepare(tier, base):
    c19.prepare(tier, base)


def worker_init(ctx):
    c19.worker_init(ctx)
    d = net.install_ssh(os.path.join(ctx.base, "bin"))
    os.environ["PATH"] = d + ":" + os.environ["PATH"]


def bmap_for(k):
    """The k-th candidate maps block k only."""
    im = I.Image(4096, 12 * 4096, [(k, k)])
    return I.make_bmap(im, "2.0"), im.expected()


def setup(ctx, name):
    root = ctx.path("root")
    os.makedirs(os.path.join(root, os.path.dirname(name)), exist_ok=True)
    data = IM.bytes()
    ext = next((e for e in sorted(formats.FORMATS, key=len, reverse=True) if name.endswith("." + e)), None)
    with open(os.path.join(root, name), "wb") as f:
        f.write(formats.make(ext, data, ctx.dir) if ext else data)
    for d in ("bmap", "image.bmap.gz", "other.bmap", ".bmap", "image.bmaps", "imag.bmap", "image.raw.v.bmap", "a.b.c.d.e.f.g.bmap"):
        if d not in candidates(name) and d != name and not os.path.exists(os.path.join(root, d)):
            with open(os.path.join(root, d), "wb") as f:
                f.write(bmap_for(11)[0])
    return root, data


def copy(ctx, args, name, what, want, cwd=None):
    """want: the expected destination or None if the copy has to be refused"""
    dp = ctx.path("dest")
    if os.path.exists(dp):
        os.unlink(dp)
    ctx.ev()
    res = run_cli(["copy"] + args + ["--", name, dp] if name.startswith("-") else ["copy"] + args + [name, dp], cwd=cwd, env={"GNUPGHOME": ctx.home})
    got = read_file(dp) if os.path.exists(dp) else b""
    if want is None:
        need(res.rc not in (0, "hang"), "%s: exit status %s instead of a refusal\n%s", what, res.rc, res.err[-500:])
        need(not got.strip(b"\0"), "%s: refused, but image data was written", what)
        need(not res.crashed, "%s: crashes\n%s", what, res.err[-1000:])
        ctx.outcome("refused")
    else:
        need(res.rc == 0, "%s: exit status %s\n%s", what, res.rc, res.err[-900:])
        if got != want:
            used = [k for k in range(12) if bmap_for(k)[1] == got]
            raise Fail("%s: %s" % (what, "the bmap of candidate %d was used" % used[0] if used else diff_at(got, want)))
        ctx.outcome("copied")


def run(case, ctx):
    if case["t"] == "sig":
        return signatures(case, ctx)
    name = case["name"]
    root, data = setup(ctx, name)
    cand = [c for c in candidates(name)]
    kinds = case["t"] == "kinds"
    usable = [c for c in cand if c != name]
    if case["t"] == "explicit":
        return explicit(ctx, name, root, data, cand)
    srv = None
    have = {}
    tr = "path" if kinds else case["tr"]
    if tr == "http":
        srv = net.Server(lambda r: net.response(have[r.path[1:]]) if r.path[1:] in have else net.response(b"no", status="404 Not Found"))
        have[name] = read_file(os.path.join(root, name))
        src = srv.url("/" + name)
    elif tr == "file":
        src = "file://" + os.path.join(root, name)
    elif tr == "ssh":
        src = "ssh://host" + os.path.join(root, name)
    else:
        src = name if tr == "rel" else os.path.join(root, name)
    try:
        for states in itertools.product(("-", "file") if not kinds else ("-", "file", "dir", "dangling", "link"), repeat=len(usable)):
            if kinds and not (set(states) - {"-", "file"} and (ctx.tier != "quick" or len(usable) <= 2 or sum(s in ("dir", "dangling", "link") for s in states) == 1)):
                continue
            for c, s in zip(usable, states):
                p = os.path.join(root, c)
                raw = bmap_for(cand.index(c))[0]
                if srv:
                    have.pop(c, None)
                    if s == "file":
                        have[c] = raw
                elif s == "file":
                    with open(p, "wb") as f:
                        f.write(raw)
                elif s == "dir":
                    os.mkdir(p)
                elif s == "dangling":
                    os.symlink("nothing there", p)
                elif s == "link":
                    with open(ctx.path("target%d" % cand.index(c)), "wb") as f:
                        f.write(raw)
                    os.symlink(ctx.path("target%d" % cand.index(c)), p)
            found = [c for c in cand if c == name or states[usable.index(c)] in ("file", "link")]
            want = bmap_for(cand.index(found[0]))[1] if found and found[0] != name else None
            what = "%s by %s with %s" % (name, tr, dict(zip(usable, states)))
            copy(ctx, [], src, what, want, cwd=root if tr == "rel" else None)
            copy(ctx, ["--nobmap"], src, what + " --nobmap", data, cwd=root if tr == "rel" else None)
            if not srv:
                for c, s in zip(usable, states):
                    p = os.path.join(root, c)
                    if s == "dir":
                        os.rmdir(p)
                    elif s != "-":
                        os.unlink(p)
    finally:
        if srv:
            srv.close()


def explicit(ctx, name, root, data, cand):
    """--bmap wins over every candidate, also over none, and is not replaced by one if it is missing."""
    src = os.path.join(root, name)
    usable = [c for c in cand if c != name]
    for mask in range(1 << len(usable)):
        for i, c in enumerate(usable):
            p = os.path.join(root, c)
            if mask >> i & 1:
                with open(p, "wb") as f:
                    f.write(bmap_for(cand.index(c))[0])
            elif os.path.exists(p):
                os.unlink(p)
        other = ctx.path("given.bmap")
        with open(other, "wb") as f:
            f.write(bmap_for(10)[0])
        what = "%s, candidates %s" % (name, bin(mask))
        copy(ctx, ["--bmap", other], src, what + ", --bmap", bmap_for(10)[1])
        os.unlink(other)
        copy(ctx, ["--bmap", other], src, what + ", --bmap missing", None)
        copy(ctx, ["--bmap", src], src, what + ", --bmap is the image", None)
        copy(ctx, ["--bmap", other, "--nobmap"], src, what + ", --bmap and --nobmap", None)


def signatures(case, ctx):
    """Which signature file counts. Signatures by alice are good, those by eve are not; the latter elsewhere must not matter."""
    root = ctx.path("root")
    os.makedirs(root + "/other")
    c19.IM.write(root + "/image.raw.v1")
    files = {}
    srv = None
    if case["tr"] == "http":
        have = {"/image.raw.v1": read_file(root + "/image.raw.v1")}
        srv = net.Server(lambda r: net.response(have[r.path]) if r.path in have else net.response(b"no", status="404 Not Found"))
    where = ["image.raw.bmap", "image.bmap"]
    n = 0
    try:
        for asc, sig in itertools.product((None, "alice", "eve"), repeat=2):
            for decoys in (False, True):
                for which in where if not case["explicit"] else ["other/x.bmap", "other/map.xml", "other/map"]:
                    n += 1
                    if n % 4 != case["part"]:
                        continue
                    files = {which: c19.fx("x.bmap")}
                    for ext, who in ((".asc", asc), (".sig", sig)):
                        if who:
                            files[which + ext] = c19.fx(who + ext)
                    if decoys:
                        # signature files that belong to something else
                        for d in ("image.raw.v1", "image.raw", "image", "image.raw.v1.bmap", "x.bmap", "other/x", "image.raw.bmap.bmap", "other/image.raw.bmap", "other/map.bmap") + \
                                (tuple(where) if case["explicit"] else tuple(w for w in where if w != which)):
                            for ext in (".asc", ".sig", ".gpg"):
                                if d == which:
                                    continue
                                files.setdefault(d + ext, c19.fx("eve" + ext) if ext != ".gpg" else b"x")
                        files.setdefault(which + ".gpg", c19.fx("eve.sig"))
                        files.setdefault(which + ".sign", c19.fx("eve.sig"))
                    ok = (asc or sig) in (None, "alice")
                    if srv:
                        for k in [k for k in have if k != "/image.raw.v1"]:
                            del have[k]
                        have.update({"/" + k: v for k, v in files.items()})
                        src, bm = srv.url("/image.raw.v1"), srv.url("/" + which)
                    else:
                        for k, v in files.items():
                            with open(os.path.join(root, k), "wb") as f:
                                f.write(v)
                        src, bm = root + "/image.raw.v1", os.path.join(root, which)
                    what = "%s, %s bmap, .asc by %s, .sig by %s%s" % (case["tr"], "explicit" if case["explicit"] else which, asc, sig, ", decoys" if decoys else "")
                    want = c19.IM.expected() if ok else None
                    args = ["--bmap", bm] if case["explicit"] else []
                    copy(ctx, args, src, what, want)
                    copy(ctx, args + ["--no-sig-verify"], src, what + " --no-sig-verify", c19.IM.expected())
                    given = ctx.path("given.sig")
                    for who in ("alice", "eve"):
                        with open(given, "wb") as f:
                            f.write(c19.fx(who + ".sig"))
                        copy(ctx, args + ["--bmap-sig", given], src, what + ", given by " + who, c19.IM.expected() if who == "alice" else None)
                    if not srv:
                        for k in files:
                            os.unlink(os.path.join(root, k))
    finally:
        if srv:
            srv.close()
