"""C23: the commands never modify their inputs."""
import itertools, os, stat
from mc import blk, core, formats, vdev, img as I
from mc.core import Fail, need
from mc.drive import read_file, diff_at, run_cli
from checks import c19

LEVEL = "exhaustive_bounded"
RULE = ("copy: every input (image plain and in every format, by path, relative path, link, file URL and standard input; bmap given, given by URL, discovered; signature given, "
        "discovered) x every way of naming it as the destination (same, relative, dotted, doubled slash, through linked directories, symbolic link, chain, hard link, "
        "/dev/stdin, /proc/self/fd); create: the same for -o and standard output; runs with ordinary destinations: format x bmap state x signature x options x destination, "
        "succeeding and failing. Oracle: content, size, modification time and identity of every input before and after; non-trivial: every execution")
ASSUMPTIONS = ["Whole block devices as inputs are not looked at.", "Access times may change."]
BOUNDS = {"quick": "two main formats in full, each format in part", "thorough": "all formats in full"}
IM = c19.IM
OLD = 1234567890123456789
ALIASES = ["same", "rel", "dot", "dotdot", "slash", "abs-rel", "dirlink", "symlink", "chain", "hardlink", "sym-to-hard", "rellink", "devstdin", "procfd"]
INPUTS = ["image", "bmap", "sig"]
SPELL = ["path", "rel", "link", "hard", "url", "esc", "stdin"]


def prepare(tier, base):
    c19.prepare(tier, base)


def worker_init(ctx):
    c19.worker_init(ctx)


def cases(tier):
    th = tier != "quick"
    exts = [None] + (list(formats.FORMATS) if th else formats.MAIN)
    for ext in exts:
        for al in ALIASES if th or ext in (None, "gz") else ("same", "dotdot", "hardlink"):
            yield dict(t="copy", ext=ext, al=al, full=th or ext in (None, "gz"))
    for al in ALIASES + ["stdout", "stdout-link"]:
        yield dict(t="create", al=al)
    for ext in exts:
        for dest in ("new", "old", "link", "blk", "busy", "dir", "nodir") if th or ext in (None, "gz") else ("new", "blk"):
            yield dict(t="plain", ext=ext, dest=dest, full=th or ext in (None, "gz"))
    yield dict(t="plaincreate")
    for al in ("copy", "link", "hardlink", "longer", "otherdir", "linkdots", "tilde", "percent", "case"):
        yield dict(t="near", al=al)


def put(ctx, name, data):
    p = ctx.path(name)
    with open(p, "wb") as f:
        f.write(data)
    return p


def age(ctx, paths):
    for p in paths:
        if p and os.path.isfile(p):
            os.utime(p, ns=(OLD, OLD))


def look(paths):
    res = {}
    for p in paths:
        if p:
            st = os.stat(p)
            res[p] = (st.st_ino, st.st_size, st.st_mtime_ns, stat.S_ISREG(st.st_mode) and read_file(p))
    return res


def same(before, what):
    for p, b in before.items():
        try:
            a = look([p])[p]
        except OSError as e:
            raise Fail("%s: the input %s is gone: %s" % (what, os.path.basename(p), e))
        need(a[3] == b[3], "%s: the input %s changed: %s", what, os.path.basename(p), diff_at(a[3], b[3]))
        need(a[1:3] == b[1:3], "%s: the input %s changed: size and modification time %s became %s", what, os.path.basename(p), b[1:3], a[1:3])
        need(a[0] == b[0], "%s: the input %s is now another file", what, os.path.basename(p))


def alias(ctx, target, kind):
    """Another name of the file target (in the scratch directory); returns it and what standard input has to be."""
    d, n = os.path.split(target)
    new = ctx.path("alias")
    if os.path.lexists(new):
        os.unlink(new)
    if kind == "same":
        return target, None
    if kind == "rel":
        return n, None
    if kind == "dot":
        return "./" + n, None
    if kind == "dotdot":
        return "../" + os.path.basename(d) + "/" + n, None
    if kind == "abs-rel":
        return os.path.join(d, "..", os.path.basename(d), ".", n), None
    if kind == "slash":
        return d + "//" + n, None
    if kind == "dirlink":
        os.path.lexists(ctx.path("dl")) or os.symlink(d, ctx.path("dl"))
        return ctx.path("dl") + "/" + n, None
    if kind == "symlink":
        os.symlink(target, new)
        return new, None
    if kind == "rellink":
        os.symlink(n, new)
        return "alias", None
    if kind == "chain":
        for k in "123":
            os.path.lexists(ctx.path("ch" + k)) and os.unlink(ctx.path("ch" + k))
        os.symlink(target, ctx.path("ch1"))
        os.symlink("ch1", ctx.path("ch2"))
        os.symlink(ctx.path("ch2"), ctx.path("ch3"))
        return ctx.path("ch3"), None
    if kind in ("hardlink", "sym-to-hard"):
        os.link(target, new)
        if kind == "hardlink":
            return new, None
        os.path.lexists(ctx.path("sth")) and os.unlink(ctx.path("sth"))
        os.symlink("alias", ctx.path("sth"))
        return ctx.path("sth"), None
    if kind == "devstdin":
        return "/dev/stdin", target
    if kind == "procfd":
        return "/proc/self/fd/0", target
    raise core.HarnessError(kind)


def cli(ctx, args, what, stdin=None, refused=None, stdout=None):
    ctx.ev()
    res = run_cli(args, stdin=stdin, env={"GNUPGHOME": ctx.home, "HOME": ctx.dir}, cwd=ctx.dir, stdout=stdout)
    need(res.rc != "hang", "%s: hangs", what)
    need(not res.crashed or refused is None, "%s: crash\n%s", what, res.err[-1500:])
    if refused is not None:
        need((res.rc != 0) == refused, "%s: exit status %s\n%s", what, res.rc, res.err[-1200:])
        if refused:
            need("ERROR" in res.err and res.rc == 1, "%s: exit status %s, no readable error:\n%s", what, res.rc, res.err[-1200:])
    ctx.outcome("refused" if res.rc else "done")
    return res


def run(case, ctx):
    globals()["do_" + case["t"]](case, ctx)


def image_file(ctx, ext, name=None):
    data = IM.bytes()
    if ext:
        data = cached(ctx, ext)
    return put(ctx, name or ("image." + ext if ext else "image"), data)


_made = {}


def cached(ctx, ext):
    if ext not in _made:
        _made[ext] = formats.make(ext, IM.bytes(), ctx.dir)
    return _made[ext]


def bmap_name(image):
    return os.path.join(os.path.dirname(image), os.path.basename(image).split(".")[0] + ".bmap")


def escaped(path):
    """A URL of the file in which a letter is escaped."""
    d, n = os.path.split(path)
    return "file://%s/%%%02X%s" % (d, ord(n[0]), n[1:])


def do_copy(case, ctx):
    al = case["al"]
    image = image_file(ctx, case["ext"])
    bmap, sig = put(ctx, "X.bmap", c19.fx("x.bmap")), put(ctx, "X.signature", c19.fx("alice.asc"))
    found = bmap_name(image)
    full = case["full"]

    def attempt(victim, args, img, what, stdin=None):
        dest, fd0 = alias(ctx, victim, al)
        if stdin and fd0 and stdin != fd0:
            return
        inputs = [image, bmap, sig] + [p for p in (found, found + ".asc", found + ".sig", bmap + ".asc", bmap + ".sig") if os.path.exists(p)]
        age(ctx, inputs)
        before = look(inputs)
        w = "%s, the destination is %s of it (%s)" % (what, al, dest)
        cli(ctx, ["copy"] + args + [img, dest], w, stdin=stdin or fd0, refused=True)
        same(before, w)
        if os.path.lexists(ctx.path("alias")):
            os.unlink(ctx.path("alias"))

    # the image
    for sp in SPELL if full else SPELL[:1]:
        img, stdin = image, None
        if sp == "rel":
            img = os.path.basename(image)
        elif sp == "link":
            img = ctx.path("il." + (case["ext"] or "raw"))
            os.symlink(image, img)
        elif sp == "hard":
            img = ctx.path("ih." + (case["ext"] or "raw"))
            os.link(image, img)
        elif sp == "url":
            img = "file://" + image
        elif sp == "esc":
            img = escaped(image)
        elif sp == "stdin":
            if case["ext"]:
                continue
            img, stdin = "-", image
        for args in (["--bmap", bmap], ["--nobmap"]) + (() if sp in ("rel", "hard", "esc") else (["--bmap", bmap, "--bmap-sig", sig], ["--bmap", bmap, "--no-verify", "--no-sig-verify"])):
            attempt(image, args, img, "image given by %s, options %s" % (sp, args), stdin)
            if stdin:
                break
    # the bmap
    for sp in ("path", "rel", "url", "esc"):
        b = bmap if sp == "path" else escaped(bmap) if sp == "esc" else "X.bmap" if sp == "rel" else "file://" + bmap
        for args in ([], ["--no-sig-verify"], ["--no-verify"]) if full else ([],):
            attempt(bmap, ["--bmap", b] + args, image, "bmap given by %s, options %s" % (sp, args))
    put(ctx, os.path.basename(found), c19.fx("x.bmap"))
    for sp in ("path", "url"):
        i = image if sp == "path" else "file://" + image
        attempt(found, [], i, "discovered bmap, image by %s" % sp)
        attempt(image, [], i, "image by %s, discovered bmap" % sp)
    # the signature
    for sp in ("path", "rel", "url", "esc"):
        s = escaped(sig) if sp == "esc" else sig if sp == "path" else "X.signature" if sp == "rel" else "file://" + sig
        attempt(sig, ["--bmap", bmap, "--bmap-sig", s], image, "signature given by %s" % sp)
        attempt(sig, ["--bmap-sig", s], image, "signature given by %s, discovered bmap" % sp)
    for form in ("asc", "sig"):
        p = put(ctx, "X.bmap." + form, c19.fx("alice." + form))
        attempt(p, ["--bmap", bmap], image, "discovered .%s" % form)
        q = put(ctx, os.path.basename(found) + "." + form, c19.fx("alice." + form))
        attempt(q, [], image, "discovered .%s of discovered bmap" % form)
        os.unlink(p)
        os.unlink(q)


def do_create(case, ctx):
    al = case["al"]
    image = image_file(ctx, None)
    for name in ("image", "-", "file:", "im age"):
        p = image if name == "image" else put(ctx, name, IM.bytes())
        for sp in ("path", "rel", "link", "hard"):
            img = p
            if sp == "rel":
                img = name
            elif sp == "link":
                img = ctx.path("cl" + name)
                os.symlink(p, img)
            elif sp == "hard":
                img = ctx.path("ch" + name)
                os.link(p, img)
            for opts in ([], ["--no-checksum"]):
                age(ctx, [p])
                before = look([p])
                what = "create from %s given by %s, options %s, the output is %s of it" % (name, sp, opts, al)
                if al.startswith("stdout"):
                    out = p
                    if al == "stdout-link":
                        out = alias(ctx, p, "hardlink")[0]
                    cli(ctx, ["create"] + opts + [img], what, stdout=out, refused=True)
                else:
                    out, fd0 = alias(ctx, p, al)
                    if out.startswith("-") and al != "rel":
                        continue
                    cli(ctx, ["create"] + opts + [img, "-o", out], what, stdin=fd0, refused=True)
                same(before, what)


SIGS = [None, ("given", "alice"), ("given", "eve"), ("asc", "alice"), ("asc", "eve"), ("sig", "carol")]
BMAPS = ["given", "found", "none", "nobmap", "checksum", "selfsum", "broken", "size", "missing"]


def do_plain(case, ctx):
    image = image_file(ctx, case["ext"])
    x = c19.fx("x.bmap")
    bmaps = dict(checksum=I.make_bmap(IM, "2.0", chkmap={1: "0" * 64}), selfsum=x.replace(b"1", b"2", 1), broken=x[:-30],
                 size=I.make_bmap(IM, "2.0", size=IM.size + 4096, blocks=41))
    opts = [[], ["--no-verify"], ["--no-sig-verify"], ["--no-verify", "--no-sig-verify"]]
    if not case["full"]:
        opts = opts[:1]
    elif ctx.tier == "quick" and case["dest"] not in ("new", "blk"):
        opts = [opts[0], opts[3]]
    for kind, sg, opt in itertools.product(BMAPS, SIGS if case["full"] else SIGS[:4], opts):
        if sg and (kind in ("none", "nobmap", "missing") or sg[0] == "given" and "--no-sig-verify" in opt):
            continue
        bp = ctx.path("image.bmap") if kind in ("found",) else ctx.path("x.bmap")
        inputs = [image]
        args = list(opt)
        if kind == "nobmap":
            args.append("--nobmap")
        elif kind == "missing":
            args += ["--bmap", bp]
        elif kind != "none":
            put(ctx, os.path.basename(bp), bmaps.get(kind, x))
            inputs.append(bp)
            if kind != "found":
                args += ["--bmap", bp]
        if sg:
            how, who = sg
            sp = ctx.path("signature") if how == "given" else bp + "." + how
            put(ctx, os.path.basename(sp), c19.fx(who + (".asc" if how == "given" else "." + how)))
            inputs.append(sp)
            if how == "given":
                args += ["--bmap-sig", sp]
        ok = kind in ("given", "found", "nobmap") and (not sg or sg[1] == "alice" or "--no-sig-verify" in opt)
        if kind == "checksum":
            ok = "--no-verify" in opt and (not sg or "--no-sig-verify" in opt)
        what = "image %s, bmap %s, signature %s, options %s, destination %s" % (case["ext"], kind, sg, opt, case["dest"])
        age(ctx, inputs)
        dest, want = ctx.path("dest"), IM.bytes() if kind == "nobmap" else IM.expected()
        b = None
        if case["dest"] == "old":
            put(ctx, "dest", b"x" * (IM.size + 5000))
        elif case["dest"] == "link":
            put(ctx, "real dest", b"x" * 5000)
            os.symlink("real dest", dest)
        elif case["dest"] in ("blk", "busy"):
            b = blk.Blk(ctx, IM.size + (1 << 16), busy=int(case["dest"] == "busy"), name="dest")
        elif case["dest"] == "dir":
            os.mkdir(dest)
        elif case["dest"] == "nodir":
            dest = ctx.path("no/dest")
        before = look(inputs)
        if b:
            vdev.active(1)
        try:
            res = cli(ctx, ["copy"] + args + [image, dest], what)
        finally:
            vdev.active(0)
        same(before, what)
        # a harness that never copies would see nothing
        if res.rc == 0 and ok and not b:
            need(read_file(dest) == want, "%s: exit status 0, but wrong content", what)
        for p in inputs[1:] + [ctx.path("real dest")]:
            if os.path.exists(p):
                os.unlink(p)
        if case["dest"] == "dir":
            os.rmdir(dest)
        elif os.path.lexists(dest):
            os.unlink(dest)
        if b:
            vdev.reset()
            import shutil
            shutil.rmtree(ctx.path("sys"))


def do_plaincreate(case, ctx):
    for im in (IM, I.Image(4096, 40 * 4096, []), I.Image(4096, 40 * 4096 - 77, [(0, 39)]), I.Image(4096, 0, []), I.Image(4096, 1, [(0, 0)])):
        for mode, opts in itertools.product((0o600, 0o444), ([], ["--no-checksum"])):
            image = put(ctx, "image", b"")
            im.write(image)
            os.chmod(image, mode)
            for out in ("stdout", "new", "old", "dir", "nodir"):
                dest = ctx.path("out")
                if out == "old":
                    put(ctx, "out", b"x" * 100000)
                elif out == "dir":
                    os.mkdir(dest)
                elif out == "nodir":
                    dest = ctx.path("no/out")
                age(ctx, [image])
                before = look([image])
                what = "create of %d bytes, mode %o, options %s, output %s" % (im.size, mode, opts, out)
                res = cli(ctx, ["create"] + opts + [image] + ([] if out == "stdout" else ["-o", dest]), what,
                          refused=None if im.size == 0 else out in ("dir", "nodir"))
                same(before, what)
                if out == "dir":
                    os.rmdir(dest)
                elif os.path.exists(dest):
                    os.unlink(dest)
            os.unlink(image)


def do_near(case, ctx):
    """Destinations that merely resemble an input are fine."""
    al = case["al"]
    image, bmap, sig = image_file(ctx, None), put(ctx, "x.bmap", c19.fx("x.bmap")), put(ctx, "x.sig.asc", c19.fx("alice.asc"))
    for victim in (image, bmap, sig):
        data = read_file(victim)
        n = os.path.basename(victim)
        if al == "copy":
            dest = put(ctx, "twin", data)
            st = os.stat(victim)
            os.utime(dest, ns=(OLD, OLD))
        elif al == "link":
            put(ctx, "twin", data)
            dest = ctx.path("tl")
            os.path.lexists(dest) or os.symlink("twin", dest)
        elif al == "hardlink":
            t = put(ctx, "twin", data)
            dest = ctx.path("th")
            os.path.lexists(dest) or os.link(t, dest)
        elif al == "longer":
            dest = victim + "x"
        elif al == "otherdir":
            os.makedirs(ctx.path("other"), exist_ok=True)
            dest = ctx.path("other/" + n)
        elif al == "linkdots":
            # textually the input, but really its namesake in another directory
            os.makedirs(ctx.path("other/sub"), exist_ok=True)
            os.path.lexists(ctx.path("ln")) or os.symlink("other/sub", ctx.path("ln"))
            dest = ctx.path("ln/../" + n)
        elif al == "tilde":
            os.makedirs(ctx.path("~"), exist_ok=True)
            dest = "~/" + n
        elif al == "percent":
            dest = ctx.path(n.replace("i", "%69", 1) if "i" in n else n.replace("x", "%78", 1))
        else:
            dest = ctx.path(n.upper())
        inputs = [image, bmap, sig]
        age(ctx, inputs)
        before = look(inputs)
        for args, want in ((["--bmap", bmap, "--bmap-sig", sig], IM.expected()), (["--nobmap"], IM.bytes()), (["--bmap", bmap], IM.expected())):
            what = "the destination resembles %s (%s), options %s" % (n, al, args[::2])
            cli(ctx, ["copy"] + args + [image, dest], what, refused=False)
            same(before, what)
            need(read_file(os.path.join(ctx.dir, dest)) == want, "%s: wrong content", what)
        what = "the output resembles %s (%s)" % (n, al)
        cli(ctx, ["create", image, "-o", dest], what, refused=False)
        same(before, what)
