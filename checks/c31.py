"""C31: files which are replaced or removed while a command runs."""
import itertools, mmap, os, shutil, struct, sys
from mc import core, formats, img as I
from mc.core import Fail, need
from mc.drive import read_file, diff_at, run_cli
from checks import c19

LEVEL = "exhaustive_bounded"
RULE = ("every command form (copy with a detached signature discovered or given, clear-signed, without signature, given or discovered bmap, plain or compressed image; create) x "
        "every file (image, bmap, signature) replaced by rename or removed before every access (open or status query by path) the command makes to any of the files: forged bmap put in place of the "
        "signed one and back (every pair of moments), a new build replacing the old one file by file in every order (every combination of moments), every single removal; non-trivial: every execution")
ASSUMPTIONS = ["Files are replaced as a whole by rename(2); a file already opened keeps its content, so accesses by path are the only moments at which a replacement can make a difference.",
               "With neither signature nor checksums old and new files cannot be told apart; not explored."]
BOUNDS = {"quick": "two replacements of one file, one of every file (four moments for each file)", "thorough": "three replacements of one file, one of every file at all moments"}
EXEC_TIMEOUT = 60

prepare = c19.prepare
worker_init = c19.worker_init
fx = c19.fx
BS, SIZE = 4096, 40 * 4096
X = I.Image(BS, SIZE, [(0, 3), (20, 39)])
Y = I.Image(BS, SIZE, [(5, 9)])
BOTH = I.Image(BS, SIZE, [(0, 3), (5, 9), (20, 39)])
# the same layout as X with other content
Z = I.Image(BS, SIZE, [(0, 3), (20, 39)], flat={1: 0x55, 30: 0xAA})

FORGE = ["asc", "sig", "given", "given-near", "clr", "discovered", "clr-discovered", "gz"]
BUILDS = ["asc", "sig", "given", "clr", "plain", "plain-given", "gz", "same"]


def cases(tier):
    th = tier != "quick"
    for form in FORGE:
        for first in (0, 1):
            for part in range(4):
                yield dict(t="forge", form=form, first=first, depth=2, part=part, parts=4)
            if th:
                for part in range(32):
                    yield dict(t="forge", form=form, first=first, depth=3, part=part, parts=32)
    for form in BUILDS:
        n = len(build(form)[0])
        for order in itertools.permutations(range(n)):
            for part in range(4):
                yield dict(t="builds", form=form, order=list(order), part=part, parts=4)
    for form in FORGE + ["plain", "plain-given", "tar.gz"]:
        yield dict(t="vanish", form=form)
    for k in range(4):
        yield dict(t="create", k=k)


class Moments:
    """Counts the accesses to files of a directory in the forked command and performs actions before some of them."""

    def __init__(self, directory):
        self.dir = directory
        self.mem = mmap.mmap(-1, 16)

    def count(self):
        return struct.unpack("q", self.mem[:8])[0]

    def setup(self, plan):
        """plan: {moment: [action]}; an action is a function"""
        state = {"n": 0, "in": False}
        self.mem[:16] = bytes(16)

        def step(path):
            if state["in"] or isinstance(path, int):
                return
            try:
                p = os.fsdecode(path)
            except TypeError:
                return
            if not p.startswith(self.dir):
                return
            state["in"] = True
            try:
                for act in plan.get(state["n"], ()):
                    act()
                state["n"] += 1
                self.mem[:8] = struct.pack("q", state["n"])
            finally:
                state["in"] = False

        def install():
            def wrap(f):
                def g(path, *a, **k):
                    step(path)
                    return f(path, *a, **k)
                return g
            # opening is reported by the interpreter itself
            sys.addaudithook(lambda ev, args: step(args[0]) if ev == "open" else None)
            for name in ("stat", "lstat", "access", "readlink", "statvfs"):
                setattr(os, name, wrap(getattr(os, name)))
        return install


def mover(src, dst):
    """puts a copy of src in place of dst"""
    def act():
        shutil.copyfile(src, dst + ".new")
        os.replace(dst + ".new", dst)
    return act


def remover(path):
    return lambda: os.unlink(path) if os.path.lexists(path) else None


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


def signed_text(clr, text):
    """the clear-signed message with another text"""
    i = clr.index(b"\n\n") + 2
    j = clr.index(b"-----BEGIN PGP SIGNATURE")
    return clr[:i] + text + clr[j:]


def attempt(ctx, args, plan, mom, what, good, dest):
    """good: the destinations which are right"""
    if os.path.exists(dest):
        os.unlink(dest)
    ctx.ev()
    res = run_cli(args, env={"GNUPGHOME": ctx.home}, setup=mom.setup(plan))
    need(res.rc != "hang", "%s: hangs", what)
    if res.rc == 0:
        got = read_file(dest) if os.path.exists(dest) else None
        need(got in good, "%s: exit status 0, but the destination is none of the %d right ones: %s", what, len(good), diff_at(got or b"", good[0]) if good else "")
        ctx.outcome("done")
        return True
    need(res.rc == 1 and not res.crashed and "ERROR" in res.err, "%s: exit status %s without a readable error:\n%s", what, res.rc, res.err[-1500:])
    ctx.outcome("refused")
    return False


def layout(ctx, form, w="w"):
    """(directory, image path, bmap path, signature path or None, arguments)"""
    d = ctx.path(w)
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    image = d + "/i.img"
    if form in ("gz", "tar.gz"):
        image += "." + form
    disc = form in ("asc", "sig", "discovered", "clr-discovered", "plain", "gz", "tar.gz", "same")
    bmap = d + "/i.img.bmap" if disc else d + "/b.bmap"
    sig = {"asc": bmap + ".asc", "sig": bmap + ".sig", "given": d + "/s", "given-near": d + "/s", "discovered": bmap + ".asc", "gz": bmap + ".asc", "tar.gz": bmap + ".asc"}.get(form)
    args = ["copy"]
    if not disc:
        args += ["--bmap", bmap]
    if form.startswith("given"):
        args += ["--bmap-sig", sig]
    dest = d + ".out"
    return d, image, bmap, sig, args + [image, dest], dest


def put_image(form, path, im, ctx):
    raw = im.bytes()
    put(path, formats.make(form, raw, ctx.path("fmt")) if form in ("gz", "tar.gz") else raw)


def forge(ctx, case):
    """The signed bmap and a forged one, swapped: a copy by the forged one must not succeed."""
    form, depth = case["form"], case["depth"]
    os.makedirs(ctx.path("fmt"), exist_ok=True)
    d, image, bmap, sig, args, dest = layout(ctx, form)
    put_image(form, image, BOTH, ctx)
    clr = form.startswith("clr")
    good = fx("alice.clr") if clr else fx("x.bmap")
    bad = signed_text(good, fx("y.bmap")) if clr else fx("y.bmap")
    s = [ctx.path("good"), ctx.path("bad")]
    put(s[0], good)
    put(s[1], bad)
    if sig:
        put(sig, fx("alice.sig" if form in ("sig", "given") else "alice.asc"))
    if form == "given-near":
        put(bmap + ".asc", fx("alice.y.asc"))
    mom = Moments(d + "/")
    first = case["first"]
    put(bmap, [good, bad][first])
    ok = attempt(ctx, args, {}, mom, "no replacement", [X.expected()], dest)
    need(ok == (first == 0), "no replacement, %s bmap: %s", ["good", "forged"][first], ok)
    n = mom.count()
    need(n >= 2, "no accesses were seen")
    done = 0
    plans = [()] + [t for k in range(1, depth + 1) for t in itertools.combinations(range(n), k) if k == depth or depth == 2]
    for i, at in enumerate(plans):
        if i % case["parts"] != case["part"]:
            continue
        put(bmap, [good, bad][first])
        plan = {m: [mover(s[(first + k + 1) % 2], bmap)] for k, m in enumerate(at)}
        done += attempt(ctx, args, plan, mom, "%s signature, bmap at first %s, exchanged before accesses %s" % (form, ["good", "forged"][first], list(at)), [X.expected()], dest)
    ctx.count("moments", n)


def build(form):
    """(names of the files, contents of the two builds, right destinations)"""
    if form == "same":
        ims = (X, Z)
        return ["image", "bmap"], [(m, I.make_bmap(m, "2.0")) for m in ims], [m.expected() for m in ims]
    ims = (X, Y)
    if form in ("plain", "plain-given"):
        return ["image", "bmap"], [(m, I.make_bmap(m, v)) for m, v in zip(ims, ("2.0", "1.3"))], [m.expected() for m in ims]
    if form == "clr":
        return ["image", "bmap"], [(X, fx("alice.clr")), (Y, fx("alice.y.clr"))], [m.expected() for m in ims]
    sg = [fx("alice.asc"), fx("alice.y.asc")]
    return ["image", "bmap", "sig"], [(X, fx("x.bmap"), sg[0]), (Y, fx("y.bmap"), sg[1])], [m.expected() for m in ims]


def builds(ctx, case):
    """A new build replaces the old one, file by file."""
    form, order = case["form"], case["order"]
    os.makedirs(ctx.path("fmt"), exist_ok=True)
    names, contents, good = build(form)
    d, image, bmap, sig, args, dest = layout(ctx, form)
    place = {"image": image, "bmap": bmap, "sig": sig}
    src = [{}, {}]
    for v in (0, 1):
        for nm, c in zip(names, contents[v]):
            src[v][nm] = ctx.path("v%d.%s" % (v, nm))
            if nm == "image":
                put_image(form, src[v][nm], c, ctx)
            else:
                put(src[v][nm], c)
    mom = Moments(d + "/")

    def reset(v):
        for nm in names:
            shutil.copyfile(src[v][nm], place[nm])
    reset(1)
    need(attempt(ctx, args, {}, mom, "the new build", good[1:], dest), "the new build cannot be copied")
    reset(0)
    need(attempt(ctx, args, {}, mom, "the old build", good[:1], dest), "the old build cannot be copied")
    n = mom.count()
    full = ctx.tier != "quick" or len(names) == 2
    pts = range(n + 1) if full else sorted({0, 1, 2, 3, n // 2, n - 2, n - 1, n} & set(range(n + 1)))
    for i, at in enumerate(itertools.combinations_with_replacement(pts, len(names))):
        if i % case["parts"] != case["part"]:
            continue
        reset(0)
        plan = {}
        for k, m in zip(order, at):
            plan.setdefault(m, []).append(mover(src[1][names[k]], place[names[k]]))
        what = "%s: a new build replaces the old one: %s" % (form, ", ".join("%s before access %d" % (names[k], m) for k, m in zip(order, at)))
        done = attempt(ctx, args, plan, mom, what, good, dest)
        need(done or at[-1] > 0 and at[0] < n, "%s: fails although nothing changed on the way", what)


def vanish(ctx, case):
    form = case["form"]
    os.makedirs(ctx.path("fmt"), exist_ok=True)
    d, image, bmap, sig, args, dest = layout(ctx, form)
    clr = form.startswith("clr")
    files = {image: None, bmap: fx("alice.clr") if clr else fx("x.bmap") if sig else I.make_bmap(X, "2.0")}
    if sig:
        files[sig] = fx("alice.sig" if form in ("sig", "given") else "alice.asc")
    mom = Moments(d + "/")
    put_image(form, ctx.path("src"), X, ctx)

    def reset():
        shutil.copyfile(ctx.path("src"), image)
        for p, c in files.items():
            if c is not None:
                put(p, c)
    reset()
    need(attempt(ctx, args, {}, mom, "nothing removed", [X.expected()], dest), "%s: cannot be copied", form)
    n = mom.count()
    for m in range(n):
        for gone in list(files) + [None]:
            reset()
            plan = {m: [remover(p) for p in ([gone] if gone else files)]}
            what = "%s: %s removed before access %d" % (form, os.path.basename(gone) if gone else "everything", m)
            attempt(ctx, args, plan, mom, what, [X.expected()], dest)
            if gone and not form.startswith("given"):
                # and back again at every later moment
                for m2 in range(m + 1, n):
                    reset()
                    src = ctx.path("back")
                    shutil.copyfile(gone, src)
                    attempt(ctx, args, {m: plan[m], m2: [mover(src, gone)]}, mom, what + " and back before access %d" % m2, [X.expected()], dest)


def create(ctx, case):
    """create while the image is replaced: the bmap describes one of the states"""
    k = case["k"]
    base = ["/dev/shm", "/var/tmp"][k & 1]
    d = os.path.join(ctx.dir if k & 1 == 0 else base, "mc31.%d" % os.getpid())
    os.makedirs(d)
    try:
        _create(ctx, case, d)
    finally:
        shutil.rmtree(d)


def _create(ctx, case, d):
    # of the same size, or not
    ims = [X, Z if case["k"] & 2 else I.Image(BS, 12 * BS + 5, [(3, 4), (12, 12)])]
    image, out = d + "/i.img", ctx.path("out.bmap")
    src = [ctx.path("s0"), ctx.path("s1")]

    def put_sparse(i):
        def act():
            ims[i].write(image + ".new")
            os.replace(image + ".new", image)
        return act
    mom = Moments(d + "/")

    def attempt_create(plan, what, first):
        put_sparse(first)()
        if os.path.exists(out):
            os.unlink(out)
        ctx.ev()
        res = run_cli(["create", "-o", out, image], setup=mom.setup(plan))
        if res.rc == 0:
            b = I.parse_bmap(read_file(out))
            ok = [m for m in ims if describes(b, m)]
            need(ok, "%s: the bmap describes neither state of the image: %s", what, read_file(out).decode()[:1500])
            ctx.outcome("created")
        else:
            need(res.rc == 1 and not res.crashed and "ERROR" in res.err, "%s: exit status %s without a readable error:\n%s", what, res.rc, res.err[-1500:])
            ctx.outcome("refused")
        return res.rc == 0
    need(attempt_create({}, "nothing replaced", 0), "create fails")
    n = mom.count()
    need(n >= 1, "no accesses were seen")
    for first in (0, 1):
        for m in range(n):
            attempt_create({m: [put_sparse(1 - first)]}, "image replaced before access %d" % m, first)
            attempt_create({m: [remover(image)]}, "image removed before access %d" % m, first)
            for m2 in range(m + 1, n):
                attempt_create({m: [put_sparse(1 - first)], m2: [put_sparse(first)]}, "image replaced before access %d and back before %d" % (m, m2), first)


def describes(b, m):
    import hashlib
    if (b["ImageSize"], b["BlockSize"], b["BlocksCount"]) != tuple(map(str, (m.size, m.bs, I.blocks_of(m.size, m.bs)))):
        return False
    raw = m.bytes()
    cov = set()
    for r in b["ranges"]:
        first, last, cs = r[:3]
        cov.update(range(first, last + 1))
        if hashlib.new(b["ChecksumType"], raw[first * m.bs:min((last + 1) * m.bs, m.size)]).hexdigest() not in cs:
            return False
    data = set(i for a, z in m.ranges for i in range(a, z + 1))
    return data <= cov and len(cov) == int(b["MappedBlocksCount"])


def run(case, ctx):
    {"forge": forge, "builds": builds, "vanish": vanish, "create": create}[case["t"]](ctx, case)
