"""C30: the commands do the same whatever files are called and whatever environment they are started in."""
import itertools, os, resource, shutil, signal, subprocess, sys
from mc import core, formats, net, img as I
from mc.core import Fail, need
from mc.drive import read_file, diff_at, run_cli
from checks import c19

LEVEL = "exhaustive_bounded"
RULE = ("every byte value a file name may contain and a table of names which look like options, URLs, patterns, formats or markup, times the file that has the name (image, "
        "compressed image, bmap given or found, signature given or found, destination, output, directory of all) times relative, absolute and file:// spelling; every combination of "
        "locale, encoding and UTF-8-mode settings with plain and odd names; other settings of the environment, working directory, umask, inherited signal dispositions, resource limits and "
        "every subset of closed standard streams. Except for the names, every run is a process of its own started the way a shell starts it; all are compared with what must come out. Non-trivial: every execution")
ASSUMPTIONS = ["file:// URLs are tried with names that need no escaping only.", "With a limit or a closed stream a command may fail, but must not claim success."]
BOUNDS = {"quick": "names of one odd piece", "thorough": "names of two odd pieces, all pairs of environment settings"}
IM = c19.IM
DATA = IM.bytes()
WORDS = [b"-", b"--", b"-x", b"-o", b"--help", b"--nobmap", b"--bmap=x", b"%s%d%n", b"%", b"%(x)s", b"{}", b"{0}", b"a b", b" ", b" x", b"x ", b"x\ny", b"\t", b"#1", b"?q=1", b"a?b", b"a:b", b"host:x",
         b"C:\\x", b"\\", b"~", b"~root", b"$HOME", b"*", b"[a]", b"'", b"\"", b"`id`", b";id", b"|id", b"&", b"&amp;", b"<x>", b"]]>", b"--- x", b"..x", b".x", b"...", b"x..", b"x.", b"bmap", b".bmap",
         b"a.bmap", b"a.asc", b"http:", b"ssh:", b"file:", b"@x", b"+x", b"=", b"a=b", b",", b"\xff\xfe", b"\xc3\xa9", b"e\xcc\x81", b"\xe6\x97\xa5\xe6\x9c\xac", b"\xe2\x80\xae", b"\xed\xa0\x80",
         b"\xf0\x9f\x92\xbe", b"\x1b[31m", b"\x7f", b"n" * 200, b"\xc3\xa9" * 100, b"0", b"1-2", b"None", b"con", b"image", b"a%20b", b"a+b", b"%2f", b"a;type=i"]
ROLES = ["image", "gz", "found", "bmap", "foundbmap", "dest", "all", "output", "source", "dir", "sig", "foundsig", "url"]


def cases(tier):
    for w in range(len(WORDS)):
        for role in ROLES:
            yield dict(t="name", role=role, words=[w])
    for b in range(1, 256):
        if b != ord("/"):
            yield dict(t="byte", b=b)
    for k in range(len(locales())):
        yield dict(t="locale", k=k)
    for k in range(len(settings())):
        yield dict(t="env", k=k)
    for mask in range(8):
        for extra in range(3):
            yield dict(t="closed", mask=mask, extra=extra)
    for k in range(len(DISPOSITIONS)):
        yield dict(t="signals", k=k)
    for n in range(3, 24):
        yield dict(t="files", n=n)
    for k in range(0, 180000, 20000):
        yield dict(t="fsize", n=k + 7)
    if tier != "quick":
        for v, w in itertools.product(range(len(WORDS)), repeat=2):
            if v != w and len(WORDS[v]) + len(WORDS[w]) < 150:
                for role in ("image", "all", "bmap", "dest"):
                    yield dict(t="name", role=role, words=[v, w])
        for j, k in itertools.combinations(range(len(settings())), 2):
            yield dict(t="env", k=j, j=k)


def prepare(tier, base):
    c19.prepare(tier, base)


def worker_init(ctx):
    c19.worker_init(ctx)
    ctx.bin = net.install_ssh(os.path.join(ctx.base, "bin"))
    ctx.gz = formats.compress("gzip", DATA)


def put(p, data):
    with open(p, "wb") as f:
        f.write(data)


class Res:
    pass


def start(ctx, args, cwd=None, env=None, stdin=None, closed=(), pre=None, umask=-1):
    """Runs bmaptool as a process of its own; args are bytes."""
    e = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache", GNUPGHOME=ctx.home, HOME=ctx.base, SSL_CERT_FILE="/dev/null")
    e.pop("LD_PRELOAD", None)
    for k, v in (env or {}).items():
        e.pop(k, None)
        if v is not None:
            e[k] = v

    def before():
        if pre:
            pre()
        for fd in closed:
            os.close(fd)
    si = open(stdin, "rb") if stdin else subprocess.DEVNULL
    ctx.ev()
    out, err = open(os.path.join(ctx.base, "o"), "wb+"), open(os.path.join(ctx.base, "e"), "wb+")
    try:
        p = subprocess.Popen([sys.executable, "-m", "bmaptools"] + args, stdin=si, stdout=out, stderr=err, env=e, cwd=cwd or ctx.dir, preexec_fn=before,
                             start_new_session=True, umask=umask)
        try:
            rc = p.wait(40)
        except subprocess.TimeoutExpired:
            rc = "hang"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        core.kill_tree([p.pid])
        r = Res()
        out.seek(0)
        err.seek(0)
        r.rc, r.out, r.err = rc, out.read(), err.read().decode("utf-8", "replace")
        return r
    finally:
        out.close()
        err.close()
        if stdin:
            si.close()


def forked(ctx, args, cwd):
    """Runs bmaptool in a forked process with the arguments and streams which the interpreter would give it."""
    def setup():
        sys.stdout.reconfigure(errors="strict")
        sys.stderr.reconfigure(errors="backslashreplace")
    ctx.ev()
    return run_cli([os.fsdecode(a) for a in args], cwd=cwd, setup=setup, env={"GNUPGHOME": ctx.home, "HOME": ctx.base})


def copied(r, dest, want, what):
    need(r.rc == 0, "%s: exit status %s: %s", what, r.rc, r.err[-900:])
    try:
        got = read_file(dest)
    except OSError as e:
        raise Fail("%s: exit status 0, but %s" % (what, e))
    need(got == want, "%s: exit status 0, but a wrong destination: %s", what, diff_at(got, want))


def no_strays(d, allowed, what):
    left = set(os.listdir(os.fsencode(d))) - set(allowed)
    need(not left, "%s: files appeared: %s", what, left)


def run_name(case, ctx):
    name = b"".join(WORDS[w] for w in case["words"])
    named(ctx, name, case["role"])


def run_byte(case, ctx):
    c = bytes([case["b"]])
    if c != b".":
        named(ctx, c, "all")
    named(ctx, b"a" + c + b"b", "all")
    named(ctx, b"a" + c, "image")
    named(ctx, c + b"b", "output")
    named(ctx, b"x" + c + c + b".img", "found")


def bmap_ok(data, src_len, what):
    try:
        p = I.parse_bmap(data)
    except (ValueError, UnicodeDecodeError) as e:
        raise Fail("%s: bad bmap: %s" % (what, e))
    need(p["ImageSize"] == str(src_len), "%s: image size %s in the bmap", what, p["ImageSize"])
    return p


def named(ctx, name, role):
    """One of the files has that name."""
    ctx.clean()
    top = os.fsencode(ctx.path("t"))
    os.mkdir(top)
    names = dict(image=b"image.img", bmap=b"m.bmap", dest=b"dest", sig=b"s.asc")
    cwd, exp, extra, kind = top, IM.expected(), [], "copy"
    if role == "image":
        names["image"] = name
    elif role == "gz":
        names["image"] = name + b".gz"
    elif role == "found":
        names["image"], names["bmap"] = name, name + b".bmap"
    elif role == "foundbmap":
        if not name.strip(b"."):
            return  # such names have no extension
        names["image"], names["bmap"] = name + b".img", name + b".bmap"
    elif role in ("bmap", "dest", "sig"):
        names[role] = name
    elif role == "foundsig":
        names["bmap"], names["sig"] = name, name + b".asc"
    elif role == "all":
        names = dict(image=name + b"1", bmap=name + b"2", dest=name + b"3", sig=name + b"4")
    elif role in ("output", "source"):
        kind = "create"
    elif role == "dir":
        if name in (b".", b".."):
            return
        top = os.path.join(top, name)
        os.mkdir(top)
    if name.endswith(tuple(b"." + e.encode() for e in formats.FORMATS)) or max(len(v) for v in names.values()) > 250 or len(name) > 250:
        return
    if len(set(names.values())) < 4 or any(v in (b".", b"..") for v in names.values()):
        return
    if kind == "create":
        src, out = (b"image.img", name) if role == "output" else (name, b"out.bmap")
        if src == out or src in (b".", b"..") or out in (b".", b".."):
            return
        for style in ("rel", "abs"):
            ctx.ev(0)
            put(os.path.join(top, src), DATA)
            a, o = spell(top, src, style), spell(top, out, style)
            what = "create of %r to %r" % (a, o)
            r = forked(ctx, [b"create", b"--output=" + o, b"--", a], cwd=top)
            need(r.rc == 0, "%s: exit status %s: %s", what, r.rc, r.err[-900:])
            p = bmap_ok(read_file(os.path.join(top, out)), len(DATA), what)
            need(read_file(os.path.join(top, src)) == DATA, "%s: the image was changed", what)
            no_strays(top, [src, out], what)
            os.unlink(os.path.join(top, out))
            r = forked(ctx, [b"create", b"--", a], cwd=top)
            need(r.rc == 0, "%s to standard output: exit status %s: %s", what, r.rc, r.err[-900:])
            bmap_ok(r.out, len(DATA), what + " to standard output")
            ctx.outcome("created")
        return
    put(os.path.join(top, names["image"]), ctx.gz if role == "gz" else DATA)
    put(os.path.join(top, names["bmap"]), c19.fx("x.bmap"))
    signed = role in ("sig", "foundsig", "all")
    if signed:
        put(os.path.join(top, names["sig"]), c19.fx("alice.asc"))
    have = [names[k] for k in ("image", "bmap", "dest")] + ([names["sig"]] if signed else [])
    for style in ("rel", "abs") if role != "url" else ("url",):
        if style == "url":
            if any(c in name for c in b"%?#;\t\n\r") or name.startswith((b" ", b"\x1b")) or name.endswith(b" ") or not name.isascii() or any(c < 33 or c > 126 for c in name):
                return
            names["image"] = name
            put(os.path.join(top, name), DATA)
            have.append(name)
            have.append(b"image.img")
            if name in (names["bmap"], names["dest"]):
                return
        sp = {k: spell(top, v, style) for k, v in names.items()}
        args = [b"copy"]
        if role not in ("found", "foundbmap"):
            args.append(b"--bmap=" + sp["bmap"])
        if role in ("sig", "all"):
            args.append(b"--bmap-sig=" + sp["sig"])
        args += [b"--", sp["image"], spell(top, names["dest"], "abs" if style == "url" else style)]
        what = "%s: %r" % (role, args)
        r = forked(ctx, args, cwd=top)
        copied(r, os.path.join(top, names["dest"]), exp, what)
        need(read_file(os.path.join(top, names["bmap"])) == c19.fx("x.bmap"), "%s: the bmap was changed", what)
        no_strays(top, have, what)
        if signed:
            need("successfully verified" in r.err, "%s: no word about the signature: %s", what, r.err[-600:])
        os.unlink(os.path.join(top, names["dest"]))
        ctx.outcome("copied")
        if signed:
            # a bad signature by that name counts as well
            put(os.path.join(top, names["sig"]), c19.fx("eve.asc"))
            r = forked(ctx, args, cwd=top)
            need(r.rc == 1 and "ERROR" in r.err, "%s, bad signature: exit status %s: %s", what, r.rc, r.err[-900:])
            put(os.path.join(top, names["sig"]), c19.fx("alice.asc"))
            ctx.outcome("refused")
            if os.path.exists(os.path.join(top, names["dest"])):
                os.unlink(os.path.join(top, names["dest"]))


def spell(top, name, style):
    if style == "abs":
        return os.path.join(top, name)
    if style == "url":
        return b"file://" + os.path.join(top, name)
    # the only relative names that have a meaning of their own
    return b"./" + name if name in (b"-", b"--") else name


def locales():
    res = []
    for lang in ("C", "POSIX", "C.UTF-8", "de_DE.ISO-8859-1", "xx_YY", ""):
        for mode in ({}, {"PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"PYTHONIOENCODING": "ascii"}, {"PYTHONIOENCODING": "ascii:strict"},
                     {"PYTHONIOENCODING": "latin-1"}, {"PYTHONUTF8": "1"}):
            res.append(dict({"LC_ALL": lang, "LANG": lang}, **mode))
    return res


def standard_runs(ctx, what, may_fail=False, only=None, odds=(b"", b"\xc3\xa9\xff\n"), **kw):
    """Copies and creations with plain and with odd names. only: words of the runs wanted."""
    ctx.clean()
    for odd in odds:
        top = os.path.join(os.fsencode(ctx.dir), b"d" + odd)
        os.mkdir(top)
        img, bm, de = (os.path.join(top, odd + x) for x in (b"i.img", b"i.bmap", b"dest"))
        put(img, DATA)
        put(img + b".gz", ctx.gz)
        put(bm, c19.fx("x.bmap"))
        put(bm + b".asc", c19.fx("alice.asc"))
        put(os.path.join(top, b"clear.bmap"), c19.fx("alice.clr"))
        out = os.path.join(top, b"o.bmap")
        runs = [("copy", [b"copy", img, de]), ("copy a compressed image", [b"copy", img + b".gz", de]), ("copy without bmap", [b"copy", b"--nobmap", img + b".gz", de]),
                ("quiet copy", [b"-q", b"copy", img, de]), ("copy with debugging", [b"-d", b"copy", img, de]),
                ("copy with clear-signed bmap", [b"copy", b"--bmap", os.path.join(top, b"clear.bmap"), img, de]),
                ("copy by ssh", [b"copy", b"--bmap", bm, b"ssh://host" + img, de]) if not odd else None,
                ("copy a file that is no image", [b"copy", b"--bmap", bm, bm, de]),
                ("create with output", [b"create", b"-o", out, img]), ("create on standard output", [b"create", img])]
        for r in runs:
            if not r or (only and ctx.tier == "quick" and not any(o in r[0] for o in only)):
                continue
            name, args = r
            lb = "%s: %s%s" % (what, name, " (odd names)" if odd else "")
            if "ssh" in name:
                kw2 = dict(kw, env=dict(kw.get("env") or {}))
                if kw2["env"].get("PATH", 1) is None:
                    continue
                kw2["env"]["PATH"] = ctx.bin + ":" + kw2["env"].get("PATH", os.environ["PATH"])
            else:
                kw2 = kw
            for x in (de, out):
                if os.path.exists(x):
                    os.unlink(x)
            res = start(ctx, args, **kw2)
            need(res.rc != "hang" and not (isinstance(res.rc, int) and res.rc < 0), "%s: exit status %s: %s", lb, res.rc, res.err[-600:])
            if "no image" in name:
                # (120: what is left of the message cannot be written)
                need(res.rc == 1 or may_fail and res.rc == 120, "%s: exit status %s: %s", lb, res.rc, res.err[-600:])
                need(may_fail or "ERROR" in res.err, "%s: no readable error: %s", lb, res.err[-600:])
                ctx.outcome("refused")
            elif res.rc and may_fail:
                ctx.outcome("failed")
            elif name.startswith("create"):
                need(res.rc == 0, "%s: exit status %s: %s", lb, res.rc, res.err[-900:])
                if "standard" in name:
                    bmap_ok(res.out, len(DATA), lb)
                else:
                    bmap_ok(read_file(out), len(DATA), lb)
                ctx.outcome("created")
            else:
                copied(res, de, DATA if "without" in name else IM.expected(), lb)
                ctx.outcome("copied")


def run_locale(case, ctx):
    env = locales()[case["k"]]
    standard_runs(ctx, "environment %s" % env, env=env, only=("clear", "no image", "output", "debug", "ssh"))


def settings():
    no = "/nonexistent/dir"
    return [("nothing set but what Python needs", dict(env={k: None for k in ("HOME", "LANG", "LC_ALL", "TERM", "TZ", "TMPDIR", "LOGNAME", "USER", "SHELL", "PWD")})),
            ("no PATH", dict(env={"PATH": None})),
            ("HOME missing", dict(env={"HOME": no})), ("HOME empty", dict(env={"HOME": ""})), ("TMPDIR missing", dict(env={"TMPDIR": no})), ("TMPDIR a file", dict(env={"TMPDIR": "/etc/passwd"})),
            ("TERM dumb", dict(env={"TERM": "dumb", "COLUMNS": "1", "LINES": "0"})), ("COLUMNS no number", dict(env={"COLUMNS": "x"})), ("odd time zone", dict(env={"TZ": "Nowhere/City"})),
            ("PATH with empty and missing parts", dict(env={"PATH": "::" + no + ":" + os.environ.get("PATH", "") + ":relative"})), ("IFS and ENV", dict(env={"IFS": "x/", "ENV": no, "BASH_ENV": no})),
            ("options of helpers", dict(env={"GZIP": "-9", "XZ_OPT": "-v", "ZIPOPT": "-v", "TAR_OPTIONS": "--verbose"})),
            ("proxies", dict(env={"http_proxy": "http://127.0.0.1:1/", "https_proxy": "x", "no_proxy": "*"})),
            ("odd environment bytes", dict(env={"X": "\udcff\n", "LS_COLORS": "\udc80"})), ("hash seed", dict(env={"PYTHONHASHSEED": "12345"})), ("optimised", dict(env={"PYTHONOPTIMIZE": "2"})),
            ("development mode", dict(env={"PYTHONDEVMODE": "1", "PYTHONWARNINGS": "ignore"})), ("unbuffered", dict(env={"PYTHONUNBUFFERED": "1"})),
            ("umask 077", dict(umask=0o077)), ("umask 0", dict(umask=0)), ("umask 0177", dict(umask=0o177)),
            ("in the root directory", dict(cwd="/")), ("in a directory that is gone", dict(cwd="gone")), ("as background job", dict(pre=lambda: os.nice(10))),
            ("as a session of its own", dict(pre=lambda: None)), ("CPU limit", dict(pre=lambda: resource.setrlimit(resource.RLIMIT_CPU, (30, 30)))),
            ("small stack", dict(pre=lambda: resource.setrlimit(resource.RLIMIT_STACK, (1 << 20, 1 << 20)))), ("no core files", dict(pre=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))),
            ("few file descriptors", dict(pre=lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (64, 64)))), ("high descriptors open", dict(pre=spare_fds))]


def spare_fds():
    for i in range(3, 30):
        os.dup2(1, i)
        os.set_inheritable(i, True)


def run_env(case, ctx):
    name, kw = settings()[case["k"]]
    if "j" in case:
        n2, kw2 = settings()[case["j"]]
        if set(kw) & set(kw2) - {"env"}:
            return
        env = dict(kw.get("env") or {}, **(kw2.get("env") or {}))
        name, kw = name + " and " + n2, dict(kw, **kw2)
        if env:
            kw["env"] = env
    kw = dict(kw)
    if kw.get("cwd") == "gone":
        d = os.path.join(ctx.base, "gone")
        os.makedirs(d, exist_ok=True)
        old = kw.get("pre")
        kw["cwd"] = d

        def pre():
            os.rmdir(d)
            os.mkdir(d)
            os.rmdir(d)
            if old:
                old()
        # (made again for each run)
        real = start

        def again(ctx, args, **k):
            os.makedirs(d, exist_ok=True)
            return real(ctx, args, **k)
        kw["pre"] = pre
        globals()["start"] = again
        try:
            # python -m looks for modules in the working directory, which is not there
            standard_runs(ctx, name, only=("compressed", "clear", "no image", "create"), odds=(b"",), **kw)
        finally:
            globals()["start"] = real
        return
    standard_runs(ctx, name, only=("compressed", "clear", "ssh", "no image", "create"), odds=(b"\xc3\xa9\xff\n",), **kw)


def run_closed(case, ctx):
    closed = [fd for fd in range(3) if case["mask"] >> fd & 1]
    what = "with standard streams %s closed" % closed
    pre = (None, lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN), lambda: os.dup2(os.open("/dev/full", os.O_WRONLY), 2))[case["extra"]]
    if case["extra"] == 2:
        if 2 in closed:
            return
        what += ", standard error full"
    ctx.clean()
    img, bm, de, out = (os.fsencode(ctx.path(x)) for x in ("image.img", "image.bmap", "dest", "out.bmap"))
    for comp in (False, True):
        for args in ([], [b"--nobmap"], [b"-q"], [b"-d"])[:4 if ctx.tier != "quick" or not case["extra"] else 2]:
            for src in ("file", "stdin", "broken"):
                if src == "broken" and not comp or src == "stdin" and comp:
                    continue
                pos = [b"copy"]
                if args in ([b"-q"], [b"-d"]):
                    pos = args + pos
                else:
                    pos += args
                path = img + (b".gz" if comp else b"")
                put(path, (ctx.gz[:len(ctx.gz) - 3000] if src == "broken" else ctx.gz) if comp else DATA)
                put(bm, c19.fx("x.bmap"))
                if os.path.exists(de):
                    os.unlink(de)
                if src == "stdin":
                    a = pos + ([] if b"--nobmap" in pos else [b"--bmap", bm]) + [b"-", de]
                else:
                    a = pos + [path, de]
                lb = "%r %s" % (a, what)
                r = start(ctx, a, closed=closed, pre=pre, stdin=os.fsdecode(path) if src == "stdin" else None)
                need(r.rc != "hang", "%s: hangs", lb)
                if src == "broken":
                    need(r.rc != 0, "%s: success from a truncated file", lb)
                    ctx.outcome("refused")
                elif r.rc == 0:
                    copied(r, de, DATA if b"--nobmap" in a else IM.expected(), lb)
                    ctx.outcome("copied")
                else:
                    need(closed or case["extra"] == 2, "%s: exit status %s: %s", lb, r.rc, r.err[-600:])
                    ctx.outcome("failed")
                need(read_file(path) == (ctx.gz[:len(ctx.gz) - 3000] if src == "broken" else ctx.gz if comp else DATA), "%s: the image was changed", lb)
                need(read_file(bm) == c19.fx("x.bmap"), "%s: the bmap was changed", lb)
    put(img, DATA)
    for a in ([b"create", b"-o", out, img], [b"create", img], [b"create", b"--no-checksum", b"-o", out, img]):
        if os.path.exists(out):
            os.unlink(out)
        lb = "%r %s" % (a, what)
        r = start(ctx, a, closed=closed, pre=pre)
        need(r.rc != "hang", "%s: hangs", lb)
        if r.rc == 0:
            bmap_ok(read_file(out) if b"-o" in a else r.out, len(DATA), lb)
            ctx.outcome("created")
        else:
            need(closed or case["extra"] == 2, "%s: exit status %s: %s", lb, r.rc, r.err[-600:])
            ctx.outcome("failed")


DISPOSITIONS = [("SIGCHLD",), ("SIGINT",), ("SIGPIPE",), ("SIGHUP",), ("SIGTERM",), ("SIGCHLD", "SIGINT", "SIGHUP", "SIGPIPE", "SIGUSR1", "SIGALRM"), ("block SIGCHLD",), ("block SIGINT",),
                ("block SIGPIPE",), ("block all",)]


def run_signals(case, ctx):
    """Inherited signal settings. What is broken must be noticed whatever they are."""
    which = DISPOSITIONS[case["k"]]

    def pre():
        for s in which:
            if s == "block all":
                signal.pthread_sigmask(signal.SIG_BLOCK, set(signal.Signals) - {signal.SIGKILL, signal.SIGSTOP})
            elif s.startswith("block "):
                signal.pthread_sigmask(signal.SIG_BLOCK, {getattr(signal, s[6:])})
            else:
                signal.signal(getattr(signal, s), signal.SIG_IGN)
    what = "started with signals %s" % (which,) if "block" in which[0] else "started with ignored %s" % (which,)
    standard_runs(ctx, what, pre=pre, odds=(b"",), only=("compressed", "clear", "ssh", "no image", "output"))
    img, bm, de = (os.fsencode(ctx.path(x)) for x in ("image.img", "image.bmap", "dest"))
    for ext in formats.MAIN if ctx.tier != "quick" or "SIGCHLD" in which else ("gz", "tar.xz", "zip"):
        full = formats.make(ext, DATA, ctx.dir)
        for cut in (5, 3000) if ctx.tier == "quick" else (1, 5, 40, 3000, len(full) // 2):
            path = img + b"." + ext.encode()
            put(path, full[:-cut])
            bad = True
            if formats.unnoticed(ext, os.fsdecode(path)):
                continue
            a = [b"copy", b"--nobmap", path, de]
            r = start(ctx, a, pre=pre)
            lb = "%s, %s image without its last %d bytes" % (what, ext, cut)
            need(r.rc not in (0, "hang"), "%s: exit status %s", lb, r.rc)
            ctx.outcome("refused")
            os.unlink(path)
    for a in ([b"copy", b"--nobmap", b"ssh://host/nonexistent/image", de], [b"copy", b"--nobmap", b"ssh://host" + bm + b"x", de]):
        r = start(ctx, a, pre=pre, env={"PATH": ctx.bin + ":" + os.environ["PATH"]})
        need(r.rc not in (0, "hang"), "%s: missing file by ssh: exit status %s", what, r.rc)
        ctx.outcome("refused")


def run_files(case, ctx):
    n = case["n"]
    standard_runs(ctx, "at most %d open files" % n, may_fail=True, odds=(b"",), only=("compressed", "clear", "ssh", "without", "create"), pre=lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (n, n)))


def run_fsize(case, ctx):
    n = case["n"]
    standard_runs(ctx, "files of at most %d bytes" % n, may_fail=True, odds=(b"",), pre=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (n, n)))


def run(case, ctx):
    {"name": run_name, "byte": run_byte, "locale": run_locale, "env": run_env, "closed": run_closed, "signals": run_signals, "files": run_files,
     "fsize": run_fsize}[case["t"]](case, ctx)
