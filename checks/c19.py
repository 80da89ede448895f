"""C19: nothing is copied unless the bmap's signature is acceptable."""
import os, shutil, subprocess, sys
from mc import core, net, img as I
from mc.core import Fail, need
from mc.drive import read_file, diff_at, run_cli

LEVEL = "exhaustive_bounded"
RULE = ("signer state (trusted, certified by a trusted key, signing subkey, untrusted, never trusted, unknown, expired, revoked, expired signature, every pair good+x and x+good, "
        "signature over another file, inline message, key block, empty, garbage) x detached armored/binary or clear-signed x given, discovered next to a local file or at a "
        "URL x signature verification on/off; every single-byte edit and truncation of the bmap, of a binary and an armored signature and of a clear-signed bmap; "
        "refused option combinations; missing gpg module. Oracle: the table of signers; for edits gpg's own status output. Non-trivial: every execution")
ASSUMPTIONS = ["The keyring and its trust database are as committed in fixtures/gpg (all keys of 2020); gpg itself is trusted.",
               "A refused copy may leave an empty destination file (it is opened before), but no image data."]
BOUNDS = {"quick": "every offset with one replacement value", "thorough": "every offset with four replacement values, deletion, duplication and insertion"}
FIX = os.path.join(core.VERIF, "fixtures", "gpg")
IM = I.Image(4096, 40 * 4096, [(0, 3), (20, 39)])
GOOD = ["alice", "bob", "hank", "alice+bob"]
BAD = ["carol", "dave", "eve", "frank", "grace", "alice+eve", "eve+alice", "alice+carol", "carol+alice", "alice+frank", "expiredsig"]
HOME = None


def prepare(tier, base):
    global HOME
    HOME = os.path.join(base, "gnupg")
    os.mkdir(HOME, 0o700)
    env = dict(os.environ, GNUPGHOME=HOME)
    for args in (["--import", FIX + "/keys.asc"], ["--import-ownertrust", FIX + "/ownertrust"], ["--check-trustdb"]):
        subprocess.run(["gpg", "--batch", "-q", "--no-autostart"] + args, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["gpg", "--batch", "--status-fd", "1", "--verify", FIX + "/bob.asc", FIX + "/x.bmap"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if b"TRUST_FULLY" not in r.stdout:
        raise core.HarnessError("gpg does not work as expected: %r %r" % (r.stdout, r.stderr))


def worker_init(ctx):
    ctx.home = os.path.join(ctx.base, "gnupg")
    shutil.copytree(HOME, ctx.home, ignore=lambda d, n: [x for x in n if x.startswith(("S.", ".#")) or x.endswith(".lock")])
    os.chmod(ctx.home, 0o700)
    # the library looks for its engines once per process; the forked commands inherit the answer
    os.environ["GNUPGHOME"] = ctx.home
    import gpg
    gpg.Context()
    del os.environ["GNUPGHOME"]


def fx(name):
    return read_file(os.path.join(FIX, name))


def cases(tier):
    th = tier != "quick"
    for who in GOOD + BAD:
        for form in ("asc", "sig", "clr"):
            for where in ("local", "http"):
                yield dict(t="table", who=who, form=form, where=where)
    for k in range(len(odd())):
        yield dict(t="odd", k=k)
    yield dict(t="options")
    yield dict(t="nogpg")
    yield dict(t="precedence")
    yield dict(t="zform")
    parts = 48 if th else 16
    for target in ("bmap", "sig", "asc", "clr"):
        for p in range(parts):
            yield dict(t="edit", target=target, part=p, parts=parts)


def odd():
    """(name, signature file content)"""
    al, y = fx("alice.asc"), fx("alice.y.asc")
    return [("empty", b""), ("garbage", b"garbage\n"), ("inline message of this bmap", fx("alice.inline")), ("inline message of another bmap", fx("alice.y.inline")),
            ("clear-signed copy of this bmap", fx("alice.clr")), ("clear-signed other bmap", fx("alice.y.clr")), ("key block", fx("keys.asc")),
            ("key block called a signature", fx("keys.asc").replace(b"PUBLIC KEY BLOCK", b"SIGNATURE")), ("signature of another bmap", y),
            ("armored signature followed by one of another bmap", al + y), ("signature of another bmap followed by a good one", y + al),
            ("binary good and other", fx("alice.sig") + fx("eve.sig")), ("two good ones", fx("alice.sig") + fx("bob.sig")),
            ("the bmap itself", fx("x.bmap")), ("zeros", bytes(300)), ("armor without content", b"-----BEGIN PGP SIGNATURE-----\n\n-----END PGP SIGNATURE-----\n"),
            ("armor header only", b"-----BEGIN PGP SIGNATURE-----\n"), ("text before the armor", b"hello\n\n" + al), ("unknown packet before", b"\xfd\x01x" + fx("alice.sig"))]


def gpg_says(ctx, sig, data=None, strict=False):
    """Are all signatures good and of valid keys, and is there at least one? (strict: and nothing else to complain about)"""
    r = subprocess.run(["gpg", "--batch", "--status-fd", "1", "--verify", sig] + ([data] if data else []), env=dict(os.environ, GNUPGHOME=ctx.home),
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    tags = [l.split()[1] for l in r.stdout.decode("latin-1").splitlines() if l.startswith("[GNUPG:] ")]
    n = tags.count("NEWSIG")
    return (r.returncode == 0 or not strict) and n > 0 and tags.count("GOODSIG") == n and tags.count("TRUST_ULTIMATE") + tags.count("TRUST_FULLY") == n


def go(ctx, args, what, ok, setup=None, want=None):
    """Runs a copy that must (ok) or must not succeed; ok None: returns whether it did."""
    dp = ctx.path("dest")
    if os.path.exists(dp):
        os.unlink(dp)
    ctx.ev()
    res = run_cli(["copy"] + args + [ctx.path("image"), dp], env={"GNUPGHOME": ctx.home}, setup=setup)
    got = read_file(dp) if os.path.exists(dp) else b""
    need(res.rc != "hang", "%s: hangs", what)
    done = res.rc == 0
    if ok is not None:
        need(done == ok, "%s: exit status %s\n%s", what, res.rc, res.err[-900:])
    if done:
        want = IM.expected() if want is None else want
        need(got == want, "%s: exit status 0, but the destination is wrong: %s", what, diff_at(got, want))
        ctx.outcome("copied")
    else:
        need(not got.strip(b"\0"), "%s: refused, but image data was written", what)
        need(not res.crashed and "ERROR" in res.err, "%s: no readable error:\n%s", what, res.err[-1500:])
        ctx.outcome("refused")
    return done


def run(case, ctx):
    IM.write(ctx.path("image"))
    t = case["t"]
    globals()["do_" + t](case, ctx)


def do_table(case, ctx):
    who, form = case["who"], case["form"]
    ok = who in GOOD
    bmap = fx(who + ".clr") if form == "clr" else fx("x.bmap")
    sig = fx(who + "." + form)
    bp, sp = ctx.path("x.bmap"), ctx.path("x.bmap." + form)
    other = ctx.path("elsewhere")
    open(bp, "wb").write(bmap)
    what = "%s signature by %s, bmap %s" % (form, who, case["where"])
    srv = None
    files = {"/x.bmap": bmap}
    if case["where"] == "http":
        srv = net.Server(lambda r: net.response(files[r.path]) if r.path in files else net.response(status="404 Not Found"))
        bmap_arg = srv.url("/x.bmap")
    else:
        bmap_arg = bp
    try:
        if form == "clr":
            go(ctx, ["--bmap", bmap_arg], what, ok)
            go(ctx, ["--bmap", bmap_arg, "--no-sig-verify"], what + " --no-sig-verify", True)
            if not srv:
                os.rename(bp, ctx.path("image.bmap"))
                go(ctx, [], what + " discovered bmap", ok)
                go(ctx, ["--no-sig-verify", "--no-verify"], what + " discovered bmap --no-sig-verify", True)
            return
        # given
        open(other, "wb").write(sig)
        go(ctx, ["--bmap", bmap_arg, "--bmap-sig", other], what + ", given", ok)
        files["/else.where"] = sig
        if srv:
            go(ctx, ["--bmap", bmap_arg, "--bmap-sig", srv.url("/else.where")], what + ", given by URL", ok)
            go(ctx, ["--bmap", bp, "--bmap-sig", srv.url("/else.where")], what + ", local bmap, given by URL", ok)
        # discovered
        files["/x.bmap." + form] = sig
        open(sp, "wb").write(sig)
        go(ctx, ["--bmap", bmap_arg], what + ", discovered", ok)
        go(ctx, ["--bmap", bmap_arg, "--no-verify"], what + ", discovered --no-verify", ok)
        go(ctx, ["--bmap", bmap_arg, "--no-sig-verify"], what + ", discovered --no-sig-verify", True)
        if not srv:
            go(ctx, ["--bmap", "file://" + bp], what + ", discovered by file URL", ok)
            os.rename(bp, ctx.path("image.bmap"))
            os.rename(sp, ctx.path("image.bmap." + form))
            go(ctx, [], what + ", all discovered", ok)
            go(ctx, ["--no-sig-verify"], what + ", all discovered --no-sig-verify", True)
            go(ctx, ["--nobmap"], what + ", --nobmap", True, want=read_file(ctx.path("image")))
    finally:
        if srv:
            srv.close()


def do_odd(case, ctx):
    name, sig = odd()[case["k"]]
    ok = name == "two good ones"
    bp = ctx.path("x.bmap")
    open(bp, "wb").write(fx("x.bmap"))
    other = ctx.path("elsewhere")
    open(other, "wb").write(sig)
    if name in ("text before the armor", "unknown packet before"):
        ok = gpg_says(ctx, other, bp, True)
    go(ctx, ["--bmap", bp, "--bmap-sig", other], name + ", given", ok)
    for ext in (".asc", ".sig"):
        open(bp + ext, "wb").write(sig)
        go(ctx, ["--bmap", bp], name + ", discovered as " + ext, ok)
        go(ctx, ["--bmap", bp, "--no-sig-verify"], name + ", discovered as " + ext + " --no-sig-verify", True)
        os.unlink(bp + ext)
    # clear-signed variants with this instead of the signature
    al = fx("alice.clr")
    i = al.index(b"-----BEGIN PGP SIGNATURE")
    if sig.startswith(b"-----BEGIN PGP SIGNATURE") or name in ("empty", "garbage"):
        open(bp, "wb").write(al[:i] + sig)
        go(ctx, ["--bmap", bp], "clear-signed with " + name, gpg_says(ctx, bp, None, True))
    if case["k"] == 0:
        y = fx("alice.y.clr")
        for nm, c in (("two blocks, the second of another bmap", al + y), ("two blocks, the first of another bmap", y + al), ("trailing text", al + b"\ntrailing\n"),
                      ("trailing bmap", al + fx("y.bmap")), ("unsigned bmap in front", fx("y.bmap") + al), ("blank line in front", b"\n" + al), ("CR LF", al.replace(b"\n", b"\r\n")),
                      ("header only", b"-----BEGIN PGP SIGNED MESSAGE-----\n"), ("no blank line", al.replace(b"\n\n", b"\n", 1)),
                      ("a Hash header more", al.replace(b"Hash: ", b"Hash: SHA1\nHash: ", 1)), ("text inserted as a header", al.replace(b"Hash: ", b"Comment: x\nHash: ", 1))):
            open(bp, "wb").write(c)
            if go(ctx, ["--bmap", bp], "clear-signed: " + nm, None):
                need(gpg_says(ctx, bp), "clear-signed: %s: copied, but gpg does not accept it", nm)


def do_options(case, ctx):
    bp = ctx.path("x.bmap")
    open(bp, "wb").write(fx("x.bmap"))
    other = ctx.path("elsewhere")
    open(other, "wb").write(fx("alice.asc"))
    clr = ctx.path("clr.bmap")
    open(clr, "wb").write(fx("alice.clr"))
    go(ctx, ["--bmap", bp, "--bmap-sig", ctx.path("missing")], "missing signature file", False)
    go(ctx, ["--bmap", bp, "--bmap-sig", ctx.dir], "signature file is a directory", False)
    go(ctx, ["--bmap", bp, "--bmap-sig", "http://127.0.0.1:1/x"], "unreachable signature", False)
    go(ctx, ["--bmap", clr, "--bmap-sig", other], "clear-signed with a detached signature given", False)
    go(ctx, ["--bmap", bp, "--bmap-sig", other, "--no-sig-verify"], "--bmap-sig and --no-sig-verify", False)
    go(ctx, ["--bmap-sig", other, "--nobmap"], "--bmap-sig without a bmap (--nobmap)", False)
    go(ctx, ["--bmap-sig", other], "--bmap-sig without a bmap (none found)", False)
    go(ctx, ["--bmap", bp], "no signature at all", True)
    go(ctx, ["--bmap", bp, "--no-sig-verify"], "no signature at all --no-sig-verify", True)
    for status in ("404 Not Found", "500 Oops", "403 Forbidden"):
        srv = net.Server(lambda r: net.response(status=status))
        go(ctx, ["--bmap", bp, "--bmap-sig", srv.url("/x.sig")], "signature URL answers " + status, False)
        srv.close()
    # other home directories: without any key nothing is acceptable
    empty = ctx.path("emptyhome")
    os.mkdir(empty, 0o700)
    home, ctx.home = ctx.home, empty
    try:
        go(ctx, ["--bmap", bp, "--bmap-sig", other], "empty keyring", False)
        go(ctx, ["--bmap", clr], "empty keyring, clear-signed", False)
        go(ctx, ["--bmap", clr, "--no-sig-verify"], "empty keyring, clear-signed --no-sig-verify", True)
    finally:
        ctx.home = home
        subprocess.run(["gpgconf", "--kill", "all"], env=dict(os.environ, GNUPGHOME=empty), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def do_nogpg(case, ctx):
    def nogpg():
        sys.modules["gpg"] = None
    bp = ctx.path("x.bmap")
    open(bp, "wb").write(fx("x.bmap"))
    other = ctx.path("elsewhere")
    open(other, "wb").write(fx("alice.asc"))
    go(ctx, ["--bmap", bp], "no gpg module, no signature", True, setup=nogpg)
    go(ctx, ["--bmap", bp, "--bmap-sig", other], "no gpg module, signature given", False, setup=nogpg)
    for ext in (".asc", ".sig"):
        open(bp + ext, "wb").write(fx("alice" + ext))
        go(ctx, ["--bmap", bp], "no gpg module, signature discovered", False, setup=nogpg)
        go(ctx, ["--bmap", bp, "--no-sig-verify"], "no gpg module, signature discovered --no-sig-verify", True, setup=nogpg)
        os.unlink(bp + ext)
    open(bp, "wb").write(fx("alice.clr"))
    go(ctx, ["--bmap", bp], "no gpg module, clear-signed", False, setup=nogpg)
    go(ctx, ["--bmap", bp, "--no-sig-verify"], "no gpg module, clear-signed --no-sig-verify", None, setup=nogpg)


def do_precedence(case, ctx):
    """A given signature counts, not one that could be discovered."""
    bp = ctx.path("x.bmap")
    open(bp, "wb").write(fx("x.bmap"))
    other = ctx.path("elsewhere")
    for given in ("alice", "eve", "carol"):
        for near in (None, "alice", "eve", "carol"):
            for ext in ("asc", "sig"):
                open(other, "wb").write(fx(given + ".sig"))
                p = bp + "." + ext
                if near:
                    open(p, "wb").write(fx(near + "." + ext))
                go(ctx, ["--bmap", bp, "--bmap-sig", other], "given: %s, next to the bmap: %s.%s" % (given, near, ext), given == "alice")
                go(ctx, ["--bmap", bp], "next to the bmap: %s.%s" % (near, ext), near in (None, "alice"))
                if near:
                    os.unlink(p)


def do_zform(case, ctx):
    """Version 2.0 with its own checksum."""
    bp = ctx.path("z.bmap")
    open(bp, "wb").write(fx("z.bmap"))
    open(bp + ".asc", "wb").write(fx("alice.z.asc"))
    go(ctx, ["--bmap", bp], "2.0", True)
    open(bp + ".asc", "wb").write(fx("alice.asc"))
    go(ctx, ["--bmap", bp], "2.0, signature of the 1.2 bmap", False)
    os.unlink(bp + ".asc")
    open(bp, "wb").write(fx("alice.z.clr"))
    go(ctx, ["--bmap", bp], "2.0 clear-signed", True)
    go(ctx, ["--bmap", bp, "--no-sig-verify"], "2.0 clear-signed --no-sig-verify", True)
    c = fx("alice.z.clr")
    i = c.index(b"<Range") + 30
    open(bp, "wb").write(c[:i] + bytes([c[i] ^ 1]) + c[i + 1:])
    go(ctx, ["--bmap", bp], "2.0 clear-signed and edited", False)
    go(ctx, ["--bmap", bp, "--no-sig-verify"], "2.0 clear-signed and edited --no-sig-verify", False)


def edits(raw, tier):
    for i in range(len(raw)):
        for x in ((1,) if tier == "quick" else (1, 0x80, 0x20, 0x41)):
            yield "byte %d changed" % i, raw[:i] + bytes([raw[i] ^ x]) + raw[i + 1:]
        if tier != "quick" or i % 8 == 0:
            yield "cut to %d" % i, raw[:i]
        if tier != "quick" or i % 8 == 3:
            yield "byte %d removed" % i, raw[:i] + raw[i + 1:]
            yield "byte %d repeated" % i, raw[:i + 1] + raw[i:]
    yield "newline appended", raw + b"\n"
    yield "space appended", raw + b" "


def do_edit(case, ctx):
    target = case["target"]
    bp = ctx.path("x.bmap")
    name = {"bmap": "x.bmap", "sig": "alice.sig", "asc": "alice.asc", "clr": "alice.clr"}[target]
    raw = fx(name)
    fp = bp + {"bmap": "", "sig": ".sig", "asc": ".asc", "clr": ""}[target]
    if target != "clr":
        open(bp, "wb").write(fx("x.bmap"))
    if target == "bmap":
        open(bp + ".sig", "wb").write(fx("alice.sig"))
    for k, (what, new) in enumerate(edits(raw, ctx.tier)):
        if k % case["parts"] != case["part"] or new == raw:
            continue
        with open(fp, "wb") as f:
            f.write(new)
        what = "%s: %s" % (name, what)
        if target == "clr" and not new.startswith(b"-----BEGIN PGP SIGNED MESSAGE-----"):
            go(ctx, ["--bmap", bp], what, False)
            continue
        # the copy succeeds exactly if gpg itself says the signature is good (and nothing else changed)
        if go(ctx, ["--bmap", bp], what, False if target == "bmap" else None):
            need(gpg_says(ctx, bp) if target == "clr" else gpg_says(ctx, fp, bp), "%s: copied, but gpg does not accept the signature", what)
        elif target != "bmap":
            need(not (gpg_says(ctx, bp, None, True) if target == "clr" else gpg_says(ctx, fp, bp, True)), "%s: refused, but gpg accepts the signature", what)
