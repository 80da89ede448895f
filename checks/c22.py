"""C22: remote access uses the right credentials and reports every failure."""
import base64, itertools, os, shutil, stat, subprocess
from mc import net, img as I
from mc.core import Fail, need, HarnessError
from mc.drive import run_cli, read_file, diff_at

LEVEL = "exhaustive_bounded"
RULE = ("HTTP: every server behaviour (open, asking for the password, refusing, missing, redirecting to the same host, to another port and to another host with "
        "every behaviour behind it, malformed and cut-off answers, no server) x every way of giving credentials in the URL x every state "
        "of the netrc file, monitoring all requests of all servers; malformed URLs. FTP: credentials x every reply of the dialogue replaced by a refusal, "
        "garbage or a close. HTTPS: every certificate (right, unknown authority, self-signed, wrong name, expired, not yet valid) x trusted authority x behaviour x credentials, "
        "redirects between HTTP and HTTPS and peers speaking the wrong protocol. Proxies: every behaviour x scheme x their own credentials x exceptions. SSH: every exit status of every program at every stage, missing programs, user and password, file names; "
        "through TransRead and the copy command; non-trivial: every execution")
ASSUMPTIONS = ["Credentials are explored without percent-escapes; with a user name but no password only errors and the right content are told apart.",
               "ssh and sshpass are stand-ins; ports other than the one of the URL count as another host."]
BOUNDS = {"quick": "one redirect and one challenge deep, 15 netrc states, 6 ways of giving credentials, all exit statuses", "thorough": "two redirects deep, all in all combinations"}

U, P = "dagobert", "xyzzy:42"
NU, NP = "netuser", "netpass7"
BODY = I.pattern(3, 30000)

NETRC = {
    "missing": None,
    "empty": "",
    "host": "machine {h} login %s password %s\n" % (NU, NP),
    "other": "machine 127.0.0.2 login %s password %s\n" % (NU, NP),
    "default": "default login %s password %s\n" % (NU, NP),
    "host+default": "# comment\nmachine {h}\n login %s\n password %s\ndefault login x password y\n" % (NU, NP),
    "other+host": "machine 127.0.0.2 login x password y machine {h} login %s password %s\n" % (NU, NP),
    "nopass": "machine {h} login %s\n" % NU,
    "nologin": "machine {h} password %s\n" % NP,
    "bad": "machine {h} login %s password %s\nnonsense\n" % (NU, NP),
    "bad2": "machine {h} frobnicate yes\n",
    "macdef": "macdef init\ncd /",
    "binary": b"machine {h} login \xff\xfe\x80 password \x90\n",
    "loose": "machine {h} login %s password %s\n" % (NU, NP),
    "dir": "",
    "looplink": "",
}
# which of them are usable for the host of the URL
NETRC_OK = ("host", "default", "host+default", "other+host")

CREDS = {
    "none": "",
    "both": "%s:%s@" % (U, P),
    "user": "%s@" % U,
    "emptypw": "%s:@" % U,
    "emptyuser": ":%s@" % P,
    "empty": "@",
}

PLAIN = ["open", "auth", "auth-deep", "deny", "403", "404", "500", "503", "digest", "bearer", "nochallenge", "badchallenge", "two", "204", "garbage", "badstatus", "badversion", "empty",
         "rst", "manyheaders", "longheader", "badlength", "continue", "notaredirect", "loop", "tofile", "tonowhere", "refused", "chunked", "badchunk", "redirbadport", "redirbadhost"]
REDIR = ["open", "auth", "deny", "404", "garbage", "empty", "rst", "refused"]


def cases(tier):
    th = tier != "quick"
    for b in PLAIN:
        for host in ("127.0.0.1", "localhost", "::1", "127.0.0.1:80"):
            if host == "127.0.0.1" or th or b in ("open", "auth", "deny", "404"):
                yield dict(t="http", b=b, host=host)
    for where in ("same", "samedeep", "port", "other", "otherftp"):
        for code in (301, 302, 303, 307, 308):
            for b in REDIR:
                if where == "otherftp" and b not in ("open", "auth"):
                    continue
                if code in (302, 308) or th or b in ("open", "auth"):
                    yield dict(t="redir", b=b, where=where, code=code)
                if (th or code == 302) and where in ("same", "other", "port"):
                    # the first server asks for the password before it redirects
                    yield dict(t="redir", b=b, where=where, code=code, first="auth")
        if where != "otherftp":
            yield dict(t="redir2", where=where)
    for cert in CERTS:
        for b in ("open", "auth", "deny", "404", "empty", "garbage", "rst"):
            if cert in ("good", "stranger") or th or b in ("open", "auth"):
                yield dict(t="tls", cert=cert, b=b)
    for b in ("open", "auth"):
        for cert in CERTS:
            for first in ("http", "https"):
                yield dict(t="tlsmix", first=first, second="https", cert=cert, b=b)
        yield dict(t="tlsmix", first="https", second="http", cert="good", b=b)
        for first in ("http", "https"):
            yield dict(t="tlsmix", first=first, second="https", speaks="http", cert="good", b=b)
            yield dict(t="tlsmix", first=first, second="http", speaks="https", cert="good", b=b)
    for scheme in ("http", "https"):
        for mode in ("works", "auth", "garbage", "refuses", "gateway", "close", "refused"):
            for b in ("open", "auth", "deny", "404"):
                yield dict(t="proxy", scheme=scheme, mode=mode, b=b)
    for mode in ("answers", "garbage", "refuses", "gateway", "close", "refused"):
        yield dict(t="ftpproxy", mode=mode)
    yield dict(t="urls")
    yield dict(t="ftp", k="creds")
    for n in range(8):
        yield dict(t="ftp", k="fault", n=n)
    yield dict(t="ftp", k="cut")
    for pw in (None, "hunter2"):
        for user in (None, "joe"):
            yield dict(t="ssh", k="names", user=user, pw=pw)
            for lo in range(0, 256, 64):
                for stage in ("true", "test", "pass"):
                    if stage != "pass" or pw and user:
                        yield dict(t="ssh", k="rc", user=user, pw=pw, stage=stage, lo=lo, hi=lo + 64, step=1 if th else 1)
    yield dict(t="ssh", k="programs")
    yield dict(t="ssh", k="dash")
    for b in ("open", "auth", "deny", "404", "garbage", "badstatus", "refused", "rst", "badversion", "manyheaders"):
        yield dict(t="cli", b=b)
    yield dict(t="cli", b="ssh")


def worker_init(ctx):
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    d = net.install_ssh(os.path.join(ctx.base, "bin"))
    os.environ["PATH"] = d + ":" + os.environ["PATH"]
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 2)
    os.close(fd)
    os.makedirs(os.path.join(ctx.base, "home"), exist_ok=True)
    ctx.home = os.path.join(ctx.base, "home")
    os.environ["HOME"] = ctx.home


def set_netrc(ctx, kind, host):
    p = os.path.join(ctx.home, ".netrc")
    try:
        st = os.lstat(p)
        if stat.S_ISDIR(st.st_mode):
            os.rmdir(p)
        else:
            os.unlink(p)
    except FileNotFoundError:
        pass
    if kind == "missing":
        return
    if kind == "dir":
        os.mkdir(p)
        return
    if kind == "looplink":
        os.symlink(".netrc", p)
        return
    t = NETRC[kind]
    if isinstance(t, str):
        t = t.replace("{h}", host).encode()
    else:
        t = t.replace(b"{h}", host.encode())
    with open(p, "wb") as f:
        f.write(t)
    os.chmod(p, 0o644 if kind == "loose" else 0o600)


def basic(c):
    return "Basic " + base64.b64encode(("%s:%s" % c).encode()).decode()


def behave(b, need_cred):
    """handler of a server with behaviour b"""
    ok = net.response(BODY)
    challenge = net.response(b"who are you", "401 Unauthorized", ['WWW-Authenticate: Basic realm="there"'])

    def h(req):
        if b == "open":
            return ok
        if b in ("auth", "auth-deep"):
            return ok if need_cred and req.headers.get("authorization") == basic(need_cred) else challenge
        if b == "deny":
            return challenge
        if b in ("403", "404", "500", "503"):
            return net.response(b"no", b + " No")
        if b == "digest":
            return net.response(b"", "401 Unauthorized", ['WWW-Authenticate: Digest realm="x", nonce="y", qop="auth"'])
        if b == "bearer":
            return net.response(b"", "401 Unauthorized", ['WWW-Authenticate: Bearer'])
        if b == "nochallenge":
            return net.response(b"", "401 Unauthorized")
        if b == "badchallenge":
            return net.response(b"", "401 Unauthorized", ["WWW-Authenticate: \"Basic"])
        if b == "two":
            if need_cred and req.headers.get("authorization") == basic(need_cred):
                return ok
            return net.response(b"", "401 Unauthorized", ['WWW-Authenticate: Bearer', 'WWW-Authenticate: Basic realm="there"'])
        if b == "204":
            return net.response(b"", "204 No Content")
        if b == "garbage":
            return b"\0\1\2garbage garbage\r\n\r\n"
        if b == "badstatus":
            return b"HTTP/1.1 two hundred\r\n\r\n"
        if b == "badversion":
            return b"HTTP/9.9 200 OK\r\nContent-Length: 3\r\n\r\nabc"
        if b == "empty":
            return []
        if b == "rst":
            return ["rst"]
        if b == "manyheaders":
            return net.response(BODY, headers=["X-%d: y" % i for i in range(150)])
        if b == "longheader":
            return net.response(BODY, headers=["X-Long: " + "y" * 70000])
        if b == "badlength":
            return net.response(BODY, headers=["Content-Length: nonsense"], length=None)
        if b == "continue":
            return b"HTTP/1.1 100 Continue\r\n\r\n" + ok
        if b == "notaredirect":
            return net.response(b"", "302 Found")
        if b == "loop":
            return net.response(b"", "302 Found", ["Location: " + req.path])
        if b == "tofile":
            return net.response(b"", "302 Found", ["Location: file:///etc/hostname"])
        if b == "tonowhere":
            return net.response(b"", "302 Found", ["Location: http://127.0.0.1:1/x"])
        if b == "redirbadport":
            return net.response(b"", "302 Found", ["Location: http://127.0.0.1:port/x"])
        if b == "redirbadhost":
            return net.response(b"", "302 Found", ["Location: http://[::1/x"])
        if b == "chunked":
            return net.chunked(BODY, 1000)
        if b == "badchunk":
            return net.chunked(BODY, 1000, end=False)[:-700] + b"zz\r\n"
        raise HarnessError(b)
    return h


def gives(b, cred):
    """what reading from a server with this behaviour must end in"""
    if b in ("open", "continue", "chunked"):
        return "content"
    if b in ("auth", "auth-deep"):
        return "content" if cred else "error"
    if b == "two":
        return "either" if cred else "error"
    if b == "204":
        return "either"
    if b == "badlength":
        return "either"
    return "error"


def fetch(url):
    """(data or None, error)"""
    from bmaptools import TransRead
    t = None
    try:
        t = TransRead.TransRead(url)
        out = []
        while True:
            d = t.read(65536)
            if not d:
                break
            out.append(d)
        return b"".join(out), None
    except TransRead.Error as e:
        need(str(e).strip(), "%s: empty error message", url)
        return None, str(e)
    except Exception as e:
        raise Fail("%s: %s instead of an error of the module: %s" % (url, type(e).__name__, e))
    finally:
        if t is not None:
            t.close()


def judge(what, want, res, other_ok=b""):
    data, err = res
    if err is None:
        if want == "either" and data in (BODY, b""):
            return
        need(want != "error", "%s: no error, %d bytes were read", what, len(data))
        need(data == BODY, "%s: wrong content: %s", what, diff_at(data, BODY))
    else:
        need(want != "content", "%s: failed: %s", what, err)


def effective(cred, nrc):
    """the credentials that may be used, and whether they must be"""
    if cred == "both":
        return (U, P), True
    if cred == "none":
        return ((NU, NP), True) if nrc in NETRC_OK else (None, True)
    return None, False


def watch(what, servers, cred):
    """Credentials only ever go to the first of the servers"""
    for i, s in enumerate(servers):
        for r in s.requests:
            a = r.headers.get("authorization")
            if i == 0:
                need(a is None or cred and a == basic(cred), "%s: wrong credentials were sent to the host: %s", what, a)
            else:
                need(a is None, "%s: credentials were sent to another host: %s", what, a)
            for word in (P, NP, U, NU):
                need(word.encode() not in r.raw, "%s: %s appears in a request: %r", what, word, r.raw[:300])


def run_http(ctx, case):
    b, host = case["b"], case["host"]
    port = 0
    if host.endswith(":80"):
        host, port = "127.7.%d.%d" % (os.getpid() >> 7 & 127, os.getpid() & 127), 80
    bind = "127.0.0.1" if host == "localhost" else host
    shown = "[%s]" % host if ":" in host else host
    for cred, nrc in itertools.product(CREDS, NETRC):
        c, sure = effective(cred, nrc)
        try:
            s = net.Server(behave(b, c), bind, port)
        except (OSError, PermissionError):
            if bind == "127.0.0.1":
                raise
            ctx.outcome("address not available")
            return
        hp = shown if port else "%s:%d" % (shown, s.port)
        if b == "refused":
            s.close()
        try:
            set_netrc(ctx, nrc, host)
            path = "/a/b/c/file.img" if b == "auth-deep" else "/file.img"
            url = "http://%s%s%s" % (CREDS[cred], hp, path)
            what = "URL with credentials %s at %s, netrc %s, server %s" % (cred, shown, nrc, b)
            res = fetch(url)
            want = gives(b, c) if b != "refused" else "error"
            if not sure and want == "content":
                want = "either"
            if not sure and res[0] is not None and want != "error":
                need(res[0] in (BODY, b""), "%s: wrong content", what)
            else:
                judge(what, want, res)
            if sure:
                watch(what, [s], c)
        finally:
            s.close()
        ctx.ev()
        ctx.outcome("content" if res[1] is None else "error")


def run_redir(ctx, case):
    b, where, code = case["b"], case["where"], case["code"]
    first = case.get("first", "open")
    for cred, nrc in itertools.product(("none", "both"), NETRC if ctx.tier != "quick" else ("missing", "host", "default", "bad")):
        c, sure = effective(cred, nrc)
        servers, ftp = [], None
        target = behave(b, c) if b != "refused" else None
        loc = {}

        def h1(req):
            if req.path.startswith("/target") or req.path.startswith("/dir/target"):
                return target(req)
            if first == "auth" and not (c and req.headers.get("authorization") == basic(c)):
                return net.response(b"", "401 Unauthorized", ['WWW-Authenticate: Basic realm="first"'])
            return net.response(b"", "%d Moved" % code, ["Location: " + loc["x"]])
        a = net.Server(h1)
        servers.append(a)
        try:
            if where in ("port", "other"):
                o = net.Server(target or (lambda r: b""), "127.0.0.1" if where == "port" else "127.0.0.2")
                servers.append(o)
                loc["x"] = "http://%s:%d/target.img" % (o.host, o.port)
                if b == "refused":
                    o.close()
            elif where == "otherftp":
                ftp = net.Ftp({"/target.img": BODY}, {"anonymous": ""} if b == "open" else {U: P, NU: NP}, host="127.0.0.2")
                loc["x"] = "ftp://127.0.0.2:%d/target.img" % ftp.port
            elif b == "refused":
                loc["x"] = "http://127.0.0.1:1/target.img"
            else:
                loc["x"] = "/target.img" if where == "same" else "http://127.0.0.1:%d/dir/target.img" % a.port
            set_netrc(ctx, nrc, "127.0.0.1")
            what = "%s by %d to %s, which is %s; first server %s, credentials %s, netrc %s" % ("redirected", code, where, b, first, cred, nrc)
            want = gives(b, c if where in ("same", "samedeep") else None) if b != "refused" else "error"
            if first == "auth" and not c:
                want = "error"
            deep = "/some/where/file.img" if where == "samedeep" else "/file.img"
            res = fetch("http://%s127.0.0.1:%d%s" % (CREDS[cred], a.port, deep))
            judge(what, want, res)
            watch(what, servers, c)
            if ftp:
                for ln in ftp.log:
                    for word in (P, NP, U, NU):
                        need(word not in ln, "%s: the FTP server was told %r", what, ln)
        finally:
            for s in servers:
                s.close()
            if ftp:
                ftp.close()
        ctx.ev()
        ctx.outcome("content" if res[1] is None else "error")


def run_redir2(ctx, case):
    """two redirects: first -> middle -> back to the first host, which wants the password"""
    where = case["where"]
    for cred, nrc in itertools.product(("none", "both"), ("missing", "host", "default")):
        c, _ = effective(cred, nrc)
        loc = {}
        fin = behave("auth", c)

        def h1(req):
            if req.path.startswith("/final"):
                return fin(req)
            if req.path.startswith("/mid"):
                return net.response(b"", "302 Found", ["Location: " + loc["final"]])
            return net.response(b"", "302 Found", ["Location: " + loc["mid"]])
        a = net.Server(h1)
        o = net.Server(lambda r: net.response(b"", "307 Moved", ["Location: " + loc["final"]]), "127.0.0.2" if where == "other" else "127.0.0.1")
        try:
            loc["final"] = "http://127.0.0.1:%d/final.img" % a.port
            loc["mid"] = "/mid.img" if where.startswith("same") else "http://%s:%d/mid.img" % (o.host, o.port)
            set_netrc(ctx, nrc, "127.0.0.1")
            what = "redirected to %s and back, credentials %s, netrc %s" % (where, cred, nrc)
            res = fetch("http://%s127.0.0.1:%d/file.img" % (CREDS[cred], a.port))
            judge(what, "content" if c else "error", res)
            watch(what, [a, o], c)
        finally:
            a.close()
            o.close()
        ctx.ev()
        ctx.outcome("content" if res[1] is None else "error")


TLS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fixtures", "tls")
# the certificates of the servers; only "good" is one the client can accept
CERTS = ("good", "stranger", "self", "wrongname", "expired", "future")


class Env:
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in self.kw}
        os.environ.update(self.kw)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def pem(name):
    return os.path.join(TLS, name + ".pem")


def run_tls(ctx, case):
    """every certificate x every authority the client trusts x what the server does x credentials"""
    cert, b = case["cert"], case["b"]
    for trust, host, cred, nrc in itertools.product(("ca", "evil", None), ("127.0.0.1", "localhost", "::1"), CREDS, ("missing", "host", "bad")):
        if host != "127.0.0.1" and (cred not in ("none", "both") or nrc == "bad"):
            continue
        c, sure = effective(cred, nrc)
        accepted = (cert, trust) in (("good", "ca"), ("stranger", "evil"))
        bind = "127.0.0.1" if host == "localhost" else host
        shown = "[%s]" % host if ":" in host else host
        try:
            s = net.TlsServer(behave(b, c), pem(cert), bind)
        except OSError:
            need_v4 = bind == "127.0.0.1"
            if need_v4:
                raise
            ctx.outcome("address not available")
            continue
        try:
            set_netrc(ctx, nrc, host)
            what = "https: certificate %s, the client trusts %s, host %s, credentials %s, netrc %s, server %s" % (cert, trust, host, cred, nrc, b)
            with Env(SSL_CERT_FILE=pem(trust) if trust else "/dev/null"):
                res = fetch("https://%s%s:%d/a/file.img" % (CREDS[cred], shown, s.port))
            want = gives(b, c) if accepted else "error"
            if not sure and want == "content":
                want = "either"
            judge(what, want, res)
            if not accepted:
                need(not s.requests, "%s: a request was sent to a host that did not prove to be the right one: %r", what, s.requests and s.requests[0].raw)
            if sure:
                watch(what, [s], c)
        finally:
            s.close()
        ctx.ev()
        ctx.outcome("https " + ("content" if res[1] is None else "error"))


def run_tlsmix(ctx, case):
    """redirects between HTTP and HTTPS, and servers that speak the wrong protocol"""
    first, second, cert, b = case["first"], case["second"], case["cert"], case["b"]
    for cred, nrc, where in itertools.product(("none", "both"), ("missing", "host", "default"), ("127.0.0.1", "127.0.0.2")):
        c, _ = effective(cred, nrc)
        loc = {}
        a = o = None
        try:
            def h1(req):
                if b == "auth" and not (c and req.headers.get("authorization") == basic(c)):
                    return net.response(b"", "401 Unauthorized", ['WWW-Authenticate: Basic realm="first"'])
                return net.response(b"", "302 Found", ["Location: " + loc["x"]])
            a = net.TlsServer(h1, pem("good")) if first == "https" else net.Server(h1)
            o = net.TlsServer(behave("open", None), pem(cert), where) if case.get("speaks", second) == "https" else net.Server(behave("open", None), where)
            loc["x"] = "%s://%s:%d/target.img" % (second, where, o.port)
            set_netrc(ctx, nrc, "127.0.0.1")
            what = "%s server (%s) redirects to %s://%s, certificate %s, speaking %s, credentials %s, netrc %s" % (first, b, second, where, cert, case.get("speaks", second), cred, nrc)
            with Env(SSL_CERT_FILE=pem("ca")):
                res = fetch("%s://%s127.0.0.1:%d/file.img" % (first, CREDS[cred], a.port))
            ok = case.get("speaks", second) == second and (second == "http" or cert == "good") and (b == "open" or c)
            judge(what, "content" if ok else "error", res)
            watch(what, [a, o], c)
        finally:
            for s in (a, o):
                if s:
                    s.close()
        ctx.ev()
        ctx.outcome("https redirect " + ("content" if res[1] is None else "error"))


PU, PP = "proxyuser", "proxypass1"


def run_proxy(ctx, case):
    """the proxy of the environment"""
    scheme, mode, b = case["scheme"], case["mode"], case["b"]
    modes = {"garbage": b"\0\1\2 garbage\r\n\r\n", "refuses": net.response(b"no", "403 Forbidden"), "gateway": net.response(b"no", "504 Gateway Timeout"), "close": "close"}
    pwant = basic((PU, PP))
    for cred, nrc, pcred, bypass, upper in itertools.product(("none", "both"), ("missing", "host"), ("none", "right", "wrong"), (0, 1, 2), (0, 1)):
        if upper and (bypass or nrc == "host"):
            continue
        c, _ = effective(cred, nrc)
        s = net.TlsServer(behave(b, c), pem("good")) if scheme == "https" else net.Server(behave(b, c))
        p = net.Proxy(modes.get(mode, mode), pwant)
        try:
            if mode == "refused":
                p.close()
            set_netrc(ctx, nrc, "127.0.0.1")
            env = {scheme + "_proxy": "http://%s127.0.0.1:%d" % ({"none": "", "right": "%s:%s@" % (PU, PP), "wrong": "x:y@"}[pcred], p.port), "SSL_CERT_FILE": pem("ca")}
            if bypass:
                env["no_proxy"] = "somewhere.else,127.0.0.1" if bypass == 1 else "*"
            if upper:
                env[(scheme + "_proxy").upper()] = env.pop(scheme + "_proxy")
            what = "%s through a proxy (%s, credentials %s, exception %s, upper case %s), credentials %s, netrc %s, server %s" % (scheme, mode, pcred, bypass, upper, cred, nrc, b)
            with Env(**env):
                res = fetch("%s://%s127.0.0.1:%d/file.img" % (scheme, CREDS[cred], s.port))
            works = bypass or mode == "works" or mode == "auth" and pcred == "right"
            judge(what, gives(b, c) if works else "error", res)
            watch(what, [s], c)
            if bypass:
                need(not p.log, "%s: the proxy was asked: %r", what, p.log and p.log[0].raw)
            elif mode != "refused":
                need(p.log, "%s: the proxy was not asked", what)
            for r in s.requests:
                need("proxy-authorization" not in r.headers, "%s: the credentials of the proxy were sent to the host", what)
            for r in p.log:
                a = r.headers.get("proxy-authorization")
                need(pcred != "none" or a is None, "%s: credentials made up for the proxy: %s", what, a)
                if scheme == "https":
                    need(r.headers.get("authorization") is None and P.encode() not in r.raw and NP.encode() not in r.raw, "%s: the credentials of the host were shown to the proxy: %r", what, r.raw)
        finally:
            s.close()
            p.close()
        ctx.ev()
        ctx.outcome("proxy " + ("content" if res[1] is None else "error"))


def run_ftpproxy(ctx, case):
    mode = case["mode"]
    modes = {"answers": net.response(BODY), "garbage": b"\0\1\2 garbage\r\n\r\n", "refuses": net.response(b"no", "403 Forbidden"), "gateway": net.response(b"no", "504 Gateway Timeout"), "close": "close"}
    for cred, nrc, bypass in itertools.product((0, 1), ("missing", "host"), (0, 1, 2)):
        s = net.Ftp({"/file.img": BODY}, {"anonymous": "", U: P})
        p = net.Proxy(modes.get(mode, "close"))
        try:
            if mode == "refused":
                p.close()
            set_netrc(ctx, nrc, "127.0.0.1")
            env = {"ftp_proxy": "http://127.0.0.1:%d" % p.port}
            if bypass:
                env["no_proxy"] = "somewhere.else,127.0.0.1" if bypass == 1 else "*"
            what = "ftp through a proxy (%s, exception %s), credentials %s, netrc %s" % (mode, bypass, cred, nrc)
            with Env(**env):
                res = fetch("ftp://%s127.0.0.1:%d/file.img" % ("%s:%s@" % (U, P) if cred else "", s.port))
            judge(what, "content" if bypass or mode == "answers" else "error", res)
            need(not (p.log if bypass else s.log), "%s: went the wrong way", what)
        finally:
            s.close()
            p.close()
        ctx.ev()
        ctx.outcome("ftp proxy " + ("content" if res[1] is None else "error"))


BAD_URLS = ["http://", "http:///x", "http://u:p@/x", "http://127.0.0.1:abc/x", "http://u:p@127.0.0.1:abc/x", "http://[::1/x", "http://u:p@[::1/x", "http://127.0.0.1:1/a b", "http://127.0.0.1:1/x",
            "http://127.0.0.1:99999/x", "http://u:p@127.0.0.1:99999/x", "http://a..b/x", "http://u:p@a..b/x", "http://" + "a" * 300 + "/", "https://127.0.0.1:1/x", "ssh://", "ssh:///x", "ssh://u@/x", "ssh://u:p@/x",
            "ftp://", "ftp:///x", "ftp://127.0.0.1:1/x", "ftp://u:p@127.0.0.1:1/x", "ftp://u:p@127.0.0.1:abc/x", "foo://bar", "foo:bar", "nosuchfile", "", "file:///nonexistent/x", "file:///", "file://elsewhere/x", "file://", "//x/y",
            "http:", "http:x", "//[x", "data:,", "mailto:x@y", "http://127.0.0.1:1/\u00e9", "http://\u00e9.invalid/", "x" * 300, "y/" * 3000, "http://127.0.0.1:1/" + "z" * 5000,
            "http://127.0.0.1:-1/x", "http://@/x", "http://:@/x", "http://:80/x", "ssh://[::1/x", "ssh://u:p@h:nopath", "http://127.0.0.1:1/\n", "http://\x00/", "nul\0"[:3]]


def run_urls(ctx, case):
    for nrc in ("missing", "host", "default", "bad"):
        set_netrc(ctx, nrc, "127.0.0.1")
        for u in BAD_URLS:
            if "\0" in u:
                continue
            if u == "data:,":
                continue
            os.environ["MC_SSH_TRUE"] = "255"
            try:
                data, err = fetch(u)
            finally:
                del os.environ["MC_SSH_TRUE"]
            need(err is not None, "URL %r: no error, %d bytes were read", u, len(data or b""))
            ctx.ev()
            ctx.outcome("bad URL")
    # good ones
    with open(ctx.path("f.img"), "wb") as f:
        f.write(BODY)
    s = net.Server(behave("open", None))
    try:
        for u in ("file://" + ctx.path("f.img"), "file://localhost" + ctx.path("f.img"), "http://127.0.0.1:%d/" % s.port + "z" * 5000, "HTTP://127.0.0.1:%d/x" % s.port,
                  "http://127.0.0.1:%d/x?a=b&c=d" % s.port, "http://127.0.0.1:%d/x#frag" % s.port, "http://127.0.0.1:%d" % s.port):
            judge("URL %s" % u[:80], "content", fetch(u))
            ctx.ev()
            ctx.outcome("good URL")
    finally:
        s.close()


def run_ftp(ctx, case):
    set_netrc(ctx, "missing", "x")

    def one(what, want, url, **kw):
        s = net.Ftp({"/d/e/file.img": BODY}, {"anonymous": "", U: P}, **kw)
        try:
            res = fetch(url.replace("{HOST}", "127.0.0.1:%d" % s.port))
            judge("ftp: " + what, want, res)
        finally:
            s.close()
        ctx.ev()
        ctx.outcome("ftp " + ("content" if res[1] is None else "error"))
        return s
    if case["k"] == "creds":
        for nrc in NETRC:
            set_netrc(ctx, nrc, "127.0.0.1")
            s = one("anonymous, netrc " + nrc, "content", "ftp://{HOST}/d/e/file.img")
            need(not any(x.startswith("USER") and x != "USER anonymous" for x in s.log), "ftp: anonymous access used %s", s.log)
            s = one("user, netrc " + nrc, "content", "ftp://%s:%s@{HOST}/d/e/file.img" % (U, P))
            need("USER " + U in s.log and "PASS " + P in s.log and "USER anonymous" not in s.log, "ftp: the credentials of the URL were not used: %s", s.log)
            one("wrong password", "error", "ftp://%s:%s@{HOST}/d/e/file.img" % (U, "wrong"))
            one("unknown user", "error", "ftp://%s:%s@{HOST}/d/e/file.img" % ("nobody", P))
        one("missing file", "error", "ftp://{HOST}/d/e/other.img")
        one("missing directory", "error", "ftp://{HOST}/x/y/file.img")
        one("directory", "either", "ftp://{HOST}/d/e")
    elif case["k"] == "fault":
        for url in ("ftp://{HOST}/d/e/file.img", "ftp://%s:%s@{HOST}/d/e/file.img" % (U, P)):
            for act in ("close", "421 too busy", "500 what", "550 no", "nonsense", "", "999 x", "abc def", "x" * 9000):
                s = net.Ftp({"/d/e/file.img": BODY}, {"anonymous": "", U: P}, fault=(case["n"], act))
                try:
                    res = fetch(url.replace("{HOST}", "127.0.0.1:%d" % s.port))
                    judge("ftp: reply %d is %r" % (case["n"], act[:20]), "either", res)
                    if res[1] is None:
                        need(res[0] == BODY, "ftp: reply %d is %r: %d bytes were read without an error", case["n"], act[:20], len(res[0]))
                finally:
                    s.close()
                ctx.ev()
                ctx.outcome("ftp " + ("content" if res[1] is None else "error"))
    else:
        for n in (0, 1, 15000, len(BODY) - 1):
            one("cut after %d" % n, "error", "ftp://{HOST}/d/e/file.img", cut=n)
            one("cut after %d" % n, "error", "ftp://%s:%s@{HOST}/d/e/file.img" % (U, P), cut=n)
        one("no size", "content", "ftp://{HOST}/d/e/file.img", size=False)


class SshEnv:
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        os.environ.update(self.kw)

    def __exit__(self, *a):
        for k in self.kw:
            os.environ.pop(k, None)


def ssh_calls(log):
    try:
        text = read_file(log).decode()
    except FileNotFoundError:
        return []
    return [c.split("\n")[:-1] for c in text.split("--\n") if c]


def check_calls(what, calls, user, pw, host):
    target = (user + "@" if user else "") + host
    need(calls, "%s: ssh was not started", what)
    for c in calls:
        prog = os.path.basename(c[0])
        if prog == "sshpass":
            need(pw, "%s: sshpass was used without a password", what)
            need("-p" + pw in c or "-e" in c, "%s: sshpass was not given the password: %s", what, c)
        else:
            need(target in c[1:] or host in c[1:] and "-l" in c, "%s: ssh was not told to connect to %s: %s", what, target, c)
            need(not pw or not any(pw in x for x in c), "%s: the password appears in the arguments of ssh: %s", what, c)
    if pw:
        n = [os.path.basename(c[0]) for c in calls]
        need(n.count("sshpass") >= n.count("ssh"), "%s: ssh was used without the password: %s", what, n)


def run_ssh(ctx, case):
    os.makedirs(ctx.path("r/path to/x"))
    log = ctx.path("log")
    old = os.getcwd()
    os.chdir(ctx.path("r"))
    set_netrc(ctx, "default", "x")
    try:
        with SshEnv(MC_SSH_LOG=log):
            _ssh(ctx, case, log)
    finally:
        os.chdir(old)


def _ssh(ctx, case, log):
    base = ctx.path("r")
    if case["k"] == "programs":
        for missing in ("ssh", "sshpass", "both"):
            have = [n for n in ("ssh", "sshpass") if missing not in (n, "both")]
            d = os.path.join(ctx.path("bin2." + missing))
            net.install_ssh(d, have)
            for prog in ("sh", "cat", "test", "head", "true"):
                os.symlink(shutil.which(prog), os.path.join(d, prog))
            with open("f.img", "wb") as f:
                f.write(BODY)
            old = os.environ["PATH"]
            os.environ["PATH"] = d
            try:
                for pw in (None, "hunter2"):
                    what = "%s missing, %s password" % (missing, "with" if pw else "no")
                    res = fetch("ssh://joe%s@h:%s/f.img" % (":" + pw if pw else "", base))
                    judge(what, "content" if missing == "sshpass" and not pw else "error", res)
                    ctx.ev()
                    ctx.outcome("ssh programs")
            finally:
                os.environ["PATH"] = old
        return
    if case["k"] == "dash":
        # what comes from the URL is never an option of ssh
        with open("f.img", "wb") as f:
            f.write(BODY)
        for host in ("-oProxyCommand=touch%20evil", "-oproxycommand=x", "-v", "-Fx", "-", "-lroot", "-o"):
            for auth in ("", "joe@", "joe:pw@", ":pw@", "-oA=b@", "-oA=b:pw@", "-@", "-:pw@"):
                for h in (host, "h"):
                    if h == "h" and not auth.startswith("-"):
                        continue
                    for path in (base + "/f.img", ":f.img", ":" + base + "/f.img"):
                        if os.path.exists(log):
                            os.unlink(log)
                        ctx.ev()
                        url = "ssh://" + auth + h + path
                        fetch(url)
                        what = "ssh: %s" % url
                        for c in ssh_calls(log):
                            if os.path.basename(c[0]) == "sshpass":
                                continue
                            for i, a in enumerate(c[1:], 1):
                                mine = a.startswith("-") and a.lower() in (h.lower(), (auth.split("@")[0].split(":")[0] + "@" + h).lower())
                                need(not mine or c[i - 1] in ("-l", "--"), "%s: ssh takes %r for an option: %s", what, a, c)
                        ctx.outcome("ssh option-like")
        return
    user, pw = case["user"], case["pw"]
    auth = ((user or "") + (":" + pw if pw else "") + "@") if user or pw else ""
    if case["k"] == "rc":
        with open("f.img", "wb") as f:
            f.write(BODY)
        var = {"true": "MC_SSH_TRUE", "test": "MC_SSH_TEST", "pass": "MC_SSHPASS_RC"}[case["stage"]]
        for rc in range(case["lo"], case["hi"], case["step"]):
            if case["stage"] == "pass" and rc == 0:
                continue
            what = "ssh: stage %s ends with status %d, user %s, password %s" % (case["stage"], rc, user, pw)
            with SshEnv(**{var: str(rc)}):
                res = fetch("ssh://%shost.example:%s/f.img" % (auth, base))
            judge(what, "error" if rc else "content", res)
            ctx.ev()
            ctx.outcome("ssh status")
        return
    for path in ("f.img", "a b.img", "it's.img", "a\"b.img", "x$HOME.img", "$(touch evil).img", "a;touch evil;.img", "a&b.img", "*.img", "-n", "~", "\u00e9.img", "a=b,c+d.img"):
        for form in ("abs", "rel", "deep"):
            if "/" in path or form == "rel" and path.startswith(("-", "~")):
                continue
            full = ("path to/x/" if form == "deep" else "") + path
            with open(os.path.join(base, full), "wb") as f:
                f.write(BODY)
            with open(os.path.join(base, "zz.img"), "wb") as f:
                f.write(b"something else")
            where = full if form != "abs" else os.path.join(base, full)
            if form == "deep":
                where = os.path.join(base, full)
            what = "ssh: user %s, password %s, file %r given as %s" % (user, pw, path, where)
            if os.path.exists(log):
                os.unlink(log)
            if form == "rel":
                where = "path to/../" + full
            res = fetch("ssh://%shost.example:%s" % (auth, where))
            judge(what, "content", res)
            check_calls(what, ssh_calls(log), user, pw, "host.example")
            need(not os.path.exists(os.path.join(base, "evil")), "%s: the name was executed on the remote host", what)
            os.unlink(os.path.join(base, full))
            res = fetch("ssh://%shost.example:%s" % (auth, where))
            judge(what + " missing", "error", res)
            ctx.ev(2)
            ctx.outcome("ssh name")
    # no colon
    with open("f.img", "wb") as f:
        f.write(BODY)
    for u, want in (("ssh://%shost.example%s/f.img", "content"), ("ssh://%shost.example:%s/path to", "error"), ("ssh://%shost.example:%s", "error")):
        res = fetch(u % (auth, base))
        judge("ssh: " + u, want, res)
        ctx.ev()
        ctx.outcome("ssh form")


def run_cli_case(ctx, case):
    """the command: status 0 with the right content, or a message"""
    b = case["b"]
    if b == "ssh":
        with open(ctx.path("f.img"), "wb") as f:
            f.write(BODY)
        for var in ("MC_SSH_TRUE", "MC_SSH_TEST", "MC_SSHPASS_RC", "MC_SSH_CAT"):
            for rc in (0, 1, 2, 5, 6, 255):
                if var == "MC_SSHPASS_RC" and not rc:
                    continue
                for pw in ("", ":hunter2"):
                    r = run_cli(["copy", "--nobmap", "ssh://joe%s@h:%s" % (pw, ctx.path("f.img")), ctx.path("out")], env={var: str(rc)})
                    good = not rc or var == "MC_SSHPASS_RC" and not pw
                    cli_judge("ssh %s=%d %s" % (var, rc, pw), "content" if good else "error", r, ctx)
        return
    for cred, nrc in itertools.product(("none", "both"), ("missing", "host", "bad", "dir")):
        c, _ = effective(cred, nrc)
        s = net.ForkServer(behave(b, c)) if b != "refused" else None
        try:
            set_netrc(ctx, nrc, "127.0.0.1")
            r = run_cli(["copy", "--nobmap", "http://%s127.0.0.1:%d/f.img" % (CREDS[cred], s.port if s else 1), ctx.path("out")])
            cli_judge("server %s, credentials %s, netrc %s" % (b, cred, nrc), gives(b, c) if s else "error", r, ctx)
        finally:
            if s:
                s.close()


def cli_judge(what, want, r, ctx):
    if want == "content":
        need(r.rc == 0, "%s: exit status %s: %s", what, r.rc, r.err[-600:])
        got = read_file(ctx.path("out"))
        need(got == BODY, "%s: wrong copy: %s", what, diff_at(got, BODY))
    else:
        need(r.rc == 1, "%s: exit status %s", what, r.rc)
        need(r.err.strip() and not r.crashed, "%s: no readable message: %s", what, r.err[-800:])
    if os.path.exists(ctx.path("out")):
        os.unlink(ctx.path("out"))
    ctx.ev()
    ctx.outcome("cli " + want)


def run(case, ctx):
    {"http": run_http, "redir": run_redir, "redir2": run_redir2, "urls": run_urls, "ftp": run_ftp, "ssh": run_ssh, "tls": run_tls, "tlsmix": run_tlsmix, "proxy": run_proxy, "ftpproxy": run_ftpproxy, "cli": run_cli_case}[case["t"]](ctx, case)
