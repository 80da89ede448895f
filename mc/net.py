"""Stand-ins for remote hosts: a scripted HTTP server on the loopback interface, and ssh/sshpass programs."""
import os, socket, struct, threading, time


class Req:
    def __init__(self, raw):
        head = raw.split(b"\r\n\r\n", 1)[0].decode("latin-1").split("\r\n")
        self.raw = raw
        parts = head[0].split(" ")
        self.method, self.path = parts[0], parts[1] if len(parts) > 1 else ""
        self.headers = {}
        for l in head[1:]:
            k, _, v = l.partition(":")
            self.headers[k.strip().lower()] = v.strip()


def response(body=b"", status="200 OK", headers=(), length="true", version="HTTP/1.1"):
    """length: "true", None (no header), or the number to announce"""
    h = ["%s %s" % (version, status), "Connection: close"]
    if length is not None:
        h.append("Content-Length: %d" % (len(body) if length == "true" else length))
    h += list(headers)
    return "\r\n".join(h).encode() + b"\r\n\r\n" + body


def chunked(body, size, end=True, status="200 OK"):
    out = ["HTTP/1.1 %s\r\nConnection: close\r\nTransfer-Encoding: chunked\r\n\r\n" % status]
    res = out[0].encode()
    for i in range(0, len(body), size):
        p = body[i:i + size]
        res += b"%x\r\n" % len(p) + p + b"\r\n"
    return res + (b"0\r\n\r\n" if end else b"")


class Server:
    """handler(request) returns bytes or a list of actions: bytes to send, ("sleep", s), ("hold", event), "rst"."""

    def __init__(self, handler, host="127.0.0.1", port=0):
        self.handler, self.host = handler, host
        self.requests = []
        self.sock = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET)
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind((host, port))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.thread = threading.Thread(target=self._serve, daemon=True)
        self.thread.start()

    def url(self, path, host="127.0.0.1"):
        return "http://%s:%d%s" % (host, self.port, path)

    def _serve(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self._conn, args=(c,), daemon=True).start()

    def _conn(self, c):
        try:
            raw = b""
            while b"\r\n\r\n" not in raw:
                d = c.recv(65536)
                if not d:
                    return
                raw += d
                if len(raw) > 1 << 20:
                    return
                if raw[:1] == b"\x16":
                    # TLS, to a server which does not speak it
                    c.sendall(response(b"", "400 Bad Request"))
                    return
            r = Req(raw)
            self.requests.append(r)
            acts = self.handler(r)
            for a in [acts] if isinstance(acts, bytes) else acts:
                if isinstance(a, bytes):
                    c.sendall(a)
                elif a == "rst":
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    return
                elif a[0] == "sleep":
                    time.sleep(a[1])
                elif a[0] == "hold":
                    a[1].wait(30)
        except OSError:
            pass
        finally:
            try:
                c.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            c.close()

    def close(self):
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()
        self.thread.join(5)


class TlsServer(Server):
    """The same behind TLS; cert: a file with the key and the certificate."""

    def __init__(self, handler, cert, host="127.0.0.1", port=0):
        import ssl
        self.tls = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        self.tls.load_cert_chain(cert)
        Server.__init__(self, handler, host, port)

    def _conn(self, c):
        try:
            c.settimeout(30)
            c = self.tls.wrap_socket(c, server_side=True)
        except OSError:
            c.close()
            return
        Server._conn(self, c)


class Proxy:
    """An HTTP proxy. mode: "works", "auth" (wants the header given), a reply, or "close"; log: (request, header) of what was asked."""

    def __init__(self, mode="works", want=None):
        self.mode, self.want, self.log = mode, want, []
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.thread = threading.Thread(target=self._serve, daemon=True)
        self.thread.start()

    _serve = Server._serve
    close = Server.close

    def _conn(self, c):
        o = None
        try:
            raw = b""
            while b"\r\n\r\n" not in raw:
                d = c.recv(65536)
                if not d:
                    return
                raw += d
            r = Req(raw)
            self.log.append(r)
            if self.mode == "close":
                return
            if isinstance(self.mode, bytes):
                c.sendall(self.mode)
                return
            if self.mode == "auth" and r.headers.get("proxy-authorization") != self.want:
                c.sendall(response(b"", "407 Proxy Authentication Required", ['Proxy-Authenticate: Basic realm="proxy"']))
                return
            host = r.path if r.method == "CONNECT" else r.path.split("/")[2]
            name, _, port = host.rpartition(":")
            try:
                o = socket.create_connection((name.strip("[]"), int(port)), timeout=20)
            except OSError:
                c.sendall(response(b"", "502 Bad Gateway"))
                return
            if r.method == "CONNECT":
                c.sendall(b"HTTP/1.1 200 Connected\r\n\r\n")
            else:
                head, _, rest = raw.partition(b"\r\n\r\n")
                lines = [x for x in head.split(b"\r\n") if not x.lower().startswith(b"proxy-")]
                first = lines[0].split(b" ")
                first[1] = b"/" + b"/".join(first[1].split(b"/")[3:])
                o.sendall(b"\r\n".join([b" ".join(first)] + lines[1:]) + b"\r\n\r\n" + rest)
            t = threading.Thread(target=self._pump, args=(c, o), daemon=True)
            t.start()
            self._pump(o, c)
            t.join(20)
        except OSError:
            pass
        finally:
            if o:
                o.close()
            c.close()

    def _pump(self, a, b):
        try:
            while True:
                d = a.recv(65536)
                if not d:
                    break
                b.sendall(d)
            b.shutdown(socket.SHUT_WR)
        except OSError:
            pass


SSH = r"""#!/bin/sh
# stand-in for ssh: logs its arguments and runs the remote command here
[ -n "$MC_SSH_LOG" ] && { for a in "$0" "$@"; do printf '%s\n' "$a"; done; echo --; } >> "$MC_SSH_LOG"
# like the real one, it takes what it finds on its standard input
[ -n "$MC_SSH_EAT" ] && head -c "$MC_SSH_EAT" > /dev/null
for last; do :; done
case "$last" in
true) exit ${MC_SSH_TRUE:-0};;
test*) [ -n "$MC_SSH_TEST" ] && exit $MC_SSH_TEST
    exec /bin/sh -c "$last";;
cat*) if [ -n "$MC_SSH_CUT" ]; then /bin/sh -c "$last" | head -c "$MC_SSH_CUT"
    else /bin/sh -c "$last"; fi
    rc=$?
    [ -n "$MC_SSH_STALL" ] && exec sleep 1000
    exit ${MC_SSH_CAT:-$rc};;
esac
exit 99
"""
SSHPASS = r"""#!/bin/sh
[ -n "$MC_SSH_LOG" ] && { for a in "$0" "$@"; do printf '%s\n' "$a"; done; echo --; } >> "$MC_SSH_LOG"
[ -n "$MC_SSHPASS_RC" ] && exit $MC_SSHPASS_RC
shift
exec "$@"
"""


def install_ssh(directory, names=("ssh", "sshpass")):
    """Puts the stand-ins into a directory (to be put in front of PATH)."""
    os.makedirs(directory, exist_ok=True)
    for n, text in (("ssh", SSH), ("sshpass", SSHPASS)):
        if n in names:
            p = os.path.join(directory, n)
            with open(p, "w") as f:
                f.write(text)
            os.chmod(p, 0o755)
    return directory


class ForkServer:
    """The same in a process of its own, with the same actions for every request."""

    def __init__(self, acts):
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.pid = os.fork()
        if self.pid == 0:
            try:
                srv = Server.__new__(Server)
                srv.handler, srv.requests, srv.sock = acts if callable(acts) else (lambda r: acts), [], self.sock
                srv._serve()
            finally:
                os._exit(0)
        self.sock.close()

    url = Server.url

    def close(self):
        import signal
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


class Ftp:
    """A small FTP server: files is {path: bytes}; users {name: password}; fault: (n-th command, action) with the actions "close" or a reply.
    cut: how many bytes of the data are really sent; size: announce the size."""

    def __init__(self, files, users, fault=None, cut=None, size=True, host="127.0.0.1"):
        self.files, self.users, self.fault, self.cut, self.size, self.host = files, users, fault, cut, size, host
        self.log = []
        self.sock = socket.socket()
        self.sock.bind((host, 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.thread = threading.Thread(target=self._serve, daemon=True)
        self.thread.start()

    def _serve(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self._conn, args=(c,), daemon=True).start()

    def _conn(self, c):
        pasv, user, ok, cwd, n = None, None, False, "/", 0
        try:
            f = c.makefile("rb")

            def say(x):
                c.sendall(x.encode() + b"\r\n")
            line = "CONNECT"
            while True:
                cmd, _, arg = line.partition(" ")
                cmd = cmd.upper()
                self.log.append(line)
                if self.fault and self.fault[0] == n:
                    if self.fault[1] == "close":
                        return
                    say(self.fault[1])
                elif cmd == "CONNECT":
                    say("220 ready")
                elif cmd == "USER":
                    user = arg
                    say("331 password")
                elif cmd == "PASS":
                    ok = self.users.get(user) == arg or user == "anonymous" and "anonymous" in self.users
                    say("230 in" if ok else "530 no")
                elif cmd == "QUIT":
                    say("221 bye")
                    return
                elif not ok:
                    say("530 log in first")
                elif cmd == "CWD":
                    p = arg if arg.startswith("/") else cwd.rstrip("/") + "/" + arg
                    if arg == ".":
                        p = cwd
                    if any(x.startswith(p.rstrip("/") + "/") for x in self.files):
                        cwd = p
                        say("250 ok")
                    else:
                        say("550 no such directory")
                elif cmd == "PWD":
                    say('257 "%s"' % cwd)
                elif cmd == "TYPE":
                    say("200 ok")
                elif cmd == "PASV":
                    pasv = socket.socket()
                    pasv.bind((self.host, 0))
                    pasv.listen(1)
                    p = pasv.getsockname()[1]
                    say("227 passive (%s,%d,%d)" % (self.host.replace(".", ","), p >> 8, p & 255))
                elif cmd == "RETR":
                    p = arg if arg.startswith("/") else cwd.rstrip("/") + "/" + arg
                    if p not in self.files or not pasv:
                        say("550 no such file")
                    else:
                        d = self.files[p]
                        say("150 here%s" % (" (%d bytes)" % len(d) if self.size else ""))
                        x, _ = pasv.accept()
                        x.sendall(d if self.cut is None else d[:self.cut])
                        x.close()
                        say("226 done" if self.cut is None else "426 aborted")
                elif cmd in ("LIST", "NLST"):
                    say("550 no listing")
                else:
                    say("502 unknown")
                n += 1
                line = f.readline()
                if not line:
                    return
                line = line.decode("latin-1").rstrip("\r\n")
        except OSError:
            pass
        finally:
            if pasv:
                pasv.close()
            c.close()

    close = Server.close
