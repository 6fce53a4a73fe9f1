"""A loopback web for the crawler, and the crawler daemon under monitors."""
import os
import random
import socket
import struct
import threading
import time

from . import build, http, proc
from .core import Infra, Violation


class Resp:
    """One answer of the web. how: ok, reset (no answer), short (announces
    more than it sends), chunked, late."""

    def __init__(self, body, ctype="text/html", status="200 OK", how="ok",
                 headers=()):
        self.body = body.encode("utf-8", "surrogateescape") \
            if isinstance(body, str) else body
        self.ctype = ctype
        self.status = status
        self.how = how
        self.headers = headers

    def raw(self):
        h = ["HTTP/1.1 " + self.status]
        if self.ctype is not None:
            h.append(self.ctype if ":" in self.ctype
                     else "Content-Type: " + self.ctype)
        h += self.headers
        b = self.body
        if self.how == "chunked":
            h.append("Transfer-Encoding: chunked")
            out = b""
            i = 0
            while i < len(b):
                k = 1 + (i * 7 + len(b)) % 997
                out += b"%x\r\n%s\r\n" % (len(b[i:i + k]), b[i:i + k])
                i += k
            b = out + b"0\r\n\r\n"
        elif self.how == "close":
            pass
        else:
            h.append("Content-Length: %d" %
                     (len(b) + (17 if self.how == "short" else 0)))
        h.append("Connection: close")
        return "\r\n".join(h).encode("utf-8") + b"\r\n\r\n" + b


class Web:
    """Serves {host: {target: Resp}} on one port of every loopback address
    and logs every request."""

    def __init__(self):
        self.sites = {}
        self.log = []           # (host, target, method)
        self.lock = threading.Lock()
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        for _ in range(50):
            self.port = proc.free_port()
            try:
                self.s.bind(("0.0.0.0", self.port))
                break
            except OSError:
                continue
        else:
            raise Infra("no port for the web server")
        self.s.listen(100)
        self.end = False
        threading.Thread(target=self._accept, daemon=True).start()

    def close(self):
        self.end = True
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()

    def _accept(self):
        while not self.end:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self._serve, args=(c,),
                             daemon=True).start()

    def _serve(self, c):
        try:
            c.settimeout(60)
            b = b""
            while b"\r\n\r\n" not in b:
                d = c.recv(65536)
                if not d:
                    break
                b += d
            lines = b.decode("utf-8", "surrogateescape").split("\r\n")
            w = lines[0].split(" ")
            host = ""
            for l in lines[1:]:
                if l.lower().startswith("host:"):
                    host = l[5:].strip().rsplit(":", 1)[0]
            target = " ".join(w[1:-1])
            with self.lock:
                self.log.append((host, target, w[0]))
                site = self.sites.get(host)
            r = (site or {}).get(target)
            if r is None:
                r = Resp("<html><body>none</body></html>",
                         status="404 Not Found")
            if r.how == "reset":
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                             struct.pack("ii", 1, 0))
            else:
                if r.how == "late":
                    time.sleep(.05)
                c.sendall(r.raw())
        except OSError:
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass


def fresh_hosts(rng):
    """An endless supply of different loopback addresses."""
    seen = set()
    while True:
        h = "127.%d.%d.%d" % (rng.randint(1, 254), rng.randint(1, 254),
                              rng.randint(1, 254))
        if h not in seen:
            seen.add(h)
            yield h


class Crawler:
    """crawlerd, writing harvests into a directory of its own."""

    def __init__(self, binary, variant, scratch, leaks=False, preexec=None):
        self.dir = os.path.join(scratch, "harvests-%d" % proc._n[0])
        os.makedirs(self.dir)
        base = os.path.join(build.BUILD_ROOT, variant, "crawl-data")
        env = {"no_proxy": "*", "NO_PROXY": "*", "http_proxy": "",
               "HTTP_PROXY": "", "all_proxy": "", "ALL_PROXY": ""}
        for _ in range(5):
            self.port = proc.free_port()
            self.d = proc.Daemon(
                [binary, "-p", str(self.port), "-d",
                 os.path.relpath(os.path.realpath(self.dir),
                                 os.path.realpath(base))],
                scratch, self.port, leaks=leaks, user_env=env,
                preexec=preexec)
            if self.d.up or self.d.report():
                return
        raise Infra("crawlerd does not start: " + self.d.describe())

    def quiet(self):
        """Waits for the last harvest to be complete."""
        old, since, t0 = None, time.time(), time.time()
        while time.time() - since < .4 and time.time() - t0 < 30:
            new = {n: os.stat(os.path.join(self.dir, n)).st_size
                   for n in os.listdir(self.dir)}
            if new != old:
                old, since = new, time.time()
            time.sleep(.02)

    def files(self):
        return {n: open(os.path.join(self.dir, n), "rb").read()
                for n in sorted(os.listdir(self.dir))}


def quote(s, rng=None):
    """application/x-www-form-urlencoded"""
    out = []
    for b in s.encode("utf-8", "surrogateescape"):
        c = chr(b)
        if c.isalnum() and b < 128 or c in "-._~/:" and \
                not (rng and rng.random() < .2):
            out.append(c)
        elif c == " " and (not rng or rng.random() < .5):
            out.append("+")
        else:
            out.append(("%%%02X" if not rng or rng.random() < .7
                        else "%%%02x") % b)
    return "".join(out)


def urlencoded(fields, rng=None):
    return ("&".join("%s=%s" % (k, quote(v, rng)) for k, v in fields)
            ).encode(), "application/x-www-form-urlencoded"


def multipart(fields, rng):
    b = "----b%d" % rng.randrange(10 ** 9)
    out = []
    for k, v in fields:
        out.append('--%s\r\nContent-Disposition: form-data; name="%s"\r\n'
                   "\r\n%s\r\n" % (b, k, v))
    return ("".join(out) + "--%s--\r\n" % b).encode("utf-8"), \
        "multipart/form-data; boundary=" + b


def send_request(port, body, ctype, rng=None, method="POST", pieces=1,
                 length=None, timeout=60):
    """Sends a crawl request, possibly in several pieces; the response."""
    c = http.Conn(port, timeout=timeout)
    head = ("%s / HTTP/1.1\r\nHost: x\r\nConnection: close\r\n" % method)
    if ctype:
        head += "Content-Type: %s\r\n" % ctype
    if body is not None:
        head += "Content-Length: %d\r\n" % (len(body) if length is None
                                           else length)
    data = head.encode() + b"\r\n" + (body or b"")
    cuts = sorted(rng.randrange(len(data)) for _ in range(pieces - 1)) \
        if pieces > 1 else []
    i = 0
    for k in cuts + [len(data)]:
        if k > i:
            c.send(data[i:k])
            i = k
            if k < len(data):
                time.sleep(.002)
    return c


def wait_for(web, cond, d, what, timeout=120):
    t0 = time.time()
    while True:
        with web.lock:
            log = list(web.log)
        if cond(log):
            return log
        if not d.alive():
            raise Violation("%s: crawlerd died\n%s" % (what, d.describe()))
        if time.time() - t0 > timeout:
            raise Violation("%s: not after %d s\nlog tail %s\n%s" %
                            (what, timeout, log[-20:], d.describe()))
        time.sleep(.01)


def struct_reset(s):
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
