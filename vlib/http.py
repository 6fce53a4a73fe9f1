"""A strict raw HTTP/1.1 client for the loopback daemons."""
import json
import re
import socket
import time

from .core import Violation

TIMEOUT = 90


class HttpError(Exception):
    pass


class Response:
    def __init__(self, status, reason, headers, body, closed):
        self.status = status
        self.reason = reason
        self.headers = headers      # list of (lower name, value)
        self.body = body
        self.closed = closed

    def get(self, name, default=None):
        for k, v in self.headers:
            if k == name.lower():
                return v
        return default

    def __repr__(self):
        return "<%s %s %d bytes>" % (self.status, self.headers,
                                     len(self.body))


class Conn:
    def __init__(self, port, host="127.0.0.1", timeout=TIMEOUT):
        self.port = port
        self.timeout = timeout
        fam = socket.AF_INET6 if ":" in host else socket.AF_INET
        self.s = socket.socket(fam, socket.SOCK_STREAM)
        self.s.settimeout(timeout)
        self.s.connect((host, port))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.eof = False

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass

    def send(self, data):
        self.s.sendall(data)

    def _more(self):
        try:
            d = self.s.recv(65536)
        except socket.timeout:
            raise HttpError("timeout waiting for response")
        except ConnectionError as e:
            raise HttpError("connection error: %s" % e)
        if not d:
            self.eof = True
            return False
        self.buf += d
        return True

    def _line(self):
        while b"\r\n" not in self.buf:
            if not self._more():
                raise HttpError("eof in header (got %r)" % self.buf[:200])
        line, self.buf = self.buf.split(b"\r\n", 1)
        return line

    def _exact(self, n):
        while len(self.buf) < n:
            if not self._more():
                raise HttpError("eof in body: %d of %d" % (len(self.buf), n))
        d, self.buf = self.buf[:n], self.buf[n:]
        return d

    def response(self, head=False):
        while True:
            st = self._line().decode("latin-1")
            parts = st.split(" ", 2)
            if len(parts) < 2 or not parts[0].startswith("HTTP/1."):
                raise HttpError("bad status line %r" % st)
            status = int(parts[1])
            headers = []
            while True:
                ln = self._line()
                if not ln:
                    break
                k, _, v = ln.decode("latin-1").partition(":")
                headers.append((k.strip().lower(), v.strip()))
            if status == 100:
                continue
            break
        r = Response(status, parts[2] if len(parts) > 2 else "", headers, b"",
                     False)
        if head or status in (204, 304):
            r.closed = (r.get("connection") or "").lower() == "close"
            return r
        te = (r.get("transfer-encoding") or "").lower()
        if "chunked" in te:
            body = b""
            while True:
                n = int(self._line().split(b";")[0], 16)
                if n == 0:
                    while self._line():
                        pass
                    break
                body += self._exact(n)
                if self._line() != b"":
                    raise HttpError("bad chunk end")
            r.body = body
        elif r.get("content-length") is not None:
            r.body = self._exact(int(r.get("content-length")))
        else:
            while self._more():
                pass
            r.body, self.buf = self.buf, b""
            r.closed = True
        if (r.get("connection") or "").lower() == "close":
            r.closed = True
        return r


def build_request(method, path, body=None, headers=(), host="localhost"):
    h = ["%s %s HTTP/1.1" % (method, path), "Host: %s" % host]
    if body is not None:
        h.append("Content-Length: %d" % len(body))
    for k, v in headers:
        h.append("%s: %s" % (k, v))
    return ("\r\n".join(h) + "\r\n\r\n").encode("latin-1") + (body or b"")


class Client:
    """Keep-alive client that reconnects when the server closed."""

    def __init__(self, port, timeout=TIMEOUT):
        self.port = port
        self.timeout = timeout
        self.c = None

    def request(self, method, path="/", body=None, headers=()):
        req = build_request(method, path, body, headers)
        for attempt in (0, 1):
            fresh = self.c is None
            try:
                if fresh:
                    self.c = Conn(self.port, timeout=self.timeout)
                self.c.send(req)
                r = self.c.response(head=(method == "HEAD"))
                if r.closed:
                    self.close()
                return r
            except (HttpError, OSError):
                self.close()
                if fresh:
                    raise
        raise HttpError("unreachable")

    def post(self, body, path="/", headers=()):
        if isinstance(body, str):
            body = body.encode("utf-8")
        return self.request("POST", path, body, headers)

    def close(self):
        if self.c is not None:
            self.c.close()
            self.c = None


def post(daemon, client, body, what, files=None):
    """POST that turns a lost answer into a violation."""
    try:
        return client.post(body)
    except (HttpError, OSError) as e:
        time.sleep(0.3)
        f = dict(files or {})
        f["request.xml"] = body
        raise Violation("%s: request got no answer (%s)\n%s" %
                        (what, e, daemon.describe()), "", f)


def canon(body, ctype):
    """Body without what may differ between two answers to one query."""
    if ctype == "application/json":
        d = json.loads(body.decode("utf-8"))
        d.pop("time", None)
        return d
    return re.sub(rb"<!--.*?-->", b"", body)
