"""D01: the HTTP interface answers every request with the right status."""
import json
import os
import random
import re
import select
import socket
import time
import xml.etree.ElementTree as ET

from vlib import build, core, http, proc, search
from vlib.model import *

RULE = ("one evaluation = one request whose complete response was compared "
        "with the response model; non-trivial = every request; distinct by "
        "(daemon, method, path, framing, body class, body)")

METHODS = ["POST", "GET", "OPTIONS", "HEAD", "PUT", "DELETE", "PATCH",
           "TRACE", "PROPFIND", "get", "XYZ"]
PATHS = ["/", "/", "/", "/x", "//", "/index.html", "/?a=b", "/x?y=/", "/.",
         "/%2e", "/a/b/c", "/" + "p" * 900, "/\xe9", "/;x", "/#f"]


class Model:
    """What one daemon should answer."""

    def __init__(self, daemon, schema, rep):
        self.d = daemon
        self.schema = schema
        self.rep = rep
        self.good = {}

    def learn(self, body, ctype):
        """The answer to a query asked plainly by a lone client."""
        c = http.Client(self.d.port)
        r = http.post(self.d, c, body, "D01 reference query", self.rep)
        c.close()
        if r.status != 200 or r.get("content-type") != ctype:
            raise core.Violation(
                "D01: a well-formed query is answered %s %s\n%r" %
                (r.status, r.headers, r.body[:500]), "",
                dict(self.rep, **{"query.xml": body}))
        self.good[body] = (ctype, http.canon(r.body, ctype))

    def check(self, req, r):
        m, path, body, cls = req["m"], req["path"], req["body"], req["class"]

        def bad(msg):
            raise core.Violation(
                "D01: %s\nrequest: %s %s framing=%s class=%s body=%r\n"
                "response: %s %r" %
                (msg, m, path[:100], req["framing"], cls, (body or b"")[:300],
                 r, r.body[:800]), "",
                dict(self.rep, **{"request": req["raw"], "body": body or b"",
                                  "response": r.body}))
        root = path.split("?")[0].split("#")[0] == "/"
        if path == "/#f":
            root = None
        if root is None and m in ("GET", "OPTIONS", "HEAD"):
            return     # fragments are not sent by clients
        allow = ["GET", "POST", "OPTIONS"] if root else ["POST", "OPTIONS"]
        ct = (r.get("content-type") or "").split(";")[0].strip()

        def listed(v):
            return sorted(x.strip() for x in (v or "").split(","))

        def xml(word=None):
            if ct not in ("text/xml", "application/xml"):
                bad("expected an XML message, got content type %r" % ct)
            try:
                ET.fromstring(r.body)
            except ET.ParseError as e:
                bad("message is not well-formed XML: %s" % e)
        if m == "OPTIONS":
            if r.status != 200:
                bad("OPTIONS answered %d" % r.status)
            if listed(r.get("access-control-allow-methods")) != \
                    sorted(allow):
                bad("wrong allowed methods")
            if r.get("access-control-allow-origin") != "*":
                bad("no cross-origin header")
        elif m == "POST":
            if cls == "good":
                ctype, want = self.good[body]
                if r.status != 200:
                    bad("well-formed query answered %d" % r.status)
                if ct != ctype:
                    bad("content type %r instead of %r" % (ct, ctype))
                if r.get("access-control-allow-origin") != "*":
                    bad("no cross-origin header")
                try:
                    got = http.canon(r.body, ctype)
                except ValueError as e:
                    bad("not JSON: %s" % e)
                if got != want:
                    bad("the answer depends on the framing of the request; "
                        "expected %r" % (want,))
            else:
                if r.status != 400:
                    bad("bad query (%s) answered %d" % (cls, r.status))
                xml()
        elif m == "GET" and root:
            if r.status != 200:
                bad("GET / answered %d" % r.status)
            xml()
            if b"listening" not in r.body and not r.body:
                bad("no description")
        else:
            if r.status != 405:
                bad("%s answered %d" % (m, r.status))
            if listed(r.get("allow")) != sorted(allow):
                bad("wrong Allow header")
            if m != "HEAD":
                xml()


def unknown(rng):
    """Formulas, but only inside of elements which mean nothing."""
    def some(depth):
        out = b""
        for _ in range(rng.choice([1, 2, 3]) if depth < 5 else 0):
            t = rng.choice([b"x", b"y", b"mws:query", b"mws:data", b"ci"])
            out += b"<" + t + b">" + some(depth + 1) + b"</" + t + b">"
            if rng.random() < .5:
                out += b"<mws:expr><ci>x</ci></mws:expr>"
        return out
    return b">" + b"".join(b"<x>" + some(1) + b"<mws:expr><ci>x</ci>"
                           b"</mws:expr></x>"
                           for _ in range(rng.choice([1, 2])))


def bodies(rng, model, sv, schema, g):
    """[(class, body)]; the good ones are asked once plainly."""
    good = []
    out = []
    for _ in range(12):
        big = rng.random() < .2
        if schema:
            q = [g.term() for _ in range(rng.choice([1, 3, 200 if big
                                                     else 5]))]
            fmt = rng.choice([None, "json", "xml"])
            ct = "application/xml" if fmt == "xml" else "application/json"
            extra = " schema_depth='%d'" % rng.randrange(4)
        else:
            q = g.query(sv.roots)
            if big:
                q = T("apply", "", [T("ci", "nope" * 5)] + [
                    g.term() for _ in range(200)])
            fmt = rng.choice([None, "xml", "json", "mws-ids"])
            ct = "application/xml" if fmt in (None, "xml") else \
                "application/json"
            extra = ""
        x = query_xml(q, None, 1000, fmt, Style(rng, "m", 1), extra)
        if rng.random() < .3:
            x = '<?xml version="1.0"?>\n' + x
        if rng.random() < .3:
            x += rng.choice(["\n", " ", "<!-- end -->", "\n\n\n"])
        if rng.random() < .1:
            x = x + " " * rng.choice([4000, 70000, 300000])
        b = x.encode("utf-8")
        model.learn(b, ct)
        good.append(b)
        out.append(("good", b))
    for b in list(good):
        s = b.rstrip()
        if s.endswith(b"<!-- end -->"):
            s = s[:-len(b"<!-- end -->")]
        out.append(("truncated", s[:rng.randrange(1, len(s))]))
        out.append(("truncated", s[:-1]))
        k = rng.randrange(len(s))
        junk = rng.choice([b"</x>", b"<", b"\0", b"&", b"&nope;", b"\xff\xfe",
                           b"<a b='1' b='2'/>"])
        # between two tags of the document
        gaps = [m.end() for m in re.finditer(rb">(?=<[a-z/])", s)]
        if gaps:
            k = rng.choice(gaps)
            out.append(("malformed", s[:k] + junk + s[k:]))
        if rng.random() < .3:
            # a parser that gives up half way, as for documents this deep
            n = rng.choice([300, 300, 2000])
            k = s.rindex(b"</mws:expr>")
            d = b"<ci>" * n + b"</ci>" * n
            out.append(("malformed", s[:k] + rng.choice(
                [d, b"</mws:expr><mws:expr>" + d]) + s[k:]))
        out.append(("garbage after", s + rng.choice(
            [b"x", b"<a/>", b"</mws:query>", s, b"&amp;"])))
        out.append(("garbage before", rng.choice(
            [b"x", b"<a/>", b"\0", b"<", b"\n<?xml version='1.0'?>"]) + s))
    q0 = b'<mws:query xmlns:mws="http://www.mathweb.org/mws/ns"'
    out += [("empty", b""), ("empty", b" "), ("empty", b"\n\n"),
            ("text", b"hello"), ("text", b"q=1&b=2"), ("text", b"\0" * 10),
            ("text", b"{}"), ("text", b"\xef\xbb\xbf"),
            ("no formula", q0 + b"/>"),
            ("no formula", q0 + b"></mws:query>"),
            ("no formula", q0 + b"><mws:expr/></mws:query>"),
            ("no formula", q0 + b"><mws:expr></mws:expr><mws:expr> text "
             b"</mws:expr></mws:query>"),
            ("no formula", q0 + b"><x><mws:expr><ci>x</ci></mws:expr></x>"
             b"</mws:query>"),
            ("no formula", q0 + unknown(rng) + b"</mws:query>"),
            ("no formula", q0 + unknown(rng) + b"</mws:query>"),
            ("no formula", b"<mws:expr xmlns:mws='u'><ci>x</ci></mws:expr>"),
            ("no formula", b"<a/>"),
            ("no formula", b"<html><body>" + q0 + b"><mws:expr><ci>x</ci>"
             b"</mws:expr></mws:query></body></html>"),
            ("no formula", q0 + b"><!-- <mws:expr><ci>x</ci></mws:expr> -->"
             b"</mws:query>"),
            ("random", bytes(rng.randrange(256) for _ in range(2000)))]
    return out


def chunked(rng, body):
    out = []
    i = 0
    mx = rng.choice([1, 7, 100, 5000, 100000])
    if len(body) > 3000 and mx < 100:
        mx = 1000
    while i < len(body):
        n = rng.randint(1, mx)
        c = body[i:i + n]
        out.append(b"%x\r\n%s\r\n" % (len(c), c))
        i += n
    return b"".join(out) + b"0\r\n\r\n"


def request(rng, pool):
    cls, body = rng.choice(pool)
    m = "POST" if rng.random() < .7 else rng.choice(METHODS)
    path = rng.choice(PATHS)
    framing = rng.choice(["length", "length", "chunked", "expect", "plain"])
    hdrs = []
    for _ in range(rng.randrange(4)):
        hdrs.append(rng.choice([
            ("User-Agent", "x" * rng.choice([1, 50, 1000])),
            ("Accept", "*/*"), ("Accept-Encoding", "gzip"),
            ("Content-Type", rng.choice(["text/xml", "application/json",
                                         "application/x-www-form-urlencoded",
                                         "multipart/form-data; boundary=a",
                                         ""])),
            ("X-Empty", ""), ("Cookie", "a=b"), ("Origin", "http://o"),
            ("Access-Control-Request-Method", "POST")]))
    if m == "POST" or (m in ("PUT", "PATCH") and rng.random() < .3):
        if framing == "plain":
            framing = "length"
    else:
        framing, body = "plain", None
    h = ["%s %s HTTP/1.1" % (m, path), "Host: h"]
    tail = b""
    if framing in ("length", "expect"):
        h.append("%s: %d" % (rng.choice(["Content-Length", "content-length"]),
                             len(body)))
        tail = body
    elif framing == "chunked":
        h.append("Transfer-Encoding: chunked")
        tail = chunked(rng, body)
    if framing == "expect":
        h.append("Expect: 100-continue")
    h += ["%s: %s" % x for x in hdrs]
    close = rng.random() < .1
    if close:
        h.append("Connection: close")
    head = ("\r\n".join(h) + "\r\n\r\n").encode("latin-1")
    return {"m": m, "path": path, "body": body, "class": cls,
            "framing": framing, "raw": head + tail, "head": head,
            "tail": tail, "last": close or
            (m != "POST" and body is not None)}


def split(rng, data):
    k = rng.randrange(5)
    if k < 2 or len(data) < 2:
        return [data]
    n = rng.choice([1, 2, 5, 20])
    cuts = sorted(set(rng.randrange(1, len(data)) for _ in range(n)))
    return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]


class Session:
    """One connection with its planned requests, sent in fragments."""

    def __init__(self, rng, port, pool, st):
        self.rng = rng
        self.reqs = []
        for _ in range(rng.choice([1, 2, 3, 8])):
            r = request(rng, pool)
            self.reqs.append(r)
            if r["last"]:
                break
        self.mode = rng.choice(["pipelined", "turns", "turns"])
        if any(r["framing"] == "expect" for r in self.reqs):
            self.mode = "turns"
        self.conn = http.Conn(port)
        self.frags = []
        self.i = 0
        self.done = []
        st.count("connections, " + self.mode)
        if self.mode == "pipelined":
            self.frags = split(rng, b"".join(r["raw"] for r in self.reqs))

    def step(self):
        """Sends one fragment or reads one response; False at the end."""
        if self.frags:
            f = self.frags.pop(0)
            try:
                self.conn.send(f)
            except OSError:
                self.frags = []
            return True
        if self.mode == "turns" and len(self.done) == self.i:
            if self.i == len(self.reqs):
                self.conn.close()
                return False
            r = self.reqs[self.i]
            self.i += 1
            if r["framing"] == "expect":
                self.frags = split(self.rng, r["head"]) + \
                    split(self.rng, r["tail"])
            else:
                self.frags = split(self.rng, r["raw"])
            return True
        if len(self.done) < len(self.reqs):
            r = self.reqs[len(self.done)]
            try:
                a = self.conn.response(head=r["m"] == "HEAD")
            except (http.HttpError, OSError) as e:
                a = e
            self.done.append((r, a))
            if isinstance(a, Exception) or a.closed:
                self.conn.close()
                return False
            return True
        self.conn.close()
        return False


def job(st, item, scratch):
    seed, which = item
    rng = random.Random("d01-%s-%s" % (seed, which))
    g = Gen(rng, maxdepth=3)
    sv = None
    if which == "schemad":
        for _ in range(3):
            port = proc.free_port()
            d = proc.Daemon([BINS["schemad"], "-p", str(port)], scratch, port)
            if d.up:
                break
        else:
            raise core.Violation("D01: schemad did not start\n" +
                                 d.describe())
        rep = {}
    else:
        sv = search.Served(BINS, scratch, [g.file("a.harvest", 15)],
                           Style(rng, "m"), [which], "D01")
        rep = sv.rep
        d = search.start(BINS, scratch, sv.args[which], "D01", rep)
    w = "D01 " + which
    try:
        model = Model(d, which == "schemad", rep)
        pool = bodies(rng, model, sv, which == "schemad", g)
        # every body at least once, plainly
        c = http.Client(d.port)
        for cls, b in pool:
            r = http.post(d, c, b, w, rep)
            req = {"m": "POST", "path": "/", "body": b, "class": cls,
                   "framing": "length", "raw": b}
            model.check(req, r)
            st.case((which, "POST", "/", "length", cls, b), True)
            st.count("POST " + cls)
        for m in METHODS:
            for p in PATHS:
                if p == "/#f":
                    continue
                body = None
                if m == "POST":
                    body = pool[0][1]
                try:
                    r = c.request(m, p, body)
                except (http.HttpError, OSError) as e:
                    raise core.Violation("%s: %s %r got no answer: %s\n%s" % (
                        w, m, p, e, d.describe()), "", rep)
                req = {"m": m, "path": p, "body": body, "class": "good",
                       "framing": "plain", "raw": b""}
                model.check(req, r)
                st.case((which, m, p), True)
                st.count("%s answered %d" % (m, r.status))
        c.close()
        # many connections whose fragments are interleaved
        for _ in range(core.pick(12, 60)):
            ss = [Session(rng, d.port, pool, st)
                  for _ in range(rng.randint(1, 10))]
            live = list(ss)
            while live:
                s = rng.choice(live)
                if not s.step():
                    live.remove(s)
            for s in ss:
                for req, a in s.done:
                    if isinstance(a, Exception):
                        f = dict(rep)
                        f["request"] = req["raw"]
                        raise core.Violation(
                            "%s: no complete response to %s %s framing=%s "
                            "class=%s (%s, request %d of the connection, %s)"
                            "\n%s" %
                            (w, req["m"], req["path"][:50], req["framing"],
                             req["class"], s.mode, len(s.done), a,
                             d.describe()), "", f)
                    model.check(req, a)
                    st.case((which, s.mode, req["raw"]), True, {
                        "daemon": which, "method": req["m"],
                        "path": req["path"][:40], "framing": req["framing"],
                        "body": req["class"], "mode": s.mode,
                        "status": a.status})
                    st.count("%s framing" % req["framing"])
                    st.count("%s answered %d" % (req["m"], a.status))
        d.check_healthy(w, rep)
        d.finish(w, rep)
    finally:
        d.kill()


def body(ck):
    global BINS
    BINS = build.build("asan", ["mwsd", "mws-index", "schemad"])
    items = [("%d-%d" % (ck.seed, i), w) for i in range(core.pick(10, 40))
             for w in ("memory", "saved", "schemad", "exp")]
    ck.parallel(job, items)


if __name__ == "__main__":
    core.main("D01", body, rule=RULE, assumptions=[
        "libmicrohttpd parses HTTP as it documents",
        "libxml2 takes a NUL behind the document as its end",
        "at most 11 connections at a time (the daemon's limit is 20)"])
