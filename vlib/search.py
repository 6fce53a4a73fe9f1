"""Serving a collection in every mode and asking it."""
import os

from . import http, proc
from .answers import parse_ids, parse_json, parse_xml
from .core import Violation
from .model import Index, Style, encoded, query_xml

ALL = 90000      # an explicit page larger than any answer list used


def write_files(d, files, style, ext_ok=True):
    out = {}
    for hf in files:
        p = os.path.join(d, hf.name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        x = hf.to_xml(style)
        with open(p, "w", encoding="utf-8") as f:
            f.write(x)
        out[hf.name] = x
    return out


def start(bins, scratch, args, what, files=None, expect_up=True, **kw):
    """mwsd with args on a free port."""
    for _ in range(3):
        port = proc.free_port()
        d = proc.Daemon([bins["mwsd"], "-p", str(port)] + args, scratch, port,
                        **kw)
        if d.up:
            return d
        if "MHD_start_daemon: " in d.output() and not d.report():
            continue
        if expect_up:
            raise Violation("%s: daemon did not start\n%s" %
                            (what, d.describe()), "", files)
        return d
    raise Violation("%s: daemon did not start\n%s" % (what, d.describe()), "",
                    files)


def build_index(bins, scratch, out, dirs, extra=(), what="index build",
                files=None, expect=0):
    args = [bins["mws-index"], "-o", out]
    for d in dirs:
        args += ["-I", d]
    r = proc.run(args + list(extra), scratch)
    proc.check_clean(r, what, files)
    if expect is not None and r.rc != expect:
        raise Violation("%s: exit %s, expected %s\n%s" %
                        (what, r.rc, expect, r.describe()), "", files)
    return r


class Asker:
    def __init__(self, daemon, name, files=None):
        self.d = daemon
        self.name = name
        self.c = http.Client(daemon.port)
        self.files = files or {}

    def post(self, x, rng):
        """rng: send it in some encoding."""
        return http.post(self.d, self.c, x if rng is None else
                         encoded(rng, x), self.name, self.files)

    def ctx(self, xml):
        f = dict(self.files)
        f["query.xml"] = xml
        f["daemon.txt"] = " ".join(self.d.args)
        return f

    def xml(self, q, limitmin=None, answsize=ALL, st=None, encode=None,
            **kw):
        x = query_xml(q, limitmin, answsize, kw.pop("output", "xml"),
                      st or Style(None, "m"), **kw)
        r = self.post(x, encode)
        a = parse_xml(r, self.ctx(x))
        a.resp = r
        a.query = x
        return a

    def json(self, q, limitmin=None, answsize=ALL, st=None, encode=None,
            **kw):
        x = query_xml(q, limitmin, answsize, "json", st or Style(None, "m"),
                      **kw)
        r = self.post(x, encode)
        a = parse_json(r, self.ctx(x))
        a.resp = r
        a.query = x
        return a

    def ids(self, q, limitmin=None, answsize=ALL, st=None, encode=None,
            **kw):
        x = query_xml(q, limitmin, answsize, "mws-ids",
                      st or Style(None, "m"), **kw)
        r = self.post(x, encode)
        a = parse_ids(r, self.ctx(x))
        a.resp = r
        a.query = x
        return a

    def close(self):
        self.c.close()


def diff(exp, got):
    """Readable multiset difference."""
    from collections import Counter
    e, g = Counter(exp), Counter(got)
    miss = list((e - g).elements())
    extra = list((g - e).elements())
    return "missing %d: %s\nextra %d: %s" % (len(miss), miss[:5], len(extra),
                                             extra[:5])


def compare(exp, ans, total, what, files):
    """exp: list of (url, xpath, data)."""
    got = [a.key() for a in ans]
    if sorted(exp) != sorted(got, key=lambda k: tuple(x or "" for x in k)):
        raise Violation("%s: answers differ from the matching subterms\n%s" %
                        (what, diff(exp, got)), "", files)
    if total != len(exp):
        raise Violation("%s: total=%d but %d subterms match" %
                        (what, total, len(exp)), "", files)


class Served:
    """A collection written out and served in the wanted modes.

    modes: "memory" (harvests), "saved" (index), "exp" (index, experimental
    engine). Use as a context manager; askers are created per mode."""

    def __init__(self, bins, scratch, files, style, modes, what,
                 keep_files=True, ignore_data=False, mw=(), build_extra=(),
                 recurse=False):
        self.bins = bins
        self.scratch = scratch
        self.what = what
        self.modes = list(modes)
        self.hd = os.path.join(scratch, "h")
        os.makedirs(self.hd, exist_ok=True)
        texts = write_files(self.hd, files, style)
        self.rep = {"harvest/" + k: v for k, v in texts.items()} \
            if keep_files else {}
        self.ref = Index()
        for hf in files:
            self.ref.add_file(hf, ignore_data)
        self.roots = [e[2] for e in self.ref.exprs]
        self.out = os.path.join(scratch, "idx")
        self.mw = list(mw)
        rec = ["-r"] if recurse else []
        if "saved" in self.modes or "exp" in self.modes:
            build_index(bins, scratch, self.out, [self.hd],
                        list(build_extra) + rec, what=what + " index build",
                        files=self.rep)
        self.args = {"memory": ["-I", self.hd] + rec + list(build_extra),
                     "saved": ["-D", self.out],
                     "exp": ["-D", self.out, "-x"]}

    def __enter__(self):
        return self

    def each(self):
        """Yields (mode name, asker), checking the daemon afterwards."""
        for m in self.modes:
            w = "%s, %s mode" % (self.what, m)
            d = start(self.bins, self.scratch, self.args[m] + self.mw, w,
                      self.rep)
            try:
                a = Asker(d, w, self.rep)
                yield m, a
                a.close()
                d.check_healthy(w, self.rep)
                d.finish(w, self.rep)
            finally:
                d.kill()

    def __exit__(self, *a):
        return False
