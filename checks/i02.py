"""I02: harvest data and expressions are ingested faithfully."""
import os
import random
import re
from xml.sax.saxutils import escape

from vlib import build, core, search
from vlib.model import *
from vlib.xmlcanon import canon_fragment

RULE = ("one evaluation = one harvest file (many with an XML error planted "
        "at a random place) ingested and compared, hit by hit and data by "
        "data, with what precedes the first error; non-trivial = the file "
        "holds both expressions before and after its error, or data; "
        "distinct by file content")

LONG = [255, 256, 257, 299, 300, 301, 1000, 3999, 4000, 4001, 8193, 40000,
        65535, 65536, 65537, 70000, 300000]
TEXTS = ["plain", "a&b", "<tag>", "]]>", "\u00e9\u4e2d\U0001d400", "\"q'",
         "  two  spaces ", "line\nbreak", "tab\t", "\r", "\u0085", "x" * 5000,
         "%s%n", "\\", "{}", "&amp;", "\u00a0", ""]
TAGS = ["p", "m:math", "div", "mws:note", "a.b", "x-y", "_z", "t\u00e9"]
ATTR = ["k", "xlink:href", "id", "mws:data_id", "xml:lang", "d-e"]

DL = "long" * 100

ERRORS = ["</nope>", "&undefined;", "<", "& ", "\x01", "<a b=1/>",
          "<a k='1' k='2'/>", "<a k='<'/>", "&#0;", "<!DOCTYPE x>",
          "<?xml version='1.0'?>", "<a", "]]>", "\udcff ", "\udcc3(",
          "<1/>", "<!-- -- -->", "<![CDATA[ x", "<?", "</", "&#xFFFFFFFF;",
          "\x00", "\ufffe", None, None, None, None]


def text(rng):
    s = rng.choice(TEXTS)
    if rng.random() < .03:
        s = "".join(rng.choice(["ab ", "\u00e9\u4e2d", "<&>", "01234567"])
                    for _ in range(rng.choice(LONG) // 2))
    k = rng.randrange(5)
    if k == 0 and "]]>" not in s and "\r" not in s:
        return "<![CDATA[%s]]>" % s
    if k == 1:
        return "".join("&#%d;" % ord(c) for c in s[:50])
    return escape(s, {"\r": "&#13;"})


def markup(rng, depth=3):
    out = []
    for _ in range(rng.randint(0, 4)):
        k = rng.randrange(6)
        if k < 3 and depth:
            t = rng.choice(TAGS)
            a = ""
            for n in rng.sample(ATTR, rng.randint(0, 3)):
                a += " %s=%s" % (n, qa(rng.choice(TEXTS[:-1])
                                       if n != "xml:lang" else "en"))
            body = markup(rng, depth - 1)
            out.append("<%s%s/>" % (t, a) if not body else
                       "<%s%s>%s</%s>" % (t, a, body, t))
        elif k == 3:
            out.append(rng.choice(["<!-- com & <ment> -->", "<?pi data?>"]))
        else:
            out.append(text(rng))
    return "".join(out)


def noise(rng, depth=0):
    """What counts for nothing inside an element which is ignored."""
    out = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        k = rng.random()
        if k < .3:
            out.append("<mws:expr url='no'><ci>no</ci></mws:expr>")
        elif k < .5:
            out.append("<mws:data mws:data_id='d%d'>no</mws:data>"
                       % rng.randint(1, 3))
        elif k < .6:
            out.append(rng.choice(["<z/>", "no", "<ci>no</ci>"]))
        else:
            tag = rng.choice(["y", "other", "mws:harvest", "mws:data",
                              "mws:expr"])
            out.append("<%s>%s</%s>" % (
                tag, noise(rng, depth + 1) if depth < 6 else "", tag))
    return "".join(out)


def ignored(rng):
    """An element no harvest has a use for."""
    tag = rng.choice(["other", "mws:harvest", "expr", "mws:exprs", "apply",
                      "harvest", "mws:Expr", "mws:answ"])
    return "<%s>%s</%s>" % (tag, noise(rng), tag)


class Writer:
    """Writes one file, remembering where every expression's root ends."""

    def __init__(self, rng, g, st):
        self.rng = rng
        self.g = g
        self.style = Style(rng, "mix", rng.choice([0, 1]))
        self.out = []
        self.pos = 0
        self.roots = []      # (end offset, root, url, data)
        self.safe = []       # offsets between tags where text may go
        self.ids = {}

    def w(self, s):
        self.out.append(s)
        self.pos += len(s)

    def mark(self):
        self.safe.append(self.pos)

    def data(self):
        rng = self.rng
        did = rng.choice(["d1", "d2", "d3", "x&y", "\u00e9", "7", DL, DL + "y",
                          "D1", " d1", "d1 "])
        body = markup(rng)
        k = rng.random()
        if k < .06:
            self.w("<mws:data>%s%s</mws:data>" % (body, noise(rng)))
        elif k < .1:
            self.w("<mws:data mws:data_id=''>%s%s</mws:data>"
                   % (noise(rng), body))
        elif k < .14:
            self.w("<mws:data other='1' mws:data_id=%s/>" % qa(did))
            self.ids[did] = ""
        else:
            self.w("<mws:data mws:data_id=%s>" % qa(did))
            self.mark()
            self.w(body)
            self.mark()
            self.w("</mws:data>")
            self.ids[did] = body

    def expr(self, n):
        rng = self.rng
        url = self.g.url(n)
        if rng.random() < .04:
            url += rng.choice(["x", "\u4e2d/", "&?"]) * rng.choice(LONG)
        did = rng.choice([None, "d1", "d2", "d3", "x&y", "\u00e9", "nope",
                          "", DL, DL + "y", DL[:-1], "D1", " d1", "d1 "])
        a = [" url=%s" % qa(url)]
        if rng.random() < .05:
            a, url = [], ""
        if did is not None:
            a.append(" mws:data_id=%s" % qa(did))
        if rng.random() < .1:
            a.append(" extra='1'")
        rng.shuffle(a)
        self.w("<mws:expr%s>" % "".join(a))
        d = self.ids.get(did, "") if did else ""
        for _ in range(rng.choice([1, 1, 1, 1, 1, 0, 2])):
            self.mark()
            self.w(self.style.gap())
            t = self.g.term()
            x = to_xml(t, self.style)
            # a place inside the expression
            inner = [m.end() for m in re.finditer(r"(?<=>)(?=<)", x)]
            if inner:
                self.safe.append(self.pos + rng.choice(inner))
            self.w(x)
            self.roots.append((self.pos, t, url, d))
            self.w(self.style.gap())
        self.mark()
        self.w("</mws:expr>")

    def file(self, n, start):
        rng = self.rng
        self.w(HARVEST_HEAD.replace("xmlns:mws", "xmlns:xlink='urn:x' "
                                    "xmlns:mws", 1))
        for i in range(n):
            k = rng.random()
            if k < .35:
                self.data()
            elif k < .9:
                self.expr(start + i)
            elif k < .95:
                self.w(ignored(rng))
            else:
                self.w("<!-- <mws:expr url='no'><ci>no</ci></mws:expr> -->")
            self.mark()
            self.w(rng.choice(["", "\n", "  "]))
        self.w(HARVEST_TAIL)


def job(st, item, scratch):
    seed, mode = item
    rng = random.Random("i02-%s-%s" % (seed, mode))
    hd = os.path.join(scratch, "h")
    os.mkdir(hd)
    ref = Index()
    rep = {}
    planted = []
    for n in range(rng.randint(6, 14)):
        g = Gen(rng, maxdepth=3)
        if rng.random() < .15:   # long symbols
            g = Gen(rng, long_words(rng) + ["x"], maxdepth=2)
        w = Writer(rng, g, st)
        w.file(rng.randint(3, 25), n * 100)
        x = "".join(w.out)
        cut = len(x) + 1
        err = "none"
        if rng.random() < .75:
            err = rng.choice(ERRORS)
            if err is None:       # cut short at any character
                cut = rng.randrange(1, len(x) - len(HARVEST_TAIL) + 5)
                x = x[:cut]
                err = "truncated"
            else:
                cut = rng.choice(w.safe)
                # what is only an error as long as nothing closes it
                if err == "<![CDATA[ x" and "]]>" in x[cut:] or \
                        err == "<?" and "?>" in x[cut:]:
                    err = "</nope>"
                x = x[:cut] + err + x[cut:]
        planted.append(err)
        raw = x.encode("utf-8", "surrogateescape")
        if rng.random() < .3:
            raw = encoded(rng, x)
            st.count("files in an encoding of their own")
        name = "f%02d.harvest" % n
        with open(os.path.join(hd, name), "wb") as f:
            f.write(raw)
        rep["harvest/" + name] = raw
        before = [r for r in w.roots if r[0] <= cut]
        for _, t, url, d in before:
            ref.add_expr(t, url, "" if mode == "nodata" else d)
        st.case(x, bool(before) and len(before) < len(w.roots) or
                any(r[3] for r in before),
                {"file": name, "error": repr(err), "roots": len(w.roots),
                 "before the error": len(before)})
        st.count("files with error: " + repr(err))
        st.count("expressions read", len(before))
        st.count("expressions behind an error", len(w.roots) - len(before))
    with open(os.path.join(hd, "zz.harvest"), "w") as f:
        e = Expr([T("csymbol", "last")], "last")
        f.write(HarvestFile("x", [e]).to_xml())
        ref.add_expr(e.roots[0], "last", "")
    rep["planted.txt"] = repr(planted)
    args = ["-I", hd]
    if mode == "saved":
        idx = os.path.join(scratch, "i")
        search.build_index(BINS, scratch, idx, [hd], (), "I02", rep)
        args = ["-D", idx]
    elif rng.random() < .4:      # a daemon which builds, then serves
        args = ["-D", os.path.join(scratch, "i"), "-I", hd]
    if mode == "nodata":
        args.append("-n")
    d = search.start(BINS, scratch, args, "I02 " + mode, rep)
    try:
        ask = search.Asker(d, "I02 " + mode, rep)
        a = ask.json(QVar(""))
        want = sorted((u, p, canon_fragment(dd))
                      for u, p, dd in ref.search(QVar("")))
        got = sorted((x.uri, x.xpath, canon_fragment(x.data))
                     for x in a.answers)
        if want != got or a.total != len(want):
            raise core.Violation(
                "I02 %s: what was ingested differs from what precedes the "
                "first XML error\n%s" % (mode, search.diff(want, got)), "",
                ask.ctx(a.query))
        st.count("subterms with their data compared", len(want))
        st.count("of them with data", sum(1 for w in want
                                          if w[2] != canon_fragment("")))
        # and each root formula is searchable as such
        for no in rng.sample(range(len(ref.exprs)),
                             min(15, len(ref.exprs))):
            url, dd, root = ref.exprs[no]
            if not ref.nodes[root.id][2]:
                continue
            b = ask.xml(root)
            if (url, "/*[1]", canon_fragment(dd)) not in [
                    (x.uri, x.xpath, canon_fragment(x.data))
                    for x in b.answers]:
                raise core.Violation(
                    "I02 %s: expression %s is not found as written" %
                    (mode, url), "", ask.ctx(b.query))
        ask.close()
        d.check_healthy("I02", rep)
        d.finish("I02", rep)
    finally:
        d.kill()


def scale(st, item, scratch):
    """More documents, and more expressions, than 16 bits count."""
    seed, mode = item
    rng = random.Random("i02-scale-%s" % seed)
    n = 70000
    hd = os.path.join(scratch, "h")
    os.mkdir(hd)
    out = [HARVEST_HEAD]
    want = {}
    for i in range(n):
        k = i % 3                # own data, an earlier one's, none
        did = "d%d" % i
        if k != 2 or i < 3:
            out.append("<mws:data mws:data_id='%s'>D%d</mws:data>" % (did, i))
        if k == 1:
            did = "d%d" % (rng.randrange(i // 3 + 1) * 3)
        out.append("<mws:expr url='u%d'%s><ci>w%d</ci></mws:expr>" % (
            i, "" if k == 2 else " mws:data_id='%s'" % did, i % 40000))
        want["u%d" % i] = "" if k == 2 else "D" + did[1:]
    out.append(HARVEST_TAIL)
    with open(os.path.join(hd, "a.harvest"), "w") as f:
        f.write("".join(out))
    args = ["-I", hd]
    if mode == "saved":
        idx = os.path.join(scratch, "i")
        search.build_index(BINS, scratch, idx, [hd], (), "I02 scale")
        args = ["-D", idx]
    d = search.start(BINS, scratch, args, "I02 scale " + mode)
    try:
        ask = search.Asker(d, "I02 scale " + mode)
        a = ask.xml(QVar(""))
        got = {x.uri: x.data.strip() for x in a.answers}
        if a.total != n or len(a.answers) != n or got != want:
            bad = [(u, want[u], got.get(u)) for u in want
                   if got.get(u) != want[u]]
            raise core.Violation(
                "I02 %s: of %d expressions with %d documents, total=%d, "
                "answers=%d; wrong data (url, harvested, answered): %r" %
                (mode, n, sum(1 for w in want.values() if w), a.total,
                 len(a.answers), bad[:5]))
        for i in rng.sample(range(n), 40) + [0, 1, 29999, 30000, 39999]:
            b = ask.json(T("ci", "w%d" % (i % 40000)))
            exp = sorted(("u%d" % j, want["u%d" % j])
                         for j in range(i % 40000, n, 40000))
            if sorted((x.uri, x.data.strip()) for x in b.answers) != exp:
                raise core.Violation(
                    "I02 %s: %r answered, harvested %r" %
                    (mode, [(x.uri, x.data) for x in b.answers], exp), "",
                    ask.ctx(b.query))
            st.case(("scale", mode, i), True)
        st.count("subterms with their data compared", n)
        st.maximum("documents of one collection", n * 2 // 3)
        ask.close()
        d.check_healthy("I02 scale")
        d.finish("I02 scale")
    finally:
        d.kill()


def any_job(st, item, scratch):
    (scale if item[0] == "scale" else job)(st, item[-2:], scratch)


def body(ck):
    global BINS
    BINS = build.build("asan", ["mwsd", "mws-index"])
    items = [("%d-%d" % (ck.seed, i), m) for i in range(core.pick(24, 200))
             for m in ("memory", "saved", "nodata")]
    items = [("scale", ck.seed, m) for m in ("memory", "saved")] + items
    ck.parallel(any_job, items)


if __name__ == "__main__":
    core.main("I02", body, rule=RULE, assumptions=[
        "an expression is read when its root element was closed before the "
        "planted error"])
