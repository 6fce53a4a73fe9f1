"""C02: crawl requests and the harvests they lead to."""
import random
import re
import threading
import time
import xml.etree.ElementTree as ET
from xml.parsers import expat

from vlib import build, core, http, proc, web

RULE = ("one evaluation = one request posted to crawlerd (well-formed, "
        "malformed, aborted, split, concurrent) followed through the request "
        "log of the crawled web, or one fetched page whose formulas are "
        "looked up in the written harvest, or one batch of hostile pages "
        "under ASan+UBSan; non-trivial = accepted, or refused for a reason "
        "of its own, or a page with formulas; distinct by content")

NS = "http://www.w3.org/1998/Math/MathML"
KNOWN = ["apply", "ci", "cn", "plus", "times", "mi", "mo", "mrow", "mfrac",
         "semantics", "bvar", "lambda", "sin", "csymbol", "mstyle", "mtext",
         "cartesianproduct", "domainofapplication", "partialdiff", "determinant",
         "notprsubset", "annotation-xml", "none"]
UNKNOWN = ["foo", "qvar", "x1", "Apply", "share", "bind"]


PACK = 5000

# --- formulas ---------------------------------------------------------------
class Formula:
    def __init__(self, rng, prefix="", budget=None):
        self.r = rng
        self.p = prefix
        self.n = budget or rng.choice([1, 2, 4, 8, 20])

    def text(self):
        r = self.r
        return "".join(r.choice(["x", "y", "1", " ", "\n", "&amp;", "&lt;",
                                 "&#945;", "&#x3b2;", "\u03b3", "\u00e9",
                                 "&gt;", "'", '"', "abc", "/", "id="])
                       for _ in range(r.choice([0, 1, 1, 2, 6])))

    def attrs(self):
        r = self.r
        out = []
        for k in r.sample(["cd", "type", "xref", "definitionURL", "alt"],
                          r.choice([0, 0, 0, 1, 2])):
            q = r.choice(['"', '"', "'"])
            v = self.text().replace(q, "").replace("\n", " ")
            out.append(r.choice([" ", " ", "\n", "  "]) + k + "=" + q + v + q)
        return "".join(out)

    def element(self, depth=0):
        r = self.r
        self.n -= 1
        t = r.choice(KNOWN) if r.random() < .9 else r.choice(UNKNOWN)
        t = self.p + t
        k = r.random()
        if depth > 6 or self.n <= 0 or k < .3:
            if r.random() < .3:
                return "<%s%s%s/>" % (t, self.attrs(), r.choice(["", " "]))
            return "<%s%s>%s</%s>" % (t, self.attrs(), self.text(), t)
        s = "<%s%s>" % (t, self.attrs())
        for _ in range(r.choice([1, 2, 2, 3, 5])):
            s += self.element(depth + 1)
            if r.random() < .2:
                s += self.text()
            if r.random() < .05:
                s += r.choice(["<!-- c -->", "<![CDATA[<x>&]]>", "<?pi x?>"])
        return s + "</%s>" % t


def blank(s):
    """White space does not count."""
    return re.sub("[ \t\r\n]+", "", s or "")


def strip(e):
    """An element without namespaces, as a value."""
    return (re.sub(r"^\{.*\}", "", e.tag) if isinstance(e.tag, str) else "",
            tuple(sorted(e.attrib.items())), blank(e.text),
            tuple((strip(c), blank(c.tail)) for c in e
                  if isinstance(c.tag, str)))


def parse_fragment(s):
    return ET.fromstring('<r xmlns:m="%s">%s</r>' % (NS, s))


class Page:
    """A page and the formulas that must be harvested from it: a list of
    (anchor or None, value)."""

    def __init__(self, rng, xhtml):
        self.r = rng
        self.want = []
        self.body = (self.xhtml if xhtml else self.html)()
        self.ctype = rng.choice(
            ["application/xhtml+xml", "application/xhtml+xml; charset=utf-8",
             "content-type: application/xhtml+xml",
             "Content-Type:application/xhtml+xml"] if xhtml else
            ["text/html", "text/html; charset=utf-8", "text/html",
             "content-type: text/html", "CONTENT-TYPE: Text/HTML",
             "Content-Type:   text/html;charset=UTF-8"])

    def noise(self):
        return self.r.choice([
            "<p>text</p>", "<br/>", "<hr>", "<img src='x'/>", "a < b & c",
            "<p>&nbsp;</p>", "<div class=\"math\">", "</div>", "\n", "",
            "<b>math</b>", "<!-- comment -->", "\u00e9\u03b1",
            "<a name=\"x\"/>", "/>", "<table><tr><td>1</table>"])

    def anchor(self):
        r = self.r
        return r.choice(["i1", "eq.1", "S1.E2.m1", "a b", "&amp;x", "\u00e9",
                         "it's", "&lt;&gt;", "x/y?z=1", "&quot;q&quot;"])

    def html(self):
        r = self.r
        out = [r.choice(["<html><body>", "<!DOCTYPE html>\n<html><head>"
                         "<meta charset='utf-8'></head><body>", ""])]
        for _ in range(r.choice([0, 1, 2, 5, 20])):
            out.append(self.noise())
            k = r.random()
            at = []
            anchor = None
            if r.random() < .6:
                anchor = self.anchor()
                q = r.choice(['"', '"', '"', "'"])
                if q in anchor:
                    q = '"' if q == "'" else "'"
                at.append(" id=" + q + anchor + q)
            if r.random() < .5:
                at.append(r.choice([' xmlns="%s"' % NS, ' display="block"',
                                    ' alttext="x/y &gt; z"', ' class="a"']))
            r.shuffle(at)
            at = "".join(at)
            if k < .08:
                b = "<math%s%s/>" % (at, r.choice(["", " "]))
            elif k < .15:
                # not well-formed inside
                out.append("<math%s>%s</math>" % (at, r.choice([
                    "<ci>x</cn>", "&nope;", "<ci>", "</apply>", "a<b",
                    "<ci a=1/>", "\x01", "&", "<ci a='1' a='2'/>"])))
                continue
            elif k < .2:
                b = "<math%s><mi>a</mi><math>%s</math>%s</math>" % (
                    at, Formula(r).element(), Formula(r).element())
            else:
                b = "<math%s>%s</math>" % (at, "".join(
                    Formula(r).element() for _ in range(r.choice(
                        [1, 1, 1, 2, 3]))))
            out.append(b)
            e = strip(parse_fragment(b)[0])
            self.want.append((dict(e[1]).get("id") if anchor else None,
                              (e,)))
        if r.random() < .9:
            out.append(r.choice(["</body></html>", self.noise()]))
        if r.random() < .1:
            # ends with a formula
            out.append("<math/>")
            self.want.append((None, (("math", (), "", ()),)))
        return r.choice(["", "\n", " "]).join(out)

    def xhtml(self):
        r = self.r
        p = r.choice(["", "m:", "mml:"])
        out = [r.choice(['<?xml version="1.0" encoding="UTF-8"?>\n', ""]),
               r.choice(["<!DOCTYPE html>\n", "", ""]),
               '<html xmlns="http://www.w3.org/1999/xhtml"%s><body>' % (
                   ' xmlns:%s="%s"' % (p[:-1], NS) if p else "")]
        for _ in range(r.choice([0, 1, 2, 5, 12])):
            out.append(r.choice(["<p>text</p>", "<br/>", "", "&amp;",
                                 "\u03b1", "<div><p/></div>"]))
            at = "" if p else ' xmlns="%s"' % NS
            anchor = None
            if r.random() < .7:
                anchor = self.anchor()
                at += ' id="%s"' % anchor.replace("'", "&#39;")
            q = {"p": p, "at": at}
            if r.random() < .1:
                # no content markup
                out.append("<%(p)smath%(at)s><%(p)smi>x</%(p)smi></%(p)smath>"
                           % q)
                continue
            n = r.choice([1, 1, 1, 2])
            es = [Formula(r, p).element() for _ in range(n)]
            q["c"] = "".join(es)
            out.append(
                "<%(p)smath%(at)s><%(p)ssemantics><%(p)smrow>"
                "<%(p)smi>x</%(p)smi></%(p)smrow><%(p)sannotation-xml "
                'encoding="MathML-Content">%(c)s</%(p)sannotation-xml>'
                '<%(p)sannotation encoding="application/x-tex">x'
                "</%(p)sannotation></%(p)ssemantics></%(p)smath>" % q)
            a = None
            if anchor is not None:
                a = ET.fromstring('<r a="%s"/>' %
                                  anchor.replace("'", "&#39;")).get("a")
            for e in es:
                w = ET.fromstring('<r xmlns%s="%s">%s</r>' % (
                    ":" + p[:-1] if p else "", NS, e))
                self.want.append((a, (strip(w[0]),)))
        out.append("</body></html>")
        return "".join(out)


def read_harvest(data, what, rep):
    """[(url, content)] of a written harvest."""
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        # (prefixes the page declared outside of its formulas)
        if "unbound prefix" not in str(e):
            raise core.Violation("%s: the harvest is not well-formed: %s\n%r"
                                 % (what, e, data[:3000]), "", rep)
        root = ET.fromstring(re.sub(rb"(</?)mml:", rb"\1m:", data))
    if not root.tag.endswith("}harvest"):
        raise core.Violation("%s: no harvest: %s" % (what, root.tag), "", rep)
    out = []
    for e in root:
        if not e.tag.endswith("}expr"):
            raise core.Violation("%s: a %s in the harvest" % (what, e.tag),
                                 "", rep)
        out.append((e.get("url"), tuple(strip(c) for c in e)))
    return out


# --- sites that show limits and exclusions -----------------------------------
def small_site(rng, host, port):
    """(pages, expected requests by limit, exclusions)"""
    n = rng.choice([1, 2, 3, 6, 10])
    pages = {}
    excl = []
    names = ["/"] + ["/p%d" % i for i in range(1, n)]
    if rng.random() < .5 and n > 1:
        # a chain shows the limit
        for a, b in zip(names, names[1:] + ["/"]):
            pages[a] = web.Resp('<a href="%s">x</a>' % b)
        limit = rng.choice([None, rng.randint(1, n), 1, 10 ** 10])
        expect = names[:limit or n]
    else:
        pages["/"] = web.Resp("".join('<a href="%s">x</a>' % b
                                      for b in names))
        for a in names[1:]:
            pages[a] = web.Resp("page")
        limit = rng.choice([None, None, 50])
        excl = [a for a in names[1:] if rng.random() < .5]
        if "/p1" in excl:
            # (p1 is no prefix of another page here)
            assert n <= 10
        expect = [a for a in names if a not in excl]
    return pages, limit, excl, expect


class Request:
    """A request to crawlerd. must: accept, refuse or either."""

    def __init__(self, rng, host, port, bad=None):
        self.r = r = rng
        self.host = host
        self.bad = bad
        self.pages, self.limit, self.excl, self.expect = small_site(
            r, host, port)
        self.method = "POST"
        self.must = "accept"
        self.cut = None
        self.pieces = r.choice([1, 1, 1, 2, 3, 8, 30])
        url = "http://%s:%d/" % (host, port)
        if r.random() < .2:
            url = url[:-1]
        # (a start page of exactly the greatest length)
        if r.random() < .1:
            url = url.rstrip("/") + "/?" + "q" * (100 - len(url.rstrip("/")) -
                                                  2)
            self.pages[url[url.index("/?"):]] = self.pages["/"]
            self.expect = [url[url.index("/?"):]]
            self.limit = 1
            self.excl = []
        f = [("urlstart", url)]
        if self.limit is not None:
            f.append(("count", str(self.limit)))
        elif r.random() < .4:
            f.append(("count", r.choice(["", "", "0", "no"])))
        for x in self.excl:
            f.append(("dontcrawl", x if r.random() < .6 else
                      "http://%s:%d%s" % (host, port, x)))
        # as the form of the start page sends it
        for _ in range(r.choice([0, 0, 1, 3])):
            f.append(("dontcrawl", ""))
        if r.random() < .2:
            f.append((r.choice(["submit", "x", "urlstart2", "Count"]),
                      r.choice(["", "Send", "y" * 2000])))
        if r.random() < .3:
            r.shuffle(f)
        if bad == "no start":
            f = [x for x in f if x[0] != "urlstart"]
            self.must = "refuse"
        elif bad == "empty start":
            f = [x if x[0] != "urlstart" else ("urlstart", "") for x in f]
            self.must = "refuse"
        elif bad == "long start":
            n = r.choice([101, 102, 127, 128, 200, 513, 5000])
            f = [x if x[0] != "urlstart" else (
                "urlstart", "http://%s:%d/?%s" % (host, port, "q" * (
                    n - len("http://%s:%d/?" % (host, port))))) for x in f]
            t = "/?" + "q" * (n - len("http://%s:%d/?" % (host, port)))
            self.pages[t] = self.pages["/"]
            self.must = "either"
            self.expect = None
        elif bad == "long exclusion":
            n = r.choice([99, 100, 101, 102, 200, 512, 3000])
            x = "/" + "l" * (n - 1)
            self.pages["/"] = web.Resp('<a href="%s">x</a><a href="/ok">y</a>'
                                       % x)
            self.pages[x] = self.pages["/ok"] = web.Resp("x")
            f = [f[0] if f[0][0] == "urlstart" else ("urlstart", url),
                 ("dontcrawl", x)]
            self.must = "either" if n > 100 else "accept"
            self.expect = [url.split(":%d" % port)[1] or "/", "/ok"]
            if "?" in url:
                self.pages[self.expect[0]] = self.pages["/"]
            r.shuffle(f)
        elif bad == "many exclusions":
            n = r.choice([100, 127, 128, 129, 130, 200, 1000])
            xs = ["/p%dx" % i for i in range(n)]
            self.pages["/"] = web.Resp("".join(
                '<a href="%s">x</a>' % x for x in xs[-5:]) +
                '<a href="/ok">y</a>')
            for x in xs + ["/ok"]:
                self.pages[x] = web.Resp("x")
            u = "http://%s:%d/" % (host, port)
            f = [("dontcrawl", x) for x in xs]
            f.insert(r.randrange(len(f) + 1), ("urlstart", u))
            self.must = "either" if n > 128 else "accept"
            self.expect = ["/", "/ok"]
        elif bad == "long count":
            f = [("urlstart", url), ("count", "1" + "0" * r.choice(
                [9, 12, 19, 98, 99, 100, 300]))]
            self.must = "either"
            self.limit = None
            self.expect = None if "?" in url else sorted(self.pages)
        elif bad == "invalid start":
            f = [x if x[0] != "urlstart" else ("urlstart", r.choice(
                ["not a url", "http://", "://", "x", "http:///", "javascript:"
                 "1", "mailto:a@b", "http://[::", "%", "\u00e9", "//",
                 "http://a b/", "?", "http://:80/", "about:blank",
                 "http://%zz/", "ht!tp://x/"]))
                 for x in f]
            if not self.excl or r.random() < .5:
                f.append(("dontcrawl", "/x"))
            self.must = "either"
            self.expect = []
        self.fields = f
        if r.random() < .2 and bad != "wrong type" and not any(
                "\u00e9" in v for k, v in f):
            self.body, self.ctype = web.multipart(f, r)
            # (one part each)
        else:
            self.body, self.ctype = web.urlencoded(
                f, r if r.random() < .6 else None)
            if r.random() < .2:
                self.ctype += r.choice(["; charset=UTF-8", ";charset=utf-8"])
        if bad == "wrong type":
            self.ctype = r.choice(["application/json", "text/plain", "x",
                                   None, "multipart/mixed"])
            self.must = "refuse"
        elif bad == "method":
            self.method = r.choice(["GET", "PUT", "DELETE", "HEAD", "OPTIONS",
                                    "PATCH"])
            self.must = "refuse"
        elif bad == "aborted":
            self.cut = r.randrange(1, max(2, len(self.body)))
            self.must = "refuse"
        elif bad == "garbage":
            self.must = "refuse"
        elif bad == "empty body":
            self.body = r.choice([b"", b"&", b"=", b"&&=&", b"urlstart",
                                  b"urlstart=", b"%", b"urlstart=%00"])
            self.must = "refuse" if b"%00" not in self.body else "either"
            self.expect = []
        elif bad == "junk":
            self.body = rng.randbytes(r.choice([1, 10, 600, 5000]))
            self.must = "either"
            self.expect = []

    def send(self, port):
        """The body of the answer, or None."""
        if self.bad == "garbage":
            c = http.Conn(port)
            try:
                c.send(self.r.choice([b"\r\n\r\n", b"POST\r\n\r\n",
                                      b"\x00" * 300 + b"\r\n\r\n",
                                      b"POST / HTTP/9.9\r\n\r\n",
                                      b"POST / HTTP/1.1\r\nContent-Length: "
                                      b"-5\r\n\r\n", b"GET " + b"a" * 70000,
                                      b"POST / HTTP/1.1\r\nTransfer-Encoding:"
                                      b" chunked\r\nHost: x\r\nContent-Type: "
                                      b"application/x-www-form-urlencoded"
                                      b"\r\n\r\nzz\r\nx\r\n"]))
                time.sleep(.005)
            except OSError:
                pass
            c.close()
            return None
        try:
            if self.cut is not None:
                c = web.send_request(port, self.body[:-self.cut], self.ctype,
                                     self.r, length=len(self.body))
                time.sleep(self.r.random() * .01)
                if self.r.random() < .5:
                    web.struct_reset(c.s)
                c.close()
                return None
            c = web.send_request(port, self.body, self.ctype, self.r,
                                 self.method, self.pieces)
            try:
                return c.response(self.method == "HEAD").body
            finally:
                c.close()
        except (http.HttpError, OSError) as e:
            return e


BAD = ["no start", "empty start", "long start", "long exclusion",
       "many exclusions", "long count", "invalid start", "wrong type",
       "method", "aborted", "empty body", "junk", "garbage"]


def learn(c, w, host):
    """The two pages crawlerd answers with."""
    w.sites[host] = {"/": web.Resp("x")}
    out = []
    for f in ([("urlstart", "http://%s:%d/" % (host, w.port))], [("a", "b")]):
        b, t = web.urlencoded(f)
        k = web.send_request(c.port, b, t)
        out.append(k.response().body)
        k.close()
    if out[0] == out[1]:
        raise core.Violation("C02: the answers to a complete request and to "
                             "one without start page are the same: %r" %
                             out[0])
    return out


def finish(w, c, hosts, what, rep):
    """Waits until a last request was executed; the log before that."""
    end = next(hosts)
    w.sites[end] = {"/": web.Resp("end")}
    b, t = web.urlencoded([("urlstart", "http://%s:%d/" % (end, w.port)),
                           ("count", "1")])
    k = web.send_request(c.port, b, t)
    k.response()
    k.close()
    log = web.wait_for(w, lambda l: any(h == end and t == "/"
                                        for h, t, m in l), c.d, what)
    with w.lock:
        w.log = []
    # (its harvest is the last to be written)
    return [x for x in log if x[0] != end]


def queue_job(st, item, scratch):
    _, seed, variant, rounds = item
    rng = random.Random("c02-%s" % seed)
    w = web.Web()
    c = web.Crawler(BIN[variant], variant, scratch,
                    leaks=variant == "asan")
    hosts = web.fresh_hosts(rng)
    try:
        yes, no = learn(c, w, next(hosts))
        finish(w, c, hosts, "C02 first requests", {})
        for rnd in range(rounds):
            what = "C02 seed %s round %d" % (seed, rnd)
            threads = rng.choice([1, 1, 2, 4, 8])
            plans = []
            for i in range(threads):
                plans.append([Request(
                    rng, next(hosts), w.port,
                    rng.choice(BAD) if rng.random() < .45 else None)
                    for _ in range(rng.randint(1, 9 if threads == 1 else 4))])
            for p in plans:
                for q in p:
                    w.sites[q.host] = q.pages
            gap = rng.choice([0, 0, 0, .002, .3])

            def post(p, s):
                r = random.Random(s)
                for q in p:
                    q.t0 = time.monotonic()
                    q.answer = q.send(c.port)
                    q.t1 = time.monotonic()
                    if gap:
                        time.sleep(r.random() * gap)
            ts = [threading.Thread(target=post, args=(p, rng.random()))
                  for p in plans]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            log = finish(w, c, hosts, what, {})
            judge(st, log, [q for p in plans for q in p], yes, no, what, c,
                  threads, variant)
            c.d.check_healthy(what)
            for p in plans:
                for q in p:
                    del w.sites[q.host]
        c.quiet()
        c.d.finish("C02 seed %s" % seed)
    finally:
        w.close()
        c.d.kill()


def judge(st, log, qs, yes, no, what, c, threads, variant):
    first = {}
    by = {}
    for i, (h, t, m) in enumerate(log):
        first.setdefault(h, i)
        by.setdefault(h, []).append(t)
    done = []
    for q in qs:
        rep = {"request.txt": "%s %s\n%s\n\n" % (q.bad, q.ctype, q.fields),
               "body.txt": q.body, "log.txt": repr(log)}

        def bad(text):
            raise core.Violation(
                "%s: %s\nrequest (%s): %s %s %s\nanswer %r\nits web saw %s" %
                (what, text, q.bad, q.method, q.ctype, q.fields[:8],
                 q.answer, by.get(q.host)), "", rep)
        got = by.get(q.host, [])
        if isinstance(q.answer, Exception):
            if q.bad not in ("junk", "method"):
                c.d.check_healthy(what, rep)
                bad("got no answer (%s)" % q.answer)
            accepted = False
        else:
            accepted = q.answer == yes
        if q.must == "accept" and not accepted:
            bad("a complete request was refused")
        if q.must == "refuse" and accepted:
            bad("a request that is none was accepted")
        if q.answer is not None and not isinstance(q.answer, Exception) and \
                not accepted and q.answer != no and q.method == "POST":
            bad("neither accepted nor answered with the error page")
        if not accepted and got:
            bad("was not accepted, but crawled")
        pages = [t for t in got if t != "/robots.txt"]
        if accepted:
            if got.count("/robots.txt") > 1 or \
                    len(set(pages)) < len(pages):
                bad("accepted once, executed more than once")
            if not pages and q.expect != []:
                bad("accepted, but never executed")
            if q.expect is not None and sorted(pages) != sorted(q.expect):
                bad("crawled %s instead of %s: not its own limit and "
                    "exclusions" % (pages, q.expect))
            if q.host in first:
                done.append(q)
                st.count("requests executed")
        else:
            st.count("requests refused")
        st.case((q.bad, q.body, q.ctype, q.pieces, variant),
                accepted or q.bad is not None,
                {"kind": q.bad or "complete", "accepted": accepted,
                 "pages requested": pages[:12]})
        st.count("requests: %s" % (q.bad or "complete"))
    for a in done:
        for b in done:
            if a.t1 < b.t0 and first[a.host] > first[b.host]:
                raise core.Violation(
                    "%s: %s was accepted before %s was sent, but executed "
                    "after it" % (what, a.fields[:3], b.fields[:3]), "",
                    {"log.txt": repr(log)})
    st.count("pairs of requests checked for their order",
             sum(a.t1 < b.t0 for a in done for b in done))
    if threads > 1:
        st.count("rounds with concurrent clients")


def content_job(st, item, scratch):
    _, seed, rounds = item
    rng = random.Random("c02c-%s" % seed)
    w = web.Web()
    c = web.Crawler(BIN["asan"], "asan", scratch)
    hosts = web.fresh_hosts(rng)
    seen = set()
    try:
        for rnd in range(rounds):
            what = "C02 content %s round %d" % (seed, rnd)
            crawls = []
            rep = {}
            for _ in range(rng.randint(1, 8)):
                host = next(hosts)
                pages = {}
                want = []
                n = rng.choice([1, 2, 5, 10])
                names = ["/"] + ["/d/p%d.html" % i + rng.choice(
                    ["", "", "?a=1", "?a=1&b=2", "?x='y'"])
                    for i in range(1, n)]
                limit = rng.choice([None, None, 1, 3])
                for i, t in enumerate(names):
                    x = i > 0 and rng.random() < .4
                    p = Page(rng, x)
                    b = p.body
                    if i == 0:
                        links = "".join('<a href="%s">x</a>' %
                                        a.replace("&", "&amp;")
                                        for a in names[1:])
                        b = links + b if rng.random() < .5 and \
                            not b.startswith("<!") else b + links
                    req = t.replace("'", "%27")
                    pages[t] = pages[req] = web.Resp(
                        b, p.ctype, how=rng.choice(["ok", "ok", "chunked"]))
                    p.req = req
                    p.raw = t
                    p.names = {t, req}
                    want.append(p)
                w.sites[host] = pages
                f = [("urlstart", "http://%s:%d/" % (host, w.port))]
                if limit:
                    f.append(("count", str(limit)))
                body, ct = web.urlencoded(f)
                k = web.send_request(c.port, body, ct)
                k.response()
                k.close()
                crawls.append((host, want, limit))
                for t, r in pages.items():
                    rep["%s%s" % (host, t.replace("/", "_"))] = r.raw()
            log = finish(w, c, hosts, what, rep)
            c.quiet()
            by = {}
            files = c.files()
            for n, data in files.items():
                if n in seen:
                    continue
                es = read_harvest(data, "%s %s" % (what, n),
                                  dict(rep, **{n: data}))
                if es or rnd < rounds - 1:
                    seen.add(n)
                hs = {re.match(r"http://([0-9.]+)", u or "").group(1)
                      if re.match(r"http://([0-9.]+)", u or "") else u
                      for u, _ in es}
                if len(hs) > 1:
                    raise core.Violation(
                        "%s: the harvest %s holds formulas of several crawls"
                        % (what, n), "", dict(rep, **{n: data}))
                for h in hs:
                    by.setdefault(h, []).extend(es)
            for host, want, limit in crawls:
                fetched = [t for h, t, m in log if h == host]
                exp = []
                for p in want:
                    hits = [t for t in fetched if t in p.names]
                    if not hits:
                        continue
                    url = "http://%s:%d%s" % (host, w.port, hits[0])
                    for a, v in p.want:
                        exp.append((url + ("#" + a if a is not None else ""),
                                    v))
                    st.case((p.body, p.ctype), bool(p.want),
                            {"type": p.ctype, "formulas": len(p.want),
                             "page": p.body[:200]})
                    st.count("pages fetched")
                    st.count("formulas harvested", len(p.want))
                got = [(u, tuple((e[0], e[1], e[2], e[3]) for e in v))
                       for u, v in by.get(host, [])]
                if sorted(map(repr, got)) != sorted(map(repr, exp)):
                    g, e = list(map(repr, got)), list(map(repr, exp))
                    raise core.Violation(
                        "%s: the harvest of %s differs from its pages: "
                        "missing %s, unexpected %s (%d formulas of %d)" %
                        (what, host, [x for x in e if x not in g][:2],
                         [x for x in g if x not in e][:2], len(g), len(e)),
                        "", dict(rep, **{n: d for n, d in files.items()}))
                st.count("crawls compared with their harvest")
                del w.sites[host]
            c.d.check_healthy(what, rep)
    finally:
        w.close()
        c.d.kill()


def pack_job(st, item, scratch):
    """More formulas than go into one harvest file."""
    _, seed = item
    rng = random.Random("c02p-%s" % seed)
    w = web.Web()
    c = web.Crawler(BIN["asan"], "asan", scratch)
    hosts = web.fresh_hosts(rng)
    try:
        host = next(hosts)
        per = rng.choice([700, 2600, 5200])
        n = rng.choice([9000, 12000]) // per + 1
        names = ["/"] + ["/p%d" % i for i in range(1, n)]
        exp = []
        pages = {}
        for i, t in enumerate(names):
            fs = ["<math><ci>f%d-%d</ci></math>" % (i, j) for j in range(per)]
            pages[t] = web.Resp("".join('<a href="%s">x</a>' % a
                                        for a in names) + "\n".join(fs))
            exp += [("http://%s:%d%s" % (host, w.port, t), "f%d-%d" % (i, j))
                    for j in range(per)]
        w.sites[host] = pages
        b, ct = web.urlencoded([("urlstart", "http://%s:%d/" % (host,
                                                                w.port))])
        k = web.send_request(c.port, b, ct)
        k.response()
        k.close()
        finish(w, c, hosts, "C02 pack", {})
        c.quiet()
        got = []
        files = c.files()
        for f, data in files.items():
            es = read_harvest(data, "C02 pack", {f: data})
            if len(es) > PACK + per:
                raise core.Violation(
                    "C02: a crawl of pages of %d formulas wrote %d of them "
                    "at once instead of going on after %d" %
                    (per, len(es), PACK), "", {f: data[:10000]})
            for u, v in es:
                got.append((u, v[0][3][0][0][2]))
        if sorted(got) != sorted(exp):
            raise core.Violation(
                "C02: %d of %d formulas of one crawl are in its %d harvest "
                "files" % (len(set(got) & set(exp)), len(exp), len(files)))
        st.case(("pack", seed), True, {"formulas": len(exp),
                                       "files": len(files)})
        st.count("formulas harvested", len(exp))
        c.d.check_healthy("C02 pack")
    finally:
        w.close()
        c.d.kill()


# --- hostile pages -----------------------------------------------------------
BITS = ["<math", "</math>", "<math>", "<math/>", "/>", ">", "<", "/", " id=",
        ' id="', " id='", '"', "'", "<mi>", "</mi>", "<apply>", "<a href=",
        '<a href="', "<a", "</a>", "<!--", "-->", "<script>", "</script>",
        "</scrip", "<style>", "<plaintext>", "<textarea>", "\x00", "\xff",
        "&amp;", "&", "&#", "&#x", ";", "<![CDATA[", "]]>", "<?", "?>",
        "http://", "//", "#", "?", "%", "%zz", "javascript:", "\n", " ",
        "math", "<mathx", "</mathx", "<math\n", "<m:math>", "href", "=",
        "é", "<html>", "</html>", "<svg>", "<MATH>", "</", "<!", "<!D",
        "[::1]", ":99999", "@", "\\", "\u202e", "<annotation-xml>", "</mat"]


def junk(rng):
    n = rng.choice([0, 1, 2, 3, 8, 30, 200])
    s = "".join(rng.choice(BITS) for _ in range(n))
    if rng.random() < .15:
        s = rng.choice(BITS) * rng.choice([50, 1000, 5000])
    return s


def mutate(rng, s):
    b = bytearray(s.encode("utf-8", "surrogateescape"))
    for _ in range(rng.choice([1, 2, 5, 20])):
        if not b:
            break
        i = rng.randrange(len(b))
        k = rng.randrange(5)
        if k == 0:
            del b[i:i + rng.choice([1, 5, 50])]
        elif k == 1:
            b[i] = rng.randrange(256)
        elif k == 2:
            b[i:i] = rng.choice(BITS).encode("utf-8")
        elif k == 3:
            del b[i:]
        else:
            j = rng.randrange(len(b))
            b[i:i] = b[j:j + rng.choice([5, 60])]
    return bytes(b)


def hostile_job(st, item, scratch):
    _, seed, rounds = item
    rng = random.Random("c02h-%s" % seed)
    w = web.Web()
    c = web.Crawler(BIN["asan"], "asan", scratch, leaks=True)
    hosts = web.fresh_hosts(rng)
    try:
        for rnd in range(rounds):
            what = "C02 hostile %s round %d" % (seed, rnd)
            rep = {}
            for _ in range(rng.randint(1, 3)):
                host = next(hosts)
                names = ["/"] + ["/h%d" % i for i in range(
                    rng.choice([1, 20, 60]))]
                pages = {}
                for t in names[1:]:
                    x = rng.random() < .35
                    k = rng.random()
                    p = Page(rng, x)
                    b = junk(rng) if k < .45 else mutate(rng, p.body) \
                        if k < .9 else p.body
                    ct = rng.choice([p.ctype, p.ctype, p.ctype,
                                     "application/xhtml+xml", "text/html"])
                    pages[t] = web.Resp(b, ct, how=rng.choice(
                        ["ok"] * 5 + ["chunked", "short", "reset", "close"]),
                        status=rng.choice(["200 OK"] * 5 + [
                            "404 x", "301 M", "999 y", "200"]),
                        headers=rng.choice([()] * 6 + [
                            ("X: " + "y" * 50000,), ("Last-Modified: x",),
                            ("Content-Type:",), ("Content-Type",),
                            ("Content-Type: application/xhtml+xml",)]))
                pages["/"] = web.Resp("".join('<a href="%s">x</a>' % a
                                              for a in names[1:]) +
                                      junk(rng).replace("<!--", ""))
                if rng.random() < .6:
                    pages["/robots.txt"] = web.Resp(rng.choice([
                        junk(rng), "User-agent: *\n" + "\n".join(
                            "Disallow: " + junk(rng).replace("\n", "")
                            for _ in range(5)), "\n" * 5000,
                        "User-agent: *\nDisallow: /" + "x" * 3000,
                        "User-agent: *", ":", "User-agent:\nDisallow:", "\0"
                    ]), "text/plain")
                w.sites[host] = pages
                f = [("urlstart", "http://%s:%d/" % (host, w.port)),
                     ("count", "200")]
                for _ in range(rng.choice([0, 0, 3])):
                    f.append(("dontcrawl", junk(rng)[:100]))
                body, ct = web.urlencoded(f)
                k = web.send_request(c.port, body, ct)
                k.response()
                k.close()
                for t, r in pages.items():
                    rep["%s%s" % (host, t.replace("/", "_"))] = r.raw()
                rep["request-%s" % host] = body
            try:
                log = finish(w, c, hosts, what, rep)
            except core.Violation as e:
                e.files = rep
                raise
            c.d.check_healthy(what, rep)
            st.case((what,), True)
            st.count("hostile pages fetched",
                     sum(t != "/robots.txt" for h, t, m in log))
            for h in [h for h in w.sites]:
                del w.sites[h]
        for n, d in c.files().items():
            # (expat knows fewer names than XML 1.0 has)
            if any(x > 126 for x in d):
                continue
            try:
                expat.ParserCreate().Parse(d, True)
            except expat.ExpatError as e:
                raise core.Violation("C02: harvest of hostile pages is not "
                                     "well-formed: %s" % e, "", {n: d})
            st.count("harvests of hostile pages parsed")
        c.quiet()
        c.d.finish("C02 hostile %s" % seed)
    finally:
        w.close()
        c.d.kill()


def job(st, item, scratch):
    {"queue": queue_job, "content": content_job, "pack": pack_job,
     "hostile": hostile_job}[item[0]](st, item, scratch)


def body(ck):
    global BIN
    BIN = {v: build.build(v, ["crawlerd"])["crawlerd"]
           for v in ("asan", "tsan")}
    q = core.pick
    items = [("queue", "%d-%d" % (ck.seed, i), "asan", q(12, 150))
             for i in range(q(8, 32))]
    items += [("queue", "%d-t%d" % (ck.seed, i), "tsan", q(8, 100))
              for i in range(q(4, 16))]
    items += [("content", "%d-%d" % (ck.seed, i), q(12, 150))
              for i in range(q(8, 32))]
    items += [("pack", "%d-%d" % (ck.seed, i)) for i in range(q(2, 8))]
    items += [("hostile", "%d-%d" % (ck.seed, i), q(12, 150))
              for i in range(q(8, 32))]
    ck.rng.shuffle(items)
    ck.parallel(job, items)


if __name__ == "__main__":
    core.main("C02", body, rule=RULE, assumptions=[
        "formulas are delimited well if every <math of the page has its "
        "</math>; of these, the ones that are well-formed XML without named "
        "HTML entities are harvested; pages are in UTF-8",
        "HTML pages contribute whole math elements, XHTML pages the children "
        "of their MathML-Content annotations",
        "requests that crawlerd has not acknowledged when it is stopped, and "
        "its being stopped during a crawl, are not covered",
        "a value of more than 100 bytes or more than 128 exclusions may be "
        "refused, but not accepted and ignored"])
