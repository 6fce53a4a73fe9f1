"""C01: the crawler's bounds, seen from the web it crawls."""
import posixpath
import random
from urllib.parse import quote as pquote

from vlib import build, core, http, proc, web

RULE = ("one evaluation = one crawl of a generated web site by crawlerd, "
        "judged by the request log of that site's web server; non-trivial = "
        "at least three pages were reachable; distinct by link graph, rules "
        "and limit")

FAIL = ("reset", "short")


class Site:
    """A random site: pages, links between them, robots rules, exclusions,
    limit. pages are targets (path with query)."""

    def __init__(self, rng, host, port, other):
        self.rng = rng
        self.host = host
        self.port = port
        # other hosts, with names that begin like this one or like which
        # this one begins
        self.others = [other]
        last = host.rsplit(".", 1)[1]
        self.others += [host + d for d in "0123456789"
                        if int(last + d) < 255][:3]
        if len(last) > 1:
            self.others.append(host[:-1])
        n = rng.choice([1, 3, 5, 8, 8, 12, 20, 20, 40])
        dirs = ["/"]
        for _ in range(rng.randint(0, 6)):
            dirs.append(rng.choice(dirs) + self.word() + "/")
        self.pages = []
        while len(self.pages) < n:
            d = rng.choice(dirs)
            p = d + (rng.choice(["", self.word(), self.word() + ".html",
                                 self.word(), self.word() + ".xhtml"]))
            k = rng.random()
            if k < .25:
                p += "?" + self.query()
            elif k < .45 and self.pages:
                p = self.twin(rng.choice(self.pages))
            if p.endswith("?") or p.split("?")[0].endswith("%20") or p in self.pages or p == "/robots.txt" or \
                    "//" in p or len(p) > 60:
                continue
            self.pages.append(p)
        self.start = rng.choice(self.pages)
        self.links = {p: [] for p in self.pages}
        shape = rng.choice(["tree", "tree", "random", "random", "cycle", "dense", "chain",
                            "star"])
        ps = self.pages[:]
        rng.shuffle(ps)
        if shape == "cycle":
            for a, b in zip(ps, ps[1:] + ps[:1]):
                self.links[a].append(b)
        elif shape == "chain":
            ps.remove(self.start)
            for a, b in zip([self.start] + ps, ps):
                self.links[a].append(b)
        elif shape == "dense":
            for a in ps:
                self.links[a] = [b for b in ps if rng.random() < .7]
        elif shape == "tree":
            ps.remove(self.start)
            ps.insert(0, self.start)
            for i in range(1, len(ps)):
                self.links[ps[rng.randrange(max(0, i - 5), i)]].append(ps[i])
        elif shape == "star":
            self.links[self.start] = ps[:]
        for a in ps:
            for _ in range(rng.choice([0, 0, 1, 2, 5])):
                self.links[a].append(rng.choice(ps))
            if self.links[a] and rng.random() < .4:
                # the same link again
                self.links[a] += [rng.choice(self.links[a])
                                  for _ in range(rng.randint(1, 4))]
        if rng.random() < .15:
            # many pages wait while few of them may be fetched
            more = ["/wait/%d.html" % i
                    for i in range(rng.choice([40, 60, 140, 300]))]
            self.pages += more
            self.links.update((p, []) for p in more)
            for a in rng.choice([[self.start], [self.start], ps]):
                self.links[a] += [p for p in more if rng.random() < .8]
        self.how = {}
        for p in ps:
            if rng.random() < .2:
                self.how[p] = rng.choice(["reset", "short", "chunked", "late",
                                          "404", "500", "302", "empty",
                                          "text", "xhtml", "none"])
        self.missing = ["/" + self.word() + "-missing%d" % i
                        for i in range(rng.choice([0, 0, 1, 3]))]
        self.rules()
        self.limit()

    def word(self):
        r = self.rng
        w = "".join(r.choice("abcdefxyzAZ019-_.~") for _ in range(
            r.randint(1, 6)))
        w = w.strip(".") or "w"
        k = r.random()
        if k < .06:
            w += r.choice(["%20", "%C3%A9", "%26"]) + "t"
        return w

    def twin(self, p):
        """A page easily mistaken for p."""
        r = self.rng
        k = r.randrange(6)
        if k == 0:      # differs in the query only, or extends it
            return p.split("?")[0] + \
                r.choice(["?" + self.query(), "x", "?", "/y"])
        if k == 1:      # the same characters, with another query or none
            q = p.replace("?", "", 1)
            i = r.randrange(1, len(q) + 1)
            if q[max(0, i - 2):i].count("%") or r.random() < .4:
                return q
            return q[:i] + "?" + q[i:]
        if k == 2:
            return p[:-1] if p.endswith("/") and len(p) > 1 else p + "/"
        if k == 3:
            return "/" + "".join(c if r.random() < .6 else c.swapcase()
                                 for c in p[1:]) if "%" not in p else p + "&"
        if k == 4:
            return p + (r.choice("&=;") if "?" in p else r.choice("_-;+"))
        i = r.randrange(1, len(p) + 1)
        return p if "%" in p else p[:i] + r.choice("ab19-_") + p[i:]

    def query(self):
        r = self.rng
        return "&".join("%s=%s" % (r.choice("abcq"), r.choice(
            ["1", "2", "12", "x", "", "%20", "a/b"]))
            for _ in range(r.choice([1, 1, 1, 2])))

    # --- rules -------------------------------------------------------------
    def prefix(self):
        r = self.rng
        p = r.choice(self.pages)
        k = r.random()
        if k < .35:
            return p
        if k < .6:
            return p.rsplit("/", 1)[0] + "/"
        if k < .7:
            return p.split("?")[0]
        if k < .75:
            return "/nowhere" + p
        if k < .8 and r.random() < .2:
            return "/"
        i = r.randint(min(2, len(p)), len(p))
        while p[:i].endswith("%") or len(p[:i]) > 1 and p[:i][-2] == "%":
            i += 1
        return p[:i]

    def rules(self):
        r = self.rng
        self.disallow = []
        self.maybe = []
        self.robots = None
        if r.random() < .75:
            self.robots = self.make_robots()
        self.exclude = []
        self.exclude_field = []
        for _ in range(r.choice([0, 0, 0, 1, 2, 5, 20])):
            p = self.prefix()
            if p == "/" and r.random() < .7:
                continue
            k = r.random()
            if k < .6:
                f = p
            elif k < .9:
                f = "http://%s:%d%s" % (self.host, self.port, p)
            else:
                # another host's
                f = "http://%s:%d%s" % (r.choice(self.others), self.port, p)
            if len(f) > 99:
                continue
            self.exclude_field.append(f)
            if k < .9:
                self.exclude.append(p)

    def make_robots(self):
        r = self.rng
        nl = r.choice(["\n", "\n", "\r\n"])
        out = []
        odd = r.random() < .4

        def field(name, value):
            if odd:
                name = r.choice([name, name.lower(), name.upper()])
                sep = r.choice([": ", ":", ":  ", ":\t", " : "])
            else:
                sep = ": "
            s = name + sep + value
            if odd and r.random() < .2:
                s += r.choice([" ", "\t", "  # why", " #"])
            return s
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            agents = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                agents.append(r.choice(["*", "*", "Googlebot", "bot/2.1",
                                        "a*", "**"]))
            if "*" not in agents and r.random() < .4:
                agents[r.randrange(len(agents))] = "*"
            for a in agents:
                out.append(field("User-agent", a))
                if r.random() < .1:
                    out.append("# a comment")
            ours = "*" in agents
            doubtful = not ours and any("*" in a for a in agents)
            n = r.choice([0, 1, 1, 2, 3, 8])
            for _ in range(n):
                k = r.random()
                if k < .1:
                    out.append(field("Disallow", ""))
                elif k < .17:
                    out.append(r.choice([
                        "Crawl-delay: 10", "Sitemap: http://x/s.xml",
                        "nonsense", ": :", "Disallow", "# Disallow: /",
                        "Noindex: /", "\x00\xff"]))
                elif k < .2:
                    out.append(field("Disallow", r.choice(
                        ["http://", "mailto:a", "//", ":", "http:///",
                         "%", "/%zz-no", "\\", "#x", "x" * 3000])))
                    if ours:
                        # (whatever that means, it may mean anything)
                        self.maybe.append("")
                else:
                    p = self.prefix()
                    out.append(field("Disallow", p))
                    if ours:
                        self.disallow.append(p)
                    elif doubtful:
                        self.maybe.append(p)
            # (a group without rules would join the next one's agents)
            out.append(field("Disallow", ""))
            if r.random() < .5:
                out.append("")
        if r.random() < .2:
            out.insert(0, r.choice(["", "# robots", "Disallow: /zzz"]))
        s = nl.join(out)
        if r.random() < .8:
            s += nl
        return s

    def blocked(self, t):
        """Certainly disallowed."""
        return any(t.startswith(p) for p in self.disallow + self.exclude)

    def doubtful(self, t):
        """A rule with a slash at the end may include the page without it,
        and what begins like that."""
        return any(t.startswith(p.rstrip("/")) for p in
                   self.disallow + self.exclude + self.maybe)

    def limit(self):
        r = self.rng
        k = r.random()
        self.max = None
        if k < .3:
            self.count = None
        elif k < .4:
            self.count = r.choice(["0", "-1", "abc", "", "-20"])
        else:
            self.max = r.choice([1, 2, 3, 5, len(self.pages),
                                 r.randint(1, 30), 10 ** 6])
            self.count = str(self.max)

    # --- rendering ---------------------------------------------------------
    def href(self, src, dst):
        r = self.rng
        path, _, query = dst.partition("?")
        q = "?" + query if query else ""
        forms = ["abs", "root", "rel", "rel", "proto"]
        if path == src.split("?")[0] and q:
            forms += ["query"] * 5
        f = r.choice(forms)
        hp = "%s:%d" % (self.host, self.port)
        p2 = path
        if r.random() < .1:
            p2 = p2.replace("%20", " ").replace("%C3%A9", "\u00e9")
        if f != "rel" and r.random() < .1:
            p2 = r.choice(["/./", "/zz/../", "/a/b/../../"]) + p2[1:]
        if f == "abs":
            u = r.choice(["http://", "http://", "HTTP://"]) + hp + p2 + q
            if path == "/" and r.random() < .5:
                u = "http://" + hp + q
        elif f == "proto":
            u = "//" + hp + p2 + q
        elif f == "query":
            u = q
        elif f == "rel":
            base = src.split("?")[0].rsplit("/", 1)[0] + "/"
            d, last = path.rsplit("/", 1)
            rel = posixpath.relpath(d + "/", base)
            if rel == ".":
                u = last
            else:
                u = rel + "/" + last
            if u == "" or ":" in u.split("/")[0] or r.random() < .2:
                u = "./" + u
            u = u.replace("%20", " ") if r.random() < .05 else u
            u += q
        else:
            u = p2 + q
            if u.startswith("//"):
                u = path + q
        if r.random() < .15:
            u += "#" + r.choice(["", "x", "a/b", "top?x=1"])
        return u

    def anchor(self, u):
        r = self.rng
        if "&" in u and r.random() < .6:
            u = u.replace("&", r.choice(["&amp;", "&amp;", "&#38;"]))
        k = r.random()
        if k < .7:
            a = 'href="%s"' % u
        elif k < .85:
            a = "href='%s'" % u
        elif not any(c in u for c in " \"'=<>`&?#") and u and \
                not u.endswith("/"):
            a = "href=%s" % u
        else:
            a = 'href="%s"' % u
        if r.random() < .2:
            a = r.choice(['class="x" ', "id=i ", "title='a > b' ".replace(
                ">", "&gt;"), "\n\t"]) + a
        if r.random() < .2:
            a += r.choice([' target="_blank"', " rel=nofollow", "\n", " "])
        t = r.choice(["a", "a", "a", "A"])
        if t == "A":
            a = a.replace("href", r.choice(["HREF", "Href"]), 1)
        return "<%s %s>%s</%s>" % (t, a, r.choice(["link", "<b>x</b>", "",
                                                   "\u00e9", "&amp;"]), t)

    def body(self, p):
        r = self.rng
        items = [self.anchor(self.href(p, d)) for d in self.links[p]]
        for _ in range(r.choice([0, 0, 1, 3])):
            items.append(self.anchor(r.choice([
                "#", "", "mailto:a@b.c", "javascript:void(0)", "#frag",
                "http://%s:%d%s" % (r.choice(self.others), self.port,
                                    r.choice(self.pages)),
                "//%s:%d/off" % (r.choice(self.others), self.port),
                "http://", "http://[", "tel:1", "data:x",
                "file:///nowhere/x", "http://0x7f.1.1.1.1.1/",
            ])))
        for m in self.missing:
            if r.random() < .3:
                items.append(self.anchor(m))
        if r.random() < .2:
            items.append("<a name='n'>no link</a>")
        r.shuffle(items)
        sep = r.choice(["\n", "<p>", "<br/>", " text ", "</p><div>"])
        s = "<html><head><title>%s</title></head><body>%s</body></html>" % (
            p.replace("&", "&amp;"), sep.join(items))
        if r.random() < .1:
            s = "<!DOCTYPE html>\n" + s
        return s

    def render(self):
        out = {}
        for p in self.pages:
            how = self.how.get(p)
            b = self.body(p)
            ct = "text/html" + self.rng.choice(["", "; charset=utf-8"])
            if how in ("reset", "short", "chunked", "late"):
                out[p] = web.Resp(b, ct, how=how)
            elif how == "404":
                out[p] = web.Resp(b, ct, status="404 Not Found")
            elif how == "500":
                out[p] = web.Resp(b, ct, status="500 Oops")
            elif how == "302":
                out[p] = web.Resp(b, ct, status="302 Found", headers=[
                    "Location: " + self.rng.choice(self.pages)])
            elif how == "empty":
                out[p] = web.Resp("", ct)
            elif how == "text":
                out[p] = web.Resp(b, "text/plain")
            elif how == "xhtml":
                out[p] = web.Resp(b, "application/xhtml+xml")
            elif how == "none":
                out[p] = web.Resp(b, None)
            else:
                out[p] = web.Resp(b, ct)
        if self.robots is not None:
            out["/robots.txt"] = web.Resp(self.robots, self.rng.choice(
                ["text/plain", "text/plain; charset=utf-8", None]))
        return out

    # --- the oracle --------------------------------------------------------
    def reach(self, certain):
        """Pages that must (may) be visited without a limit."""
        seen = [self.start]
        for p in seen:
            how = self.how.get(p)
            if p in self.missing:
                continue
            out = list(self.links[p])
            if certain:
                if how in ("reset", "short", "404", "500", "302", "text",
                           "none", "empty"):
                    continue
                out = [d for d in out if not self.doubtful(d)]
            else:
                if how == "302":
                    out += self.pages
                out = [d for d in out + self.missing if not self.blocked(d)]
            for d in out:
                if d not in seen:
                    seen.append(d)
        return seen

    def fields(self):
        r = self.rng
        u = "http://%s:%d%s" % (self.host, self.port, self.start)
        if self.start == "/" and r.random() < .5:
            u = u[:-1]
        if r.random() < .1:
            u += "#frag"
        f = [("urlstart", u)]
        if self.count is not None:
            f.append(("count", self.count))
        f += [("dontcrawl", x) for x in self.exclude_field]
        if r.random() < .3:
            r.shuffle(f)
        return f

    def judge(self, log, what, rep):
        got = []
        for t, m in log:
            if m != "GET":
                self.bad("a %s request" % m, what, rep, log)
            if t != "/robots.txt":
                got.append(t)
        must, may = self.reach(True), self.reach(False)
        if not got or got[0] != self.start:
            self.bad("does not begin with the start page %s" % self.start,
                     what, rep, log)
        for t in got:
            if t not in may:
                why = "no page links to it" if t not in self.pages + \
                    self.missing else "disallowed" if self.blocked(t) else \
                    "only reachable over disallowed pages"
                self.bad("requests %s: %s" % (t, why), what, rep, log)
            if got.count(t) > 1:
                self.bad("requests %s %d times" % (t, got.count(t)), what,
                         rep, log)
        if self.max is not None and len(got) > self.max:
            self.bad("requests %d pages instead of at most %d" %
                     (len(got), self.max), what, rep, log)
        lost = [t for t in must if t not in got]
        if lost and (self.max is None or len(got) < self.max):
            self.bad("never requests %s" % lost[:5], what, rep, log)
        return len(got), len(must), len(may)

    def bad(self, text, what, rep, log):
        raise core.Violation(
            "%s: the crawler %s\nstart %s limit %s\ndisallowed %s\nexcluded "
            "%s\nrequests %s" % (what, text, self.start, self.count,
                                 self.disallow, self.exclude,
                                 [t for t, m in log]), "", rep)

    def files(self, rendered):
        out = {}
        for i, (t, r) in enumerate(sorted(rendered.items())):
            out["page%d.txt" % i] = t.encode() + b"\n\n" + r.raw()
        return out


def job(st, seed, scratch):
    rng = random.Random("c01-%s" % seed)
    w = web.Web()
    c = web.Crawler(BIN, "asan", scratch)
    hosts = web.fresh_hosts(rng)
    try:
        for rnd in range(core.pick(22, 150)):
            other = next(hosts)
            sites = []
            for _ in range(rng.randint(1, 12)):
                s = Site(rng, next(hosts), w.port, other)
                r = s.render()
                w.sites[s.host] = r
                sites.append((s, r, s.fields()))
            # (one more marks the end)
            end = next(hosts)
            w.sites[end] = {"/": web.Resp("end")}
            what = "C01 seed %s round %d" % (seed, rnd)
            rep = {}
            for s, r, f in sites + [(None, None, [(
                    "urlstart", "http://%s:%d/" % (end, w.port)),
                    ("count", "1")])]:
                b, ct = web.urlencoded(f, rng)
                k = web.send_request(c.port, b, ct)
                a = k.response()
                k.close()
                if a.status != 200 or b"We sent the request" not in a.body:
                    raise core.Violation(
                        "%s: crawl request %s not accepted: %s %s" %
                        (what, f, a, a.body), "", {"request.txt": b})
            log = web.wait_for(
                w, lambda l: any(h == end and t == "/" for h, t, m in l),
                c.d, what)
            with w.lock:
                w.log = []
            own = {s.host for s, r, f in sites} | {end}
            off = [(h, t) for h, t, m in log if h not in own and
                   any(h in s.others for s, r, f in sites)]
            if off:
                raise core.Violation("%s: left the hosts it was to crawl: %s"
                                     % (what, off), "", rep)
            for s, r, f in sites:
                rep = s.files(r)
                rep["request.txt"] = repr(f)
                mine = [(t, m) for h, t, m in log if h == s.host]
                n, must, may = s.judge(mine, what, rep)
                st.case((tuple(sorted((k, tuple(v)) for k, v in
                                      s.links.items())),
                         tuple(s.disallow), tuple(s.exclude), s.count),
                        must > 2,
                        {"pages": len(s.pages), "requested": n,
                         "limit": s.count, "disallowed": s.disallow,
                         "excluded": s.exclude, "start": s.start})
                st.count("crawls")
                st.count("page requests", n)
                st.count("pages that had to be visited", must)
                st.count("pages held back by rules",
                         sum(s.blocked(p) for p in s.pages))
                if s.max is not None and s.max < must:
                    st.count("crawls ended by their limit")
                if any(h in FAIL for h in s.how.values()):
                    st.count("crawls with failing pages")
                st.maximum("pages requested in one crawl", n)
                del w.sites[s.host]
            c.d.check_healthy(what, rep)
    finally:
        w.close()
        c.d.kill()


def body(ck):
    global BIN
    BIN = build.build("asan", ["crawlerd"])["crawlerd"]
    ck.parallel(job, ["%d-%d" % (ck.seed, i)
                      for i in range(core.pick(8, 64))])


if __name__ == "__main__":
    core.main("C01", body, rule=RULE, assumptions=[
        "the start page is asked for and so allowed; a page and its variants "
        "by fragment are one page, different queries are different pages",
        "rules are prefixes of path and query; pages that only match a rule "
        "ending in '/' without that slash may be visited or not, as may "
        "pages linked only from error pages, and wildcards are not used",
        "pages on other ports of the same host are not linked"])
