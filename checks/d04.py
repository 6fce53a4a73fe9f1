"""D04: serving requests accumulates no memory, threads or descriptors."""
import os
import random
import time

from vlib import build, core, heap, hostile, http, proc, search
from vlib.model import *

RULE = ("one evaluation = one round of requests of one kind after which the "
        "daemon's live heap blocks and bytes, threads and descriptors were "
        "compared with the round before; non-trivial = every round; distinct "
        "by (daemon, kind, round)")

HEADER = '<mws:query xmlns:mws="u"'


def kinds(rng, g, roots, schema):
    """{kind: function giving the next raw request or (raw, cut)}"""
    n = [0]

    def post(x):
        if isinstance(x, str):
            x = x.encode("utf-8")
        return http.build_request("POST", "/", x), None

    def valid(fmt):
        if schema:
            return lambda: post(query_xml(
                [g.term() for _ in range(rng.randint(1, 6))], None,
                rng.choice([0, 1, 100]), fmt, Style(rng, "m", .5),
                " schema_depth='%d'" % rng.randrange(5)))
        return lambda: post(query_xml(
            g.query(roots, ranges=.3), rng.choice([None, 0, 2]),
            rng.choice([0, 5, 500]), fmt, Style(rng, "m", .5)))

    def names():
        n[0] += 1
        return post(query_xml(T("apply", "", [
            T("csymbol", "name%06d" % n[0]), T("ci", "n%06d" % n[0]),
            QVar("q%06d" % n[0])]), None, 10, rng.choice(["xml", "json"])))

    def pageful():
        return post(query_xml(QVar("all"), None, 1000,
                              rng.choice(["xml", "json"])))

    def errors():
        x = query_xml([g.term() for _ in range(3)] if schema else
                      g.query(roots), None, 10, "json", Style(rng, "m", .5))
        k = rng.randrange(6)
        if k == 0:
            x = x[:rng.randrange(len(x))]
        elif k == 1:
            i = x.rindex("</mws:expr>")
            x = x[:i] + rng.choice(["&undef;", "<", "</no>", "\x01"]) + x[i:]
        elif k == 2:
            i = x.index("<mws:expr>") + 10
            x = x[:i] + rng.choice(["<a><b>&undef;", "<a b='1' b='2'>"]) + \
                x[i:]
        elif k == 3:
            x = rng.choice(["", "junk", HEADER + "/>",
                            HEADER + "><mws:expr/></mws:query>"])
        elif k == 4:
            # the parser gives up on documents this deep
            i = x.rindex("</mws:expr>")
            x = x[:i] + rng.choice(["", "</mws:expr><mws:expr>"]) + \
                "<a>" * 300 + "</a>" * 300 + x[i:]
            if rng.random() < .5:
                x = rng.choice([
                    "<!DOCTYPE a [<!ENTITY e 'x'>]>",
                    "<!DOCTYPE a [<!ENTITY e 'x'><!ENTITY y '&y]>",
                    "<!DOCTYPE a [<!ENTITY e 'x'><!ENTITY y 'y]>"]) + x
        else:
            x = x + "<again/>"
        return post(x)

    def hostiles():
        b = hostile.extreme_query(rng)
        return post(hostile.mutate(rng, b, [b]) if rng.random() < .5 else b)

    def toobig():
        # not encodable: ends on an error path of the encoder
        t = rng.choice([
            T("apply", "", [T("ci", "x") for _ in range(256)]),
            T("apply", "", [Range("1", "2") for _ in range(40)]),
            T("apply", "", [QVar("v%d" % i) for i in range(150)]),
            T("apply", "", [T("ci", "nowhere"), QVar("x")])])
        return post(query_xml(t, None, 10, rng.choice(["xml", "json"])))

    def other():
        return http.build_request(rng.choice(
            ["GET", "OPTIONS", "PUT", "HEAD", "DELETE"]), rng.choice(
            ["/", "/x", "/?q"]), rng.choice([None, b"body"])), None

    def aborted():
        raw = post(query_xml(g.query(roots) if roots else g.term(), None, 10,
                             rng.choice(["xml", "json"])))[0]
        if rng.random() < .3:
            raw = raw.replace(b"Content-Length", b"Content-Length: 99999999"
                              b"\r\nX-Old")
            raw += b" " * rng.choice([0, 1000, 40000, 200000])
        return raw, rng.randrange(len(raw) + 1)
    out = {"xml answers": valid("xml"), "json answers": valid("json"),
           "new names": names, "malformed": errors, "hostile": hostiles,
           "not encodable": toobig, "other methods": other,
           "aborted": aborted}
    if not schema:
        out["ids answers"] = valid("mws-ids")
        out["full pages"] = pageful
    return out


class Load:
    def __init__(self, port):
        self.port = port
        self.c = None

    def go(self, raw, cut, rng):
        if cut is not None:
            c = http.Conn(self.port)
            try:
                c.send(raw[:cut])
                if rng.random() < .3:
                    c.s.setsockopt(1, 13, b"\1\0\0\0\0\0\0\0")   # reset
            except OSError:
                pass
            c.close()
            return
        for attempt in (0, 1):
            try:
                if self.c is None:
                    self.c = http.Conn(self.port)
                self.c.send(raw)
                r = self.c.response(head=raw.startswith(b"HEAD"))
                if r.closed or rng.random() < .1:
                    self.close()
                return
            except (http.HttpError, OSError):
                self.close()

    def close(self):
        if self.c:
            self.c.close()
            self.c = None


def settle(d, base, hc):
    """Waits until no connection is left; (threads, fds, heap)."""
    t0 = time.time()
    last = None
    while time.time() - t0 < 20:
        now = heap.census(d.p.pid) + heap.counters(hc)[:2]
        if base is None or (now[0] <= base[0] and now[1] <= base[1]):
            if now == last:
                return now
        last = now
        time.sleep(.03)
    return now


def start(which, bins, scratch, rng, g, w, **kw):
    if which.startswith("schemad"):
        extra = ["-c"] if which.endswith("-c") else []
        for _ in range(3):
            port = proc.free_port()
            d = proc.Daemon([bins["schemad"], "-p", str(port)] + extra,
                            scratch, port, **kw)
            if d.up:
                return d, {}, []
        raise core.Violation("%s: schemad did not start\n%s" %
                             (w, d.describe()))
    files = [g.file("a.harvest", 40)]
    roots = [r for e in files[0].items if isinstance(e, Expr)
             for r in e.roots]
    sv = search.Served(bins, scratch, files, Style(rng, "m"), [which], w)
    return search.start(bins, scratch, sv.args[which], w, sv.rep, **kw), \
        sv.rep, roots


def growth(st, item, scratch):
    seed, which = item[:2]
    rng = random.Random("d04-%s-%s" % (seed, which))
    g = Gen(rng, maxdepth=3)
    w = "D04 " + which
    hc = os.path.join(scratch, "heap")
    d, rep, roots = start(which, PLAIN, scratch, rng, g, w, user_env={
        "LD_PRELOAD": HEAPSO, "HEAPCOUNT": hc})
    try:
        ks = kinds(rng, g, roots, which.startswith("schemad"))
        load = Load(d.port)
        for _ in range(3):          # caches, lazily allocated state
            for name, f in ks.items():
                for _ in range(25):
                    load.go(*f(), rng)
        load.close()
        settle(d, None, hc)
        time.sleep(.2)
        base = settle(d, None, hc)
        per = core.pick(70, 400)
        for name, f in ks.items():
            seen = []
            reqs = []
            for rnd in range(4):
                for _ in range(per):
                    r = f()
                    reqs = reqs[-40:] + [r[0][:r[1]]]
                    load.go(*r, rng)
                load.close()
                now = settle(d, base, hc)
                seen.append(now)
                st.case((which, name, rnd), True, {
                    "daemon": which, "kind": name, "requests": per,
                    "threads": now[0], "descriptors": now[1],
                    "live blocks": now[2], "live bytes": now[3]})
                st.count("requests, " + name, per)
                if now[0] > base[0] or now[1] > base[1]:
                    raise core.Violation(
                        "%s: %d threads and %d descriptors remain after %s "
                        "requests (%d and %d before)" %
                        (w, now[0], now[1], name, base[0], base[1]), "",
                        dict(rep, **{"req%02d" % i: r
                                     for i, r in enumerate(reqs)}))
            steps = [b[2] - a[2] for a, b in zip(seen, seen[1:])]
            sizes = [b[3] - a[3] for a, b in zip(seen, seen[1:])]
            st.maximum("live blocks gained over 3 rounds", sum(steps))
            st.maximum("live bytes gained over 3 rounds", sum(sizes))
            # grows in every round, in step with the number of requests
            if min(steps) > per * .04 or (min(sizes) > per * 8):
                raise core.Violation(
                    "%s: memory grows with %s requests: +%s live blocks, +%s "
                    "bytes in rounds of %d" % (w, name, steps, sizes, per),
                    "", dict(rep, **{"req%02d" % i: r
                                     for i, r in enumerate(reqs)}))
        d.check_healthy(w, rep)
        d.finish(w, rep)
    finally:
        d.kill()


def leaks(st, item, scratch):
    seed, which = item[:2]
    rng = random.Random("d04l-%s-%s" % (seed, which))
    g = Gen(rng, maxdepth=3)
    w = "D04 %s (leak checker)" % which
    d, rep, roots = start(which, ASAN, scratch, rng, g, w, leaks=True)
    try:
        ks = kinds(rng, g, roots, which.startswith("schemad"))
        load = Load(d.port)
        names = list(ks)
        reqs = []
        for _ in range(core.pick(150, 1500)):
            name = rng.choice(names)
            r = ks[name]()
            reqs = reqs[-80:] + [r[0][:r[1]]]
            load.go(*r, rng)
            st.count("requests under the leak checker")
        load.close()
        time.sleep(.2)
        rep = dict(rep, **{"req%02d" % i: r for i, r in enumerate(reqs)})
        d.check_healthy(w, rep)
        d.finish(w, rep)
        if "ptrace" in d.output() and "LeakSanitizer" in d.output():
            raise core.Infra("the leak checker cannot run: " +
                             d.output()[-500:])
        st.case((which, "leak checker", seed), True)
        st.count("shutdowns without leak")
    finally:
        d.kill()


def job(st, item, scratch):
    (growth if item[2] == "growth" else leaks)(st, item, scratch)


def body(ck):
    global ASAN, PLAIN, HEAPSO
    ASAN = build.build("asan", ["mwsd", "mws-index", "schemad"])
    PLAIN = build.build("plain", ["mwsd", "mws-index", "schemad"])
    HEAPSO = heap.shim("heapcount", ck.scratch)
    items = [("%d-%d-%d" % (ck.seed, i, j), w, how)
             for i in range(core.pick(2, 6))
             for j, how in enumerate(("growth", "leaks", "leaks"))
             for w in ("memory", "saved", "exp", "schemad", "schemad-c")]
    ck.parallel(job, items)


if __name__ == "__main__":
    core.main("D04", body, rule=RULE, assumptions=[
        "growth means more live heap in each of three successive rounds, by "
        "at least one block per 25 requests or 8 bytes per request"])
