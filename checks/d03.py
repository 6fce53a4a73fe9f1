"""D03: concurrent clients get the same answers as a lone client."""
import random
import threading
import time

from vlib import build, core, hostile, http, proc, search
from vlib.model import *

RULE = ("one evaluation = one response received while other requests were "
        "in flight, compared with the answer a lone client got; non-trivial "
        "= at least one other request overlapped it in time; distinct by "
        "(daemon, build, query, number of overlapping requests)")

HEADER = '<mws:query xmlns:mws="u"'


def queries(rng, g, roots, schema):
    out = []
    if schema:
        for _ in range(14):
            out.append(query_xml(
                [g.term() for _ in range(rng.choice([1, 4, 30]))],
                None, rng.choice([0, 2, 1000]),
                rng.choice(["json", "xml", None]), Style(rng, "m", .5),
                " schema_depth='%d' cutoff_mode='%s'" %
                (rng.randrange(5), rng.choice("AR"))))
    else:
        for _ in range(18):
            out.append(query_xml(
                g.query(roots, ranges=.2), rng.choice([None, 0, 3]),
                rng.choice([None, 5, 1000]),
                rng.choice([None, "xml", "json", "mws-ids"]),
                Style(rng, "m", .5)))
        out.append(query_xml(QVar("all"), None, 3000, "xml"))
        out.append(query_xml(QVar("all"), None, 3000, "json"))
        # names unknown to the index: encoding them must not change it
        for i in range(4):
            out.append(query_xml(T("apply", "", [
                T("csymbol", "unknown%d" % i), QVar("x")]), None, 10, "json"))
    for b in ("", "<", HEADER, HEADER + "/>", HEADER + "><mws:expr><ci>x",
              HEADER + "><mws:expr><ci>&bad;</ci></mws:expr></mws:query>",
              "junk" * 50):
        out.append(b)
    return [q.encode("utf-8") for q in out]


class ClientThread(threading.Thread):
    def __init__(self, port, qs, ref, seed, rounds, barrier, depth):
        threading.Thread.__init__(self)
        self.port = port
        self.qs = qs
        self.ref = ref
        self.rng = random.Random(seed)
        self.rounds = rounds
        self.barrier = barrier
        self.depth = depth
        self.log = []          # (query, t0, t1)
        self.error = None
        self.bad = None

    def run(self):
        try:
            c = http.Conn(self.port)
            self.barrier.wait()
            for _ in range(self.rounds):
                js = [self.rng.randrange(len(self.qs))
                      for _ in range(self.rng.randint(1, self.depth))]
                t0 = time.monotonic()
                c.send(b"".join(http.build_request(
                    "POST", "/", self.qs[j]) for j in js))
                for j in js:
                    r = c.response()
                    self.log.append((j, t0, time.monotonic()))
                    got = (r.status, r.get("content-type"),
                           http.canon(r.body, r.get("content-type")))
                    if got != self.ref[j]:
                        self.bad = (j, got)
                        c.close()
                        return
            c.close()
        except Exception as e:
            self.error = e
            self.barrier.abort()


class Aborter(threading.Thread):
    """Sends parts of requests and hangs up."""

    def __init__(self, port, qs, seed):
        threading.Thread.__init__(self)
        self.port = port
        self.qs = qs
        self.rng = random.Random(seed)
        self.stop = False
        self.n = 0

    def run(self):
        while not self.stop:
            raw = http.build_request("POST", "/", self.rng.choice(self.qs))
            try:
                c = http.Conn(self.port)
                c.send(raw[:self.rng.randrange(len(raw) + 1)])
                if self.rng.random() < .5:
                    time.sleep(self.rng.random() * .01)
                c.close()
                self.n += 1
            except OSError:
                pass
            time.sleep(.005)


def job(st, item, scratch):
    seed, which, variant = item
    rng = random.Random("d03-%s-%s" % (seed, which))
    g = Gen(rng, maxdepth=4)
    files = [g.file("a.harvest", 60)]
    roots = [r for e in files[0].items if isinstance(e, Expr)
             for r in e.roots]
    bins = BINS[variant]
    w = "D03 %s (%s)" % (which, variant)
    if which.startswith("schemad"):
        rep = {}
        extra = ["-c"] if which.endswith("-c") else []
        for _ in range(3):
            port = proc.free_port()
            d = proc.Daemon([bins["schemad"], "-p", str(port)] + extra,
                            scratch, port)
            if d.up:
                break
        else:
            raise core.Violation("%s: schemad did not start\n%s" %
                                 (w, d.describe()))
    else:
        sv = search.Served(bins, scratch, files, Style(rng, "m"), [which], w)
        rep = sv.rep
        d = search.start(bins, scratch, sv.args[which], w, rep)
    try:
        qs = queries(rng, g, roots, which.startswith("schemad"))
        ref = []
        c = http.Client(d.port)
        for q in qs:
            r = http.post(d, c, q, w + " lone client", rep)
            ref.append((r.status, r.get("content-type"),
                        http.canon(r.body, r.get("content-type"))))
        c.close()
        time.sleep(.05)
        n = 14
        barrier = threading.Barrier(n)
        ths = [ClientThread(d.port, qs, ref, "%s%d" % (seed, i),
                            core.pick(12, 60), barrier,
                            rng.choice([1, 3, 8])) for i in range(n)]
        ab = [Aborter(d.port, qs, i) for i in range(2)]
        for t in ths + ab:
            t.start()
        for t in ths:
            t.join()
        for t in ab:
            t.stop = True
            t.join()
        d.check_healthy(w, rep)
        for t in ths:
            if t.bad is not None:
                j, got = t.bad
                raise core.Violation(
                    "%s: under load a query is answered differently\nlone: "
                    "%r\nnow: %r" % (w, ref[j], got), "",
                    dict(rep, **{"query.xml": qs[j]}))
            if t.error is not None and not isinstance(
                    t.error, threading.BrokenBarrierError):
                raise core.Violation("%s: a request got no answer: %s\n%s" %
                                     (w, t.error, d.describe()), "", rep)
        ev = []
        for t in ths:
            for j, a, b in t.log:
                ev.append((a, 1, j))
                ev.append((b, -1, j))
        ev.sort()
        live = 0
        for when, k, j in ev:
            live += k
            if k > 0:
                st.case((which, variant, j, live), live > 1,
                        {"daemon": which, "build": variant,
                         "in flight": live})
                st.maximum("requests in flight", live)
                st.count("responses compared, " + variant)
        st.count("requests aborted", sum(t.n for t in ab))
        d.finish(w, rep)
    finally:
        d.kill()


def body(ck):
    global BINS
    BINS = {}
    for v in ("tsan", "asan"):
        BINS[v] = build.build(v, ["mwsd", "mws-index", "schemad"])
    items = [("%d-%d" % (ck.seed, i), w, v) for i in range(core.pick(4, 12))
             for w in ("memory", "saved", "exp", "schemad", "schemad-c")
             for v in ("tsan", "asan")]
    ck.parallel(job, items, workers=4)


if __name__ == "__main__":
    core.main("D03", body, rule=RULE, assumptions=[
        "races inside libxml2, leveldb, json-c and libmicrohttpd themselves "
        "are not observed (they are not instrumented)"])
