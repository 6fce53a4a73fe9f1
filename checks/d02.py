"""D02: no request body can crash the daemon or change later answers."""
import random
import time

from vlib import build, core, hostile, http, proc, search
from vlib.model import *

RULE = ("one evaluation = one hostile body answered by an instrumented "
        "daemon with reference queries asked in between; non-trivial = every "
        "body; distinct by (daemon, body)")


def job(st, item, scratch):
    seed, which, n = item
    rng = random.Random("d02-%s-%s" % (seed, which))
    g = Gen(rng, maxdepth=3)
    files = [g.file("a.harvest", 25)]
    roots = [r for e in files[0].items if isinstance(e, Expr)
             for r in e.roots]
    # wide nodes, so that hostile queries get somewhere
    wide = [T("apply", "", [T("ci", "x") for _ in range(w)])
            for w in (31, 33, 64, 65, 130, 200, 255)]
    wide += [T("apply", "", [T("cn", str(i)) for i in range(w)])
             for w in (2, 31, 33, 66, 255)]
    t = T("ci", "x")
    for _ in range(180):
        t = T("apply", "", [t])
    wide.append(t)
    files.append(HarvestFile("b.harvest", [
        Expr([t], "w%d" % i) for i, t in enumerate(wide)]))
    rep = {}
    if which.startswith("schemad"):
        extra = ["-c"] if which.endswith("-c") else []
        for _ in range(3):
            port = proc.free_port()
            d = proc.Daemon([BINS["schemad"], "-p", str(port)] + extra,
                            scratch, port)
            if d.up:
                break
        else:
            raise core.Violation("D02: schemad did not start\n" +
                                 d.describe())
        refq = [query_xml([g.term() for _ in range(4)], None, 0, "json",
                          extra=" schema_depth='2'") for _ in range(3)]
    else:
        sv = search.Served(BINS, scratch, files, Style(rng, "m"), [which],
                           "D02")
        rep = sv.rep
        d = search.start(BINS, scratch, sv.args[which], "D02", rep)
        refq = [query_xml(g.query(roots), None, 1000, "json")
                for _ in range(3)] + \
               [query_xml(g.query(roots), None, 1000, "xml")]
    w = "D02 " + which
    try:
        c = http.Client(d.port)
        seeds = [query_xml(g.query(roots, ranges=.3), rng.choice(
            [None, 0, 1]), rng.choice([None, 5, 0]), rng.choice(
            [None, "xml", "json", "mws-ids"]), Style(rng, "mix", 1)).encode()
            for _ in range(20)]
        ref = []
        for q in refq:
            r = http.post(d, c, q, w + " reference", rep)
            if r.status != 200:
                raise core.Violation("%s: reference query answered %d" %
                                     (w, r.status), "",
                                     dict(rep, **{"query.xml": q}))
            ref.append(http.canon(r.body, r.get("content-type")))
        recent = []
        for i in range(n):
            k = rng.random()
            if k < .06:
                kind = "random bytes"
                b = bytes(rng.randrange(256) for _ in range(
                    rng.choice([0, 1, 3, 100, 3000])))
            elif k < .12:
                kind = "token soup"
                b = b"".join(rng.choice(hostile.TOKENS)
                             for _ in range(rng.randrange(60)))
            elif k < .5:
                kind = "mutated query"
                b = hostile.mutate(rng, rng.choice(seeds), seeds)
            elif k < .9:
                kind = "extreme query"
                b = hostile.extreme_query(rng)
                seeds[rng.randrange(len(seeds))] = b[:20000]
            else:
                kind = "mutated extreme query"
                b = hostile.mutate(rng, hostile.extreme_query(rng), seeds)
            recent = recent[-20:] + [b]
            f = dict(rep)
            for j, x in enumerate(recent):
                f["body-%02d" % j] = x
            r = http.post(d, c, b, "%s: %s" % (w, kind), f)
            if r.status not in (200, 400, 500):
                raise core.Violation("%s: %s answered %d" %
                                     (w, kind, r.status), "", f)
            st.case((which, b), True, {"daemon": which, "kind": kind,
                                       "status": r.status,
                                       "body": repr(b[:150])})
            st.count("%s answered %d" % (kind, r.status))
            st.maximum("body bytes", len(b))
            if i % 8 == 7 or i == n - 1:
                j = rng.randrange(len(refq))
                r = http.post(d, c, refq[j], w + " reference", f)
                if r.status != 200 or http.canon(
                        r.body, r.get("content-type")) != ref[j]:
                    raise core.Violation(
                        "%s: a reference query is answered differently "
                        "after hostile ones: %r\nnow %d %r" %
                        (w, ref[j], r.status, r.body[:1000]), "",
                        dict(f, **{"query.xml": refq[j]}))
                st.count("reference queries repeated")
                d.check_healthy("%s: %s" % (w, kind), f)
        c.close()
        d.check_healthy(w, f)
        d.finish(w, f)
    finally:
        d.kill()


def body(ck):
    global BINS
    BINS = build.build("asan", ["mwsd", "mws-index", "schemad"])
    n = core.pick(350, 3000)
    items = [("%d-%d" % (ck.seed, i), w, n) for i in range(core.pick(8, 24))
             for w in ("memory", "saved", "exp", "schemad", "schemad-c")]
    ck.parallel(job, items)


if __name__ == "__main__":
    core.main("D02", body, rule=RULE, assumptions=[
        "undefined behaviour is what ASan, UBSan (without alignment) and the "
        "checked standard containers report, plus crashes, hangs and changed "
        "answers"])
