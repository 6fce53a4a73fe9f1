"""Q03: paged windows tile the full answer list."""
import random

from vlib import build, core, search
from vlib.model import *

RULE = ("one evaluation = one window (offset, page size) compared with the "
        "slice of the unpaged list; non-trivial = the window cuts the list; "
        "distinct by (answers in list, offset, size)")


def corpus(rng, kind):
    if kind == "dup":            # long runs of hits on one formula
        g = Gen(rng, words=["x", "y"], nums=["1"], maxdepth=2,
                tags=["apply"], heads=["plus"], leafs=["ci", "cn"])
        return g, [g.file("r%d.harvest" % i, 80, i * 1000) for i in range(2)]
    if kind == "single":         # every formula once
        g = Gen(rng, words=["w%d" % i for i in range(400)], maxdepth=2)
        return g, [g.file("s.harvest", 60)]
    g = Gen(rng)
    return g, [g.file("a%d.harvest" % i, 40, i * 100) for i in range(2)]


def windows(rng, n):
    pts = [0, 1, 2, 29, 30, 31, n // 2, n - 1, n, n + 1, n + 1000]
    pts = [p for p in pts if p >= 0]
    out = [(None, None), (None, 0), (None, 1), (None, 7), (0, n), (0, n + 1)]
    for _ in range(8):
        out.append((rng.choice(pts + [rng.randrange(n + 2)]),
                    rng.choice([1, 2, 3, 5, 10, 30, n, 2147483647,
                                rng.randrange(1, n + 2)])))
    out.append((rng.choice(pts), None))
    out.append((2147483647, 2147483647))
    for _ in range(2):           # size and offset beyond 32 bits together
        out.append((rng.choice(pts), 2 ** 32 - rng.randint(1, 40)))
    return out


def keys(a):
    return [(x.key(), tuple(x.subst or ())) for x in a.answers]


def job(st, item, scratch):
    seed, kind, nq = item
    rng = random.Random("q03-%s-%s" % (seed, kind))
    g, files = corpus(rng, kind)
    with search.Served(BINS, scratch, files, Style(rng, "m"),
                       ["memory", "saved", "exp"], "Q03") as sv:
        qs = [QVar(""), QVar("x"), T("apply", "", [T("plus"), QVar("a"),
                                                   QVar("b")]),
              T("ci", "x"), T("apply", "", [QVar("a"), QVar("b")]),
              T("ci", "nowhere")]
        qs += [g.query(sv.roots, ranges=.1) for _ in range(nq)]
        for mode, ask in sv.each():
            for q in qs:
                if mode == "exp" and any(isinstance(s, Range)
                                         for s in q.subterms()):
                    continue
                full = ask.xml(q)
                n = len(full.answers)
                fk = keys(full)
                fj = [k[0] for k in fk]
                if full.total != n:
                    raise core.Violation(
                        "Q03 %s: total %d, unpaged list has %d" %
                        (mode, full.total, n), "", ask.ctx(full.query))

                def check(off, size, fmt):
                    a = (ask.xml if fmt == "xml" else ask.json)(
                        q, limitmin=off, answsize=size)
                    o = off or 0
                    s = 30 if size is None else size
                    got = keys(a) if fmt == "xml" else \
                        [x.key() for x in a.answers]
                    want = (fk if fmt == "xml" else fj)[o:o + s]
                    if got != want:
                        raise core.Violation(
                            "Q03 %s: window offset=%s size=%s is not that "
                            "slice of the %d answers: got %d\n%s" % (
                                mode, off, size, n, len(got),
                                search.diff(want, got)), "",
                            ask.ctx(a.query))
                    if a.total != full.total:
                        raise core.Violation(
                            "Q03 %s: total %d for window %s+%s, %d unpaged" %
                            (mode, a.total, off, size, full.total), "",
                            ask.ctx(a.query))
                    st.case((n, o, s), 0 < len(got) < n,
                            {"answers": n, "offset": off, "size": size,
                             "mode": mode})
                    return got

                for off, size in windows(rng, n):
                    check(off, size, rng.choice(["xml", "xml", "json"]))
                # tiling: consecutive windows reproduce the list
                if n:
                    s = rng.choice([1, 2, 3, 7, 30, max(1, n // 3)])
                    if n / s > 40:
                        s = max(1, n // rng.randint(5, 30))
                    acc = []
                    for o in range(0, n + s, s):
                        acc += check(o, s, "xml")
                    if acc != fk:
                        raise core.Violation(
                            "Q03 %s: windows of %d do not tile the list" %
                            (mode, s), "", ask.ctx(full.query))
                    st.count("tilings")
                st.maximum("answers in one list", n)
                st.count("lists in %s mode" % mode)


def scale(st, item, scratch):
    """Lists longer than the counts a 16 bit number holds, and the largest
    total which is reported."""
    seed, mode = item
    rng = random.Random("q03-scale-%s" % seed)
    x = T("ci", "x")
    y = T("ci", "y")
    files = [HarvestFile("s.harvest", [
        Expr([(x if i < 65536 else y).clone()], "u%d" % i)
        for i in range(65536 + 40000)])]
    with search.Served(BINS, scratch, files, Style(rng, "none"), [mode],
                       "Q03 scale", keep_files=False) as sv:
        for _, ask in sv.each():
            for q, n in ((x, 65536), (y, 40000), (QVar(""), 100000)):
                full = ask.xml(q, answsize=200000)
                fk = [k[0] for k in keys(full)]
                want = set("u%d" % i for i in range(65536 + 40000)
                           if q is not y and i < 65536
                           or q is not x and i >= 65536)
                us = set(k[0] for k in fk)
                if full.total != n or len(fk) != n or len(us) != n or \
                        not us <= want:
                    raise core.Violation(
                        "Q03 %s: %d answers for %d formulas, total %d, "
                        "expected %d" % (mode, len(fk), len(us), full.total,
                                         n), "", ask.ctx(full.query))
                pts = [0, 255, 256, 32767, 32768, 33000, 39990, 40000, 65535,
                       65536, 65540, 69999, 99990, 99999, 100000, 105530,
                       105536, 2 ** 31 - 1] + [rng.randrange(n)
                                               for _ in range(6)]
                for off in pts:
                    size = rng.choice([1, 7, 30, 300])
                    if rng.random() < .1:
                        size = rng.choice([32768, 65536, 65537])
                    a = (ask.xml if rng.random() < .7 else ask.json)(
                        q, limitmin=off, answsize=size)
                    got = [k[0] for k in keys(a)]
                    if got != fk[off:off + size] or a.total != n:
                        raise core.Violation(
                            "Q03 %s: window offset=%s size=%s total=%d is "
                            "not that slice of the %d answers: got %d\n%s" %
                            (mode, off, size, a.total, n, len(got),
                             search.diff(fk[off:off + size], got)), "",
                            ask.ctx(a.query))
                    st.case((n, off, size), 0 < len(got) < n,
                            {"answers": n, "offset": off, "size": size,
                             "mode": mode})
                st.maximum("answers in one list", n)
                st.count("lists in %s mode" % mode)


def any_job(st, item, scratch):
    (scale if len(item) == 2 else job)(st, item, scratch)


def body(ck):
    global BINS
    BINS = build.build("asan", ["mwsd", "mws-index"])
    n = core.pick(5, 40)
    items = [("%d" % ck.seed, m) for m in ("memory", "saved", "exp")]
    items += [("%d-%d" % (ck.seed, i), k, 14) for i in range(n)
              for k in ("dup", "single", "mixed")]
    ck.parallel(any_job, items)


if __name__ == "__main__":
    core.main("Q03", body, rule=RULE, assumptions=[
        "offsets and sizes are decimal numbers up to 2^31-1, sizes up to "
        "2^32-1"])
