"""Q07: a persisted index answers exactly like its harvests."""
import os
import random
import shutil

from vlib import bigindex, build, core, search
from vlib.model import *

RULE = ("one evaluation = one query whose full answer from one persisted "
        "serving (fresh, restarted, moved, rebuilt, built by the daemon) was "
        "compared with the answer from the harvests in memory; non-trivial = "
        "at least one hit; distinct by (query, serving)")


def corpus(rng, kind):
    g = Gen(rng)
    if kind == "big":
        g = Gen(rng, words=["w%d" % i for i in range(2000)],
                nums=[str(i) for i in range(-300, 300)], maxdepth=4)
        g.data_xml = lambda i: "<t k=\"%d\">%s</t>" % (
            i, rng.choice(["x" * rng.randrange(6000), "&amp;&lt;\u00e9", ""]))
        return g, [g.file("a%d.harvest" % i, 200, i * 1000)
                   for i in range(3)]
    if kind == "dup":
        g = Gen(rng, words=["x", "y"], nums=["1"], maxdepth=2)
        return g, [g.file("r%d.harvest" % i, 150, i * 1000) for i in range(2)]
    if kind == "open":           # with variables in the harvests
        g = Gen(rng, words=["x", "y"], nums=["1", "2"], maxdepth=4)
        f = g.file("o.harvest", 60)
        for it in f.items:
            if isinstance(it, Expr):
                it.roots = [g.generalise(t, .3, names=("x", "y", "v"))
                            for t in it.roots]
        return g, [f]
    if kind == "tiny":
        f = g.file("a.harvest", rng.randint(1, 3))
        return g, [f]
    g.data_xml = lambda i: rng.choice([
        "<a>%d</a>" % i, "text %d" % i, "", "<b k='&quot;&amp;'>&lt;%d"
        "</b><c/>" % i, "  spaced\n\n %d " % i])
    return g, [g.file("a%d.harvest" % i, rng.randint(5, 40), i * 100)
               for i in range(rng.randint(1, 4))]


def key(a):
    return sorted(x.key() + (tuple(x.subst or ()),) for x in a.answers)


def job(st, item, scratch):
    seed, kind, nq = item
    rng = random.Random("q07-%s-%s" % (seed, kind))
    g, files = corpus(rng, kind)
    extra = []
    if rng.random() < .3:
        extra.append("-c")
    sv = search.Served(BINS, scratch, files, Style(rng, "mix"),
                       ["memory"], "Q07", build_extra=extra,
                       keep_files=kind != "big")
    rep = sv.rep
    qs = [QVar(""), QVar("x"), T("apply", "", [QVar("f"), QVar("x")])]
    for i in range(nq):
        q = g.query(sv.roots, ranges=0 if extra else .1)
        qs.append(q)
    want = []
    for mode, ask in sv.each():
        for q in qs:
            a = ask.xml(q)
            want.append((a.total, key(a)))
    out = sv.out
    search.build_index(BINS, scratch, out, [sv.hd], extra, "Q07", rep)
    out2 = os.path.join(scratch, "idx2")
    search.build_index(BINS, scratch, out2, [sv.hd], extra, "Q07", rep)
    out3 = os.path.join(scratch, "idx3")
    servings = [("fresh", ["-D", out]), ("restarted", ["-D", out]),
                ("killed", ["-D", out]), ("after kill", ["-D", out]),
                ("rebuilt", ["-D", out2]),
                ("built by daemon", ["-D", out3, "-I", sv.hd]),
                ("reopened daemon build", ["-D", out3]),
                ("moved", ["-D", os.path.join(scratch, "moved")])]
    lists = {}
    for name, args in servings:
        if name == "moved":
            shutil.move(out, os.path.join(scratch, "moved"))
        w = "Q07 " + name
        d = search.start(BINS, scratch, args + extra, w, rep)
        try:
            ask = search.Asker(d, w, rep)
            for q, (total, k) in zip(qs, want):
                a = ask.xml(q)
                got = key(a)
                if a.total != total or got != k:
                    raise core.Violation(
                        "%s: total %d vs %d from the harvests\n%s" %
                        (w, a.total, total, search.diff(k, got)), "",
                        ask.ctx(a.query))
                st.case((to_xml(q), name), bool(got),
                        {"query": to_xml(q), "serving": name,
                         "hits": len(got)})
                st.count("answers compared", len(got))
                # the same index gives the same order every time
                seq = [x.key() for x in a.answers]
                o = args[1].replace("moved", "idx")
                if lists.setdefault((o, to_xml(q)), seq) != seq:
                    raise core.Violation(
                        "%s: answers come in another order than before "
                        "the restart" % w, "", ask.ctx(a.query))
            ask.close()
            d.check_healthy(w, rep)
            if name == "killed":
                d.kill()
            else:
                d.finish(w, rep)
            st.count("servings: " + name)
        finally:
            d.kill()


def body(ck):
    global BINS
    BINS = build.build("asan", ["mwsd", "mws-index"])
    n = core.pick(3, 40)
    ck.parallel(job, [("%d-%d" % (ck.seed, i), k, nq) for i in range(n)
                      for k, nq in (("big", 15), ("dup", 20), ("tiny", 15),
                                    ("mixed", 25), ("mixed2", 25),
                                    ("open", 25))])

    ck.parallel(bigindex.job, bigindex.items('Q07', ('std',), ck.seed))


if __name__ == "__main__":
    core.main("Q07", body, rule=RULE)
