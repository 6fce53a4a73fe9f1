"""Q08: the experimental query engine agrees with the standard one."""
import os
import random
import signal

from vlib import bigindex, build, core, real, search
from vlib.model import *

RULE = ("one evaluation = one query answered by both engines over the same "
        "saved index (and by the reference matcher) and compared; "
        "non-trivial = at least one hit; distinct by query")


def corpus(rng, kind):
    g = Gen(rng)
    if kind == "deep":
        g.maxdepth, g.maxkids = 16, 2
        return g, [g.file("d.harvest", 20)]
    if kind == "wide":
        g = Gen(rng, words=["x", "y"], nums=["1", "2"], maxdepth=2)
        f = g.file("w.harvest", 8)
        for n in (20, 100, 255):
            f.items.append(Expr([T("set", "", [g.leaf() for _ in range(n)])],
                                "wide%d" % n))
        return g, [f]
    if kind == "vars":           # variables by the dozen, some repeated
        g = Gen(rng, words=["a", "b", "c"], nums=["1", "2"], maxdepth=1)
        f = g.file("v.harvest", 10)
        for i in range(40):
            n = rng.choice([20, 33, 40, 64, 70])
            ks = [rng.choice([T("ci", "a"), T("ci", "b"), T("cn", "1"),
                              T("apply", "", [T("sin"), T("ci", "a")])]
                             ).clone() for _ in range(n)]
            f.items.append(Expr([T("set", "", ks)], "vars%d" % i))
        return g, [f]
    if kind == "huge":           # bigger than any fixed-size stack
        f = g.file("h.harvest", 3)
        t = T("ci", "x")
        for i in range(200):
            t = T("apply", "", [T("plus"), t, T("cn", str(i % 3))])
        f.items.append(Expr([t], "chain"))
        f.items.append(Expr([T("set", "", [
            T("apply", "", [T("plus")] + [T("ci", "x") for _ in range(20)])
            for _ in range(60)])], "bush"))
        return g, [f]
    if kind == "vocab":
        g = Gen(rng, words=["w%d" % i for i in range(2000)],
                nums=[str(i) for i in range(400)], maxdepth=3)
        return g, [g.file("v.harvest", 250)]
    if kind == "open":           # with variables in the harvests
        g = Gen(rng, words=["x", "y"], nums=["1", "2"], maxdepth=4)
        f = g.file("o.harvest", 60)
        for it in f.items:
            if isinstance(it, Expr):
                it.roots = [g.generalise(t, .3, names=("x", "y", "v"))
                            for t in it.roots]
        return g, [f]
    if kind == "real":           # as people wrote them
        got = real.files(rng, 120, True)
        if got:
            g.asked = got[1]
            return g, got[0]
    if kind == "dup":
        g = Gen(rng, words=["x", "y"], nums=["1"], maxdepth=3,
                tags=["apply"], heads=["plus", "times"], leafs=["ci"])
        return g, [g.file("r%d.harvest" % i, 120, i * 1000)
                   for i in range(2)]
    return g, [g.file("a%d.harvest" % i, rng.randint(5, 40), i * 100)
               for i in range(2)]


def key(a):
    return sorted(x.key() + (tuple(x.subst or ()),) for x in a.answers)


def job(st, item, scratch):
    seed, kind, nq = item
    rng = random.Random("q08-%s-%s" % (seed, kind))
    g, files = corpus(rng, kind)
    # answer positions grow with depth, so keep those lists short
    with search.Served(BINS, scratch, files, Style(rng, "m"),
                       ["saved", "exp"], "Q08",
                       keep_files=kind != "huge") as sv:
        qs = [QVar(""), QVar("x"), T("apply", "", [QVar("f"), QVar("x")]),
              T("apply", "", [QVar("f"), QVar("x"), QVar("x")]),
              T("apply", "", [QVar(""), QVar(""), QVar("")]),
              T("ci", "x"), T("ci", "nowhere"),
              T("apply", "", [QVar("f"), QVar("x"), QVar("y"), QVar("x")]),
              T("apply", "", [T("plus"),
                              T("apply", "", [QVar("f"), QVar("x")]),
                              T("apply", "", [QVar("f"), QVar("y")])])]
        for i in range(nq):
            if kind == "vars" and i % 8:
                q = many_vars(rng, rng.choice(
                    [r for r in sv.roots if r.tag == "set" and
                     len(r.kids) > 19]))
            elif i % 4 == 0:
                q = g.generalise(rng.choice(sv.roots), .5, names=("v", "w"),
                                 anon=.3)
            else:
                q = g.query(sv.roots)
            qs.append(q)
        qs += getattr(g, "asked", [])
        # many variables, named and anonymous
        for n in (10, 40, 60):
            qs.append(T("set", "", [QVar("v%d" % i) for i in range(n)]))
            qs.append(T("set", "", [QVar("") for i in range(n * 4)]))
        res = {}
        for mode, ask in sv.each():
            for i, q in enumerate(qs):
                a = ask.xml(q)
                res[mode, i] = (a.total, key(a))
                if mode == "exp":
                    s = res["saved", i]
                    if s != res[mode, i]:
                        raise core.Violation(
                            "Q08: totals %d standard, %d experimental\n%s" %
                            (s[0], a.total, search.diff(s[1],
                                                        res[mode, i][1])),
                            "", ask.ctx(a.query))
                    exp = sv.ref.search(q)
                    search.compare(exp, a.answers, a.total,
                                   "Q08 experimental", ask.ctx(a.query))
                    st.case(to_xml(q), bool(exp), {"query": to_xml(q)[:400],
                                                   "hits": len(exp)})
                    st.count("answers compared", len(exp))
                    st.maximum("query size", q.size())
                    st.maximum("named variable occurrences",
                               len(named_qvars(q)))
                    # the default page, when everything fits on it
                    if len(exp) <= 30:
                        b = ask.xml(q, answsize=None)
                        if (b.total, key(b)) != res[mode, i]:
                            raise core.Violation(
                                "Q08: the default page misses answers", "",
                                ask.ctx(b.query))


def large(st, item, scratch):
    """Formulas of very many tokens, and the listed limit: the engine
    recurses once per token."""
    a, b, c = item
    f = "<m:ci>x</m:ci>" * c
    for n in (b, a, 1):
        f = ("<m:apply>" + f + "</m:apply>") * n
    tokens = a * b * (c + 1) + a + 1
    h = os.path.join(scratch, "in")
    os.makedirs(h)
    with open(os.path.join(h, "a.harvest"), "w") as o:
        o.write('<mws:harvest xmlns:mws="http://search.mathweb.org/ns" '
                'xmlns:m="http://www.w3.org/1998/Math/MathML">'
                '<mws:expr url="u1">%s</mws:expr>'
                '<mws:expr url="u2"><m:ci>y</m:ci></mws:expr>'
                '</mws:harvest>' % f)
    idx = os.path.join(scratch, "idx")
    search.build_index(PLAIN, scratch, idx, [h], what="Q08 large")
    # everything, the innermost applications, the middle ones
    qs = [QVar("x"), T("apply", "", [QVar("x")] * 1 + [QVar("x").clone()
          for _ in range(c - 1)]), T("ci", "y")]
    res = {}
    for mode in ("saved", "exp"):
        d = search.start(PLAIN, scratch, ["-D", idx] +
                         (["-x"] if mode == "exp" else []), "Q08 large")
        ask = search.Asker(d, "Q08 %s, formula of %d tokens" % (mode, tokens))
        try:
            for i, q in enumerate(qs):
                try:
                    r = ask.xml(q)
                    res[mode, i] = (r.total, key(r))
                except core.Violation as v:
                    over = mode == "exp" and i == 0 and tokens > 50000 and \
                        d.stop() == -signal.SIGSEGV and not d.report()
                    raise core.Violation(v.msg, "deep-recursion"
                                         if over else "", v.files)
                if res["saved", i] != res[mode, i]:
                    raise core.Violation("Q08: formula of %d tokens: standard "
                                         "%.300r, experimental %.300r" %
                                         (tokens, res["saved", i],
                                          res[mode, i]))
                st.case(("large", item, mode, i), r.total > 0)
            st.maximum("tokens of one formula answered (%s)" % mode, tokens)
        finally:
            ask.close()
            d.kill()
    if res["saved", 0][0] != 5 or res["saved", 1][0] < 1:
        raise core.Violation("Q08: formula of %d tokens: %r" % (tokens, res))


def body(ck):
    global BINS, PLAIN
    BINS = build.build("asan", ["mwsd", "mws-index"])
    PLAIN = build.build("plain", ["mwsd", "mws-index"])
    ck.parallel(large, [(1, 50, 100), (3, 33, 100), (5, 250, 250)])
    n = core.pick(3, 40)
    ck.parallel(job, [("%d-%d" % (ck.seed, i), k, 60) for i in range(n)
                      for k in ("huge", "vocab", "deep", "wide", "dup",
                                "open", "vars", "real", "mixed", "mixed2")])

    ck.parallel(bigindex.job, bigindex.items('Q08', ('exp',), ck.seed))


if __name__ == "__main__":
    core.main("Q08", body, rule=RULE)
