"""Q01: answers are exactly the matching indexed subterms."""
import random
import os

from vlib import build, core, real, search
from vlib.model import *

RULE = ("one evaluation = one query answered by one serving mode (harvests "
        "held in memory / saved index) and compared with the reference "
        "matcher; non-trivial = at least one hit, or a one-symbol mutation "
        "of a matching query; distinct by (query, number of hits)")


def corpus(rng, kind):
    g = Gen(rng)
    if kind == "small":
        files = [g.file("a%d.harvest" % i, rng.randint(3, 30), i * 100)
                 for i in range(rng.randint(1, 4))]
    elif kind == "deep":
        g.maxdepth = 12
        g.maxkids = 2
        files = [g.file("d.harvest", 25)]
    elif kind == "dup":          # many hits on one formula
        g = Gen(rng, words=["x", "y"], nums=["1", "2"], maxdepth=2)
        files = [g.file("r%d.harvest" % i, 180, i * 1000) for i in range(3)]
    elif kind == "wide":         # high arity, including over the limit
        files = [g.file("w.harvest", 10)]
        for n in (100, 254, 255, 256, 300):
            big = T("cerror", "", [g.leaf() for _ in range(n)])
            files[0].items.append(Expr([T("apply", "", [
                T("plus"), big, g.leaf()])], "wide%d" % n))
    elif kind == "vocab":        # many distinct symbols below one node
        g = Gen(rng, words=["w%d" % i for i in range(3000)],
                nums=[str(i) for i in range(-500, 500)], maxdepth=3)
        files = [g.file("v%d.harvest" % i, 250, i * 1000) for i in range(2)]
    elif kind == "multi":        # several roots in one expression, no data
        files = [g.file("m.harvest", 20)]
        for it in files[0].items:
            if isinstance(it, Expr) and rng.random() < .5:
                it.roots = [it.roots[0], g.term(), it.roots[0].clone()]
    elif kind == "open":         # with variables in the harvests
        g = Gen(rng, words=["x", "y"], nums=["1", "2"],
                tags=["apply", "set"], heads=["plus", "ci"])
        files = [g.file("o.harvest", 60)]
        for it in files[0].items:
            if isinstance(it, Expr):
                it.roots = [g.generalise(t, rng.choice([.1, .3, .6]),
                                         names=("x", "y", "v"))
                            for t in it.roots]
    elif kind == "long":         # long symbols
        g = Gen(rng, words=long_words(rng) + ["x", "y"], maxdepth=2)
        files = [g.file("l.harvest", 90)]
    elif kind == "big":          # more subterms than usual in one expression
        g = Gen(rng, words=["w%d" % i for i in range(2500)], maxdepth=3,
                nums=[str(i) for i in range(500)])
        files = [g.file("b.harvest", 12)]
        for n in (3, 9, 20):
            ks = [T("set", "", [g.term(2) for _ in range(250)])
                  for _ in range(n)]
            ks += [rng.choice(ks).clone() for _ in range(2)]
            files[0].items.append(Expr([T("list", "", ks)], "big%d" % n))
    elif kind == "vars":         # variables by the dozen, some repeated
        g = Gen(rng, words=["a", "b", "c"], nums=["1", "2"], maxdepth=1)
        files = [g.file("v.harvest", 10)]
        for i in range(40):
            n = rng.choice([20, 33, 40, 64, 70])
            ks = [rng.choice([T("ci", "a"), T("ci", "b"), T("cn", "1"),
                              T("apply", "", [T("sin"), T("ci", "a")])]
                             ).clone() for _ in range(n)]
            files[0].items.append(Expr([T("set", "", ks)], "vars%d" % i))
    elif kind == "many":         # more formulas than a 16 bit counter holds
        g = Gen(rng, words=["w%d" % i for i in range(60000)],
                nums=[str(i) for i in range(-30000, 30000)], maxdepth=4,
                heads=["csymbol", "ci", "plus"])
        files = [g.file("y%d.harvest" % i, 1700, i * 10000)
                 for i in range(2)]
    elif kind == "real":         # as people wrote them
        files, g.asked = real.files(rng, 100, True) or (
            [g.file("n.harvest", 20)], [])
    return g, files


def job(st, item, scratch):
    seed, kind, nq = item
    rng = random.Random("q01-%s-%s" % (seed, kind))
    g, files = corpus(rng, kind)
    style = Style(rng, rng.choice(["m", "none", "mix"]),
                  rng.choice([0, .5, 1]))
    hd = os.path.join(scratch, "h")
    os.makedirs(hd)
    texts = search.write_files(hd, files, style)
    ref = Index()
    for hf in files:
        ref.add_file(hf)
    rep = {"harvest/" + k: v for k, v in texts.items()} \
        if kind != "many" else {}
    out = os.path.join(scratch, "idx")
    search.build_index(BINS, scratch, out, [hd], files=rep)
    st.count("harvested subterm hits", ref.total_hits())
    st.maximum("distinct formulas in one collection", ref.distinct())
    modes = [("memory", ["-I", hd]), ("saved", ["-D", out])]
    roots = [e[2] for e in ref.exprs]
    queries = []
    for _ in range(nq):
        q = g.query(roots)
        if rng.random() < .15:   # variables are leaves, whatever they hold
            for t in q.subterms():
                if isinstance(t, QVar) and rng.random() < .5:
                    t.inner = rng.choice([
                        "<m:ci>x</m:ci>", "<m:apply><m:plus/></m:apply>",
                        "<nosuchtag>zz</nosuchtag>", "<mws:qvar/>",
                        "<m:ci/><m:cn>1</m:cn>", "<mws:qvar>x</mws:qvar>"])
        queries.append(q)
    if kind == "real":
        queries += g.asked
        st.count("formulas of published query topics asked", len(g.asked))
    if kind == "vars":
        queries = queries[:5]
        for _ in range(nq):
            queries.append(many_vars(rng, rng.choice(
                [r for r in roots if r.tag == "set" and len(r.kids) > 19])))
    for q in (QVar(""), QVar("x"),
              T("apply", "", [QVar("f"), QVar("f")]),
              T("nosuchtag", "zz", [QVar("x")]),
              T("apply", "", [T("plus"), QVar("a"), QVar("b"), QVar("a")])):
        queries.append(q)
    expected = [ref.search(q) for q in queries]
    for name, args in modes:
        d = search.start(BINS, scratch, args, "Q01 " + name, rep)
        try:
            ask = search.Asker(d, "Q01 " + name, rep)
            for q, exp in zip(queries, expected):
                if len(exp) > 60000:
                    continue
                a = ask.xml(q, st=Style(rng, "mix", rng.choice([0, 1])),
                            encode=rng if rng.random() < .2 else None)
                search.compare(exp, a.answers, a.total,
                               "Q01 %s mode" % name, ask.ctx(a.query))
                st.case((to_xml(q), len(exp)), bool(exp),
                        {"query": to_xml(q), "hits": len(exp)})
                st.count("answers compared", len(exp))
                if not exp:
                    st.count("queries with no match")
                st.maximum("hits of one query", len(exp))
                st.maximum("variables in one query", sum(
                    isinstance(t, QVar) for t in q.subterms()))
            ask.close()
            d.check_healthy("Q01 " + name, rep)
            d.finish("Q01 " + name, rep)
        finally:
            d.kill()


def body(ck):
    global BINS
    BINS = build.build("asan", ["mwsd", "mws-index"])
    n = core.pick(3, 40)
    items = []
    for kind, k, nq in (("small", 4, 120), ("deep", 1, 80), ("dup", 1, 60),
                        ("wide", 1, 40), ("vocab", 1, 60), ("multi", 1, 60),
                        ("open", 1, 80), ("long", 1, 60), ("big", 1, 40),
                        ("vars", 1, 60), ("real", 1, 60)):
        for i in range(k * n if kind == "small" else max(1, k * n // 2)):
            items.append(("%d-%d" % (ck.seed, i), kind, nq))
    items.insert(0, ("%d" % ck.seed, "many", 25))
    ck.parallel(job, items)


if __name__ == "__main__":
    core.main("Q01", body, rule=RULE, assumptions=[
        "the reference matcher in vlib/model.py states the documented "
        "semantics",
        "at most 90000 hits per query (the daemon counts no more than "
        "100000)"])
