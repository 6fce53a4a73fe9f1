"""Q02: every answer is a checkable witness in its source document."""
import random

from vlib import build, core, real, search
from vlib.model import *

RULE = ("one evaluation = one answer (position + substitutions) followed in "
        "the harvested expression and matched against the query; non-trivial "
        "= it binds at least one named variable; distinct by (query, "
        "position)")


def corpus(rng, kind):
    g = Gen(rng)
    if kind == "deep":
        g.maxdepth, g.maxkids = 14, 2
        return g, [g.file("d.harvest", 20)]
    if kind == "wide":
        g = Gen(rng, words=["x", "y"], nums=["1", "2"], maxdepth=2)
        f = g.file("w.harvest", 8)
        for n in (10, 11, 12, 99, 120):
            f.items.append(Expr([T("set", "", [
                g.term(1) if rng.random() < .5 else g.leaf()
                for _ in range(n)])], "wide%d" % n))
        return g, [f]
    if kind == "same":           # same shapes everywhere
        g = Gen(rng, words=["x"], nums=["1"], maxdepth=3, tags=["apply"],
                heads=["plus", "times"], leafs=["ci", "cn"])
        return g, [g.file("s.harvest", 30)]
    if kind == "real":           # as people wrote them
        got = real.files(rng, 80, False)
        if got:
            g.asked = got[1]
            return g, got[0]
    return g, [g.file("a%d.harvest" % i, rng.randint(3, 25), i * 100)
               for i in range(rng.randint(1, 3))]


def queries(rng, g, roots, n):
    out = []
    for i in range(n):
        q = g.query(roots, ranges=.15)
        if i % 3 == 0:
            # duplicate-variable patterns: one name at several places
            q = g.generalise(rng.choice(roots), .5, names=("v",), anon=.1)
        out.append(q)
    # variables whose order of first occurrence is not alphabetical and
    # whose names need escaping
    for names in (["b", "a", "b"], ["z9", "z10", "z9"],
                  ["a&b", "<q>", "a&b"], ["\u03b1", "\"", "'"]):
        out.append(T("apply", "", [rng.choice([T("plus"), T("times"),
                                               QVar("")])] +
                     [QVar(x) for x in names[:rng.randint(1, 3)]]))
    return out


def with_range(q):
    return any(isinstance(s, Range) for s in q.subterms())


def witness(st, q, a, by_url, ref, rep, mode):
    exprs = by_url.get(a.uri)
    if not exprs:
        raise core.Violation("Q02 %s: answer url %r is not a harvested url" %
                             (mode, a.uri), "", rep)
    why = "no expression"
    for root in exprs:
        t = follow(root, a.xpath)
        if t is None:
            why = "position %s not in expression" % a.xpath
            continue
        env = {}
        if not ref.match(q, t.id, env):
            why = "subterm at %s does not match" % a.xpath
            continue
        ok = True
        for name, xp in a.subst:
            s = follow(root, xp)
            if s is None or env.get(name) != s.id:
                why = "substitution %s -> %s is not its value" % (name, xp)
                ok = False
        if ok:
            return
    raise core.Violation("Q02 %s: %s %s: %s" % (mode, a.uri, a.xpath, why),
                         "", rep)


def job(st, item, scratch):
    seed, kind, nq = item
    rng = random.Random("q02-%s-%s" % (seed, kind))
    g, files = corpus(rng, kind)
    style = Style(rng, "mix", rng.choice([0, 1]))
    with search.Served(BINS, scratch, files, style,
                       ["memory", "saved", "exp"], "Q02") as sv:
        by_url = {}
        for url, _, root in sv.ref.exprs:
            by_url.setdefault(url, []).append(root)
        qs = queries(rng, g, sv.roots, nq)
        qs += getattr(g, "asked", [])
        if kind == "wide":
            # more variables than bits in a word
            big = [r for r in sv.roots if len(r.kids) > 90]
            qs += [many_vars(rng, rng.choice(big)) for _ in range(4)]
        for mode, ask in sv.each():
            for q in qs:
                if mode == "exp" and with_range(q):
                    continue
                a = ask.xml(q, st=Style(rng, "mix", rng.choice([0, 1])))
                rep = ask.ctx(a.query)
                names = named_qvars(q)
                for ans in a.answers:
                    want = [(n, ans.xpath + x) for n, x in names]
                    if ans.subst != want:
                        raise core.Violation(
                            "Q02 %s: reported variables %r, in reading order "
                            "they are %r" % (mode, ans.subst, want), "", rep)
                    witness(st, q, ans, by_url, sv.ref, rep, mode)
                    st.case((to_xml(q), ans.xpath), bool(names),
                            {"query": to_xml(q), "xpath": ans.xpath})
                    st.maximum("named occurrences in one query", len(names))
                j = ask.json(q, answsize=5)
                if j.qvars != names:
                    raise core.Violation(
                        "Q02 %s: JSON lists variables %r, in reading order "
                        "they are %r" % (mode, j.qvars, names), "",
                        ask.ctx(j.query))
                st.count("queries in %s mode" % mode)


def body(ck):
    global BINS
    BINS = build.build("asan", ["mwsd", "mws-index"])
    n = core.pick(8, 40)
    ck.parallel(job, [("%d-%d" % (ck.seed, i), k, 50)
                      for i in range(n)
                      for k in ("mixed", "deep", "wide", "same", "mixed2", "real")])


if __name__ == "__main__":
    core.main("Q02", body, rule=RULE)
