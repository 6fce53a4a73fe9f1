"""Q06: identifier renaming makes search insensitive to names, only."""
import random

from vlib import build, core, search
from vlib.model import *

RULE = ("one evaluation = one complete formula asked against one collection "
        "with renaming on or off; non-trivial = the query is not literally "
        "one of the harvested formulas but renames to one, or fails to only "
        "by merging or splitting names; distinct by (query, renaming)")

NAMES = ["x", "y", "z", "a", "b", "c", "n", "P", "p", "\u03b1", "\u03b2",
         "1", "~", "xy", "x1", "foo", "~1", "~2", "\U0001d465", "\u00e9t"]


def sites(t, parent=None, acc=None):
    """All identifiers with their parents."""
    if acc is None:
        acc = []
    if t.tag == "ci":
        acc.append((t, parent))
    for k in t.kids:
        sites(k, t, acc)
    return acc


def variant(rng, t):
    t = t.clone()
    s = sites(t)
    k = rng.randrange(7)
    if not s or k == 0:
        return t
    if k in (1, 2):              # one-to-one renaming of the renamable ones
        used = sorted({nows(c.text) for c, p in s if renamable(c, p)})
        pool = [n for n in NAMES if len(n) == 1 and n not in ("P", "p")]
        rng.shuffle(pool)
        m = dict(zip(used, pool))
        for c, p in s:
            if renamable(c, p):
                c.text = m.get(nows(c.text), c.text)
    elif k == 3:                 # one occurrence changes
        c, _ = rng.choice(s)
        c.text = rng.choice(NAMES)
    elif k == 4:                 # merge two names
        a, b = rng.choice(s)[0].text, rng.choice(s)[0].text
        for c, _ in s:
            if c.text == a:
                c.text = b
    elif k == 5:                 # rename everything, also what must not be
        a, b = rng.choice(s)[0].text, rng.choice(NAMES)
        for c, _ in s:
            if c.text == a:
                c.text = b
    else:                        # swap two names
        a, b = rng.choice(s)[0].text, rng.choice(s)[0].text
        for c, _ in s:
            if c.text == a:
                c.text = b
            elif c.text == b:
                c.text = a
    return t


def nested(names):
    return T("set", "", [T("apply", "", [T("plus")] + [
        T("ci", c) for c in names[i:i + 9]])
        for i in range(0, len(names), 9)])


def permuted(rng, t, sym):
    t = t.clone()
    m = {}
    for c in t.subterms():
        if c.tag == "ci":
            m.setdefault(c.text, None)
    m = dict(zip(m, rng.sample(sym, len(m))))
    for c in t.subterms():
        if c.tag == "ci":
            c.text = m[c.text]
    return t


def job(st, item, scratch):
    seed, rename, nq = item
    rng = random.Random("q06-%s" % seed)
    g = Gen(rng, words=NAMES, nums=["1", "2"], leafs=["ci", "ci", "ci", "cn",
                                                      "csymbol"],
            heads=["plus", "times", "ci", "ci"], maxdepth=3,
            tags=["apply", "apply", "bind", "set"])
    g.words = NAMES
    f = g.file("a.harvest", 25)
    exprs = [e for e in f.items if isinstance(e, Expr)]
    for i in range(20):
        b = rng.choice(exprs)
        f.items.append(Expr([variant(rng, b.roots[0])], "v%d" % i, b.data_id))
    # more identifiers than letters
    sym = [chr(c) for c in list(range(0x3b1, 0x3ca)) +
           list(range(0x4e00, 0x4e00 + 400))]
    for n in rng.sample([20, 60, 101, 128, 260], 2):
        ks = [T("ci", c) for c in rng.sample(sym, n)]
        ks += [rng.choice(ks).clone() for _ in range(8)]
        t = T("set", "", [T("list", "", ks[i:i + 9])
                          for i in range(0, len(ks), 9)])
        f.items.append(Expr([t], "letters%d" % n))
        for i in range(2):
            f.items.append(Expr([permuted(rng, t, sym)], "l%d-%d" % (n, i)))
    f.items.append(Expr([T("ci", "x")], "leaf"))
    f.items.append(Expr([T("ci", "P")], "leafP"))
    # whatever a counter of identifiers wraps, or stops, at
    n = rng.randint(255, 290)
    names = rng.sample(sym, n)
    f.items.append(Expr([nested(names)], "distinct"))
    extra = ["-c"] if rename else []
    with search.Served(BINS, scratch, [f], Style(rng, "mix"),
                       ["memory", "saved", "exp"], "Q06",
                       build_extra=extra) as sv:
        if rename:
            for m in ("saved", "exp"):
                sv.args[m] = sv.args[m] + ["-c"]
            keyof = rename_key
        else:
            keyof = lambda t: t.key()
        by = {}
        for url, data, root in sv.ref.exprs:
            if sv.ref.nodes[root.id][2]:
                by.setdefault(keyof(root), []).append((url, "/*[1]", data))
        lit = {root.key() for _, _, root in sv.ref.exprs}
        lit2 = {rename_key(root) for _, _, root in sv.ref.exprs}
        wide = [r for r in sv.roots if r.tag == "set" and
                r.size() > 20] or sv.roots
        qs = []
        for _ in range(nq):
            r = rng.choice(sv.roots if rng.random() < .85 else wide)
            q = variant(rng, r)
            if r.tag == "set" and r.size() > 20:
                q = permuted(rng, r, sym)
                if rng.random() < .4:    # two of them become one
                    c = [x for x in q.subterms() if x.tag == "ci"]
                    rng.choice(c).text = rng.choice(c).text
            if rng.random() < .3:
                q = variant(rng, q)
            qs.append(q)
        mods = list(range(1, n)) if "-0" in seed else \
            [m for m in (2, 9, 10, 16, 26, 32, 64, 99, 100, 101, 127, 128,
                         200, 254, 255, 256, n - 1) if m < n]
        for m in mods:
            qs.append(nested([names[i % m] for i in range(n)]))
            qs.append(nested([names[min(i, m - 1)] for i in range(n)]))
        for mode, ask in sv.each():
            for q in qs:
                a = ask.xml(q, st=Style(rng, "mix"))
                got = sorted(x.key() for x in a.answers
                             if x.xpath == "/*[1]")
                exp = sorted(by.get(keyof(q), []))
                if got != exp:
                    raise core.Violation(
                        "Q06 %s, renaming %s: complete formulas found differ "
                        "from those equal up to renaming\n%s" %
                        (mode, rename, search.diff(exp, got)), "",
                        ask.ctx(a.query))
                if a.total != len(a.answers):
                    raise core.Violation("Q06: total", "", ask.ctx(a.query))
                near = (q.key() not in lit)
                st.case((to_xml(q), rename, len(exp)), near,
                        {"query": to_xml(q), "renaming": rename,
                         "found": len(exp)})
                if near and exp:
                    st.count("found only through renaming")
                if near and not exp:
                    st.count("correctly not found")
                st.count("queries, renaming %s" % ("on" if rename else
                                                   "off"))


def body(ck):
    global BINS
    BINS = build.build("asan", ["mwsd", "mws-index"])
    n = core.pick(18, 150)
    ck.parallel(job, [("%d-%d" % (ck.seed, i), i % 3 != 0, 70)
                      for i in range(n)])


if __name__ == "__main__":
    core.main("Q06", body, rule=RULE, assumptions=[
        "function position = first child of an apply; characters are "
        "unicode code points"])
