"""Q04: ranges match exactly the numbers within their bounds."""
import random

from vlib import build, core, search
from vlib.model import *

RULE = ("one evaluation = one range query answered by one mode and compared "
        "with the reference matcher; non-trivial = some but not all numbers "
        "of the collection lie in the range; distinct by query")

VALUES = [-1e6, -1000.5, -100.0, -7.0, -2.5, -1.0, -0.5, -1e-3, 0.0, 1e-9,
          1e-3, .1, .5, 1.0, 1.5, 2.0, 3.0, 3.14, 10.0, 42.0, 99.99, 100.0,
          1000.0, 65536.0, 2147483648.0, 1e10, 1e15]


def written(rng, v):
    """Ways of writing the number v."""
    out = [repr(v)]
    if v == int(v) and abs(v) < 1e15:
        i = int(v)
        out += ["%d" % i, "%d." % i, "%d.0" % i, "%d.000" % i, "%de0" % i]
        if v >= 0:
            out += ["+%d" % i, "00%d" % i, "-0" if v == 0 else "%d" % i]
    out += ["%e" % v, "%.17g" % v, "%.17E" % v]
    if abs(v) < 1 and v != 0 and abs(v) > 1e-4:
        out.append(("%r" % v).replace("0.", ".", 1))
    s = rng.choice(out)
    return s


def corpus(rng):
    g = Gen(rng, words=["x", "y", "5", "1.0"])
    g.nums = [written(rng, rng.choice(VALUES)) for _ in range(40)] + \
        ["abc", "", "x1", "e5", "-", "."]
    files = [g.file("a.harvest", 12)]
    items = files[0].items

    def num():
        return T("cn", rng.choice(g.nums))

    for i in range(30):
        k = rng.randrange(6)
        if k == 0:
            t = T("apply", "", [T("plus"), num(), num()])
        elif k == 1:
            t = T("apply", "", [T("minus"), num(), num(), num()])
        elif k == 2:     # numbers with structure or in other elements
            t = T("apply", "", [T("plus"), T("cn", "1", [T("sep"),
                                                         T("ci", "2")]),
                                T("ci", "5"), T("csymbol", "5")])
        elif k == 3:
            t = T("interval", "", [num(), T("ci", "x")])
        elif k == 4:
            v = num()
            t = T("apply", "", [T("times"), v, v.clone()])
        else:
            t = num()
        if k == 0 or i % 5 == 0:   # no numbers, though they look like one
            v = rng.choice(["5", "1.5", "-7", "1e3"])
            items.append(Expr([T("apply", "", [
                T("plus"), rng.choice([T("ci", v + "cn#"), T("cs", v),
                                       T("csymbol", "cn#" + v),
                                       T("cnx", v), T("acn", v), T("c", v),
                                       T("cn.", v), T("CN", v),
                                       T("mtext", "cn"), T("mn", v),
                                       T("ci", "#" + v), T("ci", "cn#" + v)]),
                num()])], "l%d" % i))
        items.append(Expr([t], "n%d" % i))
    return g, files


def bound(rng):
    k = rng.random()
    if k < .12:
        return None
    if k < .2:
        return rng.choice(["", "abc", "-", "x5", "."])
    v = rng.choice(VALUES)
    if k < .5:
        v += rng.choice([.25, -.25, .001, -.001, 1e-7])
    return written(rng, v)


def query(rng):
    def r():
        return Range(bound(rng), bound(rng))
    k = rng.randrange(10)
    if k < 2:
        return r()
    if k == 2:
        return T("apply", "", [T("plus"), r(), r()])
    if k == 3:
        return T("apply", "", [T("minus"), r(), r(), r()])
    if k == 4:
        return T("apply", "", [QVar("f"), r(), QVar("x")])
    if k == 5:
        return T("apply", "", [QVar(""), QVar("x"), r()])
    if k == 6:
        return T("interval", "", [r(), rng.choice([QVar("y"),
                                                   T("ci", "x")])])
    if k == 7:
        return T("apply", "", [T("minus"), QVar("x"), r(), QVar("x")])
    if k == 8:
        return T("apply", "", [T("minus"), r(), QVar("x"), r()])
    return T("apply", "", [T("times"), QVar("x"), r()])


def job(st, item, scratch):
    seed, nq = item
    rng = random.Random("q04-%s" % seed)
    g, files = corpus(rng)
    with search.Served(BINS, scratch, files, Style(rng, "mix"),
                       ["memory", "saved"], "Q04") as sv:
        qs = [query(rng) for _ in range(nq)]
        qs += [g.query(sv.roots, ranges=.9) for _ in range(nq // 3)]
        qs += [Range(), Range("0", "0"), Range("5", "1"),
               T("apply", "", [Range(), Range(), Range()])]
        nums = sum(1 for i, (m, k, _) in enumerate(sv.ref.nodes)
                   if in_range(Range(), m) and not k)
        st.maximum("distinct numbers in one collection", nums)
        for mode, ask in sv.each():
            for q in qs:
                exp = sv.ref.search(q)
                a = ask.xml(q, st=Style(rng, "mix"))
                search.compare(exp, a.answers, a.total, "Q04 " + mode,
                               ask.ctx(a.query))
                rs = [s for s in q.subterms() if isinstance(s, Range)]
                part = False
                for r in rs:
                    m = sum(1 for mm, k, _ in sv.ref.nodes
                            if not k and in_range(r, mm))
                    part = part or 0 < m < nums
                st.case(to_xml(q), part, {"query": to_xml(q),
                                          "hits": len(exp)})
                st.count("answers compared", len(exp))
                st.maximum("ranges in one query", len(rs))
                st.maximum("hits of one query", len(exp))


def many(st, item, scratch):
    """As many ranges and variables as the encoding has room for, and the
    listed limit beyond."""
    seed, nr, nv, mode = item
    rng = random.Random("q04-many-%s" % seed)
    num = [T("cn", str(i % 7)) for i in range(90)]
    files = [HarvestFile("m.harvest", [
        Expr([T("set", "", [n.clone() for n in num[:k]])], "k%d" % k)
        for k in (5, 31, 32, 33, 63, 64, 70)])]
    with search.Served(BINS, scratch, files, Style(rng, "m"), [mode],
                       "Q04 many") as sv:
        for _, ask in sv.each():
            kids = [Range("-1", "%d" % (i % 7)) for i in range(nr)]
            kids += [QVar("v%d" % i) for i in range(nv)]
            q = T("set", "", kids)
            exp = sv.ref.search(q)
            a = ask.xml(q)
            st.case(("many", nr, nv, mode), True)
            st.maximum("ranges in one query", nr)
            over = (nr > 32 or nv > 63) and not a.answers and a.total == 0
            try:
                search.compare(exp, a.answers, a.total,
                               "Q04 %s: %d ranges, %d variables" %
                               (mode, nr, nv), ask.ctx(a.query))
            except core.Violation as v:
                raise core.Violation(v.msg, "too-many-variables"
                                     if over else "", v.files)


def body(ck):
    global BINS
    BINS = build.build("asan", ["mwsd", "mws-index"])
    items = [("%d-%d" % (ck.seed, i), 60) for i in range(core.pick(40, 200))]
    ck.parallel(job, items)
    ck.parallel(many, [(ck.seed, nr, nv, mode)
                       for nr, nv in ((31, 0), (32, 0), (31, 2), (0, 63),
                                      (32, 31), (33, 0), (0, 64))
                       for mode in ("memory", "saved")])


if __name__ == "__main__":
    core.main("Q04", body, rule=RULE, assumptions=[
        "numbers are finite decimal numbers (no hex, inf or nan)"])
