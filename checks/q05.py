"""Q05: every output format is well-formed and reports the same answers."""
import random
from xml.sax.saxutils import escape

from vlib import build, core, search
from vlib.model import *

RULE = ("one evaluation = one query (or window) asked in two formats and "
        "compared; non-trivial = at least one answer; distinct by (query, "
        "window, formats)")

STRINGS = ["plain", "a&b<c>d", "\"quoted\" 'single'", "tab\there",
           "line\nbreak", "back\\slash / slash", "</mws:answ>", "]]>",
           "\u00e9\u00df\u4e2d", "\U0001d400\U0001f600",
           "\u007f\u0085\u009f", "\u2028\u2029", "{\"a\":[1,2]}",
           "%s%n%d", "&amp;", "&#10;", "\ufeffbom", "\ue000\ufffd",
           "x" * 3000, "\u00e9" * 2100, "a\u0300", "\u202e rtl", "'\"&<>" * 50,
           "\r"]


def esc(s):
    return escape(s, {"\r": "&#13;"})


def corpus(rng):
    g = Gen(rng, words=["x", "y"] + STRINGS[1:6])
    g.url = lambda i: rng.choice(STRINGS) + "#%d" % i
    f = g.file("a.harvest", 25, with_data=False)
    items = []
    expect = {}
    for i, e in enumerate(f.items):
        if rng.random() < .7:
            raw = " ".join(rng.choice(STRINGS) for _ in range(3))
            did = "d%d" % i if rng.random() < .5 else rng.choice(STRINGS[:6])
            items.append(Data(did, "<t k=%s>%s</t>" % (qa(rng.choice(
                STRINGS)), esc(raw))))
            e.data_id = did
        items.append(e)
    f.items = items
    return g, [f]


def job(st, item, scratch):
    seed, nq = item
    rng = random.Random("q05-%s" % seed)
    g, files = corpus(rng)
    with search.Served(BINS, scratch, files, Style(rng, "m"),
                       ["memory", "saved", "exp"], "Q05") as sv:
        ref = sv.ref
        qs = [QVar(""), QVar("x"), T("ci", "x"),
              T("ci", "nowhere"), T("apply", "", [QVar("no"), T("zz")])]
        qs += [g.query(sv.roots, ranges=.1) for _ in range(nq)]
        for s in rng.sample(STRINGS, 6):
            if nows(s) == s and len(s) < 100:
                qs.append(T("apply", "", [QVar(s), QVar("x"), QVar(s)]))
                qs.append(T("apply", "", [QVar(s), QVar("x")]))
        for mode, ask in sv.each():
            fid = {}     # formula -> reported identifier

            def ident(i):
                if i in fid:
                    return fid[i]
                t = term_of(ref, i)
                r = ask.ids(t)
                if len(r.ids) != 1 or r.total != 1:
                    raise core.Violation(
                        "Q05 %s: an indexed formula has identifiers %r "
                        "(total %s)" % (mode, r.ids, r.total), "",
                        ask.ctx(r.query))
                fid[i] = r.ids[0]
                st.case(("ident", ref.nodes[i][0], mode, len(fid)), True)
                return fid[i]

            for q in qs:
                if mode == "exp" and any(isinstance(s, Range)
                                         for s in q.subterms()):
                    continue
                for lim, size in ((None, search.ALL),
                                  (rng.randrange(6), rng.randrange(1, 20)),
                                  (None, None)):
                    x = ask.xml(q, lim, size)
                    j = ask.json(q, lim, size)
                    rep = ask.ctx(j.query)
                    rep["answer.xml"] = x.resp.body
                    rep["answer.json"] = j.resp.body
                    for r, ct in ((x.resp, "application/xml"),
                                  (j.resp, "application/json")):
                        if (r.get("content-type") or "").split(";")[0] != ct:
                            raise core.Violation(
                                "Q05 %s: content type %r, expected %s" %
                                (mode, r.get("content-type"), ct), "", rep)
                    ax = [(a.uri, a.xpath, a.data or "") for a in x.answers]
                    aj = [(a.uri, a.xpath, a.data) for a in j.answers]
                    if ax != aj or x.total != j.total:
                        raise core.Violation(
                            "Q05 %s: XML and JSON answers differ (totals %s "
                            "%s)\n%s" % (mode, x.total, j.total,
                                         search.diff(ax, aj)), "", rep)
                    for a in x.answers:
                        if a.subst != [(n, a.xpath + p) for n, p in j.qvars]:
                            raise core.Violation(
                                "Q05 %s: XML reports variables %r, JSON %r" %
                                (mode, a.subst, j.qvars), "", rep)
                    if size == search.ALL:
                        exp = ref.search(q)
                        got = [(u, p, canon(d)) for u, p, d in ax]
                        want = [(u, p, canon(d)) for u, p, d in exp]
                        if sorted(got) != sorted(want):
                            raise core.Violation(
                                "Q05 %s: answers do not come back unchanged"
                                "\n%s" % (mode, search.diff(want, got)), "",
                                rep)
                        if j.qvars != named_qvars(q):
                            raise core.Violation(
                                "Q05 %s: variables %r, expected %r" % (
                                    mode, j.qvars, named_qvars(q)), "", rep)
                    st.case((to_xml(q), lim, size), bool(ax),
                            {"query": to_xml(q)[:300], "answers": len(ax)})
                # identifiers
                r = ask.ids(q)
                rep = ask.ctx(r.query)
                rep["answer.json"] = r.resp.body
                if (r.resp.get("content-type") or "").split(";")[0] != \
                        "application/json":
                    raise core.Violation("Q05 %s: content type %r" %
                                         (mode, r.resp.get("content-type")),
                                         "", rep)
                match = ref.search_ids(q)
                want = sorted(ident(i) for i in match)
                if sorted(r.ids) != want or r.total != len(match):
                    raise core.Violation(
                        "Q05 %s: identifiers %r (total %s), the matching "
                        "formulas have %r" % (mode, sorted(r.ids), r.total,
                                              want), "", rep)
                if len(set(want)) != len(want):
                    raise core.Violation("Q05 %s: formulas share an "
                                         "identifier" % mode, "", rep)
                n = len(match)
                s = rng.choice([1, 2, 5, 30])
                acc = []
                for o in range(0, min(n, 12 * s) + s, s):
                    w = ask.ids(q, o, s)
                    if w.total != n or len(w.ids) != max(0, min(s, n - o)):
                        raise core.Violation(
                            "Q05 %s: id window %d+%d of %d formulas has %d, "
                            "total %s" % (mode, o, s, n, len(w.ids),
                                          w.total), "", ask.ctx(w.query))
                    acc += w.ids
                    st.case(("ids", to_xml(q), o, s), 0 < len(w.ids) < n)
                if len(set(acc)) != len(acc) or not set(acc) <= set(want) or \
                        (n <= 12 * s and sorted(acc) != want):
                    raise core.Violation(
                        "Q05 %s: id windows of %d do not tile %r: %r" %
                        (mode, s, want, acc), "", rep)
            st.maximum("identified formulas", len(fid))
            st.count("queries in %s mode" % mode, len(qs))


def term_of(ref, i):
    m, kids, _ = ref.nodes[i]
    tag, _, text = m.partition("#")
    return T(tag, text, [term_of(ref, k) for k in kids])


def canon(d):
    from vlib.xmlcanon import canon_fragment
    return canon_fragment(d)


def body(ck):
    global BINS
    BINS = build.build("asan", ["mwsd", "mws-index"])
    ck.parallel(job, [("%d-%d" % (ck.seed, i), 14)
                      for i in range(core.pick(20, 120))])


if __name__ == "__main__":
    core.main("Q05", body, rule=RULE, assumptions=[
        "document data is compared as markup (equal elements, attributes, "
        "text)"])
