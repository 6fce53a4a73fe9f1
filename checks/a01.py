"""A01: analytics sees every indexed formula exactly once and intact."""
import os
import random
import re

from vlib import bigindex, build, core, proc, search
from vlib.model import *
from checks import i03

RULE = ("one evaluation = one expression handed to the analytics callback "
        "and compared (tree, hits, depth, size) with the harvest; "
        "non-trivial = the expression has children; distinct by (tree, "
        "hits)")


def parse(b):
    """The harness' (len:tag len:text children...) notation."""
    pos = 0

    def num():
        nonlocal pos
        e = b.index(b":", pos)
        n = int(b[pos:e])
        s = b[e + 1:e + 1 + n]
        pos = e + 1 + n
        return s.decode("utf-8")

    def rec():
        nonlocal pos
        if b[pos:pos + 1] != b"(":
            raise ValueError("expected ( at %d" % pos)
        pos += 1
        tag = num()
        if b[pos:pos + 1] != b" ":
            raise ValueError("expected blank at %d" % pos)
        pos += 1
        text = num()
        kids = []
        while b[pos:pos + 1] == b"(":
            kids.append(rec())
        if b[pos:pos + 1] != b")":
            raise ValueError("expected ) at %d" % pos)
        pos += 1
        return ((tag, text), tuple(kids))
    r = rec()
    if pos != len(b):
        raise ValueError("trailing output")
    return r


def shown(k):
    m = k[0]
    tag, sep, text = m.partition("#")
    return ((tag, text) if sep else ("ci", m), tuple(shown(c) for c in k[1]))


VARS = {"hvar": "v", "qvar": "v", "anonymous_hvar": "a",
        "anonymous_qvar": "a"}


def normal(k):
    """Variables by the order in which they are met."""
    seen = {}

    def rec(k):
        (tag, text), kids = k
        if tag in VARS and text.lstrip("-").isdigit():
            v = seen.setdefault((tag, text), len(seen))
            return ((VARS[tag], str(v)), ())
        return ((tag, text), tuple(rec(c) for c in kids))
    return rec(k)


def open_formulas(rng):
    """Harvests with variables, and what is to be presented."""
    g = Gen(rng, words=["x", "y"], nums=["1", "2"], maxdepth=4)
    files = [g.file("o.harvest", 40)]
    ix = Index()
    for it in files[0].items:
        if isinstance(it, Expr):
            it.roots = [g.generalise(t, .3, names=("x", "y", "v"))
                        for t in it.roots]
    ix.add_file(files[0])

    def tree(i):
        m, kids, _ = ix.nodes[i]
        if m[0] == "\0":
            m = ("hvar#" if m[1] == "n" else "anonymous_hvar#") + \
                m.lstrip("\0adehmno")
        return (m, tuple(tree(k) for k in kids))
    return files, {tree(i): len(h) for i, h in enumerate(ix.hits) if h}


def depth(k):
    return max([0] + [depth(c) + 1 for c in k[1]])


def size(k):
    return 1 + sum(size(c) for c in k[1])


def run(args, scratch, what, rep, **kw):
    r = proc.run(args, scratch, **kw)
    proc.check_clean(r, what, rep)
    if r.rc != 0:
        raise core.Violation("%s: exit %s\n%s" % (what, r.rc, r.describe()),
                             "", rep)
    return r


def job(st, item, scratch):
    seed, kind, rename = item
    rng = random.Random("a01-%s-%s" % (seed, kind))
    if kind == "open":
        files, exp = open_formulas(rng)
    else:
        files = i03.corpus(rng, kind, [w for w in Gen.WORDS if w[0] != "~"])
        exp = i03.expected(files, rename)
    what = "A01 %s%s" % (kind, " -c" if rename else "")
    hd = os.path.join(scratch, "h")
    os.makedirs(hd)
    texts = search.write_files(hd, files, Style(rng, "mix"))
    rep = {"harvest/" + k: v for k, v in texts.items()}
    want = {normal(shown(k)): n for k, n in exp.items()}
    out = os.path.join(scratch, "idx")
    search.build_index(BINS, scratch, out, [hd], ["-c"] if rename else [],
                       what, rep)

    def expressions(r):
        got = []
        for line in r.out.split(b"\n"):
            if line.startswith(b"EXPR "):
                _, hits, dep, siz, tree = line.split(b" ", 4)
                try:
                    got.append((normal(parse(tree)), int(hits), int(dep), int(siz)))
                except (ValueError, UnicodeDecodeError) as e:
                    raise core.Violation(
                        "%s: the callback got a broken tree (%s): %r" %
                        (what, e, line[:500]), "", rep)
        return got

    r = run([DUMP, "-I", out], scratch, what, rep)
    got = expressions(r)
    seen = set()
    for tree, hits, dep, siz in got:
        if tree in seen:
            raise core.Violation("%s: presented twice: %r" %
                                 (what, tree), "", rep)
        seen.add(tree)
        if want.get(tree) != hits:
            raise core.Violation(
                "%s: presented %r with %d hits, harvested with %s" %
                (what, tree, hits, want.get(tree)), "", rep)
        if dep != depth(tree) or siz != size(tree):
            raise core.Violation(
                "%s: depth %d and size %d of %r" % (what, dep, siz, tree),
                "", rep)
        st.case((repr(tree)[:3000], hits), bool(tree[1]),
                {"tree": repr(tree)[:200], "hits": hits})
    if len(seen) != len(want):
        miss = [t for t in want if t not in seen]
        raise core.Violation("%s: %d of %d formulas never presented: %r" %
                             (what, len(miss), len(want), miss[:2]), "", rep)
    if r.out.count(b"\nEND\n") != 1 or not r.out.endswith(b"END\n"):
        raise core.Violation("%s: analyze_end did not come once, last" % what,
                             "", rep)
    # stopping
    for n in sorted({0, 1, len(want), rng.randrange(1, len(want) + 1)}):
        r = run([DUMP, "-I", out], scratch, what, rep,
                user_env={"ANALYZE_STOP": str(n)})
        part = expressions(r)
        if part != got[:n]:
            raise core.Violation(
                "%s: told to stop after %d of %d, the callback saw %d "
                "expressions" % (what, n, len(want), len(part)), "", rep)
        st.count("early stops")
    # the example report
    r = run([BINS["analyze_example"], "-I", out], scratch, what, rep)
    vals = {}
    for key, pat in (("hits", rb"Index contains (\d+) hits"),
                     ("unique", rb"Index contains (\d+) unique"),
                     ("depth", rb"Average expression depth is (\S+)"),
                     ("size", rb"Average expression size is (\S+)")):
        m = re.findall(pat, r.out)
        if len(m) != 1:
            raise core.Violation("%s: report lacks %s:\n%r" %
                                 (what, key, r.out[-600:]), "", rep)
        vals[key] = float(m[0])
    n = len(want)
    ok = {"hits": sum(want.values()), "unique": n,
          "depth": sum(depth(t) for t in want) / n,
          "size": sum(size(t) for t in want) / n}
    for key in ok:
        if abs(vals[key] - ok[key]) > 1e-5 * max(1, ok[key]):
            raise core.Violation("%s: report says %s %s, expected %s" %
                                 (what, key, vals[key], ok[key]), "", rep)
    st.count("reports compared")
    st.count("indexes with renaming", int(rename))
    st.maximum("expressions", n)


def body(ck):
    global BINS, DUMP
    BINS = build.build("asan", ["mws-index", "analyze_example"])
    DUMP = build.harness("asan", "analyze_dump.cpp", ["analyze_example"])
    n = core.pick(8, 40)
    ck.parallel(job, [("%d-%d" % (ck.seed, i), k, ren) for i in range(n)
                      for k in ("mixed", "tiny", "mixed", "deep", "same",
                                "real")
                      for ren in (False, True)] +
                [("%d-%d" % (ck.seed, i), "open", False) for i in range(n)] +
                [("%d" % ck.seed, "wide", False)])

    ck.parallel(bigindex.job, bigindex.items('A01', ('leaves',), ck.seed))


if __name__ == "__main__":
    core.main("A01", body, rule=RULE, assumptions=[
        "identifiers renamed in the index are presented as ci elements with "
        "the placeholder name"])
