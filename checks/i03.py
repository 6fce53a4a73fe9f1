"""I03: the saved index is structurally sound and conserves hits."""
import os
import random
import re

from vlib import bigindex, build, core, memsector, proc, real, search
from vlib.model import *

RULE = ("one evaluation = one leaf of a saved index whose formula, hit count "
        "and identifier were compared with the harvest, the statistics log, "
        "the analytics report and a search; non-trivial = the formula was "
        "asked of the daemon or has several hits; distinct by (formula, "
        "hits)")


def meanings_fn(root, rename):
    if not rename:
        return None
    names = {}
    out = {}

    def rec(t, parent):
        if renamable(t, parent):
            out[id(t)] = "~%d" % names.setdefault(t.meaning(),
                                                  len(names) + 1)
        for k in t.kids:
            rec(k, t)
    rec(root, None)
    return lambda t: out.get(id(t)) or t.meaning()


def expected(files, rename):
    """{(meaning, kids): hits}, recomputed per expression."""
    hits = {}
    for hf in files:
        for it in hf.items:
            if not isinstance(it, Expr):
                continue
            for root in it.roots:
                m = meanings_fn(root, rename) or (lambda t: t.meaning())
                seen = {}
                bad = set()

                def rec(t):
                    kids = tuple(rec(k) for k in t.kids)
                    k = (m(t), kids)
                    seen.setdefault(k, None)
                    if len(t.kids) > MAX_ARITY or \
                            any(x in bad for x in kids):
                        bad.add(k)
                    return k
                rec(root)
                for k in seen:
                    if k not in bad:
                        hits[k] = hits.get(k, 0) + 1
    return hits


def corpus(rng, kind, words=None):
    if kind == "mixed":
        g = Gen(rng, words=words)
        return [g.file("a%d.harvest" % i, rng.randint(1, 60), i * 100)
                for i in range(rng.randint(1, 4))]
    if kind == "tiny":
        g = Gen(rng, words=words, maxdepth=2)
        return [g.file("a.harvest", rng.randint(1, 3))]
    if kind == "real":           # as people wrote them
        got = real.files(rng, 90, False)
        if got:
            return got[0]
    if kind == "same":
        g = Gen(rng, words=["x", "y"], nums=["1"], maxdepth=3)
        ts = [g.term() for _ in range(3)]
        return [HarvestFile("a.harvest", [
            Expr([rng.choice(ts).clone()], "u%d" % i)
            for i in range(rng.choice([300, 1500]))])]
    if kind == "deep":
        out = []
        for j in range(12):
            t = T("ci", "x")
            for i in range(rng.choice([30, 60, 120])):
                t = T(rng.choice(["apply", "set"]), "", [t] if i % 9 else
                      [T("ci", "y"), t])
            out.append(Expr([t], "u%d" % j))
        return [HarvestFile("a.harvest", out)]
    if kind == "wide":
        out = []
        for j, w in enumerate([255, 254, 256, 1, 200, 255, 300, 128, 129]):
            kids = [T("ci", "x%d" % rng.randrange(40)) for _ in range(w)]
            t = T("apply", "", kids)
            if j % 3 == 2:
                t = T("set", "", [T("ci", "k"), t])
            out.append(Expr([t], "u%d" % j))
        return [HarvestFile("a.harvest", out)]
    if kind == "big":            # thousands of subterms, many repeated
        g = Gen(rng, words=["w%d" % i for i in range(2500)], maxdepth=3)
        out = []
        for n in (5, 12):
            ks = [T("set", "", [g.term(2) for _ in range(200)])
                  for _ in range(n)]
            ks += [rng.choice(ks).clone() for _ in range(3)]
            out.append(Expr([T("list", "", ks)], "big%d" % n))
        return [HarvestFile("a.harvest", out)]
    if kind == "vocab":
        # more terms than fit in two bytes of the identifiers
        n = 70000
        words = ["v%d" % i for i in range(n)]
        rng.shuffle(words)
        out = []
        for j in range(0, n, 50):
            out.append(Expr([T("apply", "", [T("ci", w)
                                             for w in words[j:j + 50]])],
                            "u%d" % j))
        return [HarvestFile("a.harvest", out)]
    raise AssertionError(kind)


def term_of(k):
    tag, _, text = k[0].partition("#")
    return T(tag, text, [term_of(c) for c in k[1]])


def load(d, what, rep):
    try:
        ms, dic = memsector.find_files(d)
        ix = memsector.Index(ms)
        words = memsector.meanings(dic)
        out = {}
        for path, hits, fid in ix.leaves:
            k = memsector.decode(path, words)
            if k in out:
                raise memsector.Bad("two leaves for one formula")
            out[k] = (hits, fid)
        return ix, out
    except memsector.Bad as e:
        f = dict(rep)
        try:
            f["index.memsector.dat"] = open(ms, "rb").read()[:1 << 22]
        except Exception:
            pass
        raise core.Violation("I03 %s: %s" % (what, e), "", f)


def job(st, item, scratch):
    seed, kind = item
    rng = random.Random("i03-%s-%s" % (seed, kind))
    files = corpus(rng, kind)
    rename = rng.random() < .3 and kind not in ("wide", "vocab")
    extra = ["-c"] if rename else []
    hd = os.path.join(scratch, "h")
    os.makedirs(hd)
    texts = search.write_files(hd, files, Style(rng, "mix"))
    rep = {"harvest/" + k: v for k, v in texts.items()}
    if kind == "vocab":
        rep = {}
    exp = expected(files, rename)
    total = sum(exp.values())
    what = "%s%s" % (kind, " -c" if rename else "")
    out = os.path.join(scratch, "idx")
    log = os.path.join(scratch, "stats.log")
    d = None
    if rng.random() < .5 and kind != "vocab":
        # built by the daemon, with its statistics log
        d = search.start(BINS, scratch, ["-D", out, "-I", hd, "-s", log] +
                         extra, "I03 " + what, rep)
    else:
        search.build_index(BINS, scratch, out, [hd], extra, "I03 " + what,
                           rep)
    try:
        ix, got = load(out, what, rep)
        if set(got) != set(exp):
            miss = [k for k in exp if k not in got]
            more = [k for k in got if k not in exp]
            raise core.Violation(
                "I03 %s: the leaves spell %d formulas, harvested %d; missing "
                "%r, extra %r" % (what, len(got), len(exp), miss[:2],
                                  more[:2]), "", rep)
        for k in exp:
            if got[k][0] != exp[k]:
                raise core.Violation(
                    "I03 %s: the leaf of %r counts %d hits, harvested %d" %
                    (what, k, got[k][0], exp[k]), "", rep)
        st.count("indexes parsed")
        st.count("internal nodes", ix.internal)
        st.maximum("children of a node", ix.maxchildren)
        st.maximum("leaves", len(got))
        st.maximum("longest path", max(len(l[0]) for l in ix.leaves))
        if d is not None:
            lines = open(log).read().splitlines()
            nums = [int(x) for x in re.findall(r"\d+", lines[-1])]
            if len(lines) != 1 + len(files) or nums[0] != total or \
                    nums[1] != len(exp):
                raise core.Violation(
                    "I03 %s: statistics log %r, harvested %d hits of %d "
                    "formulas" % (what, lines, total, len(exp)), "", rep)
            st.count("statistics logs compared")
        a = proc.run([BINS["analyze_example"], "-I", out], scratch)
        proc.check_clean(a, "I03 %s: analytics" % what, rep)
        nums = [int(x) for x in re.findall(
            rb"Index contains (\d+)", a.out)]
        if a.rc != 0 or nums != [total, len(exp)]:
            raise core.Violation(
                "I03 %s: analytics exits %d and reports %r, harvested %r" %
                (what, a.rc, nums, [total, len(exp)]), "", rep)
        ks = sorted(exp)
        rng.shuffle(ks)
        asked = set()
        if not rename:
            if d is None:
                d = search.start(BINS, scratch, ["-D", out], "I03 " + what,
                                 rep)
            ask = search.Asker(d, "I03 " + what, rep)
            for k in ks[:core.pick(250, 2500)]:
                r = ask.xml(term_of(k), None, 1)
                if r.total != exp[k]:
                    raise core.Violation(
                        "I03 %s: searching for a formula with %d hits "
                        "reports %d" % (what, exp[k], r.total), "",
                        ask.ctx(r.query))
                j = ask.ids(term_of(k))
                if j.ids != [got[k][1]]:
                    raise core.Violation(
                        "I03 %s: the leaf of a formula has identifier %d, "
                        "the search reports %r" % (what, got[k][1], j.ids),
                        "", ask.ctx(j.query))
                asked.add(k)
            ask.close()
            # repeated for every formula in the file, the total is conserved
            r = None
        for k in ks:
            st.case((k if kind != "deep" else repr(k)[:4000], exp[k]),
                    k in asked or exp[k] > 1,
                    {"formula": repr(k)[:200], "hits": exp[k],
                     "id": got[k][1]})
        if d is not None:
            d.check_healthy("I03 " + what, rep)
            d.finish("I03 " + what, rep)
    finally:
        if d is not None:
            d.kill()


def body(ck):
    global BINS
    BINS = build.build("asan", ["mwsd", "mws-index", "analyze_example"])
    kinds = [("vocab", 1)] + [(k, core.pick(n, 10 * n)) for k, n in (
        ("mixed", 10), ("tiny", 6), ("same", 3), ("big", 1), ("deep", 3), ("wide", 3),
        ("real", 4))]
    ck.parallel(job, [("%d-%d" % (ck.seed, i), k) for k, n in kinds
                      for i in range(n)])

    ck.parallel(bigindex.job, bigindex.items('I03', ('leaves',), ck.seed))


if __name__ == "__main__":
    core.main("I03", body, rule=RULE, assumptions=[
        "formulas containing an element with more than 255 children are not "
        "indexed; under identifier renaming subterms are told apart after "
        "renaming",
        "nodes with 64-bit references (indexes beyond 16 GB) do not occur "
        "in the workload"])
