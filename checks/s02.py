"""S02: schema answers are ranked, limited and reported consistently."""
import random

from vlib import build, core, schema
from vlib.model import *

RULE = ("one evaluation = one answer checked for order, limit, totals, "
        "member indices and substitutions in both formats; non-trivial = at "
        "least two schemata exist; distinct by (request, format)")


def job(st, item, scratch):
    seed, rename, n = item
    rng = random.Random("s02-%s" % seed)
    what = "S02 schemad%s" % (" -c" if rename else "")
    d = schema.start(BINS, scratch, ["-c"] if rename else [], what)
    try:
        ask = schema.Asker(d, what)
        for _ in range(n):
            roots = schema.xrefs(schema.formulas(
                rng, rng.choice([1, 5, 12, 40, 90])), rng,
                rng.choice([0, .5, .9, 1]))
            mode = rng.choice(["A", "A", "R", None])
            dep = rng.choice([0, 10, 30, 50, 70, 100]) if mode == "R" else \
                rng.choice([0, 1, 1, 2, 2, 3, 5, 1000])
            style = Style(rng, "mix", 0)
            back = [i for i, t in enumerate(roots) if schema.usable(t)]
            exp = schema.expected([roots[i] for i in back], mode, dep, rename)
            covs = sorted((len(e.members) for e in exp.values()),
                          reverse=True)
            sizes = [0, None, rng.choice([1, 2, 3, 30]),
                     max(1, len(exp) + rng.randrange(-2, 3))]
            for size in sizes:
                want = covs if size == 0 else covs[:30 if size is None
                                                   else size]
                head = "%s, mode %s depth %s size %s" % (what, mode, dep,
                                                         size)
                rj, f = ask.ask(roots, mode, dep, size,
                                rng.choice(["json", None]), style)
                j = schema.read_json(rj, head, f)
                rx, fx = ask.ask(roots, mode, dep, size, "xml", style)
                f["answer.xml"] = rx.body
                x = schema.read_xml(rx, head, fx)
                for fmt, a in (("JSON", j), ("XML", x)):
                    if a.total != len(exp) or a.size != len(a.groups):
                        raise core.Violation(
                            "%s: %s total %s size %s with %d schemata, "
                            "expected total %d" % (head, fmt, a.total, a.size,
                                                   len(a.groups), len(exp)),
                            "", f)
                    got = [g.coverage for g in a.groups]
                    if got != want:
                        raise core.Violation(
                            "%s: %s coverages are %r, expected %r" %
                            (head, fmt, got, want), "", f)
                    for g in a.groups:
                        e = exp.get(g.tree)
                        if e is None or len(e.members) != g.coverage:
                            raise core.Violation(
                                "%s: %s schema %r has coverage %d, expected "
                                "%s" % (head, fmt, g.tree, g.coverage,
                                        e and len(e.members)), "", f)
                    if len({g.tree for g in a.groups}) != len(a.groups):
                        raise core.Violation("%s: %s repeats a schema" %
                                             (head, fmt), "", f)
                    st.case((f["query.xml"], fmt), len(exp) > 1,
                            {"size": size, "coverages": got[:10],
                             "total": a.total})
                for g in j.groups:
                    e = exp[g.tree]
                    ms = [back[m] for m in e.members]
                    if g.members != ms:
                        raise core.Violation(
                            "%s: member indices %r, expected %r" %
                            (head, g.members, ms), "", f)
                    if g.subst != e.subst:
                        raise core.Violation(
                            "%s: substitutions of formula %d are %r, "
                            "expected %r" % (head, ms[0], g.subst, e.subst),
                            "", f)
                    st.count("substitutions compared", len(e.subst))
                if len(want) == len(covs) or want[-1] > covs[len(want)]:
                    # the set is determined: both formats list it
                    if {g.tree for g in j.groups} != \
                            {g.tree for g in x.groups}:
                        raise core.Violation(
                            "%s: XML and JSON list different schemata" %
                            head, "", f)
                    if [g.tree for g in j.groups] != \
                            [g.tree for g in x.groups]:
                        st.count("ties listed in different order")
                if len(want) < len(covs):
                    st.count("limited answers")
            d.check_healthy(what, f)
        ask.c.close()
        d.finish(what)
    finally:
        d.kill()


def body(ck):
    global BINS
    BINS = build.build("asan", ["schemad"])
    ck.parallel(job, [("%d-%d" % (ck.seed, i), i % 4 == 3,
                       core.pick(70, 500))
                      for i in range(core.pick(16, 64))])


if __name__ == "__main__":
    core.main("S02", body, rule=RULE, assumptions=[
        "schemata of equal coverage may be listed in any order"])
