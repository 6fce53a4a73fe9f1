"""S01: schemata partition the posted formulas and generalise each member."""
import random

from vlib import build, core, schema
from vlib.model import *

RULE = ("one evaluation = one posted formula whose schema group was compared "
        "with the oracle; non-trivial = its schema has a variable or it "
        "shares its group; distinct by (schema, mode, renaming)")


def job(st, item, scratch):
    seed, rename, n = item
    rng = random.Random("s01-%s" % seed)
    what = "S01 schemad%s" % (" -c" if rename else "")
    d = schema.start(BINS, scratch, ["-c"] if rename else [], what)
    try:
        ask = schema.Asker(d, what)
        for _ in range(n):
            roots = schema.formulas(rng, rng.choice([1, 3, 10, 40]))
            mode = rng.choice(["A", "A", "R", "R", None])
            if mode == "R":
                dep = rng.choice([0, 1, 10, 25, 33, 50, 66, 75, 99, 100, 150,
                                  1000, 10 ** 9, 2 ** 31 - 1, 2 ** 32 // 3 + 1,
                                  2 ** 32 // 4, 2 ** 32 // 5 + 1,
                                  rng.randrange(101)])
            else:
                dep = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 9, 1000])
            style = Style(rng, rng.choice(["m", "none", "mix"]),
                          rng.choice([0, 0, 1]))
            r, f = ask.ask(roots, mode, dep, 0, None, style)
            a = schema.read_json(r, what, f)
            used = [t if schema.usable(t) else None for t in roots]
            exp = schema.expected([t for t in used if t], mode, dep, rename)
            back = [i for i, t in enumerate(used) if t]
            head = "%s, mode %s depth %s" % (what, mode, dep)
            seen = {}
            for g in a.groups:
                for m in g.members:
                    if m in seen:
                        raise core.Violation("%s: formula %s is in two "
                                             "schemata" % (head, m), "", f)
                    seen[m] = g
            if sorted(seen) != back:
                raise core.Violation(
                    "%s: formulas %r are in the schemata, expected %r" %
                    (head, sorted(seen), back), "", f)
            if len(a.groups) != len(exp):
                got = {g.tree: g.members for g in a.groups}
                for t, e in exp.items():
                    ms = [back[m] for m in e.members]
                    if got.get(t) != ms:
                        raise core.Violation(
                            "%s: %d schemata, expected %d; no group with "
                            "members %r" % (head, len(a.groups), len(exp),
                                            ms), "", f)
                raise core.Violation("%s: %d schemata, expected %d" %
                                     (head, len(a.groups), len(exp)), "", f)
            for e in exp.values():
                ms = [back[m] for m in e.members]
                g = seen[ms[0]]
                if sorted(g.members) != ms:
                    raise core.Violation(
                        "%s: formula %d is grouped with %r, expected %r" %
                        (head, ms[0], g.members, ms), "", f)
                if g.tree != e.tree:
                    raise core.Violation(
                        "%s: schema of formulas %r is\n%r\nexpected\n%r" %
                        (head, ms, g.tree, e.tree), "", f)
                if len(set(g.vars)) != len(g.vars) or "" in g.vars:
                    raise core.Violation(
                        "%s: variables of a schema are not distinct: %r" %
                        (head, g.vars), "", f)
                for m in ms:
                    st.case((e.tree, mode, rename),
                            bool(g.vars) or len(ms) > 1,
                            {"schema": repr(e.tree)[:300], "mode": mode,
                             "depth": dep, "members": ms[:10]})
                st.count("schemata")
                if len(ms) > 1:
                    st.count("schemata with several members")
                if g.vars:
                    st.count("schemata with variables")
                st.maximum("variables in a schema", len(g.vars))
            st.count("requests")
            st.maximum("formulas in a request", len(roots))
            d.check_healthy(what, f)
        ask.c.close()
        d.finish(what)
    finally:
        d.kill()


def body(ck):
    global BINS
    BINS = build.build("asan", ["schemad"])
    ck.parallel(job, [("%d-%d" % (ck.seed, i), i % 4 == 3,
                       core.pick(150, 1000))
                      for i in range(core.pick(40, 96))])


if __name__ == "__main__":
    core.main("S01", body, rule=RULE, assumptions=[
        "posted formulas are content MathML without query variables; "
        "formulas with an element of more than 255 children are left out of "
        "every schema"])
