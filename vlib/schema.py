"""Reference model of the schema daemon and strict readers of its answers."""
import json
import random
import xml.etree.ElementTree as ET

from .answers import bad
from .core import Violation
from .model import *
from . import core, http, proc, real

HOLE = ("?",)


def blank(t, cutoff, meaning):
    """(meaning, kids) tree cut below cutoff levels; HOLE where cut.
    Positions of the cut parts are appended to the second value in reading
    order."""
    holes = []

    def rec(n, level):
        kids = []
        for i, k in enumerate(n.kids):
            if level >= cutoff and not (i == 0 and n.tag == "apply"):
                kids.append(HOLE)
                holes.append(k)
            else:
                kids.append(rec(k, level + 1))
        return (meaning(n), tuple(kids))
    if cutoff <= 0:
        return HOLE, [t]
    return rec(t, 1), holes


def depth(t):
    """Levels below the root."""
    return t.depth()


def meanings_of(root, rename):
    """Function giving the shown (tag, text) of the nodes of one formula."""
    if not rename:
        return lambda n: (n.tag, "" if n.tag == "mtext" else nows(n.text))
    names = {}
    shown = {}

    def rec(n, parent):
        if renamable(n, parent):
            i = names.setdefault(nows(n.text), len(names) + 1)
            shown[id(n)] = ("ci", "~%d" % i)
        for k in n.kids:
            rec(k, n)
    rec(root, None)
    return lambda n: shown.get(id(n)) or \
        (n.tag, "" if n.tag == "mtext" else nows(n.text))


class Group:
    __slots__ = ("tree", "members", "subst", "coverage", "vars")


def expected(roots, mode, dep, rename=False):
    """{tree: Group}"""
    out = {}
    for i, t in enumerate(roots):
        cutoff = dep if mode != "R" else dep * depth(t) // 100
        tree, holes = blank(t, cutoff, meanings_of(t, rename))
        g = out.get(tree)
        if g is None:
            g = out[tree] = Group()
            g.tree = tree
            g.members = []
            g.subst = [h.attrs["xref"] for h in holes if h.attrs.get("xref")]
        g.members.append(i)
    return out


def _read(el, names):
    tag = el.tag
    for p in ("{http://www.mathweb.org/mws/ns}", "{urn:mws}"):
        if tag == p + "qvar":
            names.append((el.text or "").strip())
            if len(el):
                raise ValueError("qvar with children")
            return HOLE
    return ((tag.rsplit("}", 1)[-1], nows(el.text or "")),
            tuple(_read(k, names) for k in el))


def tree_of(xml, what, body, files):
    """(tree, variable names) of a schema printed as XML text."""
    try:
        root = ET.fromstring("<w xmlns:mws='urn:mws'>%s</w>" % xml)
    except ET.ParseError as e:
        bad("%s: schema is not well-formed: %s: %r" % (what, e, xml[:500]),
            body, files)
    if len(root) != 1:
        bad("%s: schema has %d roots" % (what, len(root)), body, files)
    names = []
    try:
        return _read(root[0], names), names
    except ValueError as e:
        bad("%s: %s" % (what, e), body, files)


class Reply:
    pass


def read_json(resp, what, files):
    if resp.status != 200:
        bad("%s: answered %d" % (what, resp.status), resp.body, files)
    if (resp.get("content-type") or "").split(";")[0] != "application/json":
        bad("%s: content type %r" % (what, resp.get("content-type")),
            resp.body, files)
    r = Reply()
    try:
        o = json.loads(resp.body.decode("utf-8"))
        r.total, r.size = o["total"], o["size"]
        r.groups = []
        for s in o["schemata"]:
            g = Group()
            g.tree, g.vars = tree_of(s["cmmlSchema"], what, resp.body, files)
            g.coverage = s["coverage"]
            g.members = s["formulae"]
            g.subst = s["subst"]
            r.groups.append(g)
    except (ValueError, KeyError, TypeError) as e:
        bad("%s: unreadable JSON answer: %r" % (what, e), resp.body, files)
    return r


def read_xml(resp, what, files):
    if resp.status != 200:
        bad("%s: answered %d" % (what, resp.status), resp.body, files)
    if (resp.get("content-type") or "").split(";")[0] != "application/xml":
        bad("%s: content type %r" % (what, resp.get("content-type")),
            resp.body, files)
    r = Reply()
    try:
        root = ET.fromstring(resp.body)
        r.total, r.size = int(root.get("total")), int(root.get("size"))
        r.groups = []
        for s in root:
            if s.tag.rsplit("}", 1)[-1] != "schema" or len(s) != 1 or \
                    s[0].tag != "math" or len(s[0]) != 1:
                bad("%s: unexpected structure" % what, resp.body, files)
            g = Group()
            g.vars = []
            g.tree = _read(s[0][0], g.vars)
            g.coverage = int(s.get("coverage"))
            r.groups.append(g)
    except (ET.ParseError, ValueError, TypeError) as e:
        bad("%s: unreadable XML answer: %r" % (what, e), resp.body, files)
    return r


# --- workload ---------------------------------------------------------------
def xrefs(roots, rng, p=.8):
    n = 0
    for t in roots:
        for s in t.subterms():
            n += 1
            s.attrs.pop("xref", None)
            if rng.random() < p:
                s.attrs["xref"] = "x%d" % n if rng.random() < .9 else \
                    rng.choice(["same", "a&b", "\"q\" <", "\u00e9"])
    return roots


def family(rng, n):
    """Formulas that nearly share their schemata: a few shapes over few
    symbols, cut and extended at random places."""
    tags = rng.choice([["apply", "set"], ["apply"], ["set", "list"],
                       ["apply", "list", "bind"], ["apply", "applyx"]])
    heads = ["plus", "sin"]

    def grow(d):
        if d <= 0 or rng.random() < .15:
            return T(rng.choice(["ci", "ci", "cn"]), rng.choice(["1", "2",
                                                                 "x"]))
        tag = rng.choice(tags)
        kids = [grow(d - 1) for _ in range(rng.randrange(0, 3))]
        if tag == "apply":
            kids.insert(0, T(rng.choice(heads)) if rng.random() < .6
                        else grow(d - 1))
        elif not kids and rng.random() < .7:
            kids = [grow(d - 1)]
        return T(tag, "", kids)

    def chain(d):
        t = T("ci", rng.choice("xy"))
        for _ in range(d):
            tag = rng.choice(tags)
            t = T(tag, "", [t] if rng.random() < .7 else
                  [T("ci", "h"), t] if rng.random() < .5 else
                  [t, T("ci", "h")])
        return t
    base = [grow(rng.randrange(1, 7)) for _ in range(max(1, n // 5))]
    base += [chain(rng.randrange(1, 9)) for _ in range(max(1, n // 6))]
    out = []
    for _ in range(n):
        t = rng.choice(base).clone()
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            s = rng.choice(list(t.subterms()))
            k = rng.randrange(4)
            if k == 0 and not s.kids:
                s.text = rng.choice(["1", "x", "other"])
            elif k == 1 and s.kids:
                j = rng.randrange(len(s.kids))
                s.kids[j] = grow(rng.randrange(3))
            elif k == 2:
                s.kids.append(grow(rng.randrange(2)))
            elif k == 3 and s.kids:
                s.kids.pop(rng.randrange(len(s.kids)))
        out.append(t)
    return out


def wide(rng, n):
    """Few symbols with as many, and with many more, children: schemata that
    differ in the number of children only."""
    kinds = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice([0, 1, 2, 3])
        kinds += [(rng.choice(["set", "apply", "list"]), x) for x in
                  (k, k + 16, k + 64, k + 127, k + 128, k + 250)
                  if 0 < x <= MAX_ARITY]
    out = []
    for _ in range(n):
        tag, w = rng.choice(kinds)
        t = T(tag, "", [T("ci", "x") if rng.random() < .9 else
                        T("set", "", [T("ci", "y")]) for _ in range(w)])
        out.append(t if rng.random() < .5 else
                   T("list", "", [t, T("ci", "z")]))
    return out


def lookalikes(rng, n):
    """Formulas of which the same symbols in the same order are left when
    they are cut off at different depths."""
    tags = rng.sample(["set", "list", "vector", "interval", "union"], 4)

    def chain(names, end):
        for t in reversed(names):
            end = T(t, "", [end])
        return end

    def deep():
        return chain([rng.choice(tags) for _ in range(rng.randrange(0, 12))],
                     T("ci", rng.choice("xy")))
    out = []
    c = rng.choice([2, 2, 3, 4])
    for _ in range(n):
        if rng.random() < .3:
            c = rng.choice([2, 2, 3, 4])
        spine = [tags[i % 2] for i in range(c)]
        if rng.random() < .5:
            kids = [chain(spine, deep()), T(tags[2], "", [T("ci", "x")])]
        else:
            kids = [chain(spine + [tags[2]], deep()), T("ci", "x")]
        out.append(T(tags[3], "", kids))
    return out


def formulas(rng, n):
    k = rng.random()
    if k < .45:
        ts = family(rng, n) if k > .06 else lookalikes(rng, n)
        if k < .02 or .08 < k < .14:
            # they begin alike
            text = "long" * rng.choice([5, 60, 300, 5000])
            tag = rng.choice(["set", "list", "apply"])
            ts = [T(tag, "", [T("ci", text), t]) for t in ts]
    elif k < .52:
        ts = wide(rng, n)
    elif k < .6 and real.formulas():
        # as people wrote them, and the same with something changed
        g = Gen(rng, words=[w for w in Gen.WORDS if w[0] != "~"])
        some = [real.closed(rng.choice(real.formulas()))
                for _ in range(max(1, n // 3))]
        ts = [t for t in some if t.size() < 120] or [g.term()]
        while len(ts) < n:
            t = rng.choice(ts).clone()
            ts.append(g.mutate(t) if rng.random() < .7 else t)
        ts = ts[:n]
        rng.shuffle(ts)
    else:
        g = Gen(rng, words=["x", "y", "P", "xy", "a&b", "<t>", "\u00e9",
                            "b\"c", "f g"],
                tags=["apply", "apply", "set", "bind", "m", "apply-to", "interval"],
                maxdepth=rng.choice([2, 4, 6]), maxkids=rng.choice([2, 4]))
        ts = [g.term() for _ in range(n)]
        for i in range(n):
            if rng.random() < .4:
                ts[i] = rng.choice(ts).clone()
                if rng.random() < .6:
                    ts[i] = g.mutate(ts[i])
    if rng.random() < .1:
        # too wide to be encoded: left out, but the others keep their index
        w = T("apply", "", [T("ci", "w") for _ in range(256)])
        ts.insert(rng.randrange(len(ts) + 1),
                  w if rng.random() < .5 else T("set", "", [w]))
    return ts


def usable(t):
    return all(len(s.kids) <= MAX_ARITY for s in t.subterms())


def start(bins, scratch, extra, what):
    for _ in range(3):
        port = proc.free_port()
        d = proc.Daemon([bins["schemad"], "-p", str(port)] + extra, scratch,
                        port)
        if d.up:
            return d
    raise Violation("%s: schemad did not start\n%s" % (what, d.describe()))


class Asker:
    def __init__(self, d, what):
        self.d = d
        self.what = what
        self.c = http.Client(d.port)

    def ask(self, roots, mode, dep, size, output, st, extra_attr=""):
        a = extra_attr
        if dep is not None:
            a += ' schema_depth="%d"' % dep
        if mode is not None:
            a += ' cutoff_mode="%s"' % mode
        q = query_xml(roots, None, size, output, st, extra=a)
        files = {"query.xml": q}
        r = http.post(self.d, self.c, q, self.what, files)
        files["answer"] = r.body
        return r, files
