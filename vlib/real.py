"""Formulas as people wrote them: the topics of the NTCIR-11 tasks and the
documents that come with the sources. Where they are missing, none."""
import glob
import os
import xml.etree.ElementTree as ET

from . import build
from .model import *

_cache = []


def _local(n):
    return n.rsplit("}", 1)[-1].rsplit(":", 1)[-1]


def to_term(x):
    name = _local(x.tag)
    if name == "qvar":
        return QVar(x.get("name") or nows(x.text or ""))
    text = (x.text or "") + "".join(k.tail or "" for k in x)
    return T(name, nows(text), [to_term(k) for k in x
                                if isinstance(k.tag, str)])


def formulas():
    """[T], content and presentation markup mixed, with query variables."""
    if _cache:
        return _cache[0]
    out = []
    for p in sorted(glob.glob(os.path.join(
            build.REPO, "scripts", "other", "*", "queries.xml")) +
            glob.glob(os.path.join(build.REPO, "test", "data", "*.harvest")) +
            glob.glob(os.path.join(build.REPO, "test", "data", "*.xhtml"))):
        try:
            root = ET.parse(p).getroot()
        except (ET.ParseError, OSError):
            continue
        for x in root.iter():
            if not isinstance(x.tag, str):
                continue
            n = _local(x.tag)
            if n == "semantics" and len(x):
                out.append(to_term(x[0]))
                for k in x[1:]:
                    if _local(k.tag) == "annotation-xml":
                        out += [to_term(j) for j in k]
            elif n == "expr":
                out += [to_term(k) for k in x]
    out = [t for t in out if t.size() < 2000 and t.depth() < 60 and
           not isinstance(t, QVar)]
    _cache.append(out)
    return out


def closed(t):
    """With an identifier for every variable."""
    if isinstance(t, QVar):
        return T("ci", "v" + t.name)
    return T(t.tag, t.text, [closed(k) for k in t.kids], dict(t.attrs))


def is_open(t):
    return any(isinstance(s, QVar) for s in t.subterms())


def files(rng, n, variables):
    """Harvests of n of them; the formulas asked for as well."""
    fs = formulas()
    if not fs:
        return None
    items = []
    asked = []
    for i in range(n):
        t = rng.choice(fs)
        if is_open(t):
            asked.append(t.clone())
        if not variables or rng.random() < .5:
            t = closed(t)
        items.append(Expr([t.clone()], "real%d" % i))
    k = len(items) // 2
    return [HarvestFile("p.harvest", items[:k]),
            HarvestFile("q.harvest", items[k:])], asked
