"""Indexes far beyond 16 GiB: the tree's own writer leaves holes in the file
(see harness/drive_bigindex.cpp), and answers must not change."""
import os
import random
import shutil
import struct

from . import build, core, memsector, proc
from .model import *

UNIT = 4
LONG = 1 << 32              # in units: references from here on are long


class NotMade(Exception):
    pass


def binary(variant="asan"):
    """The driver, or None when the tree has no such functions to wrap."""
    try:
        return build.harness(variant, "drive_bigindex.cpp", ["mwsd"],
                             extra=["-Wl,--wrap=memsector_write",
                                    "-Wl,--wrap=crc32", "-lpthread"])
    except build.BuildError:
        return None


def run(exe, hd, qd, scratch, name, gaps, what):
    idx = os.path.join(scratch, "idx-" + name)
    out = os.path.join(scratch, "out-" + name)
    os.makedirs(out)
    r = proc.run([exe, hd, idx, qd, out] + ["%d:%d" % g for g in gaps],
                 scratch, timeout=300)
    files = {"holes": repr(gaps)}
    if gaps and (r.timed_out or b"checksum" in r.err):
        raise NotMade()     # the holes were really read
    proc.check_clean(r, what, files)
    if r.rc != 0:
        raise core.Violation("%s: no answers with holes %r\n%s" %
                             (what, gaps, r.describe()), "", files)
    res = {}
    for n in os.listdir(out):
        with open(os.path.join(out, n), "rb") as f:
            res[n] = f.read()
    return idx, res


def long_nodes(path):
    """Number of nodes with long references reachable from the root."""
    n = 0
    with open(path, "rb") as f:
        h = f.read(28)
        root, = struct.unpack_from("<Q", h, 20)
        todo = [root * UNIT]
        while todo:
            at = todo.pop()
            f.seek(at)
            w, = struct.unpack("<Q", f.read(8))
            if w & 3 == 3:
                continue
            es = 8 if w & 3 == 1 else 12
            n += es == 12
            d = f.read((w >> 2) * es)
            for i in range(w >> 2):
                rel, = struct.unpack_from("<I" if es == 8 else "<Q", d,
                                          i * es + 4)
                todo.append(at - rel * UNIT)
    return n


def holes(rng, ms):
    """Holes for an index that was laid out as in the file ms."""
    ix = memsector.Index(ms)
    b = ix.b
    leaf = sorted(o for o in ix.records
                  if struct.unpack_from("<Q", b, o)[0] & 3 == 3)
    kids = {}
    for o in ix.records:
        w, = struct.unpack_from("<Q", b, o)
        if w & 3 == 1:
            kids[o] = [o - struct.unpack_from("<I", b, o + 12 + 8 * i)[0] * 4
                       for i in range(w >> 2)]
    k = rng.randrange(4)
    if k < 2:
        # one node at the limit of short references
        cand = [o for o in kids if len(kids[o]) > 1]
        o = ix.root if rng.random() < .4 else rng.choice(cand or [ix.root])
        # the first written child is the one to reach
        first = kids[o][0]
        between = [i for i, l in enumerate(leaf) if first < l < o]
        if not between:
            return [(0, LONG * UNIT)]
        want = LONG + rng.choice([-1, 0, 1, -2, 2, 1000, LONG])
        return [(rng.choice(between), want * UNIT - (o - first))]
    if k == 2:
        # the file grows over the 32-bit limit of absolute positions
        i = rng.randrange(len(leaf))
        at = LONG * UNIT * rng.randint(1, 3)
        near = rng.choice([0, 4, 8, 12, 16, 20, 100, 1000])
        return [(i, at - leaf[i] - 8 - near)]
    g = {}
    for _ in range(rng.randint(1, 6)):
        g[rng.randrange(len(leaf))] = UNIT * rng.choice(
            [1 << 20, 3 << 20, (1 << 31) - 1, 1 << 31, LONG - 1, LONG, LONG + 1,
             LONG * 3 // 2, rng.randrange(1, LONG * 2)])
    return sorted(g.items())


def job(st, item, scratch):
    exe, pid, seed, ncases, engines = item
    rng = random.Random("big-%s" % seed)
    kind = rng.randrange(3)
    if kind == 0:
        g = Gen(rng, words=["x", "y"], nums=["1"], maxdepth=3)
    elif kind == 1:
        g = Gen(rng, words=["w%d" % i for i in range(500)], maxdepth=3)
    else:
        g = Gen(rng)
    hf = g.file("a.harvest", rng.choice([2, 8, 40]))
    hd, qd = os.path.join(scratch, "in"), os.path.join(scratch, "q")
    os.makedirs(hd)
    os.makedirs(qd)
    sty = Style(rng, "m")
    with open(os.path.join(hd, "a.harvest"), "w", encoding="utf-8") as f:
        f.write(hf.to_xml(sty))
    roots = [r for it in hf.items if isinstance(it, Expr) for r in it.roots]
    qs = [QVar("x"), T("apply", "", [QVar("f"), QVar("x")]), T("ci", "x"),
          T("ci", "nowhere")]
    qs += [g.query(roots) for _ in range(10)]
    for i, q in enumerate(qs):
        with open(os.path.join(qd, "%02d" % i), "w", encoding="utf-8") as f:
            f.write(query_xml([q], None, 100000, "xml", sty))
    idx, ref = run(exe, hd, qd, scratch, "ref", [], pid)
    ms, _ = memsector.find_files(idx)
    for c in range(ncases):
        h = holes(rng, ms)
        h = [(i, n) for i, n in h if n > 0]
        try:
            big, got = run(exe, hd, qd, scratch, "c%d" % c, h, pid)
            made = got.pop("gaps").split()[0] == str(len(h)).encode()
        except NotMade:
            made = False
        if not made:
            st.count("holes not made")
            return
        msb, _ = memsector.find_files(big)
        size = os.path.getsize(msb)
        nl = long_nodes(msb)
        shutil.rmtree(big)
        for n in sorted(ref):
            if n == "gaps" or not n.startswith(engines):
                continue
            if got.get(n) != ref[n]:
                raise core.Violation(
                    "%s: an index of %d bytes answers differently from one "
                    "of the same formulas: %s\nsmall %.600r\nlarge %.600r" %
                    (pid, size, n, ref[n], got.get(n)), "",
                    {"holes": repr(h), "a.harvest": open(
                        os.path.join(hd, "a.harvest")).read()})
            st.case(("big", seed, c, n), size > 1 << 34,
                    {"index bytes": size, "nodes with long references": nl,
                     "holes": h} if n.endswith("-00") else None)
        st.count("indexes beyond 16 GiB", size > 1 << 34)
        st.count("nodes with long references", nl)
        st.maximum("bytes of one index", size)


def items(pid, engines, seed):
    exe = binary()
    if exe is None:
        return []
    return [(exe, pid, "%s-%s-%d" % (pid, seed, i), core.pick(5, 12), engines)
            for i in range(core.pick(4, 60))]
