"""I04: a damaged index is refused, never served."""
import os
import random
import shutil
import struct

from vlib import build, core, memsector, proc, search
from vlib.model import *

RULE = ("one evaluation = one damaged index given to an instrumented daemon "
        "or tool; non-trivial = the damage changes the index; distinct by "
        "(program, damage)")


def clone(src, dst, ms_bytes=None, ms_name=None):
    shutil.copytree(src, dst)
    if ms_bytes is not None:
        with open(os.path.join(dst, ms_name), "wb") as f:
            f.write(ms_bytes)


def damages(rng, b, other):
    """(name, bytes) of multi-byte damages."""
    n = len(b)
    out = [("empty", b""), ("header only", b[:28]),
           ("all zero", bytes(n)), ("all ones", b"\xff" * n),
           ("text", b"this is no index\n" * 80),
           ("extended by a byte", b + b"\0"),
           ("extended by a word", b + bytes(4)),
           ("extended by a record", b + b[-8:]),
           ("extended by a page", b + bytes(4096)),
           ("twice", b + b), ("shifted", b"\0" + b),
           ("shifted by a word", bytes(4) + b),
           ("header doubled", b[:28] + b),
           ("other index's data", b[:28] + other[28:]),
           ("other index's header", other[:28] + b[28:]),
           ("half of each", b[:n // 2] + other[n // 2:])]
    for _ in range(40):
        i = rng.randrange(n)
        j = min(n, i + rng.choice([1, 2, 4, 8, 64, 512]))
        k = rng.randrange(5)
        x = bytearray(b)
        if k == 0:
            x[i:j] = bytes(j - i)
        elif k == 1:
            x[i:j] = bytes(rng.randrange(256) for _ in range(j - i))
        elif k == 2:
            del x[i:j]
        elif k == 3:
            x[i:i] = b[i:j]
        else:
            p = rng.randrange(n)
            q = min(n, p + (j - i))
            x[i:i + q - p] = b[p:q]
        out.append(("block damage %d at %d+%d" % (k, i, j - i), bytes(x)))
    h = list(struct.unpack_from("<IIQIQ", b, 0))
    for f, name in ((1, "version"), (2, "size"), (3, "checksum"),
                    (4, "root")):
        for v in (0, 1, 2, h[f] - 1, h[f] + 1, h[f] * 2, h[f] // 2,
                  (1 << 32) - 1, (1 << 63), (1 << 64) - 1, (1 << 64) - 28,
                  (1 << 62) + h[f], rng.getrandbits(20)):
            g = list(h)
            g[f] = v % (1 << (64 if f in (2, 4) else 32))
            if g != h:
                out.append(("header %s %d" % (name, g[f]),
                            struct.pack("<IIQIQ", *g) + b[28:]))
    for off in range(28, n - 8, 4):
        out.append(("root moved to %d" % off,
                    b[:20] + struct.pack("<Q", off // 4) + b[28:]))
    return [(m, x) for m, x in out if x != b]


def refused(r, what, rep):
    proc.check_clean(r, what, rep)
    if r.rc == 0:
        raise core.Violation("%s: accepted\n%s" % (
            what, (r.out + r.err)[-1500:].decode("utf-8", "replace")), "",
            rep)


def make(rng, scratch, name, nexpr, maxdepth):
    g = Gen(rng, maxdepth=maxdepth)
    f = g.file("a.harvest", nexpr)
    hd = os.path.join(scratch, "h" + name)
    os.makedirs(hd)
    search.write_files(hd, [f], Style(rng, "m"))
    out = os.path.join(scratch, "idx" + name)
    search.build_index(BINS, scratch, out, [hd], (), "I04")
    return g, f, hd, out


def bytes_job(st, item, scratch):
    """Every truncation, every byte altered, and larger damage, through the
    analytics program."""
    seed, part, parts = item
    rng = random.Random("i04-%s" % seed)
    g, f, hd, out = make(rng, scratch, "a", 5, 3)
    _, _, _, out2 = make(rng, scratch, "b", 6, 3)
    ms, _ = memsector.find_files(out)
    msn = os.path.basename(ms)
    b = open(ms, "rb").read()
    other = open(memsector.find_files(out2)[0], "rb").read()
    ok = proc.run([BINS["analyze_example"], "-I", out], scratch)
    proc.check_clean(ok, "I04 undamaged")
    if ok.rc != 0:
        raise core.Violation("I04: the undamaged index is refused\n" +
                             ok.describe())
    cases = []
    for n in range(len(b)):
        cases.append(("truncated to %d of %d" % (n, len(b)), b[:n]))
    for i in range(len(b)):
        for v in {b[i] ^ (1 << rng.randrange(8)), b[i] ^ 0xff,
                  rng.randrange(256), 0}:
            if v != b[i]:
                cases.append(("byte %d changed from %d to %d" %
                              (i, b[i], v), b[:i] + bytes([v]) + b[i + 1:]))
    cases += damages(rng, b, other)
    d = os.path.join(scratch, "damaged")
    clone(out, d)
    p = os.path.join(d, msn)
    for name, x in cases[part::parts]:
        with open(p, "wb") as fh:
            fh.write(x)
        r = proc.run([BINS["analyze_example"], "-I", d], scratch, timeout=60)
        what = "I04 analytics, index file %s" % name
        refused(r, what, {msn: x, "undamaged": b})
        st.case(("analytics", name), True, {"damage": name, "exit": r.rc})
        st.count("refused by analytics")


def daemon_job(st, item, scratch):
    seed, n = item
    rng = random.Random("i04d-%s" % seed)
    g, f, hd, out = make(rng, scratch, "a", rng.choice([3, 40]), 4)
    _, _, _, out2 = make(rng, scratch, "b", 30, 4)
    ms, dic = memsector.find_files(out)
    msn, dicn = os.path.basename(ms), os.path.basename(dic)
    b = open(ms, "rb").read()
    other = open(memsector.find_files(out2)[0], "rb").read()
    roots = [e.roots[0] for e in f.items if isinstance(e, Expr)]
    qs = [QVar("x")] + [g.query(roots) for _ in range(6)]
    ref = Index()
    ref.add_file(f)
    exp = [sorted(ref.search(q)) for q in qs]

    def answers(d, what, rep):
        ask = search.Asker(d, what, rep)
        for q, e in zip(qs, exp):
            a = ask.xml(q)
            search.compare(sorted(k[:2] + (k[2].strip(),) for k in e),
                           a.answers, a.total, what, ask.ctx(a.query))
        ask.close()

    def attempt(dirn, what, rep, extra=(), may_serve=False):
        d = search.start(BINS, scratch, ["-D", dirn] + list(extra), what,
                         rep, expect_up=False)
        try:
            if d.up:
                if not may_serve:
                    raise core.Violation("%s: served\n%s" % (
                        what, d.describe()), "", rep)
                answers(d, what, rep)
                d.check_healthy(what, rep)
                d.finish(what, rep)
                st.count("rebuilt and served")
            else:
                if d.report() or d.p.returncode is None or \
                        d.p.returncode < 0 or \
                        d.p.returncode in proc.SAN_EXIT:
                    raise core.Violation("%s: crashed\n%s" %
                                         (what, d.describe()), "", rep)
                if d.p.returncode == 0:
                    raise core.Violation("%s: exits with status 0\n%s" %
                                         (what, d.describe()), "", rep)
                st.count("refused by the daemon")
        finally:
            d.kill()
        return d.up

    attempt(out, "I04 undamaged", {}, (), True)
    damaged = damages(rng, b, other)
    rng.shuffle(damaged)
    cases = [("missing", None), ("a directory", "dir"), ("empty", b"")]
    for _ in range(n // 3):
        k = rng.randrange(len(b))
        cases.append(("truncated to %d" % k, b[:k]))
        i = rng.randrange(len(b))
        cases.append(("byte %d changed" % i, b[:i] + bytes([b[i] ^ (
            1 << rng.randrange(8))]) + b[i + 1:]))
    cases += damaged[:n // 3]
    for j, (name, x) in enumerate(cases):
        dd = os.path.join(scratch, "d%d" % j)
        clone(out, dd)
        p = os.path.join(dd, msn)
        os.unlink(p)
        if x == "dir":
            os.mkdir(p)
        elif x is not None:
            with open(p, "wb") as fh:
                fh.write(x)
        rep = {msn: x} if isinstance(x, bytes) else {}
        exp_engine = rng.random() < .2
        attempt(dd, "I04 daemon, index file " + name, rep,
                ["-x"] if exp_engine else [])
        st.case(("daemon", name, len(b)), True, {"damage": name})
        if j % 3 == 0:
            r = proc.run([BINS["harvests2json"], "-I", dd, "-H", hd], scratch,
                         timeout=60)
            refused(r, "I04 export, index file " + name, rep)
            left = [x for x in os.listdir(hd) if x.endswith(".json")]
            if left:
                raise core.Violation("I04 export, index file %s: wrote %r" %
                                     (name, left), "", rep)
            st.case(("export", name), True)
        if j % 3 == 1:
            attempt(dd, "I04 rebuild, index file " + name, rep,
                    ["-I", hd], True)
            st.case(("rebuild", name), True)
        if j % 3 == 2:
            w = "I04 forced rebuild, index file " + name
            if not attempt(dd, w, rep, ["-I", hd, "-f"], True) and x != "dir":
                raise core.Violation(w + ": failed", "", rep)
            st.case(("forced rebuild", name), True)
        shutil.rmtree(dd)
    # missing parts
    parts = [x for x in sorted(os.listdir(out)) if x != msn]
    for x in parts:
        p0 = os.path.join(out, x)
        kinds = ["missing"]
        if os.path.isdir(p0):
            kinds += ["without CURRENT", "empty", "a file"]
        else:
            kinds += ["a directory"]
        for k in kinds:
            dd = os.path.join(scratch, "m")
            clone(out, dd)
            p = os.path.join(dd, x)
            if os.path.isdir(p):
                if k == "without CURRENT":
                    os.unlink(os.path.join(p, "CURRENT"))
                else:
                    shutil.rmtree(p)
                    if k == "empty":
                        os.mkdir(p)
                    elif k == "a file":
                        open(p, "w").write("x")
            else:
                os.unlink(p)
                if k == "a directory":
                    os.mkdir(p)
            what = "I04 daemon, %s %s" % (x, k)
            attempt(dd, what, {})
            st.case(("daemon", what), True, {"damage": "%s %s" % (x, k)})
            if x == dicn:
                r = proc.run([BINS["analyze_example"], "-I", dd], scratch)
                refused(r, "I04 analytics, %s %s" % (x, k), {})
                # (the export reads the search index and the dictionary only)
                r = proc.run([BINS["harvests2json"], "-I", dd, "-H", hd],
                             scratch, timeout=60)
                refused(r, "I04 export, %s %s" % (x, k), {})
            attempt(dd, "I04 rebuild, %s %s" % (x, k), {}, ["-I", hd], True)
            st.case(("rebuild", what), True)
            shutil.rmtree(dd)
    # nothing there at all
    for k in ("missing", "empty", "a file"):
        dd = os.path.join(scratch, "n-" + k.replace(" ", ""))
        if k == "empty":
            os.mkdir(dd)
        elif k == "a file":
            open(dd, "w").close()
        attempt(dd, "I04 daemon, index directory " + k, {})
        for prog in ("analyze_example", "harvests2json"):
            r = proc.run([BINS[prog], "-I", dd] +
                         (["-H", hd] if prog[0] == "h" else []), scratch,
                         timeout=60)
            refused(r, "I04 %s, index directory %s" % (prog, k), {})
        st.case(("directory", k), True)


def large_job(st, item, scratch):
    """Damage anywhere in indexes of many pages."""
    seed, n = item
    rng = random.Random("i04l-%s-%s" % (seed, n))
    hd = os.path.join(scratch, "h")
    os.makedirs(hd)
    with open(os.path.join(hd, "a.harvest"), "w") as fh:
        fh.write('<mws:harvest xmlns:mws="http://search.mathweb.org/ns" '
                 'xmlns:m="http://www.w3.org/1998/Math/MathML">\n')
        for i in range(n):
            fh.write('<mws:expr url="u%d"><m:apply><m:ci>f%d</m:ci><m:ci>x%d'
                     '</m:ci></m:apply></mws:expr>\n' % (i, i, i % 7))
        fh.write('</mws:harvest>\n')
    out = os.path.join(scratch, "idx")
    search.build_index(BINS, scratch, out, [hd], (), "I04 large")
    ms, _ = memsector.find_files(out)
    size = os.path.getsize(ms)
    ok = proc.run([BINS["analyze_example"], "-I", out], scratch)
    proc.check_clean(ok, "I04 undamaged, %d bytes" % size)
    if ok.rc != 0:
        raise core.Violation("I04: the undamaged index of %d bytes is "
                             "refused\n%s" % (size, ok.describe()))
    st.maximum("index file bytes", size)
    at = {28, size - 1, size - 8, size // 2, size // 3}
    k = 64
    while k < size:
        at |= {k + rng.randrange(k) for _ in range(2)} | \
            {k + d for d in (-1, 0, 1, 28, 29)}
        k *= 2
    at |= {rng.randrange(28, size) for _ in range(core.pick(20, 200))}
    for i in sorted(a for a in at if 28 <= a < size):
        with open(ms, "r+b") as fh:
            fh.seek(i)
            old = fh.read(1)
            fh.seek(i)
            fh.write(bytes([old[0] ^ (1 << rng.randrange(8))]))
        r = proc.run([BINS["analyze_example"], "-I", out], scratch)
        refused(r, "I04 analytics, byte %d of %d changed" % (i, size), {})
        st.case(("large", size, i), True)
        with open(ms, "r+b") as fh:
            fh.seek(i)
            fh.write(old)
    b = open(ms, "rb").read()
    cuts = sorted((a for a in at if 28 <= a < size), reverse=True)
    for i in cuts[::4] + [size - size % 4096, size - 4096]:
        x = b[:i] if rng.random() < .5 else b[:i] + bytes(size - i)
        if x == b:
            continue
        with open(ms, "wb") as fh:
            fh.write(x)
        r = proc.run([BINS["analyze_example"], "-I", out], scratch)
        refused(r, "I04 analytics, %d bytes %s after %d" %
                (size, "zeroed" if len(x) == size else "cut off", i), {})
        st.case(("large cut", size, i), True)


def job(st, item, scratch):
    {"bytes": bytes_job, "daemon": daemon_job,
     "large": large_job}[item[0]](st, item[1:], scratch)


def body(ck):
    global BINS
    BINS = build.build("asan", ["mwsd", "mws-index", "analyze_example",
                                "harvests2json"])
    n = core.pick(1, 12)
    items = [("daemon", "%d-%d" % (ck.seed, i), core.pick(30, 90))
             for i in range(core.pick(6, 40))]
    items[:0] = [("large", "%d" % ck.seed, k) for k in core.pick(
        (300, 4000, 12000, 45000), (300, 4000, 12000, 45000, 90000, 400000))]
    for s in range(n):
        items += [("bytes", "%d-%d" % (ck.seed, s), i, 8) for i in range(8)]
    ck.parallel(job, items)


if __name__ == "__main__":
    core.main("I04", body, rule=RULE, assumptions=[
        "damage means the file's bytes changed: index files forged with a "
        "matching checksum are not covered, nor are bytes altered inside "
        "the dictionary or the databases"])
